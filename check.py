#!/usr/bin/env python3
"""Decide one property:  check.py PROP [--tier quick|thorough]

1. every contract of the property is turned into proof obligations over the source of /repo as it is
   now and discharged (vpy.sym, one process per contract case);
2. the same contracts are asserted on the real package while it runs (vpy.rac): counter-models of
   failed obligations are replayed there, and functions outside the verifier's reach are checked
   there on a bounded set of inputs (bounded stand-in, never counted as proved).
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
PYV = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
PYR = "/opt/venv/bin/python"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


STOP = threading.Event()  # a failing input has been found: proofs still running decide nothing more


def run(cmd, timeout, env=None, stoppable=False):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                         start_new_session=True)
    import signal
    try:
        end = time.time() + timeout
        while True:
            try:
                out, _ = p.communicate(timeout=max(0.1, min(1.0, end - time.time())))
                return p.returncode, out
            except subprocess.TimeoutExpired:
                if time.time() >= end or (stoppable and STOP.is_set()):
                    raise
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    t0 = time.time()
    thorough = a.tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    wall = 3000 if thorough else 620
    per_case = 1200 if thorough else 300
    from vpy.spec import load_all, CASES, SUMMARIES
    from vpy.known import entries
    load_all()
    cases = [c for c in CASES.values() if a.prop in c.prop and (not a.only or re.search(a.only, c.id))]
    if not cases:
        print(f"no contract for {a.prop}")
        return 2
    tmp = tempfile.mkdtemp(prefix="vpy_")
    env_sym = {"PYTHONPATH": ROOT, "OMP_NUM_THREADS": "1"}
    env_rac = {"PYTHONPATH": ROOT, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore",
               "VERIF_SEED": str(seed)}
    proofs, racs, logs = {}, [], []
    lock = threading.Lock()
    left = lambda: wall - (time.time() - t0)

    def prove(cid, no=()):
        out = os.path.join(tmp, f"p_{cid}_{len(no)}.json")
        if left() < 5:
            return {"case": cid, "obls": [], "paths": 0, "reachable": 0, "unsupported": [{"why": "no time left", "picks": {}}],
                    "errors": [], "used_contracts": [], "functions": [], "trusted": [], "stats": {}, "seconds": 0}
        lim = min(per_case, left())
        cmd = [PYV, "-W", "ignore", "-m", "vpy.sym", cid, "--out", out, "--limit", "60", "--total", str(lim * 0.85)]
        if no:
            cmd += ["--no", ",".join(no)]
        if thorough:
            cmd += ["--cvc5"]
        if STOP.is_set():
            lim = 0.2
        rc, txt = run(cmd, lim, env_sym, stoppable=True)
        if os.path.exists(out):
            try:
                return json.load(open(out))
            except ValueError:      # stopped while writing
                pass
        return {"case": cid, "obls": [], "paths": 0, "reachable": 0,
                "unsupported": [{"why": "time limit" if rc == -9 else "verifier ended: " + txt[-300:], "picks": {}}],
                "errors": [], "used_contracts": [], "functions": [], "trusted": [], "stats": {}, "seconds": lim}

    def rac(cids, models=None, mult=1.0, tag=""):
        out = os.path.join(tmp, f"r_{cids[0]}_{tag}.json")
        cmd = [PYR, "-W", "ignore", "-m", "vpy.rac", *cids, "--out", out, "--seed", str(seed)]
        if models:
            mf = out + ".models"
            json.dump(models, open(mf, "w"))
            cmd += ["--models", mf]
        if thorough or mult != 1:
            tr = max(CASES[c].trials for c in cids)
            se = max(CASES[c].seconds for c in cids)
            m = mult * (10 if thorough else 1)
            cmd += ["--trials", str(int(tr * m)), "--seconds", str(se * m)]
        budget = sum(CASES[c].seconds for c in cids) * mult * (10 if thorough else 1) + 150
        rc, txt = run(cmd, max(30, min(budget, left() + 60)), env_rac)
        r = None
        if os.path.exists(out):
            try:
                r = json.load(open(out))
            except ValueError:
                pass
        if r is not None:
            if any(x["violations"] for x in r):
                STOP.set()
            return r
        return [{"case": c, "trials": 0, "checks": 0, "discarded": 0, "violations": [],
                 "errors": [f"run-time checker ended {rc}: {txt[-1500:]}"], "gone": [], "known": [], "picks": {}} for c in cids]

    with ThreadPoolExecutor(a.jobs) as ex:
        # run-time checks: balanced groups
        groups = [[] for _ in range(4)]
        load = [0.0] * 4
        for c in sorted(cases, key=lambda c: -c.seconds * 1.0):
            i = load.index(min(load))
            groups[i].append(c.id)
            load[i] += c.trials
        rf = [ex.submit(rac, g) for g in groups if g]
        pf = {c.id: ex.submit(prove, c.id) for c in cases if c.prove}
        for k, f in pf.items():
            proofs[k] = f.result()
        # helpers used through their contracts: their bodies must satisfy them
        need = set()
        for r in proofs.values():
            for q in r["used_contracts"]:
                if q in SUMMARIES:      # else: replaced by an arbitrary function, nothing assumed
                    need.add(SUMMARIES[q][1])
        hf = {k: ex.submit(prove, k) for k in need if k not in proofs}
        for k, f in hf.items():
            proofs[k] = f.result()
        broken = {q for q, (_, by) in SUMMARIES.items() if by in proofs and not clean(proofs[by])}
        redo = [k for k, r in proofs.items() if set(r["used_contracts"]) & broken]
        rf2 = {k: ex.submit(prove, k, tuple(sorted(broken))) for k in redo}
        inlined = {}
        for k, f in rf2.items():
            proofs[k] = f.result()
            inlined[k] = sorted(broken)
        racs = [x for f in rf for x in f.result()]
        # replay counter-models, and search harder where a proof did not go through
        weak = [k for k, r in proofs.items() if not clean(r) and k in {c.id for c in cases}]
        models = {}
        for k in weak:
            ms = []
            for o in proofs[k]["obls"]:
                if not o["ok"]:
                    ms.append([o["picks"], o.get("model") or {}])
            for u in proofs[k]["unsupported"]:
                if u.get("picks"):
                    ms.append([u["picks"], {}])
            models[k] = ms[:24]
        if weak and not any(r["violations"] for r in racs):
            f2 = [ex.submit(rac, [k], {k: models[k]}, 2.0, "m") for k in weak if left() > 40]
            racs += [x for f in f2 for x in f.result()]
    shutil.rmtree(tmp, ignore_errors=True)

    # ---------------------------------------------------------------- verdict
    mine = {c.id for c in cases}
    obls = [dict(o, case=k) for k, r in proofs.items() for o in r["obls"]]
    done = [o for o in obls if o["ok"]]
    failed = [o for o in obls if not o["ok"]]
    viol = [v for r in racs for v in r["violations"]]
    errors = [(r["case"], e) for r in racs for e in r["errors"]]
    errors += [(k, e) for k, r in proofs.items() for e in r["errors"]]
    known = sorted({k for r in racs for k in r["known"]})
    for k in known:
        if f"property={a.prop} " in k + " ":
            print("KNOWN-FINDING: " + k)
    proved = [k for k, r in proofs.items() if clean(r)]
    bounded = [c.id for c in cases if c.id not in proved]
    nviol = 0
    rdir = os.path.join(ROOT, "replay")
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    lines = []
    if viol:
        v = viol[0]
        fo = [o for o in failed if o["case"] == v["case"]][:3]
        v["property"] = a.prop
        v["failed_obligations"] = fo
        v["how_to_replay"] = f"cd /verif && PYTHONPATH=/verif {PYR} -m vpy.rac --replay <this file>"
        p = os.path.join(rdir, f"{a.prop}_{v['case']}.json")
        json.dump(v, open(p, "w"), indent=1, default=str)
        print(f"obligation [{v['case']}] {v['label']}: {v['message'][:400]}")
        lines.append(f"VIOLATION property={a.prop} replay={p}")
        nviol = len(viol)
        rc = 1
    else:
        hard = []
        rep = {}
        for r in racs:
            rep[r["case"]] = rep.get(r["case"], 0) + r.get("replayed_models", 0)
        for o in failed:
            if o["case"] in mine and o["status"] == "refuted" and o.get("model") is None:
                hard.append(o)
        if hard:
            o = hard[0]
            p = os.path.join(rdir, f"{a.prop}_{o['case']}.json")
            json.dump({"property": a.prop, "failed_obligation": o, "all_failed": hard[:20]}, open(p, "w"), indent=1, default=str)
            print(f"obligation [{o['case']}] {o['label']} refuted: {o.get('residual', '')[:300]}")
            lines.append(f"VIOLATION property={a.prop} replay={p} no-failing-input-found")
            nviol = len(hard)
            rc = 1
    trials = sum(r["trials"] for r in racs)
    checks = sum(r["checks"] for r in racs)
    if rc == 0:
        if errors and not trials:
            for k, e in errors[:3]:
                print(f"checker error in {k}: {e[-800:]}")
            rc = 2
        elif not done and not checks:
            print("nothing was checked")
            rc = 2
        elif errors:
            for k, e in errors[:3]:
                print(f"note: checker error in {k}: {e[-600:]}")
            # a case that could not be evaluated at all is no answer
            okc = {r["case"] for r in racs if r["trials"]} | set(proved)
            if any(k not in okc for k, _ in errors):
                rc = 2
    by = {}
    for o in done:
        by[o["how"]] = by.get(o["how"], 0) + 1
    st = {}
    for r in proofs.values():
        for k, v in r.get("stats", {}).items():
            if isinstance(v, (int, float)):
                st[k] = round(st.get(k, 0) + v, 3)
    from vpy.trust import TRUSTED
    manifest_level = "proof"
    try:
        for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]:
            if c["property"] == a.prop:
                manifest_level = c["level"]
    except Exception:
        pass
    cov = {
        "obligations": len(obls), "discharged": len(done),
        "checker_cmd": f"python3-vt -m vpy.sym <case>   (run by check.py {a.prop})",
        "trusted_base": TRUSTED + sorted({t for r in proofs.values() for t in r.get("trusted", [])}),
        "cases_proved": sorted(proved),
        "functions_under_contract": sorted({f for c in cases for f in c.funcs}),
        "functions_executed_symbolically": sorted({f for r in proofs.values() for f in r.get("functions", [])}),
        "helper_contracts_used": sorted({q for r in proofs.values() for q in r.get("used_contracts", [])}),
        "helpers_inlined": inlined,
        "discharged_by": by, "solver": st,
        "paths": sum(r["paths"] for r in proofs.values()), "reachable_paths": sum(r["reachable"] for r in proofs.values()),
        "bounded_cases": {k: reason(k, proofs, CASES) for k in bounded},
        "evaluations": trials, "distinct_nontrivial": checks,
        "rule": "run-time evaluations of the contracts on the real package; inputs drawn per contract precondition, thresholds and "
                "source literals with jitter, NaNs, sizes 1-4 (sometimes to 10); counted non-trivial: contract clauses evaluated",
        "samples": [{"case": r["case"], "trials": r["trials"], "picks": dict(list(r["picks"].items())[:8])} for r in racs][:12],
        "failed_obligations": [{k: o.get(k) for k in ("case", "label", "how", "status", "picks")} for o in failed][:30],
        "cvc5_disagreements": sum(len(r.get("cvc5_disagree", [])) for r in proofs.values()),
        "known_findings": known,
        "explanation": "obligations discharged over the instrumented source of /repo; bounded cases decided by run-time "
                       "checking of the same contracts on the real package within the stated bounds",
    }
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": manifest_level, "coverage": cov,
          "assumptions": TRUSTED, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w"), indent=1, default=str)
    print(f"{a.prop}: {len(done)}/{len(obls)} obligations discharged in {len(proved)}/{len(proofs)} proof cases, "
          f"{len(bounded)} bounded, {trials} run-time evaluations, {checks} clauses, {ev['wall_s']} s")
    for k in bounded:
        print(f"  bounded: {k}: {reason(k, proofs, CASES)[:300]}")
    for l in lines:
        print(l)
    return rc


def clean(r):
    return bool(r["obls"]) and all(o["ok"] for o in r["obls"]) and not r["unsupported"] and not r["errors"] and r["reachable"] > 0


def reason(k, proofs, CASES):
    c = CASES[k]
    if not c.prove:
        return c.why or "outside the verifier's reach"
    r = proofs.get(k)
    if r is None:
        return "not run"
    if r["errors"]:
        return "verifier error: " + r["errors"][0][-200:]
    if r["unsupported"]:
        return f"{r['unsupported'][0]['why']} {r['unsupported'][0].get('at', '')} ({len(r['unsupported'])} of the paths)"
    if not r["obls"]:
        return "no obligations"
    bad = [o for o in r["obls"] if not o["ok"]]
    if bad:
        return f"{len(bad)} obligations not discharged, first: {bad[0]['label']} ({bad[0]['status']}; {bad[0]['how']}; {bad[0]['picks']})"
    return "no reachable path"


if __name__ == "__main__":
    sys.exit(main())
