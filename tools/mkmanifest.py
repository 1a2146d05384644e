import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vpy.spec import load_all, CASES
load_all()
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = json.load(open(os.path.join(ROOT, "tools", "na.json")))
LV = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or not any(i in c.prop for c in CASES.values()):
        na.append({"property": i, "reason": NA.get(i, "no contract yet")})
        continue
    mine = [c for c in CASES.values() if i in c.prop]
    pr = sorted(c.id for c in mine if c.prove)
    bd = sorted(c.id for c in mine if not c.prove)
    lv, note = LV.get(i, ["proof" if pr else "exploration", ""])
    note = (("proved for all inputs of the contracts' preconditions (reals for floats, library operations by assumed contracts, "
             "see trusted_base in the evidence): " + ", ".join(pr) + ". ") if pr else "") + (
        ("bounded stand-ins, never counted as proved (run-time checks on generated inputs): " + ", ".join(bd) + ". ") if bd else "") + note
    checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": "contract-based deductive verification: contracts on the real functions, obligations generated on "
                                "every run from /repo's source by symbolic execution and discharged by normal forms, interval "
                                "arithmetic and z3" + ("; bounded stand-ins for parts outside the verifier's reach" if bd else "")
                                if pr else "contracts on the real functions, asserted at run time within stated bounds (the code is "
                                "outside the verifier's reach)",
                   "level": lv, "level_note": note.strip()})
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import z3; import vpy.spec as s; s.load_all()\"",
           "checks": checks, "not_applicable": na,
           "notes": "no hooks in /repo; fix commits only. See DESIGN.md."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
