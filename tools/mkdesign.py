"""fills the generated tables of DESIGN.md (between <!--x--> and <!--/x-->) from the registry and seeded/"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vpy.spec import load_all, CASES
load_all()
rows = ['| id | proved by obligations | bounded stand-in and why |', '|---|---|---|']
for l in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(l)["id"]
    mine = [c for c in CASES.values() if i in c.prop]
    rows.append(f"| {i} | {', '.join(c.id for c in mine if c.prove) or '—'} | "
                f"{'; '.join(c.id + ' (' + c.why + ')' for c in mine if not c.prove) or '—'} |")
seeds = ["| seed | property | needs | caught by |", "|---|---|---|---|"]
by = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
sd = os.path.join(ROOT, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    n = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
    seeds.append(f"| {s} | {m['property']} | {n.replace('|', '/')} | {by.get(s, '?')} |")
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
for k, v in (("cases", rows), ("seeds", seeds)):
    t = re.sub(rf"(<!--{k}-->\n).*?(<!--/{k}-->)", lambda m: m[1] + "\n".join(v) + "\n" + m[2], t, flags=re.S)
open(p, "w").write(t)
