"""DESIGN.md = design_text.md with, for every property, the bounds stated by its harness and the oracle:  python3 design.py"""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
O = {}
exec(open(os.path.join(HERE, "design_oracles.py")).read())
rows = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(HERE, "harness", p["id"] + ".py")
    rows.append(f"### {p['id']} {p['title']}\n")
    if not os.path.exists(f):
        rows.append(f"Not applicable: {O[p['id']]}\n")
        continue
    t = ast.parse(open(f).read())
    v = {n.targets[0].id: n.value for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "HARNESSES")}
    hs = [e.args[0].id for e in v["HARNESSES"].elts if isinstance(e, ast.Call)] if isinstance(v.get("HARNESSES"), ast.List) else []
    rows.append(f"*Harness* `harness/{p['id']}.py`" + (f" ({', '.join(hs)})" if hs else "") + f".  *Oracle:* {O[p['id']]}\n")
    rows.append(f"*Bounds:* {ast.literal_eval(v['BOUNDS'])}.  *Outside:* {ast.literal_eval(v['OUTSIDE'])}.\n")
t = open(os.path.join(HERE, "design_text.md")).read()
open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("@@PROPERTIES@@", "\n".join(rows)))
MISSED = dict(line.split(" ", 1) for line in open(os.path.join(HERE, "seeded_notes.txt")).read().splitlines() if line.strip())
s = ["| change | property | caught by | breaks | needs |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    s.append(f"| {d} | {m['property']} | {MISSED.get(d, m['property'])} | {m['what_it_breaks']} | {m['needs']} |")
fn = os.path.join(HERE, "DESIGN.md")
t = open(fn).read().replace("@@SEEDED@@", "\n".join(s))
open(fn, "w").write(t)
