"""single source of properties.jsonl and MANIFEST.json:  python3 meta.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
F = "salabim/salabim.py"
TECH = "symbolic execution of the real Python code (z3), counterexamples replayed"
P = []


def prop(id, title, statement, over, text, why, mech, observe=(), state=(), note="", claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=[F], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                               state=[dict(name=a, meaning=b, where=F) for a, b in state], hook_needed=None),
                  _note=note, _na=na))


exec(open(os.path.join(HERE, "meta_props.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks = []
na = []
for p in P:
    if p["_na"]:
        na.append(dict(property=p["id"], reason=p["_na"]))
    elif os.path.exists(os.path.join(HERE, "harness", p["id"] + ".py")):
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough", technique=TECH, level="model_checking", level_note=p["_note"]))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(checks), "claimed", len(na), "not applicable")
