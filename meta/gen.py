#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
TECH = "symbolic execution of the real Python source, claims decided by SMT (z3) over all inputs in the bounds"
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for k in sorted(PROPS):
        p = PROPS[k]
        assert len(p["title"]) <= 80, k
        d = dict(id=k, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = list(p["observe"])
        fh.write(json.dumps(d) + "\n")
NA = {x[0] for x in NOT_APPLICABLE}
m = dict(version=1, setup_cmd="true", checks=[
    dict(property=k, quick_cmd="python3-vt check.py %s --tier quick" % k,
         thorough_cmd="python3-vt check.py %s --tier thorough" % k,
         technique=TECH, level="model_checking",
         level_note=PROPS[k]["note"] + ". Real arithmetic (no rounding), bounds as in the property; unknown answers are reported as undecided, never as holding.")
    for k in sorted(PROPS) if k not in NA],
    not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE],
    notes="see DESIGN.md; known_findings.json lists findings and repairs")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
# ---- DESIGN.md
import importlib.util, glob
out = []
for k in sorted(PROPS):
    p = PROPS[k]
    out.append("### %s %s\n" % (k, p["title"]))
    out.append("Bounds: %s. Why tests cannot: %s. Assurance: %s.\n" % (p["quant"], p["why"], p["note"]))
    f = os.path.join(V, "props", k.lower() + ".py")
    import ast
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef) and any("harness" in ast.dump(d) for d in n.decorator_list):
            out.append("* `%s`: %s" % (n.name, " ".join((ast.get_docstring(n) or "").split())))
    out.append("")
for a, b in NOT_APPLICABLE:
    out.append("* %s not applicable: %s" % (a, b))
kf = json.load(open(os.path.join(V, "known_findings.json")))
fx = ["Repaired:", ""] + ["* " + x for x in kf["fixed"]]
sd = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(d))
    sd.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], j["needs"], j.get("caught_by", "not caught")))
t = open(os.path.join(H, "DESIGN.in.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", "\n".join(fx)).replace("@@SEEDED@@", "\n".join(sd))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
