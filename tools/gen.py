#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from tools/props.py (the single source)."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

NOTE = ("Bounded symbolic execution of the real functions from /repo's working tree; every assertion is decided by z3 for all "
        "values in the stated boxes at the stated small sizes and configurations. Trusted: the symbolic numpy/scipy/discretize "
        "layer (validated against an unpatched run on every execution), reals instead of floats (relative differences below "
        "1e-9 are rounding). ")
py = "/opt/venv/bin/python"
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
na = dict(NOT_APPLICABLE)
man = dict(
    version=1,
    setup_cmd=f"{py} tools/setup.py",
    checks=[dict(property=p["id"], quick_cmd=f"{py} check.py {p['id']} --tier quick",
                 thorough_cmd=f"{py} check.py {p['id']} --tier thorough",
                 evidence_file=f"evidence/{p['id']}.json",
                 technique="symbolic execution of the real Python code + SMT (z3; cvc5 cross-check in thorough), counterexamples replayed",
                 level="model_checking", level_note=NOTE + p.get("note", "")) for p in PROPS if p["id"] not in na],
    not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
)
json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(man["checks"]), "checks")
