#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development aid; not run by any check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
S = "src/libzt/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], na=na, note=note))


exec(open(os.path.join(V, "tools", "props.py")).read())

TECH = "bounded model checking of the real C sources (CBMC: symbolic execution + SAT), counterexamples replayed natively"
claimed = set()
try:
    import vt, registry  # noqa
    claimed = {h["prop"] for h in vt.REG}
except Exception as e:
    print("registry:", e)

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(dict(
            id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
            anchors=dict(files=[S + y for y in x["files"]],
                         mechanism=[dict(name=n, where=S + w) for n, w in x["mech"]],
                         observe_at=x["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for x in P:
    if x["na"] or x["id"] not in claimed:
        na.append(dict(property=x["id"], reason=x["na"] or "no check built yet"))
        continue
    checks.append(dict(property=x["id"], quick_cmd="./check %s --tier quick" % x["id"],
                       thorough_cmd="./check %s --tier thorough" % x["id"],
                       evidence_file="evidence/%s.json" % x["id"], technique=TECH, level="model_checking",
                       level_note=x["note"] or "Decided for every input within the sizes and unwindings listed in the evidence file; "
                       "trusts CBMC and its C library models, malloc assumed to succeed; larger sizes are outside the claim."))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="no hooks are needed in /repo; see DESIGN.md"),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
missing = claimed - {x["id"] for x in P}
print(len(P), "properties,", len(checks), "claimed,", "unlisted:", missing)
