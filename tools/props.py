#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def P(id, title, statement, over, text, why, files, mech, observe, claim=None, na=None):
    PROPS.append(dict(rec=dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)),
        claim=claim, na=na))
exec(open(os.path.join(HERE, "tools", "props_data.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["rec"]["title"]) <= 80, p["rec"]["id"]
        f.write(json.dumps(p["rec"]) + "\n")
man = dict(version=1, setup_cmd="python3-vt -m compileall -q dv specs checks replay",
  checks=[dict(property=p["rec"]["id"],
               quick_cmd="python3-vt check.py %s --tier quick" % p["rec"]["id"],
               thorough_cmd="python3-vt check.py %s --tier thorough" % p["rec"]["id"],
               evidence_file="evidence/%s.json" % p["rec"]["id"],
               technique=p["claim"][0], level=p["claim"][2] if len(p["claim"]) > 2 else "proof", level_note=p["claim"][1]) for p in PROPS if p["claim"]],
  not_applicable=[dict(property=p["rec"]["id"], reason=p["na"]) for p in PROPS if not p["claim"]],
  notes="Decided by /verif/dv (clang AST -> symbolic execution against function contracts -> exact normal form / SMT); see DESIGN.md. A changed function whose obligation is no longer accepted is replayed on the real code.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
