#!/usr/bin/env python3
"""The list of properties: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
EXP = ("Generated-input search with a fixed number of cases per seed; a failure is confirmed three times in a fresh process and shrunk. "
       "No guarantee beyond the cases explored; trusts the reference model in src/ref.hpp and src/bridge.hpp. ")

def P(id, title, statement, over, text, why, files, mechanism, note, technique, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append((dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=text), why_tests_cant=" ".join(why.split()),
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}), observe_at=list(observe), hook_needed=None)),
                  EXP + note, technique))

exec(open(os.path.join(V, "tools", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in PROPS: f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                      technique=t, level="exploration", level_note=n) for p, n, t in PROPS],
         not_applicable=[dict(property=i, reason=r) for i, r in NA],
         notes="One entry point, check.py: builds the property's harness from /repo's working tree (content-keyed cache under build/), searches, writes evidence. No hooks in /repo.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(PROPS), "properties")
