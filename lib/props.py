#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 lib/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a),
                  technique=technique, note=note, level=level))
exec(open(os.path.join(V, "lib", "props_data.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p["rec"]) + "\n")
m = dict(version=1, setup_cmd="python3 lib/setup.py",
  checks=[dict(property=p["rec"]["id"], quick_cmd=f"python3 check.py {p['rec']['id']}", thorough_cmd=f"python3 check.py {p['rec']['id']} --thorough",
     evidence_file=f"evidence/{p['rec']['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P],
  not_applicable=NOT_APPLICABLE,
  notes="Every check builds the real sources of /repo's working tree (lib/build.py) and enumerates a bounded space of executions exhaustively against an independent reference (harness/ref.hpp). No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
