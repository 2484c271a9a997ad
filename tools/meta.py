#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe or []))

EXH = "bounded exhaustive enumeration against the real code, compared case by case with a reference model"
exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None)),
            ensure_ascii=False) + "\n")
B = json.load(open(os.path.join(V, "tools", "bounds.json")))
def note(p):
    q = B.get(p["id"], {}).get("quick")
    if not q: return p["note"]
    return "Quick: " + "; ".join(q["space"]) + "." + NOTE_COMMON
M = dict(version=1, setup_cmd="./check.sh --build",
    hooks=dict(guard="none: the checks use only the public interface", enable="./check.sh builds /repo's working tree as it is, as a path dependency", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                 technique=p["technique"] or EXH, level="model_checking", level_note=note(p)) for p in P if not p["na"]],
    not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]])
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
