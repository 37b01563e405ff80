#!/usr/bin/env python3
import json, os
from props import P, here
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="./run.sh build", checks=[], not_applicable=[],
    notes="All checks are static analyses of /repo's current source by the Go program in checker/ (see DESIGN.md). No hooks are needed in /repo.")
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
            technique=p["technique"], level="other", level_note=p["note"]))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
exec(open(os.path.join(here, "design.py")).read())
