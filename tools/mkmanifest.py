#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in tools/props.py (development aid; the two files are committed)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p.get("at", ["apex_markdown_to_html"]), hook_needed=None))) + "\n")
checks = []
na = {x["property"] for x in NOT_APPLICABLE}
for p in PROPS:
    if p["id"] in na: continue
    checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % p["id"],
                       technique=p["tech"], level="exploration", level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 lib/build.py worker apex apexa fuzz", checks=checks, not_applicable=NOT_APPLICABLE,
               notes="Checks build apex from /repo's working tree with their own build files (lib/build.py); no hooks in /repo are needed."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
