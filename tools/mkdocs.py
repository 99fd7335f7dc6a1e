#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
from props import P
done = set(sys.argv[1:]) or set(open(os.path.join(here, "claimed.txt")).read().split())
with open(root + "/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        assert q["statement"].count(". ") <= 2, (q["id"], "more than three sentences")
        d = dict(id=q["id"], title=q["title"], statement=q["statement"],
                 quantifier=dict(over=q["over"], text=q["quant"]), why_tests_cant=q["why"],
                 anchors=dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]],
                              observe_at=q["observe"], hook_needed=q["hook"]))
        f.write(json.dumps(d) + "\n")
checks = [dict(property=q["id"], quick_cmd=f"python3 check.py {q['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {q['id']}",
               technique=q["technique"], level=q["level"], level_note=q["note"]) for q in P if q["id"] in done]
na = [dict(property=q["id"], reason="check still under construction") for q in P if q["id"] not in done]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks are committed in /repo: checks instrument a throw-away copy of the current sources (go build -overlay) with schedule perturbation and use the race detector. See DESIGN.md.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
json.dump({q["id"]: dict(cmd=q["cmd"], variants=q["variants"], level=q["level"]) for q in P}, open(root + "/checks.json", "w"), indent=1)
