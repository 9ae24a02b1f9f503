#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
V = os.path.dirname(HERE)
checks = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
        script = os.path.join(V, "checks", p["id"].lower() + ".py")
        assert os.path.exists(script), script
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"].lower(),
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["id"].lower(),
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["tech"], "level": p.get("level", "exploration"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "notes": "Every check builds /repo's working tree itself (cached by content under build/), with /repo's own makefiles and the sanitizers chosen per check. No hooks were added to /repo; its commits are fixes only."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
