#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [{
        "property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": PROPS[i]["technique"], "level": PROPS[i]["level"], "level_note": PROPS[i]["note"],
    } for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS],
    "notes": "No hooks in /repo: the checks use the exported API, the daemon's sockets and a build overlay of the standard library. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
