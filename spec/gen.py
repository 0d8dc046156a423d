#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from spec/props.py (development helper; no check uses it)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import P
top = os.path.dirname(HERE)
with open(os.path.join(top, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"] + " thorough",
           "technique": "static analysis: " + p["tech"], "level": "other", "level_note": p["note"]} for p in P if p["tech"]]
na = [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(top, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(top, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not applicable")
