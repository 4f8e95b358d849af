#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the notes below."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
import props
TEC = "TLA+ specification checked with TLC; histories recorded from the compiled code under a controlled scheduler are validated against it"
NOTES = json.load(open(os.path.join(D, "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(D, "..", "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
           "evidence_file": "evidence/%s.json" % i, "technique": NOTES["technique"].get(i, TEC), "level": "model_checking",
           "level_note": NOTES["level_note"][i]} for i in ids if i in props.CHECKS]
na = [{"property": i, "reason": NOTES["not_applicable"].get(i, "no check yet")} for i in ids if i not in props.CHECKS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's unchanged sources against harness/vrt.hpp", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(D, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
