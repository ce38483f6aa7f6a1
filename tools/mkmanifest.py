#!/usr/bin/env python3
"""writes MANIFEST.json from the checks present in mc/checks and properties.jsonl"""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(root, "mc", "checks", i.lower() + ".py")
    if os.path.exists(f) and i in NOTES:
        lev = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "technique": NOTES[i][0], "level": lev, "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": NOTES.get("na:" + i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "Every check runs /opt/venv/bin/python on the harness in mc/ and imports the code under test from /repo (pure Python, nothing to build). No hooks in /repo are used."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
