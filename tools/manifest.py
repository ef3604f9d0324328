#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the harness has sub-checks for."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    subprocess.run(["go", "build", "-o", d + "/h", "."], cwd=V + "/harness", check=True)
    have = {l.split()[0] for l in subprocess.run([d + "/h", "-list"], capture_output=True, text=True, check=True).stdout.splitlines()}
TECH = json.load(open(V + "/tools/technique.json"))
checks = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i not in have:
        print("no check for", i, file=sys.stderr)
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": TECH[i], "level": "exploration",
                   "level_note": "sampled search with an independent oracle; a pass is evidence for the explored cases, not proof"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "All checks are generated-input search (pgregory.net/rapid) driven by check.py; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
