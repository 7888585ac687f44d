#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: claimed ids as arguments."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
claimed = set()
for a in sys.argv[1:]:
    if "-" in a:
        x, y = a.split("-"); claimed |= {f"C{i:02d}" for i in range(int(x[1:]), int(y[1:]) + 1)}
    else:
        claimed.add(a)
TECH = json.load(open(f"{V}/tools/techniques.json"))
m = {"version": 1, "setup_cmd": "bin/check --build", "checks": [], "not_applicable": [],
     "notes": "Every check is `bin/check <id>`: it copies /repo's crates to work/ws (content-compared), rebuilds the harness binary against them and runs it. No hooks are used: everything is reached through the public API. Replays: bin/check <id> --replay <file>."}
for p in props:
    i = p["id"]
    if i in claimed:
        t = TECH[i]
        m["checks"].append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --tier thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction in this revision"})
if not m["not_applicable"]:
    m["not_applicable"] = []
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
