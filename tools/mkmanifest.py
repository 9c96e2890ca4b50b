#!/usr/bin/env python3
# Regenerates MANIFEST.json: one claim per property of properties.jsonl that the checks cover.
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(root, "tools/techniques.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
done = [p for p in props if p["id"] in TECH and "todo" not in TECH[p["id"]]]
checks = []
for p in done:
    t = TECH[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick ./run.sh " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
                   "technique": t["technique"], "level": t.get("level", "model_checking"), "level_note": t["note"]})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "cfg(sia_verif)", "enable": "RUSTFLAGS='--cfg sia_verif' (set by run.sh)", "source_commits": hooks},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": TECH.get(p["id"], {}).get("todo", "no check built yet")} for p in props if p not in done],
     "notes": "Every check enumerates a bounded space exhaustively against the real code built from /repo's working tree; see DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
