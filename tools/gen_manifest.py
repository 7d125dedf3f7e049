#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the workloads."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from workloads import WORK, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
hooks = ["72eb187"]
m = {
    "version": 1,
    "setup_cmd": "cd harness && cargo build --offline -q && ./target/debug/mon selftest",
    "hooks": {
        "guard": "symbolic_verif",
        "enable": "harness/sut/build.rs passes --cfg symbolic_verif and builds /repo/src/main.rs as a library",
        "source_commits": [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True, check=True).stdout.strip() for h in hooks],
    },
    "checks": [],
    "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in WORK:
        w = WORK[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": w["technique"],
            "level": "exploration",
            "level_note": w["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
