#!/usr/bin/env python3
"""blame.py: for each seeded patch, how many of the lines it removes are the original repository's."""
import glob, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "4643add"
for p in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "patch.diff"))):
    orig = own = 0
    f = None
    for line in open(p, encoding="utf-8"):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith(" "):
            n += 1
        elif line.startswith("-") and not line.startswith("---"):
            if b[n - 1].lstrip("^").startswith(BASE[:7]) or b[n - 1].startswith("^"):
                orig += 1
            else:
                own += 1
            n += 1
    print(("  " if orig else "! ") + os.path.basename(os.path.dirname(p)), orig, own)
