#!/usr/bin/env python3
"""Regenerate the 'fixed:' lines of KNOWN_FINDINGS.txt from the fix: commits of /repo (property map: tools/fixmap.json)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(V, "tools", "fixmap.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "d8219a1..HEAD"], capture_output=True, text=True).stdout.splitlines()
f = os.path.join(V, "KNOWN_FINDINGS.txt")
keep = [l for l in open(f).read().splitlines() if not l.startswith("fixed:")] if os.path.exists(f) else []
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        print("not a fix:", l); continue
    p = m.get(h)
    if not p:
        print("unmapped", l); continue
    out.append("fixed: property=%s %s %s" % (p, h, s[5:]))
open(f, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixed lines")
