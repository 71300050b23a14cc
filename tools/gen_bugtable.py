#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (everything after the marker line)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- table written by tools/gen_bugtable.py -->\n"
rows = []
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, d)))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
rows.sort()
t = MARK + "\n| change | needs | what it breaks | caught by |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s quick |\n" % (d, n.replace("|", "\\|"), w.replace("|", "\\|"), p) for p, d, n, w in rows)
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = s[:s.index(MARK)] + t
open(p, "w").write(s)
print(len(rows), "planted bugs")
