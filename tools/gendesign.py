#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
and tools/caught.txt (lines: id, checks that caught it, remark)"""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(here + "/tools/caught.txt"):
    p = l.rstrip("\n").split("|")
    if len(p) >= 2: caught[p[0].strip()] = (p[1].strip(), p[2].strip() if len(p) > 2 else "")
d = open(here + "/DESIGN.md").read()
mark = "| id | caught by | what it breaks |"
head = d.split(mark)[0]
rows = []
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    c, rem = caught.get(i, (j["property"], ""))
    t = j["what_it_breaks"].replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s%s |" % (i, c, t, " *(%s)*" % rem if rem else ""))
open(here + "/DESIGN.md", "w").write(head + mark + "\n|----|----|----|\n" + "\n".join(rows) + "\n")
