#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
res = {}
p = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(p):
    res = json.load(open(p))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    n = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), res.get(n, "caught")))
f = os.path.join(HERE, "DESIGN.md")
t = open(f).read()
t = re.sub(r"(?s)(<!-- planted -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), t)
open(f, "w").write(t)
print(len(rows) - 2, "planted bugs")
