#!/usr/bin/env python3
"""table.py LOG: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the output of hunt.py."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for log in sys.argv[1:]:
    for l in open(log):
        w = l.split()
        if len(w) >= 2 and os.path.isdir(os.path.join(V, "seeded", w[0])):
            by.setdefault(w[0], set()).update(re.findall(r"(P\d\d) CAUGHT", l))
rows = {}
for f in glob.glob(V + "/seeded/*/meta.json"):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.setdefault(m["property"], []).append((i, sorted(by.get(i, ()))))
out = []
for p in sorted(rows):
    cells = []
    for i, c in sorted(rows[p]):
        if p not in c:
            cells.append("%s (%s)" % (i, "not caught" if not c else "not by itself, by " + " ".join(c)))
        else:
            cells.append(i)
    out.append("| %s | %s |" % (p, ", ".join(cells)))
s = open(V + "/DESIGN.md").read()
a, b = s.split("<!-- planted -->")[0], s.split("<!-- /planted -->")[1]
open(V + "/DESIGN.md", "w").write(a + "<!-- planted -->\n| Property | Planted bugs caught by its quick check |\n|---|---|\n" + "\n".join(out) + "\n<!-- /planted -->" + b)
