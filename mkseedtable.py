#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
rows = []
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
s = open("DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
i, j = s.index(a) + len(a), s.index(b)
open("DESIGN.md", "w").write(s[:i] + "| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:])
