#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"]))
head = "| id | property | breaks | needs |\n|---|---|---|---|\n"
p = f"{HERE}/DESIGN.md"
s = open(p).read()
at = s.index(head) + len(head)
end = re.search(r"^(?!\|)", s[at:], re.M).start() + at
open(p, "w").write(s[:at] + "".join(rows) + s[end:])
