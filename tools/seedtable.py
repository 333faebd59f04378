#!/usr/bin/env python3
"""seedtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
p = R + "/DESIGN.md"
s = open(p).read()
open(p, "w").write(re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n%s\n<!-- /seeds -->" % "\n".join(rows), s, flags=re.S))
