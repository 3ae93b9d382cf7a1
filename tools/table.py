#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (a development aid)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m, encoding="utf-8"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "\\|"), d["what_it_breaks"].replace("|", "\\|")))
p = V + "/DESIGN.md"
s = open(p, encoding="utf-8").read()
t = "<!-- planted -->\n| change | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: t, s, flags=re.S)
open(p, "w", encoding="utf-8").write(s)
