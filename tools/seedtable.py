#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and the results of the last tools/seedrun.py."""
import json, os, re
V = "/verif"
res = json.load(open(V + "/tools/seed_results.json"))
rows = ["| planted bug | property | needs | caught by (quick) |", "|---|---|---|---|"]
for sid in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{sid}/meta.json"))
    r = res.get(sid, "not run")
    need = re.sub(r"\s+", " ", m["needs"]).replace("|", "\\|")
    rows.append(f"| {sid} | {m['property']} | {need[:140]} | {r} |")
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(V + "/DESIGN.md", "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
