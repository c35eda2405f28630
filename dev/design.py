#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| {} | {} | {} | {} |".format(os.path.basename(os.path.dirname(f)), m.get("caught", m["property"]), m["what_it_breaks"], m["needs"]))
p = R + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "@SEEDS@" in s:
    s = s.replace("@SEEDS@", t)
else:
    s = re.sub(r"\| planted bug \|.*?(?=\n\n)", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
