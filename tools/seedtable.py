#!/usr/bin/env python3
"""writes the list of planted bugs into section 6 of DESIGN.md (between the marks)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].rstrip('.')} |")
t = "<!-- seeds -->\n| planted bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = f"{V}/DESIGN.md"
s = open(p).read()
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
