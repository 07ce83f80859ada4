#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md. The outcome of running a
property's quick check against each (by hand, see DESIGN.md) is kept in
tools/seeded_results.json. Not used by any check."""
import json, glob, os
res = json.load(open("/verif/tools/seeded_results.json"))
print("| planted bug | property | what it breaks / needs | quick check |")
print("|---|---|---|---|")
for d in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    n = os.path.basename(d)
    print("| %s | %s | %s — %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], res.get(n, "not run")))
