#!/usr/bin/env python3
# Writes DESIGN.md from tools/design.tmpl and the planted bugs' meta.json.
import json, os
R = __file__.rsplit("/", 2)[0]
t = open(R + "/tools/design.tmpl").read()
rows = []
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/" + d + "/meta.json"))
    rows.append("| %s | %s | %s: %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
open(R + "/DESIGN.md", "w").write(t.replace("SEEDTABLE", "\n".join(rows)).replace("MUTRESULT", open(R + "/tools/mut/result.txt").read().strip()))
