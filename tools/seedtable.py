#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json, tools/loud/*/meta.json and tools/seedresults.json (written by tools/seedrun.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = json.load(open(V + "/tools/seedresults.json"))
out = ["| change | property | needs | checks that catch it | checks that miss it |", "|---|---|---|---|---|"]
for d, note in (("seeded", ""), ("tools/loud", " (also fails the repository's tests)")):
    for i in sorted(os.listdir(V + "/" + d)):
        m = json.load(open(V + "/%s/%s/meta.json" % (d, i))); r = R.get(i, {})
        out.append("| %s%s | %s | %s | %s | %s |" % (i, note, m["property"], m["needs"].replace("|", "/"), ", ".join(k for k in sorted(r) if r[k] == "caught") or "–", ", ".join(k for k in sorted(r) if r[k] != "caught") or "–"))
p = V + "/DESIGN.md"; s = open(p).read()
h = "<!-- seed table -->"
s = s.split(h)[0].rstrip() + "\n\n" + h + "\n" + "\n".join(out) + "\n"
open(p, "w").write(s)
