#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = []
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    i = m.split("/")[1]
    f = re.findall(r"^\+\+\+ b/(\S+)", open(f"seeded/{i}/patch.diff").read(), re.M)
    rows.append(f"| {i} | {d.get('caught_by', d['property'])} | {', '.join(x.split('/')[-1] for x in f)} | {d['needs']} |")
t = "| bug | caught by | file | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = open("DESIGN.md").read()
a, b = "<!-- table -->\n", "<!-- end -->\n"
if a in s:
    s = s[: s.index(a) + len(a)] + t + s[s.index(b):]
open("DESIGN.md", "w").write(s)
