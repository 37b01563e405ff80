#!/usr/bin/env python3
"""Fills the sections of ../DESIGN.md which are tables (between the markers)."""
import os, re, json, glob
from props import P, here
root = os.path.dirname(here)
src = open(os.path.join(here, "DESIGN.in.md")).read()
explain = {}
for l in open(os.path.join(root, "checker", "registry.go")):
    m = re.match(r'\s*"(C\d+)": "(.*)",$', l)
    if m: explain[m.group(1)] = m.group(2).replace('\\"', '"')
out = []
how = {}
exec(open(os.path.join(here, "how.py")).read())
for p in P:
    if p["na"]: continue
    out.append(f"### {p['id']} {p['title']}\n\n{explain[p['id']]} {how.get(p['id'],'')}\n\nTests cannot: {p['why']}.\n")
na = [f"* **{p['id']} {p['title']}.** {p['na']}." for p in P if p["na"]]
sd = ["| planted bug | needs | caught by |", "|---|---|---|"]
caught = {}
cf = os.path.join(here, "caught.txt")
if os.path.exists(cf):
    for l in open(cf):
        a = l.split()
        if len(a) >= 2: caught[a[0]] = a[1]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    sd.append(f"| {i} | {m['needs']} | {caught.get(i, m['property'])} |")
src = src.replace("@@PROPS@@", "\n".join(out)).replace("@@NA@@", "\n".join(na)).replace("@@SEEDED@@", "\n".join(sd))
open(os.path.join(root, "DESIGN.md"), "w").write(src)
