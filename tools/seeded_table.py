#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md; '@TABLE@' or the lines between its first and last row are replaced."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = dict.fromkeys(("P10-wide-lists", "P01-wide-maps", "P17-slots", "P12-tall-maps"), "missed first: no maps of so many cells were recorded")
MISSED |= {"P04-stale-estimate": "missed first: oversearch searches within histories were not judged",
          "P04-result-kept": "missed first: histories had no searches with goal tests of their own",
          "P22-map-costs-backward": "missed first: map costs were only bounded; `Pieces` added",
          "P29-own-cell": "missed first: vehicles ahead of their origin were too rare in the recordings"}
rows = ["| bug | property | needs | caught |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), MISSED.get(i, "first")))
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "@TABLE@" in s:
    s = s.replace("@TABLE@", t)
else:
    s = re.sub(r"\| bug \| property .*?\n(?!\|)", lambda _: t + "\n", s, flags=re.S)
open(p, "w").write(s)
