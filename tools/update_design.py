#!/usr/bin/env python3
"""Refreshes the table of planted bugs and the number of defects in DESIGN.md."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{HERE}/DESIGN.md"
s = open(p).read()
rows = ""
for d in sorted(glob.glob(f"{HERE}/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows += "| %s | %s | %s |\n" % (os.path.basename(d[:-1]), m["what_it_breaks"].replace("|", "/"), m["property"])
s = re.sub(r"(\| bug \| what it breaks \| caught by \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + rows, s)
s = re.sub(r"The checks found \d+ genuine", "The checks found %d genuine" % sum(1 for _ in open(f"{HERE}/known_findings.jsonl")), s)
open(p, "w").write(s)
