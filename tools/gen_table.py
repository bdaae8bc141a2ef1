#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and a log of detect.py. usage: gen_table.py LOG"""
import json, os, re, sys
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"^(caught|MISSED) (\w+) (\S+) rc \d+ \((\d+) s\) (.*)", l)
    if m:
        r = re.match(r"^\w\d\d (\S+) in simulation (\d+) \(family (\w+)", m[5])
        res[m[3]] = f"`{r[1]}`, simulation {r[2]} ({r[3]})" if r else "no" if m[1] == "MISSED" else "yes"
rows = []
for n in sorted(os.listdir("/verif/seeded")):
    j = json.load(open(f"/verif/seeded/{n}/meta.json"))
    rows.append((j["property"], n, j["what_it_breaks"], res.get(n, "not run")))
rows.sort()
t = "<!-- sensitivity -->\n| property | planted bug | what breaks | caught by its quick check |\n|---|---|---|---|\n"
t += "".join("| " + " | ".join(r) + " |\n" for r in rows) + "<!-- end -->"
s = open("/verif/DESIGN.md").read()
i, j = s.index("<!-- sensitivity -->"), s.index("<!-- end -->") + len("<!-- end -->")
open("/verif/DESIGN.md", "w").write(s[:i] + t + s[j:])
print(sum(r[3] not in ("no", "not run") for r in rows), "of", len(rows))
