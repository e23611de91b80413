#!/usr/bin/env python3
"""Writes DESIGN.md from design.md.in: adds the cost table (tools/cost.json), the repaired defects and the planted bugs.
design.py --cost first reads the cost of the last (clean, quick) runs from /verif/evidence."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(here)
cost = {}
p = f"{here}/cost.json"
if os.path.exists(p):
    cost = json.load(open(p))
if "--cost" in sys.argv:
    for f in sorted(glob.glob(f"{top}/evidence/C*.json")):
        e = json.load(open(f)); c = e["coverage"]
        cost.setdefault(e["property"], {})[e["tier"]] = [c["states"], c["transitions"], c["traces_validated_against_impl"], e["wall_s"]]
    json.dump(cost, open(p, "w"), indent=1, sort_keys=True)
def row(k):
    out = f"| {k} "
    for t in ("quick", "thorough"):
        v = cost[k].get(t)
        out += f"| {v[1]:,} | {v[2]:,} | {v[3]:.0f} s " if v else "| | | "
    return out + "|"
table = "Transitions executed on the real code, closed driver runs (traces), and run time on the 8 cores of this sandbox, as measured:\n\n| | quick: transitions | traces | time | thorough: transitions | traces | time |\n|---|---:|---:|---:|---:|---:|---:|\n" + "\n".join(row(k) for k in sorted(cost))
fixes = "| property | commit | what failed |\n|---|---|---|\n"
for l in open(f"{top}/known-findings.txt"):
    if l.startswith("fixed:"):
        _, prop, commit, what = l.strip().split(" ", 3)
        fixes += f"| {prop[9:]} | {commit} | {what} |\n"
caught = json.load(open(f"{here}/caught.json"))
seeded = "| bug | property | needs | caught |\n|---|---|---|---|\n"
for f in sorted(f"{k}/{d}" for k in ("seeded", "tools/uncounted") for d in os.listdir(f"{top}/{k}")):
    m = json.load(open(f"{top}/{f}/meta.json"))
    d = os.path.basename(f)
    seeded += f"| {d} | {m['property']} | {m['needs']} | {({True: 'yes', False: 'no'}).get(caught.get(d), '?')} |\n"
s = open(f"{here}/design.md.in").read()
for k, v in (("@TABLE@", table), ("@FIXES@", fixes.rstrip()), ("@SEEDED@", seeded.rstrip())):
    s = s.replace(k, v)
open(f"{top}/DESIGN.md", "w").write(s)
