#!/opt/venv/bin/python
"""Fills the tables of tools/DESIGN.in.md -> DESIGN.md (run by hand, output is committed)."""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from harness import REGISTRY  # noqa: E402
from tools.props import PROPS, NA  # noqa: E402

rows = []
for pid, p in PROPS.items():
    if pid in NA:
        rows.append(f"| {pid} | {p['title']} - not applicable | {NA[pid]} |")
        continue
    r = REGISTRY[pid]
    hs = sorted({j["module"].split(".")[1] + "." + j["harness"] for j in r.jobs("thorough")})
    nq, nt = len(r.jobs("quick")), len(r.jobs("thorough"))
    b = "; ".join(f"{k}: {v}" for k, v in r.bounds.items())
    rows.append(f"| {pid} | {p['title']}: {', '.join(hs)} ({nq} jobs, {nt} thorough) | {b}. Outside: {r.outside} |")
seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
res = {}
f = os.path.join(ROOT, "tools", "seeded_results.json")
if os.path.exists(f):
    res = json.load(open(f))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {i} | {m['property']} | {m['what_it_breaks']} ({m['needs']}) | {res.get(i, '?')} |")
s = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
s = s.replace("@TABLE@", "\n".join(rows)).replace("@SEEDED@", "\n".join(seeds))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
