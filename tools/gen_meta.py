#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output is committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from harness import REGISTRY  # noqa: E402
from tools.props import PROPS, NA  # noqa: E402

lines, checks = [], []
for pid, p in PROPS.items():
    assert len(p["title"]) <= 80, p["title"]
    mech = [dict(name=n, where=w) for n, w in p["mechanism"]]
    files = sorted({w.split(":")[0] for _, w in p["mechanism"]})
    lines.append(dict(id=pid, title=p["title"], statement=p["statement"],
                      quantifier=dict(over=p["over"], text=p["quant"]),
                      why_tests_cant=p["why"],
                      anchors=dict(files=files, mechanism=mech, observe_at=p.get("observe", []))))
    if pid in NA:
        continue
    r = REGISTRY[pid]
    assert r.bounds and r.outside, pid
    checks.append(dict(
        property=pid,
        quick_cmd=f"/opt/venv/bin/python check.py {pid}",
        thorough_cmd=f"/opt/venv/bin/python check.py {pid} --tier thorough",
        technique="symbolic execution of the real Python/NumPy code + SMT (z3), counterexamples replayed",
        level="exploration",
        level_note=("Solver verdict for every real/integer/boolean input within the bounds: "
                    + "; ".join(f"{k}: {v}" for k, v in r.bounds.items())
                    + ". Outside: " + r.outside
                    + ". Trusted: the NumPy/SciPy model of symex/ (validated on every run by replaying solver "
                      "witnesses on the real library), z3, real arithmetic in place of floating point."),
    ))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import symex.engine, symex.symnp'",
           checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes="All checks import /repo's working tree at run time; nothing is built. "
                 "Known findings: known_findings.jsonl. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(lines), "properties,", len(checks), "checks")
