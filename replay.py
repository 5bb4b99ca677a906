#!/opt/venv/bin/python
"""replay.py FILE: run a recorded counterexample against the real library."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symex.job import replay  # noqa: E402

it = json.load(open(sys.argv[1]))
r = replay([dict(module=it["module"], harness=it["harness"], params=it["params"], inputs=it["inputs"])])[0]
print(json.dumps(dict(it, result=r), indent=1))
sys.exit(0 if r["status"] == "ok" else 1)
