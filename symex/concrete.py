"""Runs harness bodies against the real library (fresh process).

stdin: JSON list of {module, harness, params, inputs}; stdout: JSON list of results.
"""
import importlib
import json
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def setup():
    repo = os.environ.get("LATTPY_REPO", "/repo")
    sys.path.insert(0, repo)
    import matplotlib

    matplotlib.use("Agg")
    warnings.simplefilter("ignore")
    import lattpy

    assert os.path.realpath(lattpy.__file__).startswith(os.path.realpath(repo) + os.sep), lattpy.__file__
    return lattpy


def plain(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def used(ctx):
    return {k: v for k, v in ctx.inputs.items() if k != "__probe__"}


def run_one(lp, item):
    import numpy as np
    from symex.ctx import CheckFailed, Concrete, Skip

    mod = importlib.import_module(item["module"])
    body = getattr(mod, item["harness"])
    ctx = Concrete(item["inputs"], lp, np)
    try:
        with np.errstate(all="ignore"):
            body(ctx, **item["params"])
        return {"status": "ok", "observed": {k: plain(v) for k, v in ctx.observed.items()}}
    except CheckFailed as e:
        return {"status": "fail", "msg": str(e), "inputs": used(ctx)}
    except Skip as e:
        return {"status": "skip", "msg": str(e)}
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        return {"status": "error", "msg": f"{type(e).__name__}: {e}"[:400], "tb": tb[-8:], "inputs": used(ctx)}


def main():
    items = json.load(sys.stdin)
    out = sys.stdout
    sys.stdout = sys.stderr
    lp = setup()
    json.dump([run_one(lp, it) for it in items], out)


if __name__ == "__main__":
    main()
