"""One job: explore a harness symbolically, then replay against the real library."""
import importlib
import json
import math
import os
import pickle
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replay(items, timeout=240):
    """Run harness bodies on concrete inputs in a fresh interpreter of the real library."""
    if not items:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    try:
        p = subprocess.run([sys.executable, os.path.join(ROOT, "symex", "concrete.py")],
                           input=json.dumps(items), capture_output=True, text=True, timeout=timeout,
                           env=env)
        return json.loads(p.stdout)
    except subprocess.TimeoutExpired:
        return [{"status": "timeout", "msg": "replay timed out"}] * len(items)
    except json.JSONDecodeError:
        if len(items) > 1:
            return [replay([i], timeout)[0] for i in items]
        return [{"status": "crash", "msg": (p.stderr or "")[-400:]}]


def differs(a, b, tol=1e-5):
    """Do an observed symbolic value (evaluated in the model) and the real one differ?"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            return True
        return len(a) != len(b) or any(differs(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        fa, fb = float(a), float(b)
        if fa == fb or (math.isnan(fa) and math.isnan(fb)):
            return False
        if abs(fa) > 1e29 and abs(fb) > 1e29:
            return False
        return not abs(fa - fb) <= tol * max(1.0, abs(fb))
    return a != b


def run_job(spec):
    """spec: {module, harness, params, opts, budget, witnesses} -> result dict"""
    t0 = time.time()
    sys.path.insert(0, ROOT)
    sys.setrecursionlimit(20000)
    from symex import engine as eng
    from symex import loader, symnp
    from symex.ctx import Symbolic

    res = {"spec": {k: spec[k] for k in ("module", "harness", "params")}, "error": None}
    try:
        loader.start_trace()
        lp = loader.load()
    except BaseException as e:
        res["load_error"] = f"{type(e).__name__}: {e}"[:300]
        lp = None
    mod = importlib.import_module(spec["module"])
    body = getattr(mod, spec["harness"])
    opts = dict(spec.get("opts") or {})
    e = eng.Engine(budget_s=spec.get("budget", 60.0), max_paths=opts.pop("max_paths", 20000),
                   query_timeout=opts.pop("query_timeout", 10000))
    for k, v in opts.items():
        setattr(e, k, v)
    if lp is not None:
        ctx = Symbolic(e, lp, symnp.shim)
        e.explore(lambda: body(ctx, **spec["params"]), keep_witnesses=spec.get("witnesses", 12))
    else:
        e.complete = False
    base = dict(module=spec["module"], harness=spec["harness"], params=spec["params"])
    items, tags = [], []
    for n, v in enumerate(e.violations):
        for c in v.inputs:
            items.append(dict(base, inputs=c))
            tags.append(("viol", n, v.msg))
    for n, (msg, isexc, cands) in enumerate(e.degraded):
        for c in cands:
            items.append(dict(base, inputs=c))
            tags.append(("degr", n, msg))
    wit = e.witnesses
    for n, (inp, obs) in enumerate(wit):
        items.append(dict(base, inputs=inp))
        tags.append(("wit", n, None))
    probes = 0
    if not e.complete or e.violations or spec.get("probe"):
        # undecided, or a counterexample that need not reproduce (cos and sin are any point of the
        # unit circle): additionally run the real code on a few inputs inside the bounds
        probes = spec.get("probe") or 10
        for n in range(probes):
            items.append(dict(base, inputs={"__probe__": n}))
            tags.append(("probe", n, None))
    outs = replay(items)
    confirmed, unconf, mism, skipped, deg_ok = [], set(range(len(e.violations))), [], 0, set()
    validated = 0
    for tag, it, o in zip(tags, items, outs):
        kind, n, msg = tag
        bad = o["status"] in ("fail", "error")
        if bad:
            confirmed.append(dict(kind=kind, msg=o["msg"], claimed=msg, inputs=o.get("inputs", it["inputs"]),
                                  tb=o.get("tb")))
            if kind == "viol":
                unconf.discard(n)
            continue
        if kind == "probe":
            continue
        if o["status"] == "skip":
            skipped += 1
        elif o["status"] in ("timeout", "crash"):
            mism.append(dict(inputs=it["inputs"], what=o["status"] + ": " + o["msg"][-200:]))
        elif kind == "wit":
            obs = wit[n][1]
            d = [k for k in obs if k not in o["observed"] or differs(obs[k], o["observed"][k])]
            if d:
                mism.append(dict(inputs=it["inputs"], what=d, sym={k: obs[k] for k in d},
                                 real={k: o["observed"].get(k) for k in d}))
            else:
                validated += 1
    res.update(
        stats=e.stats, complete=e.complete, confirmed=confirmed,
        unconfirmed=[dict(msg=e.violations[n].msg, inputs=e.violations[n].inputs) for n in sorted(unconf)],
        degraded=[d[0] for d in e.degraded], mismatches=mism, skipped=skipped,
        validated=validated, witnesses=[w[0] for w in wit[:3]], n_witnesses=len(wit),
        notes=sorted(e.notes), functions=sorted(loader.executed), wall=time.time() - t0,
        left=len(e.work) if not e.complete else 0,
    )
    try:
        pickle.dumps(res)
    except BaseException:      # an observed value that is no plain data
        res["mismatches"] = [repr(m)[:600] for m in mism]
    return res
