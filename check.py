#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--strict] [--jobs N] [--only SUBSTR]"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

from symex.job import run_job, replay  # noqa: E402
from harness import REGISTRY  # noqa: E402


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def finished(ex, futs, deadline):
    """The futures as they complete; after `deadline` seconds the rest, unfinished."""
    left = set(futs)
    try:
        for f in cf.as_completed(futs, timeout=deadline):
            left.discard(f)
            yield f
    except TimeoutError:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.terminate()
        yield from left


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--strict", action="store_true", help="development: inconclusive is an error")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = REGISTRY[a.pid]
    jobs = prop.jobs(a.tier)
    if a.only:
        jobs = [j for j in jobs if a.only in json.dumps(j)]
    # real-library pass over the recorded findings (they must still be what we know)
    results = []
    ctx = mp.get_context("spawn")
    deadline = 780 if a.tier == "quick" else 6 * 3600   # what has not run by then is reported as undecided
    with cf.ProcessPoolExecutor(max_workers=min(a.jobs, len(jobs)), mp_context=ctx,
                                max_tasks_per_child=1) as ex:
        futs = {ex.submit(run_job, j): j for j in jobs}
        for f in finished(ex, futs, deadline):
            j = futs[f]
            try:
                r = f.result(0)
            except (Exception, cf.CancelledError) as e:  # deadline, or worker died (memory, solver crash)
                r = dict(spec={k: j[k] for k in ("module", "harness", "params")},
                         error=f"{type(e).__name__}: {e}", stats={}, complete=False, confirmed=[],
                         unconfirmed=[], degraded=[], mismatches=[], skipped=0, validated=0,
                         witnesses=[], n_witnesses=0, notes=[], functions=[], wall=0, left=0)
            results.append(r)
            if a.v:
                s = r["stats"]
                print(f"  {r['spec']['harness']} {r['spec']['params']} paths={s.get('paths')} "
                      f"done={s.get('completed')} deg={s.get('degraded')} unk={s.get('unknown_checks')}/"
                      f"{s.get('unknown_branches')} checks={s.get('check_queries')} "
                      f"val={r['validated']}/{r['n_witnesses']} skip={r['skipped']} solver={s.get('solver_s', 0):.1f}s "
                      f"wall={r['wall']:.1f}s complete={r['complete']} err={r['error']}", flush=True)
                for d in sorted(set(r["degraded"]))[:4]:
                    print("     degraded:", d)
                for d in r["mismatches"][:2]:
                    print("     mismatch:", json.dumps(d)[:600])
                for d in r["unconfirmed"][:2]:
                    print("     unconfirmed:", json.dumps(d)[:600])
                for d in r["confirmed"][:2]:
                    print("     CONFIRMED:", json.dumps(d)[:900])
    results.sort(key=lambda r: json.dumps(r["spec"], sort_keys=True))

    # ---- verdict ---------------------------------------------------------------------
    known = known_findings(a.pid)
    viols, seen_known = [], {}
    for r in results:
        for c in r["confirmed"]:
            k = next((k for k in known if k["harness"] == r["spec"]["harness"]
                      and k["params"] == r["spec"]["params"] and k["match"] in c["msg"]), None)
            if k is not None:
                seen_known[k["id"]] = k
            else:
                viols.append((r["spec"], c))
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    mism = sum(len(r["mismatches"]) for r in results)
    unconf = sum(len(r["unconfirmed"]) for r in results)
    errors = [r["error"] for r in results if r["error"]] + [
        r["load_error"] for r in results if r.get("load_error")]
    incomplete = [r["spec"] for r in results if not r["complete"]]
    validated = sum(r["validated"] for r in results)
    samples = []
    for r in results:
        for w in r["witnesses"][:1]:
            samples.append({"harness": r["spec"]["harness"], "params": r["spec"]["params"], "input": w})
    functions = sorted({f for r in results for f in r["functions"]})
    coverage = dict(
        evaluations=tot.get("paths", 0),
        distinct_nontrivial=tot.get("completed", 0),
        rule="one evaluation per symbolic path of the real code (all inputs satisfying its path "
             "condition at once); distinct and non-trivial: the path is feasible (the solver "
             "returned a model of its path condition) and ran to the assertions, which were then "
             "decided by the solver",
        samples=samples[:12],
        jobs=len(results),
        jobs_decided_completely=len(results) - len(incomplete),
        jobs_with_undecided_paths=[f"{s['harness']} {s['params']}" for s in incomplete][:40],
        functions_encoded=functions,
        bounds=prop.bounds,
        outside_bounds=prop.outside,
        assertions=tot.get("check_queries", 0),
        assertions_discharged=tot.get("discharged", 0),
        assertions_discharged_by_term_normalisation=tot.get("trivially_discharged", 0),
        branch_queries=tot.get("branch_queries", 0),
        assertion_queries_unknown=tot.get("unknown_checks", 0),
        branch_queries_unknown=tot.get("unknown_branches", 0),
        paths_infeasible=tot.get("aborted", 0),
        paths_decided_only_by_concrete_replay=tot.get("degraded", 0),
        solver_seconds=round(tot.get("solver_s", 0.0), 2),
        encoding_validation=dict(
            witnesses_replayed=sum(r["n_witnesses"] for r in results), agreeing=validated,
            disagreeing=mism, skipped_by_rounding=sum(r["skipped"] for r in results)),
        counterexamples_not_reproduced=unconf,
        known_findings=sorted(seen_known),
    )
    ev = dict(property=a.pid, tier=a.tier, seed=seed, level=prop.level, coverage=coverage,
              assumptions=sorted({n for r in results for n in r["notes"]}) + prop.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.pid} [{a.tier}] jobs={len(results)} paths={tot.get('paths', 0)} "
          f"assertions={tot.get('check_queries', 0)} discharged={tot.get('discharged', 0)} "
          f"undecided_jobs={len(incomplete)} validated={validated} mismatches={mism} "
          f"unreproduced={unconf} solver={tot.get('solver_s', 0):.1f}s wall={time.time() - t0:.1f}s")
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    if viols:
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        shown = set()
        for n, (spec, c) in enumerate(viols):
            key = (spec["harness"], c["msg"])
            if key in shown and n:
                continue
            shown.add(key)
            path = os.path.join(d, f"{a.pid}-{len(shown)}.json")
            with open(path, "w") as f:
                json.dump(dict(spec, inputs=c["inputs"], msg=c["msg"], tb=c.get("tb")), f, indent=1)
            print(f"  {spec['harness']} {json.dumps(spec['params'])}: {c['msg']}\n"
                  f"    input {json.dumps(c['inputs'])[:500]}")
            print(f"VIOLATION property={a.pid} replay={path}")
            if len(shown) >= 5:
                break
        return 1
    for e in errors:
        print("INCONCLUSIVE:", e)
    for r in results:
        for u in r["unconfirmed"][:2]:
            print("INCONCLUSIVE: counterexample did not reproduce on the real code:",
                  r["spec"]["harness"], r["spec"]["params"], u["msg"])
    if errors and len(errors) == len(results):
        return 2
    if a.strict and (incomplete or mism or unconf or errors):
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
