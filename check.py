#!/usr/bin/env python3
"""usage: python3-vt check.py PROP [--tier quick|thorough] [--only HARNESS] [--replay FILE] [--jobs N] [-v]

Decides one property of properties.jsonl on the current tree of /repo (or $AEROKIT_REPO).
exit 0: held on everything explored;  exit 1: VIOLATION line(s);  exit 2: no answer.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import warnings

warnings.simplefilter("ignore")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")

EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
KNOWN_FILE = os.path.join(HERE, "known_findings.json")


def load_known(prop):
    with open(KNOWN_FILE) as fh:
        d = json.load(fh)
    return {f["id"]: f for f in d["findings"] if f["property"] == prop}


def load_prop(prop):
    importlib.import_module("props.%s" % prop.lower())
    from symx import engine

    return engine.HARNESSES.get(prop, [])


def run_one(args, partial=lambda r: None):
    prop, idx, tier, seed = args
    mem = 6 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    from symx import engine, lower

    lower.STATS.__init__()
    name, fn, opts = engine.HARNESSES[prop][idx]
    t0 = time.time()
    e = engine.Engine(prop, name, fn, opts, tier, seed)
    try:
        e.nominal()
        partial(dict(violations=e.res["violations"]))
        e.explore()
        partial(dict(violations=e.res["violations"]))
        e.validate(opts.get("validate", 8 if tier == "quick" else 60))
    except MemoryError:
        e.res["errors"].append(name + ": out of memory")
    except Exception as ex:
        e.res["errors"].append("%s: internal %s: %s | %s" % (
            name, type(ex).__name__, ex, traceback.format_exc().strip().splitlines()[-3:]))
    r = e.res
    r["harness"] = name
    r["functions"] = sorted(e.functions)
    r["notes"] = sorted(e.notes)
    r["wall"] = time.time() - t0
    r["stats"] = vars(lower.STATS).copy()
    r["doc"] = (fn.__doc__ or "").strip()
    return r


def worker(args, conn):
    try:
        conn.send(run_one(args, conn.send))
    except BaseException as e:  # noqa
        conn.send({"crash": repr(e)})
    conn.close()


def run_all(jobs, n, limit, total):
    """each harness in its own forked process, with a wall limit; none goes on after the total limit"""
    pend = list(jobs)
    live, out, part = [], {}, {}
    end = time.time() + total
    while pend or live:
        if time.time() > end:
            for a in pend:
                out[a[1]] = {"crash": "not started within %ds" % total}
            for a, p, r, t in live:
                p.kill()
                p.join()
                out[a[1]] = {"crash": "total wall limit %ds" % total}
            break
        while pend and len(live) < n:
            a = pend.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=worker, args=(a, w))
            p.start()
            w.close()
            live.append((a, p, r, time.time()))
        keep = []
        for a, p, r, t in live:
            if r.poll(0.02):
                try:
                    m = r.recv()
                except EOFError:
                    m = {"crash": "died"}
                if len(m) == 1 and "violations" in m:
                    part[a[1]] = m["violations"]
                    keep.append((a, p, r, t))
                    continue
                out[a[1]] = m
                p.join()
            elif not p.is_alive():
                out[a[1]] = {"crash": "died"}
            elif time.time() - t > limit:
                p.kill()
                p.join()
                out[a[1]] = {"crash": "wall limit %ds" % limit}
            else:
                keep.append((a, p, r, t))
        live = keep
    for i in out:
        if "crash" in out[i]:
            out[i]["violations"] = part.get(i, [])
    return out


def replay(prop, path):
    from symx import engine

    d = json.load(open(path))
    for name, fn, opts in engine.HARNESSES[prop]:
        if name == d["harness"]:
            from fractions import Fraction as F

            env = {k: F(v) for k, v in d["inputs"].items()}
            ch = engine.run_concrete(fn, env)
            for n, det in ch.failed:
                print("replay: %s: %s" % (n, det))
            if ch.out_of_domain and d["claim"] == engine.IN_DOMAIN:
                ch.failed.append((d["claim"], d["detail"]))
                ch.out_of_domain = False
            if ch.failed and not ch.out_of_domain:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            print("replay: the property holds on this input")
            return 0
    print("unknown harness", d["harness"])
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from symx import engine

    known = load_known(prop)
    engine.KNOWN.update(known)
    hs = load_prop(prop)
    if a.replay:
        return replay(prop, a.replay)
    jobs = [(prop, i, a.tier, seed) for i, h in enumerate(hs)
            if (not a.only or a.only in h[0]) and (a.tier == "thorough" or not h[2].get("thorough_only"))]
    limit = 240 if a.tier == "quick" else 1500
    # the longest harnesses first
    jobs.sort(key=lambda j: -hs[j[1]][2].get("cost", 1))
    out = run_all(jobs, a.jobs, limit, 780 if a.tier == "quick" else 6 * 3600)
    res = [out[i] for i in sorted(out)]
    for i in out:
        if "crash" in out[i]:
            out[i].update(harness=hs[i][0], errors=["%s: %s" % (hs[i][0], out[i]["crash"])])
    ok = [r for r in res if "crash" not in r]
    viol = [v for r in res for v in r["violations"]]
    errs = [e for r in res for e in r["errors"]] + [
        "%s: encoding mismatch: %s" % (r["harness"], m) for r in ok for m in r["mismatches"]]
    rdir = os.path.join(EVIDENCE, "replays")
    os.makedirs(rdir, exist_ok=True)
    tot = lambda k: sum(r[k] for r in ok)
    seen_known = sorted({k for r in ok for k in r["known"]})
    lines = []
    paths = []
    for i, v in enumerate(viol):
        p = os.path.join(rdir, "%s_%d.json" % (prop, i))
        with open(p, "w") as fh:
            json.dump(dict(v, property=prop), fh, indent=1)
        paths.append(p)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("%s | %s | %s: %s | inputs %s" % (prop, v["harness"], v["claim"], v["detail"], v["inputs_float"]))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    for e in errs:
        print("INCONCLUSIVE %s %s" % (prop, e))
    for r in ok:
        if a.v or r["undecided"]:
            for u in r["undecided"]:
                print("UNDECIDED %s %s: %s" % (prop, r["harness"], u))
        if a.v:
            print("%-34s paths %d claims %d proved %d trivial %d reduced %d pinned %d open %d soft %d def %d/%d valid %d  %.1fs q%d %.1fs" % (
                r["harness"], r["paths"], r["claims"], r["proved"], r["trivial"], r["reduced"], r["pinned"],
                len(r["undecided"]), r["soft_open"], r["defined"], r["defined"] + r["defined_assumed"],
                r["validated"], r["wall"], r["stats"]["queries"], r["stats"]["solver_s"]))
            for k in ("reduced_claims", "pinned_claims", "notes"):
                if r[k]:
                    print("      ", k, r[k][:12])
    for l in lines:
        print(l)
    decided = (tot("proved") + tot("reduced")) if ok else 0
    samples = [s for r in ok for s in r["samples"]][:6]
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level="model_checking",
        coverage=dict(
            states=max(1, tot("paths")), transitions=max(1, tot("forks") + tot("assumptions") + tot("paths")),
            traces_validated_against_impl=tot("validated"), samples=samples or [dict(note="no samples")],
            functions_encoded=sorted({f for r in ok for f in r["functions"]}),
            bounds={r["harness"]: r["bounds"] for r in ok},
            paths=tot("paths"), infeasible_prefixes=tot("infeasible"), claims=tot("claims"),
            claims_proved_for_all_inputs=tot("proved"), of_which_by_normal_form_alone=tot("trivial"),
            claims_proved_on_parameter_grid=tot("reduced"), claims_at_pinned_points=tot("pinned"),
            claims_undecided=sum(len(r["undecided"]) for r in ok),
            definedness_proved=tot("defined"), definedness_assumed=tot("defined_assumed"),
            side_conditions_open=tot("soft_open"),
            queries=sum(r["stats"]["queries"] for r in ok), unsat=sum(r["stats"]["unsat"] for r in ok),
            sat=sum(r["stats"]["sat"] for r in ok), unknown=sum(r["stats"]["unknown"] for r in ok),
            solver_s=round(sum(r["stats"]["solver_s"] for r in ok), 3),
            harnesses=[dict(name=r["harness"], what=r["doc"], paths=r["paths"], claims=r["claims"], proved=r["proved"],
                            grid=r["reduced_claims"][:40], pinned=r["pinned_claims"][:40], undecided=r["undecided"][:40],
                            notes=r["notes"], wall_s=round(r["wall"], 2)) for r in ok],
            inconclusive=errs, known_findings=seen_known,
        ),
        wall_s=round(time.time() - t0, 2),
        assumptions=[
            "real arithmetic: floating-point rounding, overflow and NaN propagation are outside the encoding",
            "root finders (scipy newton/fsolve/brentq, and IterativeSolve.secant_solve except in C29) are "
            "replaced by their contract: the returned value is a zero of the residual the code passed in",
            "numpy elementwise/array operations and the scipy.linalg entry points behave as documented",
            "samples and solver counterexamples are replayed on the real code (CPython, numpy)",
        ],
        violations=len(viol),
    )
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s %s: %d harnesses, %d paths, %d claims: %d proved, %d grid, %d pinned, %d undecided; %d runs validated; "
          "%d violations, %d inconclusive; %.1fs" % (
              prop, a.tier, len(res), tot("paths"), tot("claims"), tot("proved"), tot("reduced"), tot("pinned"),
              sum(len(r["undecided"]) for r in ok), tot("validated"), len(viol), len(errs), time.time() - t0))
    if viol:
        return 1
    if not decided:
        print("no answer: nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
