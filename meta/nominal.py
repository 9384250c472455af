#!/usr/bin/env python3-vt
"""nominal.py [C01 …]: writes symx/nominal.json, inputs within the domain of each harness on the tree as it is (also when each
input moves a little), for the check that no harness is left with an empty domain"""
import importlib, json, os, sys, time, warnings
from fractions import Fraction as F
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")
from symx import engine

OUT = os.path.join(V, "symx", "nominal.json")
draw = engine.sample_value
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
engine.KNOWN.update({f["id"]: f for f in json.load(open(V + "/known_findings.json"))["findings"]})
for prop in sys.argv[1:] or ["C%02d" % i for i in range(1, 40)]:
    try:
        importlib.import_module("props." + prop.lower())
    except ModuleNotFoundError:
        continue
    res[prop] = {}
    for name, fn, opts in engine.HARNESSES[prop]:
        out = []
        t0 = time.time()
        for i in range(60):
            ch = None
            engine.sample_value = lambda n, lo, hi, sl, sh, k, seed, log=False: draw(n, lo, hi, sl, sh, i + 9000, 1, log)
            try:
                ch = engine.run_concrete(fn, {})
            except Exception as e:
                print(prop, name, "unsupported", e)
                break
            if ch.failed:
                print("FAILED", prop, name, ch.failed[:1])
            if ch.out_of_domain or ch.failed:
                continue
            d = dict(ch.env)
            ok = True
            for s in (1, -1):
                c2 = engine.run_concrete(fn, {k: v * (1 + s * F(1, 10**9)) if v.denominator != 1 else v for k, v in d.items()})
                ok = ok and not c2.out_of_domain
            if ok:
                out.append({k: str(v) for k, v in d.items()})
            if len(out) >= 2 or time.time() - t0 > 40 or (not d and out):
                break
        print(prop, name, len(out), "%.1fs" % (time.time() - t0), flush=True)
        res[prop][name] = out
    json.dump(res, open(OUT, "w"), indent=0, sort_keys=True)
