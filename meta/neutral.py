#!/usr/bin/env python3
"""neutral.py [NAME…] [--props C01,C02]: applies edits that keep the behaviour to a scratch copy of /repo, runs the
repository's tests and the checks on the copy; every check must exit 0"""
import glob, importlib.util, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
W = "/tmp/neutralwt"
ENV = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", VERIF_EVIDENCE="/tmp/evidence", AEROKIT_REPO=W)
N = {}
for f in sorted(glob.glob(os.path.join(H, "neutral", "*.py"))):
    sp = importlib.util.spec_from_file_location("n", f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    N.update(m.N)
FN = {}
args = [a for a in sys.argv[1:] if not a.startswith("--")]
props = [a[8:].split(",") for a in sys.argv[1:] if a.startswith("--props=")]
props = props[0] if props else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
for name in args or N:
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    files = set()
    for f, old, new in N[name]:
        s = open(os.path.join(W, f)).read()
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(os.path.join(W, f), "w").write(s.replace(old, new))
        files.add(f)
    t = subprocess.run("/opt/venv/bin/python -m pytest -q --no-cov -x -p no:cacheprovider tests 2>&1 | tail -3", shell=True, cwd=W, env=ENV, capture_output=True, text=True)
    print(name, "tests:", t.stdout.strip().splitlines()[-1:], flush=True)
    mods = {f[:-3].replace("/", ".") for f in files}
    for p in props:
        ev = os.path.join(V, "evidence", p + ".json")
        if os.path.exists(ev) and not any(x.startswith(m + ".") for x in FN.setdefault(p, json.load(open(ev))["coverage"]["functions_encoded"]) for m in mods):
            continue
        r = subprocess.run(["python3-vt", "check.py", p], cwd=V, env=ENV, capture_output=True, text=True)
        last = r.stdout.strip().splitlines()[-1]
        bad = [l[:260] for l in r.stdout.splitlines() if "|" in l or l.startswith(("VIOL", "INCONC", "UNDEC"))]
        if r.returncode or bad:
            print("  ", p, "rc", r.returncode, last, *bad[:5], sep="\n      ", flush=True)
shutil.rmtree(W, ignore_errors=True)
