#!/usr/bin/env python3
"""mkseed.py [ID…]: builds seeded/<id>/ from meta/seeds/*.py and confirms each in a scratch copy of /repo:
the patch applies, the repository's tests pass, the demonstration passes without and fails with it;
then runs the check of the property on the changed copy and records whether it is caught"""
import glob, json, os, shutil, subprocess, sys, importlib.util, tempfile
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
W = "/tmp/seedwt"
ENV = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", VERIF_EVIDENCE="/tmp/evidence", PYTHONHASHSEED="0")


def sh(cmd, cwd=W, env=ENV, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(H, "seeds", "*.py"))):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def main():
    seeds = load()
    check_only = "--check" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(seeds)
    if "--new" in sys.argv:
        ids = [i for i in ids if not os.path.exists(os.path.join(V, "seeded", i))]
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    for i in ids:
        s = seeds[i]
        sh("git checkout -q -- .")
        d = os.path.join(V, "seeded", i)
        for fn, old, new in s["edits"]:
            p = os.path.join(W, fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "EDIT NOT UNIQUE", t.count(old), repr(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = sh("git diff").stdout
            r = sh("find aerokit tests -name __pycache__ -type d -prune -exec rm -rf {} +; "
                   "/opt/venv/bin/python -m pytest -q --no-cov -p no:cacheprovider --timeout=120 tests 2>&1 | tail -5") if not check_only else None
            if r and ("115 passed" not in r.stdout or "failed" in r.stdout):
                print(i, "TESTS FAIL", r.stdout[-600:]); continue
            tmp = tempfile.mkdtemp()
            open(tmp + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n"
                                              "import warnings\nwarnings.simplefilter('ignore')\nimport numpy as np\n" + s["demo"].strip() + "\n")
            open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            bad = sh("bash %s/demo.sh" % tmp)
            env0 = dict(ENV); env0.pop("PYTHONPATH")
            good = sh("bash %s/demo.sh" % tmp, cwd="/repo", env=env0)
            if good.returncode or not bad.returncode:
                print(i, "DEMO WRONG good=%d bad=%d" % (good.returncode, bad.returncode), good.stderr[-500:], good.stdout[-300:]); continue
            props = [s["property"]] + s.get("also", [])
            got = []
            for p in props:
                c = sh("python3-vt check.py %s" % p, cwd=V, env=dict(os.environ, AEROKIT_REPO=W))
                ok = c.returncode == 1 and "VIOLATION property=%s" % p in c.stdout
                if ok:
                    got.append(p)
                line = [l for l in c.stdout.splitlines() if not l.startswith(("VIOL", "UNDEC"))][:1]
                print(i, p, "CAUGHT" if ok else "MISSED rc=%d" % c.returncode, " ".join(x[:230] for x in line))
            os.makedirs(d, exist_ok=True)
            shutil.copy(tmp + "/demo.py", d); shutil.copy(tmp + "/demo.sh", d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"],
                           caught_by=", ".join(got) or "none"), open(d + "/meta.json", "w"), indent=1)
            shutil.rmtree(tmp)
    shutil.rmtree(W, ignore_errors=True)


main()
