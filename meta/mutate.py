#!/usr/bin/env python3
"""mutate.py gen N SEED: N mutants of the sources that pass the repository's tests -> /tmp/mutants/*.json
mutate.py run: runs on each the checks that encode the mutated function until one reports a violation; prints survivors
(a way of finding what the checks miss; not part of any check)"""
import ast, copy, glob, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
OUT = "/tmp/mutants"
SKIP = ("_dev.py", "refstate.py", "__init__.py")


def sites(tree):
    """(qualified function, mutation) pairs; a mutation changes a copy of the tree"""
    out = []

    def visit(node, qual, names):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            qual = qual + [node.name]
            if isinstance(node, ast.FunctionDef):
                names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in node.args.args if a.arg != "self"})
        for field, val in ast.iter_fields(node):
            vals = val if isinstance(val, list) else [val]
            for i, v in enumerate(vals):
                if isinstance(v, ast.AST):
                    if qual:
                        out.extend((".".join(qual), m) for m in mutations(node, field, i if isinstance(val, list) else None, v, names))
                    visit(v, qual, names)

    visit(tree, [], [])
    return out


def put(parent, field, i, new):
    def f():
        if i is None:
            setattr(parent, field, new)
        else:
            getattr(parent, field)[i] = new
    return f


OPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}


def mutations(p, field, i, v, names):
    r = []
    def add(desc, new):
        r.append((desc, v.lineno if hasattr(v, "lineno") else 0, put(p, field, i, new), put(p, field, i, v)))
    if isinstance(v, ast.BinOp):
        if type(v.op) in OPS:
            w = copy.copy(v); w.op = OPS[type(v.op)](); add("op", w)
        if isinstance(v.op, (ast.Add, ast.Sub)):
            add("left only", v.left)
        if isinstance(v.op, (ast.Mult, ast.Div)):
            add("left factor only", v.left)
    if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, bool):
        if isinstance(v.value, float):
            add("const %r" % v.value, ast.Constant(v.value * 1.01 if v.value else 0.01))
        else:
            add("const %r" % v.value, ast.Constant(v.value + 1))
    if isinstance(v, ast.Constant) and isinstance(v.value, bool):
        add("bool", ast.Constant(not v.value))
    if isinstance(v, ast.Compare) and len(v.ops) == 1 and type(v.ops[0]) in CMP:
        for o in CMP[type(v.ops[0])]:
            w = copy.copy(v); w.ops = [o()]; add("cmp", w)
    if isinstance(v, ast.BoolOp):
        w = copy.copy(v); w.op = ast.Or() if isinstance(v.op, ast.And) else ast.And(); add("bool op", w)
    if isinstance(v, ast.UnaryOp):
        add("unary", v.operand)
    if isinstance(v, ast.Name) and isinstance(v.ctx, ast.Load) and field != "func":
        if v.id in ("gamma", "gam", "g"):
            add("gamma 1.4", ast.Constant(1.4))
        if v.id in names:
            for n in names:
                if n != v.id:
                    add("name %s->%s" % (v.id, n), ast.Name(id=n, ctx=ast.Load()))
    if isinstance(v, ast.Attribute) and isinstance(v.ctx, ast.Load):
        sib = {"_qL": "_qR", "_qR": "_qL", "gam_cold": "gam_hot", "gam_hot": "gam_cold", "r_cold": "r_hot", "r_hot": "r_cold", "rho": "p", "p": "rho", "u": "rho",
               "g": "g_fuel", "g_fuel": "g", "_xmin": "_xmax", "_xmax": "_xmin"}
        if v.attr in sib:
            w = copy.copy(v); w.attr = sib[v.attr]; add("attr " + v.attr, w)
        if v.attr in ("_gamma", "gamma"):
            add("gamma 1.4", ast.Constant(1.4))
    if isinstance(v, (ast.Assign, ast.AugAssign)) and field == "body" and isinstance((v.targets[0] if isinstance(v, ast.Assign) else v.target), (ast.Attribute, ast.Subscript)):
        add("no statement", ast.Pass())
    if isinstance(v, ast.Expr) and isinstance(v.value, ast.Call):
        add("no call", ast.Pass())
    if isinstance(v, ast.If):
        for b in (True, False):
            w = copy.copy(v); w.test = ast.Constant(b); add("if %s" % b, w)
    if isinstance(v, ast.Return) and v.value is not None and names and not isinstance(v.value, (ast.Name, ast.Tuple, ast.Constant)):
        for a in names[:4]:
            for t in ("1.3", "3.0", "300.0"):
                w = ast.parse("(lambda r: __import__('numpy').where(__import__('numpy').greater(%s, %s), r * 1.001, r) if isinstance(r, (float, __import__('numpy').ndarray)) else r)(0)" % (a, t), mode="eval").body
                w.args = [v.value]
                add("range %s>%s" % (a, t), ast.Return(w))
    return r


def test(job):
    k, rel, src = job
    d = "/tmp/mutwt%d" % (k % 8)
    return d


def gen(n, seed):
    rnd = random.Random(seed)
    os.makedirs(OUT, exist_ok=True)
    files = [f for f in glob.glob("/repo/aerokit/**/*.py", recursive=True) if not f.endswith(SKIP)]
    cand = []
    for f in files:
        tree = ast.parse(open(f).read())
        for k, (q, m) in enumerate(sites(tree)):
            cand.append((f, k, q, m[0], m[1]))
    # as many for each function and kind of mutation
    by = {}
    for c in cand:
        by.setdefault((c[0], c[2]), {}).setdefault(c[3].split()[0], []).append(c)
    picked = []
    keys = sorted(by)
    while len(picked) < n:
        for k in rnd.sample(keys, len(keys)):
            kinds = by[k]
            kk = rnd.choice(sorted(kinds))
            c = rnd.choice(kinds[kk])
            if c not in picked:
                picked.append(c)
            if len(picked) >= n:
                break
    def work(args):
        w, lst = args
        d = "/tmp/mutwt%d" % w
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", VERIF_EVIDENCE="/tmp/evidence")
        for f, k, q, desc, line in lst:
            orig = open(f).read()
            tree = ast.parse(orig)
            q2, (de, li, do, undo) = sites(tree)[k]
            do()
            try:
                src = ast.unparse(ast.fix_missing_locations(tree))
            except Exception:
                continue
            rel = os.path.relpath(f, "/repo")
            open(os.path.join(d, rel), "w").write(src)
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-cov", "-p", "no:cacheprovider", "--timeout=30", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=120)
                ok = t.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            open(os.path.join(d, rel), "w").write(orig)
            if ok:
                name = "%s-%d-%d" % (os.path.basename(f)[:-3], seed, k)
                json.dump(dict(file=rel, qual=q, desc=desc, line=line, src=src, orig=orig), open(os.path.join(OUT, name + ".json"), "w"))
        shutil.rmtree(d, ignore_errors=True)
    nw = 8
    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(work, [(w, picked[w::nw]) for w in range(nw)]))
    print(len(picked), "mutants,", len(glob.glob(OUT + "/*.json")), "pass the tests")


def run(only):
    d = "/tmp/mutrun"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    env = dict(os.environ, AEROKIT_REPO=d, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", VERIF_EVIDENCE="/tmp/evidence")
    ev = json.load(open("/tmp/fnmap.json"))
    done = set(l.split()[1] for l in open(OUT + "/log") if l.split()[0] in ("CAUGHT", "MISSED", "NOCHECK")) if os.path.exists(OUT + "/log") else set()
    for p in sorted(glob.glob(OUT + "/*.json")):
        name = os.path.basename(p)[:-5]
        if name in done or (only and not any(o in name for o in only)):
            continue
        m = json.load(open(p))
        fn = m["file"][:-3].replace("/", ".") + "." + m["qual"]
        props = sorted((t, q) for q, (t, fs) in ev.items() if fn in fs)
        # own module's properties first: those that encode the fewest functions
        props = [q for t, q in props]
        f = os.path.join(d, m["file"])
        open(f, "w").write(m["src"])
        res = "NOCHECK" if not props else "MISSED"
        for q in props:
            r = subprocess.run(["python3-vt", "check.py", q], cwd=V, env=env, capture_output=True, text=True)
            if r.returncode == 1:
                res = "CAUGHT"
                break
            if r.returncode == 2:
                res = "MISSED(2)"
        open(f, "w").write(m["orig"])
        old = m["orig"].splitlines()[m["line"] - 1].strip() if m["line"] else ""
        with open(OUT + "/log", "a") as fh:
            fh.write("%s %s %s %s L%d: %s | %s\n" % (res, name, m["qual"], m["desc"], m["line"], old[:100], q if props else ""))
    shutil.rmtree(d, ignore_errors=True)


if sys.argv[1] == "gen":
    gen(int(sys.argv[2]), int(sys.argv[3]))
elif sys.argv[1] == "run":
    run(sys.argv[2:])
