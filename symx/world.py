"""Loading the real aerokit sources into a symbolic world.

Every aerokit module is read from /repo at each run, parsed, and rewritten only where Python
itself would lose exactness or traceability: float literals become exact rational constants,
'/' and '**' go through helpers that keep int/int exact, and each function body starts with a
call that records that it was executed (evidence).  Imports are redirected to shims: numpy and
math to object-dtype equivalents, the scipy root finders to contract stubs, matplotlib to a
recorder, aerokit.* to other rewritten modules.
"""
import ast
import builtins as _b
import importlib
import math
import os
import sys
import types
from fractions import Fraction as F

import numpy as np

from . import sym
from .sym import Sym, SymBool, CSym, const, lift, Unsupported

REPO = os.environ.get("AEROKIT_REPO", "/repo")


# ======================================================================= AST rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.stack = []

    def _call(self, name, *args):
        return ast.Call(
            func=ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr=name, ctx=ast.Load()),
            args=list(args),
            keywords=[],
        )

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(self._call("C", ast.Constant(repr(node.value))), node)
        if isinstance(node.value, complex):
            return ast.copy_location(
                self._call("J", ast.Constant(repr(node.value.real)), ast.Constant(repr(node.value.imag))),
                node,
            )
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(self._call("div", node.left, node.right), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(self._call("pow", node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name) and isinstance(node.op, (ast.Div, ast.Pow)):
            fn = "idiv" if isinstance(node.op, ast.Div) else "ipow"
            return ast.copy_location(
                ast.Assign(
                    targets=[node.target],
                    value=self._call(fn, ast.Name(id=node.target.id, ctx=ast.Load()), node.value),
                ),
                node,
            )
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in ("real", "imag") and isinstance(node.ctx, ast.Load) and not (
                isinstance(node.value, ast.Name) and node.value.id in ("np", "numpy")):
            return ast.copy_location(self._call("part", node.value, ast.Constant(node.attr)), node)
        return node

    def visit_MatchValue(self, node):
        return node

    def _func(self, node):
        self.stack.append(node.name)
        qual = ".".join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = [self.visit(s) for s in node.body]
        body = [x for s in body for x in (s if isinstance(s, list) else [s])]
        ins = ast.Expr(value=self._call("enter", ast.Name(id="__name__", ctx=ast.Load()), ast.Constant(qual)))
        ast.copy_location(ins, node.body[0])
        pos = 1 if (
            isinstance(node.body[0], ast.Expr)
            and isinstance(node.body[0].value, ast.Constant)
            and isinstance(node.body[0].value.value, str)
        ) else 0
        body.insert(pos, ins)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node


_code_cache = {}


def compiled(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _code_cache.get(key)
    if c is None:
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        c = compile(tree, path, "exec")
        _code_cache[key] = c
    return c


# ======================================================================= helpers used by the rewritten code
def _is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def sx_div(a, b):
    if _is_int(a) and _is_int(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return const(F(int(a), int(b)))
    if isinstance(a, np.ndarray) and a.dtype.kind in "iub":
        a = a.astype(object)
        if isinstance(b, np.ndarray) and b.dtype.kind in "iub":
            b = b.astype(object)
        return np.frompyfunc(sx_div, 2, 1)(a, b)
    if isinstance(b, np.ndarray) and b.dtype.kind in "iub":
        return np.frompyfunc(sx_div, 2, 1)(a if isinstance(a, np.ndarray) else a, b.astype(object))
    return a / b


def sx_pow(a, b):
    if _is_int(a) and _is_int(b):
        if b < 0:
            return const(F(int(a)) ** int(b))
        return int(a) ** int(b)
    if isinstance(a, (float, int)) and not isinstance(a, bool) and isinstance(b, (float, F)):
        return lift(a) ** lift(b)
    return a**b


class SX:
    @staticmethod
    def part(x, which):
        """x.real, x.imag  (numpy object arrays do not look at their elements)"""
        if isinstance(x, np.ndarray) and x.dtype == object:
            return _part("re" if which == "real" else "im")(x)
        return getattr(x, which)

    def __init__(self, world):
        self.world = world
        self.div = sx_div
        self.pow = sx_pow

    def C(self, s):
        if s in ("inf", "-inf", "nan"):
            return float(s)
        return const(F(s))

    def J(self, re, im):
        return CSym(const(F(re)), const(F(im)))

    def idiv(self, a, b):
        if isinstance(a, np.ndarray):
            a /= b
            return a
        return sx_div(a, b)

    def ipow(self, a, b):
        if isinstance(a, np.ndarray):
            a **= b
            return a
        return sx_pow(a, b)

    def enter(self, mod, qual):
        self.world.functions.add(mod + "." + qual)


# ======================================================================= builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.float, Sym))

    def __subclasscheck__(cls, c):
        return c in (cls, Sym) or issubclass(c, _b.float)

    def __eq__(cls, o):
        return o is cls or o is _b.float

    def __hash__(cls):
        return hash("floatS")


class floatS(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, str):
            return const(F(x)) if x.strip().lower() not in ("inf", "-inf", "nan") else _b.float(x)
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = x.item()
        r = lift(x)
        if r is None or isinstance(r, CSym):
            return _b.float(x)
        return r


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.complex, CSym))

    def __eq__(cls, o):
        return o is cls or o is _b.complex

    def __hash__(cls):
        return hash("complexS")


class complexS(metaclass=_ComplexMeta):
    def __new__(cls, re=0, im=0):
        r = CSym.of(re)
        i = lift(im)
        return r + CSym(const(0), const(1)) * i


def _isinstance(x, t):
    if isinstance(t, tuple):
        return any(_isinstance(x, k) for k in t)
    if isinstance(x, Sym) and t in (_b.float, np.float64, np.floating, np.number, np.generic):
        return True
    return _b.isinstance(x, t)


def _sround(x, n=None):
    r = x.__round__(n) if isinstance(x, Sym) else (_b.round(x, n) if n is not None else _b.round(x))
    return r


# ======================================================================= numpy shim
FLOAT_DTYPES = {
    _b.float, _b.complex, np.float64, np.float32, np.floating, np.complex128, np.double, np.longdouble,
    "float", "float64", "f8", "d", "complex", "complex128", "D", "double",
}


def _dtype(dt):
    if dt is None:
        return None
    if dt is floatS or dt is complexS:
        return object
    try:
        if dt in FLOAT_DTYPES:
            return object
    except TypeError:
        pass
    try:
        if np.dtype(dt).kind in "fc":
            return object
    except TypeError:
        pass
    return dt


def _lift_any(x):
    r = lift(x)
    return x if r is None else r


def oarr(x):
    """object array with lifted entries"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind in "fiubc":
            return _lift_array(x.astype(object))
        return x
    return _lift_array(np.array(x, dtype=object))


def _lift_array(a):
    if not a.size:
        return a
    r = np.frompyfunc(_lift_any, 1, 1)(a)
    if not isinstance(r, np.ndarray):
        out = np.empty((), dtype=object)
        out[()] = r
        return out
    return r


def is_scalar(x):
    return isinstance(x, (Sym, CSym, SymBool, int, float, complex, np.generic, F))


def _unwrap(r):
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r.item()
    return r


def _ufunc1(method):
    def one(x):
        x = lift(x)
        if isinstance(x, CSym) and not hasattr(x, method):
            raise Unsupported("complex " + method)
        return getattr(x, method)()

    vec = np.frompyfunc(one, 1, 1)

    def f(x, out=None, where=True, **kw):
        if is_scalar(x):
            return one(x)
        r = vec(oarr(x))
        if where is not True:
            w = np.asarray(where)
            base = out if out is not None else zeros(np.shape(r))
            r = np.frompyfunc(lambda c, p, q: p if bool(c) else q, 3, 1)(w.astype(object), r, base)
        if out is not None:
            out[...] = r
            return out
        return _unwrap(r)

    f.__name__ = method
    f.at = None
    return f


def _ufunc2(fn, name):
    vec = np.frompyfunc(fn, 2, 1)

    def f(a, b, out=None, **kw):
        if is_scalar(a) and is_scalar(b):
            return fn(lift(a), lift(b))
        r = _unwrap(vec(a if is_scalar(a) else oarr(a), b if is_scalar(b) else oarr(b)))
        if out is not None:
            out[...] = r
            return out
        return r

    f.__name__ = name
    return f


def _max2(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return a if bool(a >= b) else b


def _min2(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return a if bool(a <= b) else b


maximum = _ufunc2(_max2, "maximum")
minimum = _ufunc2(_min2, "minimum")


def _reducer(fn2):
    def f(a, axis=None, **kw):
        a = oarr(a)
        if axis is None:
            it = list(a.ravel())
            r = it[0]
            for v in it[1:]:
                r = fn2(r, v)
            return r
        return np.apply_along_axis(lambda v: f(v), axis, a)

    return f


maximum.reduce = _reducer(_max2)
minimum.reduce = _reducer(_min2)


def zeros(shape, dtype=None, *a, **k):
    d = _dtype(dtype)
    if d not in (None, object):
        return np.zeros(shape, d)
    r = np.empty(shape, dtype=object)
    r.fill(const(0))
    return r


def ones(shape, dtype=None, *a, **k):
    d = _dtype(dtype)
    if d not in (None, object):
        return np.ones(shape, d)
    r = np.empty(shape, dtype=object)
    r.fill(const(1))
    return r


def full(shape, v, dtype=None, *a, **k):
    d = _dtype(dtype)
    if d not in (None, object) or d is None and (_is_int(v) or isinstance(v, (bool, np.bool_, np.ndarray)) and np.asarray(v).dtype.kind in "iub"):
        return np.full(shape, v, d)  # integers stay integers
    r = np.empty(shape, dtype=object)
    if is_scalar(v):
        r.fill(_lift_any(v))
    else:
        r[...] = oarr(v)
    return r


def _like(mkf):
    def f(a, dtype=None, *args, **k):
        if isinstance(a, np.ndarray) and a.dtype.kind in "iub" and dtype is None:
            return mkf(np.shape(a), a.dtype)
        return mkf(np.shape(a), dtype)

    return f


def full_like(a, v, dtype=None, **k):
    if dtype is None and (_is_int(a) or isinstance(a, np.ndarray) and a.dtype.kind in "iub"):
        dtype = np.asarray(a).dtype
    return full(np.shape(a), v, object if dtype is None else dtype)


def eye(N, M=None, k=0, dtype=None, **kw):
    r = zeros((N, M or N))
    for i in range(N):
        if 0 <= i + k < (M or N):
            r[i, i + k] = const(1)
    return r


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    d = _dtype(dtype)
    if isinstance(x, np.ndarray) and d is None:
        r = np.array(x, copy=True)
    elif d is None:
        r = np.array(x)
        if r.dtype.kind in "fc":
            r = oarr(r)
    elif d is object:
        r = oarr(x)
        if isinstance(x, np.ndarray) and r is x:
            r = r.copy()
    else:
        r = np.array(x, dtype=d)
    while r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def asarray(x, dtype=None, *a, **k):
    d = _dtype(dtype)
    if isinstance(x, np.ndarray) and (d is None or x.dtype == d):
        return x
    return array(x, dtype)


def linspace(a, b, num=50, endpoint=True, **k):
    num = int(num)
    if is_scalar(a) and is_scalar(b):
        a, b = lift(a), lift(b)
        r = np.empty(num, dtype=object)
        div = (num - 1) if endpoint else num
        for i in range(num):
            r[i] = a + (b - a) * const(F(i, div)) if i else a
        if endpoint and num > 1:
            r[num - 1] = b
        return r
    raise Unsupported("linspace on arrays")


def arange(*a, **k):
    if all(_is_int(x) for x in a):
        r = np.arange(*a)
        return oarr(r) if _dtype(k.get("dtype")) is object else r
    a = [lift(x) for x in a]
    if all(isinstance(x, Sym) and x.is_const for x in a):
        lo, hi, st = (F(0), a[0].val, F(1)) if len(a) == 1 else (
            a[0].val, a[1].val, a[2].val if len(a) > 2 else F(1))
        n = max(0, math.ceil((hi - lo) / st))
        r = np.empty(n, dtype=object)
        for i in range(n):
            r[i] = const(lo + i * st)
        return r
    raise Unsupported("arange with symbolic arguments")


def where(c, *ab):
    if not ab:
        return np.where(np.asarray(c).astype(bool))
    a, b = ab
    if isinstance(c, (bool, np.bool_, SymBool)):
        # numpy always returns an array here; a 0-d one behaves like a scalar
        r = a if bool(c) else b
        if is_scalar(a) and is_scalar(b):
            return _unwrap(np.array(_lift_any(r), dtype=object)) if not is_scalar(r) else _lift_any(r)
        a, b = np.broadcast_arrays(oarr(a), oarr(b))
        return (a if bool(c) else b).copy()
    f = np.frompyfunc(lambda q, x, y: x if bool(q) else y, 3, 1)
    return _unwrap(f(np.asarray(c).astype(object), a if is_scalar(a) else oarr(a), b if is_scalar(b) else oarr(b)))


class vectorize:
    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, **k):
        self.pyfunc = pyfunc
        self.excluded = excluded or set()
        self.__doc__ = getattr(pyfunc, "__doc__", None)
        self.__name__ = getattr(pyfunc, "__name__", "vectorized")

    def __call__(self, *args, **kw):
        names = list(kw)
        allv = list(args) + [kw[n] for n in names]
        arrs = []
        for v in allv:
            if isinstance(v, (np.ndarray, list, tuple)):
                arrs.append(oarr(v))
            else:
                z = np.empty((), dtype=object)
                z[()] = v
                arrs.append(z)
        bc = np.broadcast(*arrs) if arrs else None
        shape = bc.shape if bc is not None else ()
        out = None
        res = []
        for vals in (bc if bc is not None else [()]):
            res.append(self.pyfunc(*vals[: len(args)], **dict(zip(names, vals[len(args):]))))
        if res and isinstance(res[0], tuple):
            outs = []
            for j in range(len(res[0])):
                o = np.empty(shape, dtype=object)
                o.ravel()
                o[...] = np.array([_lift_any(r[j]) for r in res], dtype=object).reshape(shape)
                outs.append(o)
            return tuple(outs)
        out = np.empty(len(res), dtype=object)
        for i, r in enumerate(res):
            out[i] = _lift_any(_unwrap(r))
        return out.reshape(shape)


def solve_linear(A, b):
    A = oarr(A).copy()
    b = oarr(b).copy()
    n = A.shape[0]
    vec = b.ndim == 1
    if vec:
        b = b.reshape(n, 1)
    for k in range(n):
        # choose a pivot that is a non-zero constant when there is one
        best = big = None
        for i in range(k, n):
            a = A[i, k]
            if isinstance(a, Sym) and a.is_const:
                if a.val == 0:
                    continue
                if big is None or abs(a.val) > big:
                    best, big = i, abs(a.val)
            elif isinstance(a, CSym) and a.re.is_const and a.im.is_const and a.re.val == 0 and a.im.val == 0:
                continue
            elif best is None:
                best = i
        if best is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if best != k:
            A[[k, best]] = A[[best, k]]
            b[[k, best]] = b[[best, k]]
        p = A[k, k]
        for i in range(n):
            if i == k:
                continue
            f = A[i, k]
            if isinstance(f, Sym) and f.is_const and f.val == 0:
                continue
            f = f / p
            A[i, :] = A[i, :] - f * A[k, :]
            A[i, k] = const(0)
            b[i, :] = b[i, :] - f * b[k, :]
    for i in range(n):
        b[i, :] = b[i, :] / A[i, i]
    return b[:, 0] if vec else b


class Shim(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = self.__dict__["_real"]
        if real is None:
            raise AttributeError(name)
        v = getattr(real, name)
        if isinstance(v, _b.float):
            return lift(v) if math.isfinite(v) else v
        return v


def _norm(x, ord=None, axis=None, **k):
    if axis is not None or ord not in (None, 2):
        raise Unsupported("norm variant")
    s = const(0)
    for v in oarr(x).ravel():
        s = s + (v.re * v.re + v.im * v.im if isinstance(v, CSym) else v * v)
    return s.sqrt()


def _lstsq(A, b, rcond=None, **k):
    A = oarr(A)
    At = A.T
    x = solve_linear(At @ A, At @ oarr(b))
    return x, np.array([]), A.shape[1], None


def _part(which):
    def f(x):
        if is_scalar(x):
            r = CSym.of(x)
            return r.re if which == "re" else r.im
        if not isinstance(x, np.ndarray):
            x = oarr(x)
        return np.frompyfunc(lambda v: getattr(CSym.of(v), which), 1, 1)(oarr(x))

    return f


def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def one(x, y):
        x, y = lift(x), lift(y)
        return bool(abs(x - y) <= lift(atol) + lift(rtol) * abs(y))

    if is_scalar(a) and is_scalar(b):
        return one(a, b)
    r = np.frompyfunc(one, 2, 1)(a if is_scalar(a) else oarr(a), b if is_scalar(b) else oarr(b))
    return np.asarray(r).astype(bool)


def _clip(a, lo=None, hi=None, **k):
    lo, hi = k.get("a_min", lo), k.get("a_max", hi)
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def _interp(x, xp, fp, **k):
    xp, fp = list(oarr(xp)), list(oarr(fp))

    def one(v):
        v = lift(v)
        if bool(v <= xp[0]):
            return fp[0]
        for i in range(len(xp) - 1):
            if bool(v <= xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1]

    return one(x) if is_scalar(x) else np.frompyfunc(one, 1, 1)(oarr(x))


def _select(conds, vals, default=0):
    r = default
    for c, v in reversed(list(zip(conds, vals))):
        r = where(c, v, r)
    return r


def _piecewise(x, condlist, funclist, *a, **k):
    xs = oarr(x)
    r = zeros(np.shape(xs))
    conds = [np.asarray(c).astype(bool) for c in condlist]
    if len(funclist) == len(conds) + 1:
        conds.append(~np.any(conds, axis=0))
    for c, f in zip(conds, funclist):
        if np.any(c):
            r[c] = f(xs[c], *a, **k) if callable(f) else f
    return r


def _logical(op):
    def f(*a, **k):
        b = [np.asarray(x).astype(bool) if isinstance(x, (np.ndarray, list)) else bool(x) for x in a]
        return getattr(np, op)(*b)

    return f


def _isconst(v):
    def f(x, *a, **k):
        if is_scalar(x):
            return v
        return np.full(np.shape(x), v)

    return f


_NP1 = {
    "sqrt": "sqrt", "exp": "exp", "log": "log", "log10": "log10", "log2": "log2", "log1p": "log1p",
    "expm1": "expm1", "exp2": "exp2", "sin": "sin", "cos": "cos", "tan": "tan", "arcsin": "arcsin",
    "arccos": "arccos", "arctan": "arctan", "asin": "arcsin", "acos": "arccos", "atan": "arctan",
    "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "arctanh": "arctanh", "arcsinh": "arcsinh",
    "arccosh": "arccosh", "radians": "radians", "degrees": "degrees", "deg2rad": "radians",
    "rad2deg": "degrees", "reciprocal": "reciprocal", "abs": "__abs__", "absolute": "__abs__",
    "fabs": "__abs__", "sign": "sign", "cbrt": "cbrt", "negative": "__neg__", "conj": "conjugate",
    "conjugate": "conjugate",
}


def _square(x, **k):
    return x * x if is_scalar(x) else _unwrap(np.frompyfunc(lambda v: v * v, 1, 1)(oarr(x)))


def make_numpy(world):
    over = {k: _ufunc1(v) for k, v in _NP1.items()}
    over["square"] = _square
    for k in ("arctan2", "hypot"):
        over[k] = _ufunc2(lambda a, b, k=k: getattr(lift(a), k)(lift(b)), k)
    over["atan2"] = over["arctan2"]
    over["power"] = over["float_power"] = over["pow"] = _ufunc2(lambda a, b: lift(a) ** lift(b), "power")
    over["divide"] = over["true_divide"] = _ufunc2(lambda a, b: lift(a) / lift(b), "divide")
    over["multiply"] = _ufunc2(lambda a, b: lift(a) * lift(b), "multiply")
    over["add"] = _ufunc2(lambda a, b: lift(a) + lift(b), "add")
    over["subtract"] = _ufunc2(lambda a, b: lift(a) - lift(b), "subtract")
    for k in ("add", "subtract", "multiply", "divide", "true_divide"):
        for meth in ("outer", "reduce", "accumulate"):  # numpy's own work on object arrays
            setattr(over[k], meth, lambda *a, u=getattr(getattr(np, k), meth), **kw: u(*[oarr(x) if isinstance(x, (list, tuple, np.ndarray)) else x for x in a], **kw))
    over.update(
        maximum=maximum, fmax=maximum, minimum=minimum, fmin=minimum, max=maximum.reduce,
        amax=maximum.reduce, min=minimum.reduce, amin=minimum.reduce,
        zeros=zeros, ones=ones, empty=zeros, full=full, zeros_like=_like(zeros), ones_like=_like(ones),
        empty_like=_like(zeros), full_like=full_like, eye=eye, identity=eye, array=array,
        asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, linspace=linspace, arange=arange,
        where=where, vectorize=vectorize, isclose=_isclose, clip=_clip, interp=_interp, select=_select,
        piecewise=_piecewise, logical_and=_logical("logical_and"), logical_or=_logical("logical_or"),
        logical_not=_logical("logical_not"), isnan=_isconst(False), isinf=_isconst(False),
        isfinite=_isconst(True), real=_part("re"), imag=_part("im"),
        pi=sym.PI(), float64=floatS, float_=floatS, double=floatS, complex128=complexS,
    )

    def allclose(a, b, **k):
        return bool(np.all(_isclose(a, b, **k)))

    def isscalar(x):
        return is_scalar(x) or np.isscalar(x)

    def sum_(a, axis=None, **k):
        return np.sum(oarr(a) if not isinstance(a, np.ndarray) else a, axis=axis)

    def mean(a, axis=None, **k):
        a = oarr(a)
        n = a.size if axis is None else a.shape[axis]
        return np.sum(a, axis=axis) / n

    def atleast_1d(x):
        a = asarray(x) if not is_scalar(x) else oarr(x)
        return a.reshape(1) if a.ndim == 0 else a

    def iscomplexobj(x):
        if isinstance(x, np.ndarray):
            return any(isinstance(v, CSym) for v in x.ravel()) if x.dtype == object else np.iscomplexobj(x)
        return isinstance(x, (CSym, complex))

    def vdot(a, b):
        s = const(0)
        for x, y in zip(oarr(a).ravel(), oarr(b).ravel()):
            s = s + (x.conjugate() if hasattr(x, "conjugate") else x) * y
        return s

    over.update(allclose=allclose, isscalar=isscalar, sum=sum_, mean=mean, atleast_1d=atleast_1d,
                iscomplexobj=iscomplexobj, vdot=vdot, trapz=None)
    over.pop("trapz")
    lin = Shim("numpy.linalg", np.linalg, dict(
        solve=solve_linear, norm=_norm, lstsq=_lstsq,
        inv=lambda A: solve_linear(A, eye(len(A))),
    ))
    over["linalg"] = lin
    m = Shim("numpy", np, over)
    return m


def make_math():
    def s1(method):
        def f(x):
            if isinstance(x, np.ndarray):
                if x.size != 1:
                    raise TypeError("only length-1 arrays can be converted to Python scalars")
                x = x.item()
            return getattr(lift(x), method)()

        return f

    over = {k: s1(m) for k, m in {
        "sqrt": "sqrt", "exp": "exp", "log10": "log10", "log2": "log2", "log1p": "log1p", "sin": "sin",
        "expm1": "expm1", "cos": "cos", "tan": "tan", "asin": "arcsin", "acos": "arccos",
        "atan": "arctan", "radians": "radians", "degrees": "degrees", "fabs": "__abs__",
        "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "cbrt": "cbrt",
    }.items()}
    over["log"] = lambda x, b=None: (lift(x).log() if b is None else lift(x).log() / lift(b).log())
    over["atan2"] = lambda y, x: lift(y).arctan2(lift(x))
    over["pow"] = lambda a, b: lift(a) ** lift(b)
    over["hypot"] = lambda a, b: lift(a).hypot(b)
    over["fsum"] = lambda xs: sum(xs, const(0))
    over["pi"] = sym.PI()
    over["isnan"] = lambda x: False
    over["isfinite"] = lambda x: True
    over["isinf"] = lambda x: False
    over["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
        abs(lift(a) - lift(b)) <= _max2(lift(rel_tol) * _max2(abs(lift(a)), abs(lift(b))), lift(abs_tol)))
    over["copysign"] = lambda a, b: abs(lift(a)) if bool(lift(b) >= 0) else -abs(lift(a))
    return Shim("math", math, over)


class Recorder:
    """stand-in for matplotlib: records plot() calls, ignores everything else"""

    def __init__(self, calls, name=""):
        self.__dict__["_calls"] = calls
        self.__dict__["_name"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Recorder(self._calls, n)

    def __call__(self, *a, **k):
        # a drawn curve is the data at the time of the call
        a = tuple(x.copy() if isinstance(x, (np.ndarray, list)) else x for x in a)
        self._calls.append((self._name, a, k))
        return Recorder(self._calls, self._name + "()")

    def __setattr__(self, n, v):
        pass


class World:
    """one symbolic instance of the aerokit package (fresh module state)"""

    concrete = False

    def __init__(self, engine=None, repo=None, roots=None, stubs=None):
        self.engine = engine
        self.repo = repo or REPO
        self.modules = {}
        self.functions = set()
        self.prints = []
        self.plots = []
        self.stubs = stubs or {}
        self.np = make_numpy(self)
        self.math = make_math()
        self.sx = SX(self)
        self.nroots = 0
        self.solver_roots = []
        self.log_roots = set()
        bi = dict(vars(_b))
        bi.update(
            __import__=self._import, float=floatS, complex=complexS, isinstance=_isinstance,
            print=self._print, round=_sround,
        )
        self.builtins = bi
        self.external = {
            "numpy": self.np, "math": self.math, "numpy.linalg": self.np.linalg,
            "scipy.optimize": Shim("scipy.optimize", None, dict(
                newton=self._newton, fsolve=self._fsolve, brentq=self._brentq, bisect=self._brentq,
                root_scalar=self._root_scalar, brenth=self._brentq, ridder=self._brentq, toms748=self._brentq)),
            "scipy.linalg": Shim("scipy.linalg", np.linalg, dict(
                toeplitz=_toeplitz, eig=self._eig, solve=solve_linear, norm=_norm,
                lstsq=_lstsq, inv=self.np.linalg.inv)),
        }
        sc = types.ModuleType("scipy")
        sc.optimize = self.external["scipy.optimize"]
        sc.linalg = self.external["scipy.linalg"]
        self.external["scipy"] = sc

    def _print(self, *a, **k):
        self.prints.append(" ".join(str(x) for x in a))

    # ------------------------------------------------------------ imports
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - level + 1])
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "aerokit":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and self._path(name + "." + f):
                        self.load(name + "." + f)
                return m
            return self.load("aerokit")
        if top == "matplotlib":
            return Recorder(self.plots, "plt")
        if name in self.external:
            return self.external[name] if fromlist else self.external[top]
        if top == "numpy":
            real = importlib.import_module(name)
            return real if fromlist else self.np
        if top == "scipy":
            raise ImportError("no symbolic model of " + name)
        if self._path(name):  # implicit sibling import does not exist in Python 3
            pass
        return _b.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            return p if os.path.exists(p) else base
        p = base + ".py"
        return p if os.path.exists(p) else None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        path = self._path(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith("__init__.py") or os.path.isdir(path)
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path) if path.endswith(".py") else path]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__sx__"] = self.sx
        self.modules[name] = m
        try:
            if not os.path.isdir(path):
                exec(compiled(path), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        for full, fn in self.stubs.items():
            mod, _, attr = full.rpartition(".")
            if mod == name:
                setattr(m, attr, fn(self))
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            setattr(self.modules[parent], leaf, m)
        return m

    # ------------------------------------------------------------ contract stubs
    def new_root(self, solver=True):
        self.nroots += 1
        r = sym.mk("root", (), "root%d" % self.nroots)
        if solver:
            self.solver_roots.append(r.val)
        return r

    def _root_elem(self, f, guess, kind, bracket=None):
        r = self.new_root()
        return r

    def _unknown(self, func):
        """residual of a new unknown; where the unknown is the logarithm of a quantity, this quantity is the root"""
        r, sym.S.probe = self.new_root(), None
        sym.S.probe = r
        try:
            return r, func(r), False
        except sym.Probed:
            sym.S.probe = None
            if r.val in self.solver_roots:
                self.solver_roots.remove(r.val)
            r = self.new_root()
            self.log_roots.add(r.val)
            self.engine.assume(sym.const(0) < r)
            return r, func(r.log()), True
        finally:
            sym.S.probe = None

    def _newton(self, func, x0, fprime=None, args=(), tol=None, maxiter=None, fprime2=None, x1=None,
                rtol=0.0, full_output=False, disp=True):
        arr = isinstance(x0, (np.ndarray, list)) and np.size(x0) >= 1
        if isinstance(x0, np.ndarray) and x0.ndim == 0:
            x0 = x0.item()
            arr = False
        if not arr:
            g = lift(x0)
            r, res, wrap = self._unknown(lambda r: func(r, *args))
            if isinstance(res, np.ndarray):
                if res.size != 1:
                    raise Unsupported("newton: residual shape")
                res = res.item()
            out = self.engine.add_root(r, lift(res), g.exp() if wrap else g, "newton")
            out = out.log() if wrap else out
        else:
            g = oarr(x0)
            shape = g.shape
            rs = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                rs[i] = self.new_root()
            res = oarr(func(rs, *args))
            res = np.broadcast_to(res, shape)
            for i in np.ndindex(*shape):
                rs[i] = self.engine.add_root(rs[i], lift(res[i]), lift(g[i]), "newton")
            out = rs
        if full_output:
            return out, types.SimpleNamespace(converged=True, root=out)
        return out

    def _fsolve(self, func, x0, args=(), fprime=None, full_output=0, **k):
        if not isinstance(args, tuple):
            args = (args,)
        g = oarr(x0)
        shape = g.shape if g.ndim else (1,)
        g = g.reshape(shape)
        rs = np.empty(shape, dtype=object)
        if shape == (1,):
            r, res, wrap = self._unknown(lambda r: oarr(func(oarr([r]), *args)))
            r = self.engine.add_root(r, lift(res.reshape(1)[0]), g[0].exp() if wrap else g[0], "fsolve")
            rs[0] = r.log() if wrap else r
            return (rs, {}, 1, "") if full_output else rs
        for i in np.ndindex(*shape):
            rs[i] = self.new_root()
        res = np.broadcast_to(oarr(func(rs, *args)), shape)
        for i in np.ndindex(*shape):
            rs[i] = self.engine.add_root(rs[i], lift(res[i]), lift(g[i]), "fsolve")
        if full_output:
            return rs, {}, 1, ""
        return rs

    def _brentq(self, f, a, b, args=(), **k):
        a, b = lift(a), lift(b)
        r, res, wrap = self._unknown(lambda r: f(r, *args))
        r = self.engine.add_root(r, lift(_unwrap(res)), ((a + b) / 2).exp() if wrap else (a + b) / 2, "bracket")
        r = r.log() if wrap else r
        self.engine.assume(a <= r)
        self.engine.assume(r <= b)
        if k.get("full_output"):
            return r, types.SimpleNamespace(converged=True, root=r)
        return r

    def _root_scalar(self, f, args=(), method=None, bracket=None, x0=None, x1=None, **k):
        if bracket is not None:
            r = self._brentq(f, bracket[0], bracket[1], args)
        else:
            r = self._newton(f, x0, args=args)
        return types.SimpleNamespace(root=r, converged=True, flag="converged")

    eig_hook = None

    def _eig(self, A, B=None, **k):
        """the harness knows the eigenvectors of its pencil: they must be those of the pencil given"""
        if self.eig_hook is None:
            raise Unsupported("eigenvalue decomposition")
        A = oarr(A)
        B = np.vectorize(lift, otypes=[object])(np.eye(len(A))) if B is None else oarr(B)
        return self.eig_hook(A, B)


def _toeplitz(c, r=None):
    c = list(np.asarray(c, dtype=object).ravel())
    r = list(np.asarray(r if r is not None else c, dtype=object).ravel())
    out = np.empty((len(c), len(r)), dtype=object)
    for i in range(len(c)):
        for j in range(len(r)):
            out[i, j] = c[i - j] if i >= j else r[j - i]
    return out


def secant_contract(world):
    """contract of IterativeSolve.secant_solve: returns x with f(x)=y (checked on its own by C29)"""

    def solve(f, y, x, tol=None):
        def one(y, x):
            r = world.new_root(False)
            return world.engine.add_root(r, lift(_unwrap(f(r))) - y, lift(x), "secant")

        y = _unwrap(y)
        x = _unwrap(x)
        if is_scalar(y) and is_scalar(x):
            out = np.empty((), dtype=object)
            out[()] = one(lift(y), lift(x))
            return out
        ys, xs = np.broadcast_arrays(oarr(y), oarr(x))
        out = np.empty(ys.shape, dtype=object)
        for i in np.ndindex(*ys.shape):
            out[i] = one(ys[i], xs[i])
        return out

    return solve


# ======================================================================= the concrete world
_SOLVERS = {}


class ConcreteWorld:
    concrete = True

    def __init__(self, repo=None, stubs=None):
        self.repo = repo or REPO
        self.prints = []
        self.plots = []
        self.functions = set()
        for k in [k for k in sys.modules if k == "aerokit" or k.startswith("aerokit.")]:
            del sys.modules[k]
        if sys.path[0] != self.repo:
            sys.path[:] = [p for p in sys.path if p != self.repo]
            sys.path.insert(0, self.repo)
        if "matplotlib" not in sys.modules:
            try:
                import matplotlib  # noqa
                matplotlib.use("Agg")
            except ImportError:
                pass
        mp = types.ModuleType("matplotlib")
        rec = Recorder(self.plots, "plt")
        pp = types.ModuleType("matplotlib.pyplot")
        pp.__getattr__ = lambda n: getattr(rec, n)
        mp.pyplot = pp
        mp.__path__ = []
        sys.modules["matplotlib"] = mp
        sys.modules["matplotlib.pyplot"] = pp
        self.np = np
        self.math = math
        self.solver_values = []  # what the root finders returned, in calling order
        self._record_solvers()

    def _record_solvers(self):
        import scipy.optimize as so

        if not _SOLVERS:
            _SOLVERS.update({k: getattr(so, k) for k in (
                "newton", "fsolve", "brentq", "bisect", "brenth", "ridder", "toms748", "root_scalar")})
        vals = self.solver_values

        def wrap(f):
            def g(fun, *a, **k):
                slot = []
                vals.append(slot)
                out = f(fun, *a, **k)
                x = out[0] if isinstance(out, tuple) else getattr(out, "root", out)
                slot.extend(float(v) for v in np.asarray(x, dtype=float).ravel())
                return out

            return g

        for k, f in _SOLVERS.items():
            setattr(so, k, wrap(f))

    def load(self, name):
        sys.dont_write_bytecode = True
        m = importlib.import_module(name)
        if not getattr(m, "__file__", "").startswith(self.repo):
            raise Unsupported("aerokit imported from %s" % m.__file__)
        return m
