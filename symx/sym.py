"""Symbolic reals: a hash-consed expression DAG with Python operator overloading.

The aerokit functions are *executed* on these objects (through numpy's object-dtype arrays and
the shims of world.py); truth tests on symbolic comparisons are answered by the engine, which
explores every feasible outcome.
"""
from fractions import Fraction as F
import math
import numbers
import numpy as np
import mpmath

from .nf import Unsupported


class Probed(Exception):
    """the exponential of the unknown of a solver is taken"""


class Session:
    """global state of the current harness exploration (one at a time)"""

    def __init__(self):
        self.table = {}
        self.nodes = []
        self.decide = None  # callable(SymBool) -> bool
        self.probe = None  # unknown of the residual being called (world._unknown)
        self.digits = 0  # >0: constants are kept to that many digits (harness option digits)
        self.roots = {}  # root name -> (residual node, guess node, kind)   (of the current path)


S = Session()


def reset():
    global S
    S.__init__()


class Sym:
    __slots__ = ("op", "args", "val", "id", "__weakref__")
    __array_priority__ = -1.0

    # ------------------------------------------------------------ identity
    def __hash__(self):
        if self.op == "const":
            return hash(self.val)
        return hash((self.id, 7919))

    def __repr__(self):
        if self.op == "const":
            return str(self.val) if self.val.denominator == 1 else repr(float(self.val))
        if self.op in ("var", "root"):
            return str(self.val)
        return "<%s#%d>" % (self.op, self.id)

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        if self.op == "const":
            try:
                return format(float(self.val), spec)
            except (ValueError, OverflowError):
                return repr(self)
        return repr(self)

    @property
    def is_const(self):
        return self.op == "const"

    # ------------------------------------------------------------ arithmetic
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else (add(self, o) if isinstance(o, Sym) else o.__radd__(self))

    def __radd__(self, o):
        o = lift(o)
        return NotImplemented if o is None else (add(o, self) if isinstance(o, Sym) else o + self)

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else (add(self, neg(o)) if isinstance(o, Sym) else o.__rsub__(self))

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else (add(o, neg(self)) if isinstance(o, Sym) else o - self)

    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else (mul(self, o) if isinstance(o, Sym) else o.__rmul__(self))

    def __rmul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else (mul(o, self) if isinstance(o, Sym) else o * self)

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else (div(self, o) if isinstance(o, Sym) else o.__rtruediv__(self))

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else (div(o, self) if isinstance(o, Sym) else o / self)

    def __pow__(self, o, mod=None):
        o = lift(o)
        if o is None or not isinstance(o, Sym):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o, mod=None):
        o = lift(o)
        if o is None or not isinstance(o, Sym):
            return NotImplemented
        return power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.op == "const":
            return const(abs(self.val))
        return self if bool(self >= 0) else neg(self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is not None and self.is_const and o.is_const:
            return const(self.val // o.val)
        raise Unsupported("floor division of symbolic values")

    def __rfloordiv__(self, o):
        return lift(o).__floordiv__(self)

    def __mod__(self, o):
        o = lift(o)
        if o is not None and self.is_const and o.is_const:
            return const(self.val % o.val)
        raise Unsupported("modulo of symbolic values")

    def __rmod__(self, o):
        return lift(o).__mod__(self)

    def __matmul__(self, o):
        return NotImplemented

    # ------------------------------------------------------------ comparisons
    def _cmp(self, op, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, Sym):
            return NotImplemented
        return compare(op, self, o2)

    def __lt__(self, o):
        return self._cmp("lt", o)

    def __le__(self, o):
        return self._cmp("le", o)

    def __gt__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None or not isinstance(o2, Sym) else compare("lt", o2, self)

    def __ge__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None or not isinstance(o2, Sym) else compare("le", o2, self)

    def __eq__(self, o):
        return self._cmp("eq", o)

    def __ne__(self, o):
        r = self._cmp("eq", o)
        if r is NotImplemented:
            return r
        return ~r

    def __bool__(self):
        if self.op == "const":
            return self.val != 0
        return bool(self != 0)

    # ------------------------------------------------------------ conversions
    def __float__(self):
        if self.op == "const":
            return float(self.val)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.op == "const":
            return int(self.val)
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.op == "const" and self.val.denominator == 1:
            return int(self.val)
        raise TypeError("symbolic value used as an index")

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if self.op == "const":
            return const(round(self.val, n)) if n is not None else int(round(self.val))
        raise Unsupported("round() of a symbolic value")

    def __floor__(self):
        if self.op == "const":
            return math.floor(self.val)
        raise Unsupported("floor of a symbolic value")

    def __ceil__(self):
        if self.op == "const":
            return math.ceil(self.val)
        raise Unsupported("ceil of a symbolic value")

    floor = __floor__
    ceil = __ceil__

    def __trunc__(self):
        return self.__int__()

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO()

    def conjugate(self):
        return self

    # numpy-scalar look-alike (a float64 scalar has these)
    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def T(self):
        return self

    def sum(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def flatten(self):
        return np.array([self], dtype=object)

    ravel = flatten

    def astype(self, *_a, **_k):
        return self

    def is_integer(self):
        return self.op == "const" and self.val.denominator == 1

    # ------------------------------------------------------------ functions (numpy object ufuncs)
    def sqrt(self):
        return power(self, const(F(1, 2)))

    def cbrt(self):
        if bool(self >= 0):
            return power(self, const(F(1, 3)))
        return neg(power(neg(self), const(F(1, 3))))

    def square(self):
        return mul(self, self)

    def reciprocal(self):
        return div(const(1), self)

    def exp(self):
        if self.op == "root" and self is S.probe:
            raise Probed()
        if self.op == "log":
            return self.args[0]
        return mk("exp", (self,)) if not (self.is_const and self.val == 0) else const(1)

    def expm1(self):
        return self.exp() - 1

    def exp2(self):
        return power(const(2), self)

    def log(self):
        return mk("log", (self,)) if not (self.is_const and self.val == 1) else const(0)

    def log1p(self):
        return (self + 1).log()

    def log10(self):
        return self.log() / const(10).log()

    def log2(self):
        return self.log() / const(2).log()

    def sin(self):
        return mk("sin", (self,)) if not (self.is_const and self.val == 0) else const(0)

    def cos(self):
        return mk("cos", (self,)) if not (self.is_const and self.val == 0) else const(1)

    def tan(self):
        return div(self.sin(), self.cos())

    def arctan(self):
        return mk("atan", (self,)) if not (self.is_const and self.val == 0) else const(0)

    def arcsin(self):
        return mk("asin", (self,)) if not (self.is_const and self.val == 0) else const(0)

    def arccos(self):
        return mk("acos", (self,))

    def arctan2(self, x):
        return mk("atan2", (self, lift(x)))

    def sinh(self):
        e = self.exp()
        return (e - 1 / e) / 2

    def cosh(self):
        e = self.exp()
        return (e + 1 / e) / 2

    def tanh(self):
        e = (self * 2).exp()
        return (e - 1) / (e + 1)

    def arctanh(self):
        return ((1 + self) / (1 - self)).log() / 2

    def arcsinh(self):
        return (self + (self * self + 1).sqrt()).log()

    def arccosh(self):
        return (self + (self * self - 1).sqrt()).log()

    def radians(self):
        return mul(self, div(PI(), const(180)))

    deg2rad = radians

    def degrees(self):
        return mul(self, div(const(180), PI()))

    rad2deg = degrees

    def hypot(self, o):
        return (self * self + lift(o) * lift(o)).sqrt()

    def sign(self):
        if bool(self > 0):
            return const(1)
        if bool(self < 0):
            return const(-1)
        return const(0)

    def fabs(self):
        return abs(self)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False


numbers.Real.register(Sym)


class CSym:
    """complex symbolic value"""

    __slots__ = ("re", "im")
    __array_priority__ = -1.0

    def __init__(self, re, im):
        self.re, self.im = lift(re), lift(im)

    @staticmethod
    def of(o):
        if isinstance(o, CSym):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return CSym(o.real, o.imag)
        s = lift(o)
        if s is None:
            return None
        return CSym(s, const(0))

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return CSym(self.re, -self.im)

    def __add__(self, o):
        o = CSym.of(o)
        return NotImplemented if o is None else CSym(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return CSym(-self.re, -self.im)

    def __sub__(self, o):
        o = CSym.of(o)
        return NotImplemented if o is None else CSym(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = CSym.of(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = CSym.of(o)
        return (
            NotImplemented
            if o is None
            else CSym(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
        )

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = CSym.of(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return CSym(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        o = CSym.of(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, n):
        n = int(n)
        if n < 0:
            return CSym.of(1) / self ** (-n)
        r = CSym.of(1)
        for _ in range(n):
            r = r * self
        return r

    def __abs__(self):
        return (self.re * self.re + self.im * self.im).sqrt()

    def __eq__(self, o):
        o = CSym.of(o)
        if o is None:
            return NotImplemented
        return (self.re == o.re) & (self.im == o.im)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return "(%r+%rj)" % (self.re, self.im)

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool:
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b

    def __bool__(self):
        return decide(self)

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        if isinstance(o, SymBool):
            return SymBool("and", self, o)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        if isinstance(o, SymBool):
            return SymBool("or", self, o)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) != bool(o)

    def __invert__(self):
        return SymBool("not", self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash((self.op, self.a, self.b))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __rsub__(self, o):
        return o - int(bool(self))

    def __sub__(self, o):
        return int(bool(self)) - o

    def item(self):
        return bool(self)

    def any(self, *a, **k):
        return bool(self)

    all = any

    def logical_not(self):
        return not bool(self)

    def __repr__(self):
        return "<%s>" % self.op


def decide(b):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if b.op == "and":
        return decide(b.a) and decide(b.b)
    if b.op == "or":
        return decide(b.a) or decide(b.b)
    if b.op == "not":
        return not decide(b.a)
    if S.decide is None:
        raise Unsupported("truth value of a symbolic comparison outside an exploration")
    return S.decide(b)


# ---------------------------------------------------------------- construction
def _rounded(x):
    """mpf or Fraction -> Fraction with S.digits significant digits"""
    with mpmath.workdps(S.digits + 15):
        if isinstance(x, F):
            x = mpmath.mpf(x.numerator) / x.denominator
        if not mpmath.isfinite(x) or isinstance(x, mpmath.mpc):
            raise Unsupported("non-finite constant")
        if x == 0:
            return F(0)
        e = S.digits - int(mpmath.floor(mpmath.log10(abs(x))))
        n = int(mpmath.nint(x * mpmath.mpf(10) ** e))
        return F(n, 10 ** e) if e >= 0 else F(n * 10 ** -e)


def _fold(op, args, val):
    with mpmath.workdps(S.digits + 15):
        a = [+mpmath.pi if c.op == "pi" else mpmath.mpf(c.val.numerator) / c.val.denominator for c in args]
        n = object.__new__(Sym)
        n.op, n.args, n.val = op, args, val
        try:
            v = _mpop(op, n, a)
        except (ValueError, OverflowError):
            raise Unsupported("non-finite constant")
        if op in ("sin", "cos") and abs(v) < mpmath.mpf(10) ** (8 - S.digits):
            v = mpmath.mpf(0)
    return const(_rounded(v))


def mk(op, args, val=None):
    if S.digits and args and all(c.op in ("const", "pi") for c in args):
        return _fold(op, args, val)
    key = (op, tuple(a.id for a in args), val)
    n = S.table.get(key)
    if n is None:
        n = object.__new__(Sym)
        n.op, n.args, n.val = op, args, val
        n.id = len(S.nodes)
        S.nodes.append(n)
        S.table[key] = n
    return n


def const(v):
    if not isinstance(v, F):
        v = F(v)
    if S.digits and v.denominator.bit_length() > 4 * S.digits:
        v = _rounded(v)
    return mk("const", (), v)


def var(name):
    return mk("var", (), name)


def ZERO():
    return const(0)


def PI():
    return mk("pi", ())


def float_fraction(x):
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported("non-finite constant")
    return F(repr(float(x)))


def lift(o):
    """python/numpy number -> Sym;  None if it is not a scalar number"""
    if isinstance(o, Sym):
        return o
    if isinstance(o, CSym):
        return o
    if isinstance(o, SymBool):
        return const(1 if bool(o) else 0)
    if isinstance(o, (bool, np.bool_)):
        return const(int(o))
    if isinstance(o, (int, np.integer)):
        return const(int(o))
    if isinstance(o, (float, np.floating)):
        return const(float_fraction(o))
    if isinstance(o, F):
        return const(o)
    if isinstance(o, (complex, np.complexfloating)):
        return CSym(o.real, o.imag)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return None


def add(a, b):
    if a.op == "const":
        if b.op == "const":
            return const(a.val + b.val)
        if a.val == 0:
            return b
    elif b.op == "const" and b.val == 0:
        return a
    return mk("add", (a, b))


def neg(a):
    if not isinstance(a, Sym):
        return -a
    if a.op == "const":
        return const(-a.val)
    return mk("mul", (const(-1), a))


def mul(a, b):
    if a.op == "const":
        if b.op == "const":
            return const(a.val * b.val)
        if a.val == 0:
            return a
        if a.val == 1:
            return b
    elif b.op == "const":
        if b.val == 0:
            return b
        if b.val == 1:
            return a
    return mk("mul", (a, b))


def div(a, b):
    if b.op == "const":
        if b.val == 0:
            raise ZeroDivisionError("division by zero")
        if a.op == "const":
            return const(a.val / b.val)
        return mul(a, const(1 / b.val))
    if a.op == "const" and a.val == 0:
        return a
    return mk("div", (a, b))


def _iroot(n, k):
    if n in (0, 1):
        return n
    r = int(round(n ** (1.0 / k))) if n < 2**900 else None
    if r is None:
        r = int(mpmath.floor(mpmath.root(n, k)))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c**k == n:
            return c
    return None


def power(a, b):
    if b.op == "const":
        e = b.val
        if e == 1:
            return a
        if e == 0:
            return const(1)
        if a.op == "const":
            if e.denominator == 1 and abs(e) < 400:
                if a.val == 0 and e < 0:
                    raise ZeroDivisionError("0 to a negative power")
                return const(a.val ** int(e))
            if a.val == 0 and e > 0:
                return const(0)
            if a.val > 0 and e.denominator <= 6 and abs(e.numerator) < 60:
                n, d = _iroot(a.val.numerator, e.denominator), _iroot(a.val.denominator, e.denominator)
                if n is not None and d is not None:
                    return const(F(n, d) ** e.numerator)
    if a.op == "const" and a.val == 1:
        return a
    return mk("pow", (a, b))


def compare(op, a, b):
    if a is b:
        return op in ("le", "eq")
    if a.op == "const" and b.op == "const":
        return {"lt": a.val < b.val, "le": a.val <= b.val, "eq": a.val == b.val}[op]
    return SymBool(op, a, b)


# ---------------------------------------------------------------- traversal
def cone(roots):
    """nodes reachable from roots, children first"""
    seen, out, st = set(), [], [(r, False) for r in reversed(list(roots))]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for c in n.args:
            if c.id not in seen:
                st.append((c, False))
    return out


def substitute(root, mapping, memo=None):
    """replace nodes by id"""
    memo = {} if memo is None else memo
    for n in cone([root]):
        if n.id in memo:
            continue
        if n.id in mapping:
            memo[n.id] = mapping[n.id]
            continue
        if not n.args:
            memo[n.id] = n
            continue
        a = tuple(memo[c.id] for c in n.args)
        if a == () or all(x is y for x, y in zip(a, n.args)):
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n.op, a, n.val)
    return memo[root.id]


def rebuild(op, a, val=None):
    if op == "add":
        return add(*a)
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "pow":
        return power(*a)
    return mk(op, a, val)


def diff(root, v, memo=None):
    """symbolic derivative d root / d v  (v a var or root node)"""
    memo = {} if memo is None else memo
    zero, one = const(0), const(1)
    for n in cone([root]):
        if n.id in memo:
            continue
        if n is v:
            memo[n.id] = one
            continue
        op = n.op
        if op in ("const", "var", "pi"):
            memo[n.id] = zero
            continue
        if op == "root":
            if n.val not in S.roots:
                raise Unsupported("derivative of a pending root")
            res = S.roots[n.val][0]
            f_v = diff(res, v, {n.id: zero})
            memo[n.id] = zero if f_v is zero else neg(div(f_v, diff(res, n)))
            continue
        a = n.args
        d = [memo[c.id] for c in a]
        if all(x is zero for x in d):
            memo[n.id] = zero
            continue
        if op == "add":
            r = add(d[0], d[1])
        elif op == "mul":
            r = add(mul(d[0], a[1]), mul(a[0], d[1]))
        elif op == "div":
            r = add(div(d[0], a[1]), neg(div(mul(a[0], d[1]), mul(a[1], a[1]))))
        elif op == "pow":
            r = zero
            if d[0] is not zero:
                r = mul(mul(a[1], power(a[0], add(a[1], const(-1)))), d[0])
            if d[1] is not zero:
                r = add(r, mul(mul(n, a[0].log()), d[1]))
        elif op == "log":
            r = div(d[0], a[0])
        elif op == "exp":
            r = mul(n, d[0])
        elif op == "sin":
            r = mul(a[0].cos(), d[0])
        elif op == "cos":
            r = neg(mul(a[0].sin(), d[0]))
        elif op == "atan":
            r = div(d[0], add(one, mul(a[0], a[0])))
        elif op == "asin":
            r = div(d[0], add(one, neg(mul(a[0], a[0]))).sqrt())
        elif op == "acos":
            r = neg(div(d[0], add(one, neg(mul(a[0], a[0]))).sqrt()))
        elif op == "atan2":
            y, x = a
            r = div(add(mul(x, d[0]), neg(mul(y, d[1]))), add(mul(x, x), mul(y, y)))
        else:
            raise Unsupported("derivative of " + op)
        memo[n.id] = r
    return memo[root.id]


# ---------------------------------------------------------------- numeric evaluation
class Batch:
    """float64 evaluation of nodes on a batch of sample environments"""

    def __init__(self, envs):
        self.envs = envs  # list of dict name -> float
        self.n = len(envs)
        self.memo = {}
        self.busy = set()

    def get(self, root):
        memo = self.memo
        r = memo.get(root.id)
        if r is not None:
            return r
        with np.errstate(all="ignore"):
            for n in cone([root]):
                if n.id in memo:
                    continue
                memo[n.id] = self._eval(n)
        return memo[root.id]

    def _eval(self, n):
        op = n.op
        m = self.memo
        if op == "const":
            try:
                return np.full(self.n, float(n.val))
            except OverflowError:
                return np.full(self.n, math.inf if n.val > 0 else -math.inf)
        if op == "pi":
            return np.full(self.n, math.pi)
        if op == "var":
            return np.array([float(e[n.val]) if n.val in e else math.nan for e in self.envs])
        if op == "root":
            return self._root(n)
        a = [m[c.id] for c in n.args]
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1]
        if op == "pow":
            if n.args[1].op == "const" and n.args[1].val.denominator == 1:
                return a[0] ** float(n.args[1].val)
            return np.where(a[0] < 0, math.nan, np.abs(a[0]) ** a[1])
        if op == "atan2":
            return np.arctan2(a[0], a[1])
        return {
            "log": np.log, "exp": np.exp, "sin": np.sin, "cos": np.cos,
            "atan": np.arctan, "asin": np.arcsin, "acos": np.arccos,
        }[op](a[0])

    def _root(self, n):
        spec = S.roots.get(n.val)
        if spec is None or n.id in self.busy:
            return np.full(self.n, math.nan)
        res, guess, kind = spec
        if kind == "definition":
            self.busy.add(n.id)
            v = self.get(guess)
            self.busy.discard(n.id)
            return v
        order = cone([res])
        dep = set()
        for k in order:
            if k is n or any(c.id in dep for c in k.args):
                dep.add(k.id)
        self.busy.add(n.id)
        for k in order:
            if k.id not in dep and k.id not in self.memo:
                self.memo[k.id] = self._eval(k)
        g = self.get(guess)
        self.busy.discard(n.id)
        chain = [k for k in order if k.id in dep and k is not n]

        def f(x):
            m = self.memo
            m[n.id] = x
            for k in chain:
                m[k.id] = self._eval(k)
            return m[res.id]

        with np.errstate(all="ignore"):
            x0 = np.array(g, dtype=float)
            x1 = x0 * (1 + 1e-4) + np.where(x0 >= 0, 1e-4, -1e-4)
            f0, f1 = np.array(f(x0)), np.array(f(x1))
            for _ in range(100):
                d = f1 - f0
                done = (d == 0) | (f1 == 0)
                x2 = np.where(done, x1, x1 - f1 * (x1 - x0) / np.where(d == 0, 1, d))
                f2 = np.array(f(x2))
                # halve steps that leave the domain
                for _k in range(8):
                    bad = ~np.isfinite(f2) & np.isfinite(f1)
                    if not bad.any():
                        break
                    x2 = np.where(bad, 0.5 * (x1 + x2), x2)
                    f2 = np.array(f(x2))
                if np.all(np.abs(x2 - x1) <= 1e-15 * np.abs(x2)) or np.all(done):
                    x0, x1, f0, f1 = x1, x2, f1, f2
                    break
                x0, x1, f0, f1 = x1, x2, f1, f2
            sc = np.abs(f(x1 * 1.01)) + np.abs(f(x1 * 0.99)) + 1e-300
            x = np.where(np.isfinite(f1) & (np.abs(f1) <= 1e-6 * sc), x1, math.nan)
        for k in chain:
            self.memo.pop(k.id, None)
        self.memo[n.id] = x
        return x


def mp_eval(roots, env, dps=40):
    """mpmath evaluation at one environment (name -> Fraction/float);  nan when undefined"""
    with mpmath.workdps(dps):
        memo = {}
        nan = mpmath.mpf("nan")
        for n in cone(roots):
            op = n.op
            if op == "const":
                v = mpmath.mpf(n.val.numerator) / n.val.denominator
            elif op == "pi":
                v = +mpmath.pi
            elif op == "var":
                x = env.get(n.val)
                v = nan if x is None else (
                    mpmath.mpf(x.numerator) / x.denominator if isinstance(x, F) else mpmath.mpf(x)
                )
            elif op == "root":
                if n.val in env:
                    x = env[n.val]
                    v = mpmath.mpf(x.numerator) / x.denominator if isinstance(x, F) else mpmath.mpf(x)
                else:
                    v = _mp_root(n, env)
            else:
                a = [memo[c.id] for c in n.args]
                try:
                    v = _mpop(op, n, a)
                except (ZeroDivisionError, ValueError, OverflowError):
                    v = nan
                if isinstance(v, mpmath.mpc):
                    v = nan
            memo[n.id] = v
        return [memo[r.id] for r in roots]


def _mp_root(n, env):
    if n.val in S.roots and S.roots[n.val][2] == "definition":
        return mp_eval([S.roots[n.val][1]], env, dps=mpmath.mp.dps)[0]
    b = Batch([{k: float(x) for k, x in env.items()}])
    x = mpmath.mpf(float(b.get(n)[0]))
    res = S.roots[n.val][0] if n.val in S.roots else None
    if res is None or not mpmath.isfinite(x):
        return x
    try:  # polish
        e2 = dict(env)
        for _ in range(4):
            h = x * mpmath.mpf(10) ** -18
            vals = []
            for t in (x, x + h):
                e2[n.val] = t
                vals.append(mp_eval([res], e2, dps=mpmath.mp.dps)[0])
            d = (vals[1] - vals[0]) / h
            if d == 0 or not mpmath.isfinite(d):
                break
            x = x - vals[0] / d
    except Exception:
        pass
    return x


def _mpop(op, n, a):
    if op == "add":
        return a[0] + a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "div":
        return a[0] / a[1]
    if op == "pow":
        e = n.args[1]
        if e.op == "const" and e.val.denominator == 1:
            return a[0] ** int(e.val)
        if a[0] < 0:
            return mpmath.mpf("nan")
        return a[0] ** a[1]
    if op == "log":
        return mpmath.log(a[0]) if a[0] > 0 else mpmath.mpf("nan")
    if op == "atan2":
        return mpmath.atan2(a[0], a[1])
    if op in ("asin", "acos") and abs(a[0]) > 1:
        return mpmath.mpf("nan")
    return getattr(mpmath, op)(a[0])
