"""Exact normal forms for symbolic real expressions.

A value is a rational function  num / prod(factor**mult)  over Q in "generators":
input variables, pi, powers  f**e  of positive bases (e rational or symbolic), logs,
sines/cosines of basis angles and inverse-trig angles.  Products of powers of the same
base are merged exactly (exponents form a Q-vector space over rational functions), sin**2
is rewritten to 1-cos**2, so two expressions that are equal by the algebra of powers, logs
and trigonometric addition have the same normal form and their difference is the
polynomial 0.  Everything that is left over is handed to the SMT solver together with the
defining constraints of the generators (see lower()).
"""
from fractions import Fraction as F
from sympy.polys.rings import ring as _ring
from sympy import QQ, factorint
import math

ONE_M = ()


class Unsupported(Exception):
    """the construct cannot be encoded; the verdict is then inconclusive"""


# ------------------------------------------------------------------ polynomials
def p_const(c):
    c = F(c)
    return {ONE_M: c} if c else {}


def p_is_const(p):
    return not p or (len(p) == 1 and ONE_M in p)


def p_cval(p):
    return p.get(ONE_M, F(0))


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_key(p):
    return tuple(sorted(p.items()))


def p_gens(p):
    s = set()
    for m in p:
        for g, _ in m:
            s.add(g)
    return s


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for g, e in b:
        d[g] = d.get(g, 0) + e
    return tuple(sorted(d.items()))


_rings = {}


def get_ring(n):
    r = _rings.get(n)
    if r is None:
        r = _ring(["x%d" % i for i in range(n)], QQ)[0] if n else None
        _rings[n] = r
    return r


def to_sympy(p, gens):
    idx = {g: i for i, g in enumerate(gens)}
    n = len(gens)
    R = get_ring(n)
    d = {}
    for m, c in p.items():
        v = [0] * n
        for g, e in m:
            v[idx[g]] = e
        d[tuple(v)] = QQ(c.numerator, c.denominator)
    return R.from_dict(d)


def from_sympy(q, gens):
    r = {}
    for v, c in q.terms():
        m = tuple((gens[i], e) for i, e in enumerate(v) if e)
        r[tuple(sorted(m))] = F(int(c.numerator), int(c.denominator))
    return r


class Gen:
    __slots__ = ("id", "kind", "data", "special", "name")

    def __init__(self, id, kind, data, special, name):
        self.id, self.kind, self.data, self.special, self.name = id, kind, data, special, name


class RF:
    """num / prod(factors[fid]**mult);  immutable"""

    __slots__ = ("num", "den", "_key")

    def __init__(self, num, den=()):
        self.num, self.den, self._key = num, den, None

    @property
    def key(self):
        if self._key is None:
            self._key = (p_key(self.num), self.den)
        return self._key

    def is_zero(self):
        return not self.num

    def is_const(self):
        return not self.den and p_is_const(self.num)

    def cval(self):
        return p_cval(self.num)


class NF:
    """normal-form context: generator and factor registries"""

    FACTOR_LIMIT = 250

    def __init__(self, sign_oracle=None):
        self.gens = []
        self.gen_by_key = {}
        self.factors = []  # list of P
        self.factor_by_key = {}
        self.fact_cache = {}
        self.bases = []  # positive bases P of power generators
        self.base_by_key = {}
        self.sign_oracle = sign_oracle or (lambda p: 0)
        self.sign_cache = {}
        self.PI = self.gen("pi", None, name="pi")
        self.E_BASE = None
        self.approx_trig = False
        self.phi_cache = {}
        self.pow_axiom_gens = {}

    # ---------------------------------------------------------------- generators
    def gen(self, kind, data, key=None, special=False, name=None):
        k = (kind, key if key is not None else data)
        g = self.gen_by_key.get(k)
        if g is None:
            g = Gen(len(self.gens), kind, data, special, name or "%s%d" % (kind, len(self.gens)))
            self.gens.append(g)
            self.gen_by_key[k] = g
        return g

    def var(self, name):
        return self.gen("var", name, name=name)

    def rf_gen(self, g):
        return RF({((g.id, 1),): F(1)})

    # ---------------------------------------------------------------- poly product with reductions
    def p_mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) > len(b):
            a, b = b, a
        r = {}
        gens = self.gens
        pend = None
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m_mul(m1, m2)
                if m1 and m2 and self._needs_reduce(m):
                    if pend is None:
                        pend = []
                    pend.append((m, c1 * c2))
                    continue
                v = r.get(m)
                if v is None:
                    r[m] = c1 * c2
                else:
                    v = v + c1 * c2
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        if pend:
            for m, c in pend:
                q = self._reduce_mono(m)
                r = p_add(r, p_scale(q, c))
        return r

    def _needs_reduce(self, m):
        seen = None
        for g, e in m:
            G = self.gens[g]
            if G.special:
                if G.kind == "pow":
                    if e != 1:
                        return True
                    b = G.data[0]
                    if seen is None:
                        seen = {b}
                    elif b in seen:
                        return True
                    else:
                        seen.add(b)
                elif G.kind == "sin":
                    if e >= 2:
                        return True
        return False

    def _reduce_mono(self, m):
        """normalise a monomial -> polynomial"""
        plain = []
        pows = {}
        res = {ONE_M: F(1)}
        for g, e in m:
            G = self.gens[g]
            if G.special and G.kind == "pow":
                b, ex = G.data
                t = self.mul(ex, self.const(e))
                pows[b] = self.add(pows[b], t) if b in pows else t
            elif G.special and G.kind == "sin" and e >= 2:
                cos = self.gen_by_key[("cos", G.data)]
                one_c2 = {ONE_M: F(1), ((cos.id, 2),): F(-1)}
                for _ in range(e // 2):
                    res = self.p_mul(res, one_c2)
                if e % 2:
                    plain.append((g, 1))
            else:
                plain.append((g, e))
        powgens = []
        for b, ex in pows.items():
            k, rest = self.split_exp(ex)
            if k < 0:
                raise Unsupported("negative integer part in reduce")
            if k:
                bp = self.bases[b]
                for _ in range(k):
                    res = self.p_mul(res, bp)
            if not rest.is_zero():
                powgens.append((self.pow_gen(b, rest).id, 1))
        mono = tuple(sorted(plain + powgens))
        return self.p_mul(res, {mono: F(1)}) if res != {ONE_M: F(1)} else {mono: F(1)}

    # ---------------------------------------------------------------- factorisation
    def primitive(self, p):
        """p = c * q, q primitive with integer coefficients, canonical leading sign"""
        num = 0
        den = 1
        for c in p.values():
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        lead = max(p)  # canonical
        c = F(num, den)
        if p[lead] < 0:
            c = -c
        return c, {m: v / c for m, v in p.items()}

    def fid(self, p):
        k = p_key(p)
        i = self.factor_by_key.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(p)
            self.factor_by_key[k] = i
        return i

    def factor(self, p):
        """-> (content, ((fid, mult),...)) irreducible in the free polynomial ring"""
        k = p_key(p)
        r = self.fact_cache.get(k)
        if r is not None:
            return r
        if p_is_const(p):
            r = (p_cval(p), ())
        else:
            c, q = self.primitive(p)
            # monomial content
            mins = None
            for m in q:
                d = dict(m)
                if mins is None:
                    mins = d
                else:
                    mins = {g: min(e, d[g]) for g, e in mins.items() if g in d}
                if not mins:
                    break
            fs = {}
            if mins:
                for g, e in mins.items():
                    f = self.fid({((g, 1),): F(1)})
                    fs[f] = fs.get(f, 0) + e
                q2 = {}
                for m, v in q.items():
                    d = dict(m)
                    for g, e in mins.items():
                        d[g] -= e
                        if not d[g]:
                            del d[g]
                    q2[tuple(sorted(d.items()))] = v
                q = q2
            if not p_is_const(q):
                sp = self.linear_split(q) if len(q) <= self.FACTOR_LIMIT else None
                if sp is not None:
                    for f in sp[0]:
                        fs[f] = fs.get(f, 0) + 1
                    c2, q = self.primitive(sp[1])
                    c *= c2
                    fs[self.fid(q)] = fs.get(self.fid(q), 0) + 1
                elif (len(q) > self.FACTOR_LIMIT
                        or max(v.numerator.bit_length() + v.denominator.bit_length() for v in q.values()) > 800):
                    c2, q = self.primitive(q)
                    c *= c2
                    fs[self.fid(q)] = fs.get(self.fid(q), 0) + 1
                else:
                    gens = sorted(p_gens(q))
                    cc, lst = to_sympy(q, gens).factor_list()
                    c *= F(int(cc.numerator), int(cc.denominator))
                    for f, m in lst:
                        fp = from_sympy(f, gens)
                        c2, fp = self.primitive(fp)
                        c *= c2**m
                        i = self.fid(fp)
                        fs[i] = fs.get(i, 0) + m
            else:
                c *= p_cval(q)
            r = (c, tuple(sorted(fs.items())))
        self.fact_cache[k] = r
        return r

    @staticmethod
    def p_at(p, salt):
        """value at an integer point (coefficients of p are integers)"""
        t, pw = 0, {}
        for m, v in p.items():
            x = v.numerator
            for g, e in m:
                y = pw.get((g, e))
                if y is None:
                    y = pw[(g, e)] = (7 + (g * 2654435761 + salt * 40503) % 10007) ** e
                x *= y
            t += x
        return t

    def linear_split(self, q):
        """q = A g + B without monomial content: its factors are those common to A and B, and one
        irreducible.  None when no generator is linear."""
        deg, cnt = {}, {}
        for m in q:
            for g, e in m:
                cnt[g] = cnt.get(g, 0) + 1
                if e > deg.get(g, 0):
                    deg[g] = e
        lin = [(cnt[g], g) for g in deg if deg[g] == 1]
        if not lin:
            return None
        n, g = min(lin)
        if n > 60 and n * 2 > len(q):
            return None
        A, B = {}, {}
        for m, v in q.items():
            if any(x == g for x, _e in m):
                A[tuple(t for t in m if t[0] != g)] = v
            else:
                B[m] = v
        if not B:
            return None
        out = []
        if n > 1:
            _c, fa = self.factor(A)
            for f, mult in fa:
                fp = self.factors[f]
                for _ in range(mult):
                    _k, b = self.primitive(B)
                    if any(d and self.p_at(b, s) % d for s in (1, 2) for d in (self.p_at(fp, s),)):
                        break
                    b2 = self.p_exact_div(B, fp)
                    a2 = self.p_exact_div(A, fp) if b2 is not None else None
                    if b2 is None or a2 is None:
                        break
                    A, B = a2, b2
                    out.append(f)
        r = dict(B)
        for m, v in A.items():
            r[tuple(sorted(m + ((g, 1),)))] = v
        return out, r

    def p_exact_div(self, p, f):
        """p/f if exact (in the free ring) else None"""
        if len(f) == 1:
            (m, c), = f.items()
            r = {}
            dm = dict(m)
            for m1, c1 in p.items():
                d = dict(m1)
                for g, e in dm.items():
                    if d.get(g, 0) < e:
                        return None
                    d[g] -= e
                    if not d[g]:
                        del d[g]
                r[tuple(sorted(d.items()))] = c1 / c
            return r
        gp = p_gens(p)
        gf = p_gens(f)
        if not gf <= gp:
            return None
        gens = sorted(gp)
        q, rem = divmod(to_sympy(p, gens), to_sympy(f, gens))
        if rem:
            return None
        return from_sympy(q, gens)

    # ---------------------------------------------------------------- rational functions
    def const(self, c):
        return RF(p_const(c))

    def _cancel(self, num, den):
        if not num:
            return RF({}, ())
        if not den:
            return RF(num, ())
        out = []
        for f, m in den:
            fp = self.factors[f]
            while m:
                q = self.p_exact_div(num, fp)
                if q is None:
                    break
                num = q
                m -= 1
            if m:
                out.append((f, m))
        return RF(num, tuple(out))

    def den_poly(self, den):
        r = {ONE_M: F(1)}
        for f, m in den:
            for _ in range(m):
                r = self.p_mul(r, self.factors[f])
        return r

    def add(self, a, b):
        if a.is_zero():
            return b
        if b.is_zero():
            return a
        if a.den == b.den:
            return self._cancel(p_add(a.num, b.num), a.den)
        da, db = dict(a.den), dict(b.den)
        l = dict(da)
        for f, m in db.items():
            if l.get(f, 0) < m:
                l[f] = m
        na, nb = a.num, b.num
        for f, m in l.items():
            for _ in range(m - da.get(f, 0)):
                na = self.p_mul(na, self.factors[f])
            for _ in range(m - db.get(f, 0)):
                nb = self.p_mul(nb, self.factors[f])
        return self._cancel(p_add(na, nb), tuple(sorted(l.items())))

    def neg(self, a):
        return RF(p_neg(a.num), a.den)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if a.is_zero() or b.is_zero():
            return RF({}, ())
        if a.is_const():
            return RF(p_scale(b.num, a.cval()), b.den)
        if b.is_const():
            return RF(p_scale(a.num, b.cval()), a.den)
        # cross-cancel first
        a2 = self._cancel(a.num, b.den) if b.den else RF(a.num, ())
        b2 = self._cancel(b.num, a.den) if a.den else RF(b.num, ())
        d = dict(a2.den)
        for f, m in b2.den:
            d[f] = d.get(f, 0) + m
        num = self.p_mul(a2.num, b2.num)
        d = tuple(sorted(d.items()))
        has_sp = any(self.gens[g].special for g in p_gens(num)) if d else False
        return self._cancel(num, d) if has_sp else RF(num, d)

    def inv(self, a):
        if a.is_zero():
            raise ZeroDivisionError("symbolic division by exact zero")
        c, fs = self.factor(a.num)
        num = p_const(1 / c)
        # original den goes to num
        for f, m in a.den:
            for _ in range(m):
                num = self.p_mul(num, self.factors[f])
        res = RF(num, ())
        den = {}
        extra = None
        for f, m in fs:
            fp = self.factors[f]
            if len(fp) == 1:
                (mono, _), = fp.items()
                (g, e), = mono
                G = self.gens[g]
                if G.kind == "pow":
                    b, ex = G.data
                    t = self.base_pow(b, self.mul(ex, self.const(-m)))
                    extra = t if extra is None else self.mul(extra, t)
                    continue
            den[f] = den.get(f, 0) + m
        res = self._cancel(res.num, tuple(sorted(den.items())))
        if extra is not None:
            res = self.mul(res, extra)
        return res

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def pow_int(self, a, n):
        if n < 0:
            return self.pow_int(self.inv(a), -n)
        r = self.const(1)
        base = a
        while n:
            if n & 1:
                r = self.mul(r, base)
            n >>= 1
            if n:
                base = self.mul(base, base)
        return r

    # ---------------------------------------------------------------- signs
    def sign(self, p):
        """+1 / -1 if provably positive/negative, 2/-2 for >=0 / <=0, else 0"""
        if p_is_const(p):
            c = p_cval(p)
            return (c > 0) - (c < 0)
        k = p_key(p)
        s = self.sign_cache.get(k)
        if s is None:
            s = self.sign_oracle(p)
            self.sign_cache[k] = s
        return s

    # ---------------------------------------------------------------- exponents
    def phi(self, e):
        """Q-linear functional with phi(1)=1 on exponents (rational functions)"""
        if e.is_const():
            return e.cval()
        r = self.phi_cache.get(e.key)
        if r is not None:
            return r
        r = self._phi(e.num, self.den_poly(e.den))
        self.phi_cache[e.key] = r
        return r

    def _phi(self, num, den):
        if p_is_const(den):
            return p_cval(num) / p_cval(den)
        # eliminate generators one by one: proper part is dropped, polynomial part's x^0 kept
        x = min(p_gens(den))

        def by_x(p):
            d = {}
            for m, c in p.items():
                e = 0
                rest = []
                for g, k in m:
                    if g == x:
                        e = k
                    else:
                        rest.append((g, k))
                d.setdefault(e, {})[tuple(rest)] = c
            return d

        n, d = by_x(num), by_x(den)
        N = {k: RF(v) for k, v in n.items()}
        D = {k: RF(v) for k, v in d.items()}
        dd = max(D)
        lead_inv = self.inv(D[dd])
        q0 = RF({})
        while N and max(N) >= dd:
            k = max(N)
            c = self.mul(N[k], lead_inv)
            if k == dd:
                q0 = c
            for j, v in D.items():
                t = self.sub(N.get(k - dd + j, RF({})), self.mul(c, v))
                if t.is_zero():
                    N.pop(k - dd + j, None)
                else:
                    N[k - dd + j] = t
            N.pop(k, None)
        if q0.is_zero():
            return F(0)
        return self.phi(q0)

    def split_exp(self, e):
        k = math.floor(self.phi(e))
        return k, (self.sub(e, self.const(k)) if k else e)

    # ---------------------------------------------------------------- powers
    def base_id(self, p):
        k = p_key(p)
        i = self.base_by_key.get(k)
        if i is None:
            i = len(self.bases)
            self.bases.append(p)
            self.base_by_key[k] = i
        return i

    def e_base(self):
        if self.E_BASE is None:
            g = self.gen("enum", None, name="e")
            self.E_BASE = self.base_id({((g.id, 1),): F(1)})
        return self.E_BASE

    def pow_gen(self, b, ex):
        return self.gen("pow", (b, ex), key=(b, ex.key), special=True, name="P%d" % len(self.gens))

    def base_pow(self, b, ex):
        """bases[b]**ex as RF"""
        if ex.is_zero():
            return self.const(1)
        k, rest = self.split_exp(ex)
        r = self.const(1)
        if k:
            r = self.pow_int(RF(self.bases[b]), k)
        if not rest.is_zero():
            r = self.mul(r, self.rf_gen(self.pow_gen(b, rest)))
        return r

    def signed_parts(self, a):
        """decompose RF a (assumed > 0) into positive parts:
        list of (kind, data, multiplicity):  ('prime', n, m) ('base', P, m) ('pow', (b,e), m)"""
        c, nf = self.factor(a.num)
        parts = []
        sgn = 1
        if c < 0:
            sgn = -1
            c = -c
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            if n != 1:
                if n < 10**24:
                    for pr, m in factorint(n).items():
                        parts.append(("prime", int(pr), s * m))
                else:
                    parts.append(("prime", n, s))
        unknown = []
        for fs, s in ((nf, 1), (a.den, -1)):
            for f, m in fs:
                p = self.factors[f]
                if len(p) == 1:
                    (mono, _), = p.items()
                    (g, _e), = mono
                    G = self.gens[g]
                    if G.kind == "pow":
                        parts.append(("pow", G.data, s * m))
                        continue
                sg = self.sign(p)
                if sg == 1 or sg == 2:
                    parts.append(("base", p, s * m))
                elif sg == -1 or sg == -2:
                    parts.append(("base", p_neg(p), s * m))
                    if m % 2:
                        sgn = -sgn
                else:
                    unknown.append((p, s * m))
        if len(unknown) == 1 and unknown[0][1] % 2:
            # the only factor of unknown sign: positive (up to the sign of the others), since the whole is
            p, m = unknown[0]
            parts.append(("base", p if sgn > 0 else p_neg(p), m))
            sgn = 1
        elif unknown:
            # compound: u/v = (u*v)/v^2
            q = p_const(sgn)
            sgn = 1
            for p, m in unknown:
                if m > 0:
                    for _ in range(m):
                        q = self.p_mul(q, p)
                else:
                    for _ in range(-m):
                        q = self.p_mul(q, p)
                    v2 = self.p_mul(p, p)
                    parts.append(("base", v2, m))
            c2, q = self._posprim(q)
            for n, s in ((c2.numerator, 1), (c2.denominator, -1)):
                if n != 1:
                    for pr, m in factorint(n).items():
                        parts.append(("prime", int(pr), s * m))
            parts.append(("base", q, 1))
        if sgn < 0:
            return None
        return parts

    def _posprim(self, q):
        c, r = self.primitive(q)
        if c < 0:
            return -c, p_neg(r)
        return c, r

    def rpow(self, a, e):
        """a**e for RF a, RF e"""
        if e.is_const():
            q = e.cval()
            if q.denominator == 1:
                return self.pow_int(a, int(q))
        if a.is_zero():
            return self.const(0)
        if a.is_const() and a.cval() == 1:
            return a
        parts = self.signed_parts(a)
        if parts is None:
            raise NegativeBase()
        r = self.const(1)
        for kind, data, m in parts:
            me = self.mul(e, self.const(m))
            if kind == "prime":
                r = self.mul(r, self.base_pow(self.base_id(p_const(data)), me))
            elif kind == "base":
                r = self.mul(r, self.base_pow(self.base_id(data), me))
            else:
                b, ex = data
                r = self.mul(r, self.base_pow(b, self.mul(ex, me)))
        return r

    def log(self, a):
        parts = self.signed_parts(a)
        if parts is None:
            raise NegativeBase()
        r = self.const(0)
        for kind, data, m in parts:
            if kind == "prime":
                t = self.log_base(self.base_id(p_const(data)))
            elif kind == "base":
                t = self.log_base(self.base_id(data))
            else:
                b, ex = data
                t = self.mul(ex, self.log_base(b))
            r = self.add(r, self.mul(self.const(m), t))
        return r

    def log_base(self, b):
        if b == self.E_BASE:
            return self.const(1)
        p = self.bases[b]
        if p == p_const(1):
            return self.const(0)
        return self.rf_gen(self.gen("log", b, name="L%d" % len(self.gens)))

    def exp(self, x):
        r = self.const(1)
        rest = {}
        logs = {}
        dg = set()
        for f, _ in x.den:
            dg |= p_gens(self.factors[f])
        den_has_log = any(self.gens[g].kind == "log" for g in dg)
        for m, c in x.num.items():
            lg = [(g, e) for g, e in m if self.gens[g].kind == "log"]
            if len(lg) == 1 and lg[0][1] == 1 and not den_has_log:
                g = lg[0][0]
                mm = tuple(t for t in m if t[0] != g)
                d = logs.setdefault(g, {})
                d[mm] = d.get(mm, 0) + c
            else:
                rest[m] = c
        for g, p in logs.items():
            r = self.mul(r, self.base_pow(self.gens[g].data, self._cancel(p, x.den)))
        if rest:
            r = self.mul(r, self.base_pow(self.e_base(), self._cancel(rest, x.den)))
        return r

    # ---------------------------------------------------------------- angles
    def angle_terms(self, a):
        """-> list of (q, t)  with t an RF of coefficient one"""
        out = {}
        a = self._cancel(a.num, a.den)
        for m, c in a.num.items():
            t = self._cancel({m: F(1)}, a.den)
            # pull the rational coefficient out of t
            (lead) = max(t.num)
            q = t.num[lead]
            t = RF(p_scale(t.num, 1 / q), t.den)
            k = t.key
            if k in out:
                out[k] = (out[k][0] + c * q, t)
            else:
                out[k] = (c * q, t)
        return [(q, t) for q, t in out.values() if q]

    def inv_angle(self, kind, arg):
        """generator for an inverse trig angle, kind in atan, asin, acos, atan2 (arg tuple)"""
        key = (kind, arg.key if isinstance(arg, RF) else tuple(x.key for x in arg))
        return self.gen("ang", (kind, arg), key=key, name="A%d" % len(self.gens))

    def _sqrt(self, a):
        return self.rpow(a, self.const(F(1, 2)))

    def base_cs(self, t, m):
        """(cos, sin) of t/m"""
        one = self.const(1)
        mono = next(iter(t.num)) if len(t.num) == 1 and not t.den else None
        if mono is not None and len(mono) == 1 and mono[0][1] == 1:
            G = self.gens[mono[0][0]]
            if G.kind == "pi":
                return self.cs_pi(F(1, m))
            if G.kind == "ang" and m == 1:
                kind, arg = G.data
                if kind == "atan":
                    h = self.inv(self._sqrt(self.add(one, self.mul(arg, arg))))
                    return h, self.mul(arg, h)
                if kind == "asin":
                    return self._sqrt(self.sub(one, self.mul(arg, arg))), arg
                if kind == "acos":
                    return arg, self._sqrt(self.sub(one, self.mul(arg, arg)))
                if kind == "atan2":
                    y, x = arg
                    h = self.inv(self._sqrt(self.add(self.mul(x, x), self.mul(y, y))))
                    return self.mul(x, h), self.mul(y, h)
        key = (t.key, m)
        data = (key,)
        c = self.gen("cos", data, name="C%d" % len(self.gens))
        s = self.gen("sin", data, special=True, name="S%d" % len(self.gens))
        self.angle_info = getattr(self, "angle_info", {})
        self.angle_info[data] = (t, m)
        return self.rf_gen(c), self.rf_gen(s)

    def cs_pi(self, q):
        """cos, sin of q*pi exactly, for multiples of pi/4, pi/6; else algebraic/approximate"""
        q = q % 2
        tab = {0: (1, 0), F(1, 2): (0, 1), 1: (-1, 0), F(3, 2): (0, -1)}
        if q in tab:
            c, s = tab[q]
            return self.const(c), self.const(s)
        if self.approx_trig:
            import mpmath

            with mpmath.workdps(70):
                c = mpmath.cos(mpmath.pi * q.numerator / q.denominator)
                s = mpmath.sin(mpmath.pi * q.numerator / q.denominator)
                sc = 10**60
                return (
                    self.const(F(int(mpmath.nint(c * sc)), sc)),
                    self.const(F(int(mpmath.nint(s * sc)), sc)),
                )
        r2 = self.mul(self.const(F(1, 2)), self._sqrt(self.const(2)))
        r3 = self.mul(self.const(F(1, 2)), self._sqrt(self.const(3)))
        h = self.const(F(1, 2))
        n = self.neg
        t2 = {
            F(1, 4): (r2, r2), F(3, 4): (n(r2), r2), F(5, 4): (n(r2), n(r2)), F(7, 4): (r2, n(r2)),
            F(1, 3): (h, r3), F(2, 3): (n(h), r3), F(4, 3): (n(h), n(r3)), F(5, 3): (h, n(r3)),
            F(1, 6): (r3, h), F(5, 6): (n(r3), h), F(7, 6): (n(r3), n(h)), F(11, 6): (r3, n(h)),
        }
        if q in t2:
            return t2[q]
        m = q.denominator
        data = (("piq", m),)
        c = self.gen("cos", data, name="C%d" % len(self.gens))
        s = self.gen("sin", data, special=True, name="S%d" % len(self.gens))
        self.angle_info = getattr(self, "angle_info", {})
        self.angle_info[data] = (self.rf_gen(self.PI), m)
        return self.multiple_angle(self.rf_gen(c), self.rf_gen(s), q.numerator)

    def multiple_angle(self, c, s, n):
        if n < 0:
            c2, s2 = self.multiple_angle(c, s, -n)
            return c2, self.neg(s2)
        rc, rs = self.const(1), self.const(0)
        for _ in range(n):
            rc, rs = (
                self.sub(self.mul(rc, c), self.mul(rs, s)),
                self.add(self.mul(rs, c), self.mul(rc, s)),
            )
        return rc, rs

    def cos_sin(self, a):
        rc, rs = self.const(1), self.const(0)
        for q, t in sorted(self.angle_terms(a), key=lambda x: x[1].key):
            mono = next(iter(t.num)) if len(t.num) == 1 and not t.den else None
            if mono == ((self.PI.id, 1),):
                c, s = self.cs_pi(q)
            else:
                if abs(q.numerator) > 12:
                    # fold the numerator into the basis angle
                    t2 = self.mul(t, self.const(abs(q)))
                    c, s = self.base_cs(t2, 1)
                    if q < 0:
                        s = self.neg(s)
                else:
                    # one basis angle for the multiples of a degree
                    k = 1
                    if 15 <= q.denominator < 180 and 180 % q.denominator == 0:
                        k = 180 // q.denominator
                        if abs(q.numerator * k) > 12:
                            k = 1
                    c, s = self.base_cs(t, q.denominator * k)
                    c, s = self.multiple_angle(c, s, q.numerator * k)
            rc, rs = (
                self.sub(self.mul(rc, c), self.mul(rs, s)),
                self.add(self.mul(rs, c), self.mul(rc, s)),
            )
        return rc, rs


class NegativeBase(Unsupported):
    pass
