"""Lowering of normal forms to z3 (QF_NRA) under the assumptions of one path."""
from fractions import Fraction as F
import math
import time

import numpy as np
import z3

from . import sym
from .sym import Sym, SymBool, Unsupported
from .nf import NF, RF, NegativeBase, p_is_const, p_cval, p_add, p_neg, p_scale, p_gens, p_key, p_const, ONE_M


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.cross = 0

    def add(self, o):
        for k in vars(self):
            setattr(self, k, getattr(self, k) + getattr(o, k))


STATS = Stats()


def rat(c):
    return z3.RatVal(c.numerator, c.denominator)


def z3_to_fraction(v, digits=30):
    if z3.is_rational_value(v):
        return F(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(digits)
        return F(a.numerator_as_long(), a.denominator_as_long())
    return None


class Ctx:
    """normal-form context + z3 encoding for a fixed set of assumptions

    bounds : {name: (lo, hi, strict_lo, strict_hi)}   (Fractions or None)
    atoms  : list of SymBool that are assumed to hold
    subst  : {var name: Sym} definitions (solved-form equalities / pinned values)
    batch  : sym.Batch of sample points satisfying the atoms (may be empty)
    """

    def __init__(self, bounds, atoms, subst=None, batch=None, mask=None, cuts=None, approx_trig=False,
                 sign_timeout=400):
        self.bounds = bounds
        self.subst = dict(subst or {})
        self.batch = batch
        self.mask = mask
        self.sign_timeout = sign_timeout
        self.nf = NF(self._sign)
        self.nf.approx_trig = approx_trig
        self.sign_all = False
        self.memo = {}
        self.cuts = dict(cuts or {})  # node id -> gen name
        self.zv = {}
        self.gen_done = {}
        self.atoms = []  # lowered: (z3 expr, set of gens)
        self.raw_atoms = []
        self.numc = {}
        self.sign_unknown = set()
        self.expanding = set()
        for a in atoms:
            self.add_atom(a)

    # ------------------------------------------------------------ Sym -> RF
    def rf(self, node):
        memo = self.memo
        r = memo.get(node.id)
        if r is not None:
            return r
        nf = self.nf
        # explicit ordering that does not look inside cut nodes
        st = [(node, False)]
        while st:
            n, done = st.pop()
            if n.id in memo:
                continue
            if n.id in self.cuts:
                memo[n.id] = nf.rf_gen(nf.var(self.cuts[n.id]))
                continue
            if not done:
                st.append((n, True))
                for c in n.args:
                    if c.id not in memo:
                        st.append((c, False))
                continue
            memo[n.id] = self._rf(n)
        return memo[node.id]

    def _rf(self, n):
        nf = self.nf
        op = n.op
        if op == "const":
            return nf.const(n.val)
        if op == "pi":
            return nf.rf_gen(nf.PI)
        if op in ("var", "root"):
            s = self.subst.get(n.val)
            if s is not None:
                if n.val in self.expanding:
                    raise Unsupported("circular definition")
                self.expanding.add(n.val)
                r = self.rf(s)
                self.expanding.discard(n.val)
                return r
            return nf.rf_gen(nf.var(n.val))
        a = [self.memo[c.id] for c in n.args]
        if op == "add":
            return nf.add(*a)
        if op == "mul":
            return nf.mul(*a)
        if op == "div":
            return nf.div(*a)
        if op == "pow":
            return nf.rpow(a[0], a[1])
        if op == "exp":
            return nf.exp(a[0])
        if op == "log":
            return nf.log(a[0])
        if op == "sin":
            return nf.cos_sin(a[0])[1]
        if op == "cos":
            return nf.cos_sin(a[0])[0]
        if op in ("atan", "asin", "acos", "atan2"):
            return self._angle(op, a)
        raise Unsupported("operator " + op)

    def _angle(self, op, a):
        nf = self.nf
        half_pi = nf.mul(nf.const(F(1, 2)), nf.rf_gen(nf.PI))
        if op == "atan2":
            y, x = a
            if self.rf_sign(x) == 1:
                return self._angle("atan", [nf.div(y, x)])
            if x.is_zero():
                s = self.rf_sign(y)
                if s == 1:
                    return half_pi
                if s == -1:
                    return nf.neg(half_pi)
            return nf.rf_gen(nf.inv_angle("atan2", (y, x)))
        x = a[0]
        if x.is_const():
            c = x.cval()
            tab = {
                "asin": {0: 0, 1: F(1, 2), -1: F(-1, 2), F(1, 2): F(1, 6), F(-1, 2): F(-1, 6)},
                "acos": {0: F(1, 2), 1: 0, -1: 1, F(1, 2): F(1, 3), F(-1, 2): F(2, 3)},
                "atan": {0: 0, 1: F(1, 4), -1: F(-1, 4)},
            }[op]
            if c in tab:
                return nf.mul(nf.const(tab[c]), nf.rf_gen(nf.PI))
        # odd functions: canonical sign of the argument
        if op in ("atan", "asin") and x.num:
            lead = max(x.num)
            if x.num[lead] < 0:
                return nf.neg(nf.rf_gen(nf.inv_angle(op, nf.neg(x))))
        return nf.rf_gen(nf.inv_angle(op, x))

    # ------------------------------------------------------------ numeric values of generators on the samples
    def num_gen(self, g):
        v = self.numc.get(g)
        if v is not None:
            return v
        G = self.nf.gens[g]
        b = self.batch
        n = b.n
        with np.errstate(all="ignore"):
            if G.kind == "var":
                node = self.cut_node(G.data)
                if node is None:
                    node = sym.mk("root", (), G.data) if G.data.startswith("root") else sym.var(G.data)
                v = b.get(node)
            elif G.kind == "pi":
                v = np.full(n, math.pi)
            elif G.kind == "enum":
                v = np.full(n, math.e)
            elif G.kind == "pow":
                bb, ex = G.data
                base = self.num_poly(self.nf.bases[bb])
                e = self.num_rf(ex)
                v = np.where(base >= 0, np.abs(base) ** e, np.nan)
            elif G.kind == "log":
                v = np.log(self.num_poly(self.nf.bases[G.data]))
            elif G.kind == "ang":
                kind, arg = G.data
                if kind == "atan2":
                    v = np.arctan2(self.num_rf(arg[0]), self.num_rf(arg[1]))
                else:
                    v = {"atan": np.arctan, "asin": np.arcsin, "acos": np.arccos}[kind](self.num_rf(arg))
            elif G.kind in ("cos", "sin"):
                t, m = self.nf.angle_info[G.data]
                x = self.num_rf(t) / m
                v = np.cos(x) if G.kind == "cos" else np.sin(x)
            else:
                v = np.full(n, np.nan)
        self.numc[g] = v
        return v

    def cut_node(self, name):
        for nid, nm in self.cuts.items():
            if nm == name:
                return sym.S.nodes[nid]
        return None

    def num_poly(self, p):
        b = self.batch
        r = np.zeros(b.n)
        for m, c in p.items():
            try:
                c = float(c)
            except OverflowError:
                c = np.nan
            t = np.full(b.n, c)
            for g, e in m:
                t = t * self.num_gen(g) ** e
            r = r + t
        return r

    def num_rf(self, r):
        with np.errstate(all="ignore"):
            v = self.num_poly(r.num)
            for f, m in r.den:
                v = v / self.num_poly(self.nf.factors[f]) ** m
        return v

    # ------------------------------------------------------------ signs
    def _sign(self, p):
        """sign of a polynomial under the assumptions: +-1 strict, +-2 weak, 0 unknown"""
        if len(p) == 1:
            (m, c), = p.items()
            # monomial: product of generator signs
            s = 1 if c > 0 else -1
            ok = True
            for g, e in m:
                if e % 2 == 0:
                    t = self.gen_sign(g)
                    if abs(t) != 1:
                        s = 2 * (s // abs(s)) if abs(s) == 1 else s
                    continue
                t = self.gen_sign(g)
                if t == 0:
                    ok = False
                    break
                s = (1 if s * t > 0 else -1) * (1 if abs(s) == 1 and abs(t) == 1 else 2)
            if ok:
                return s
            if len(m) > 1 or m[0][1] > 1:
                return 0
        cand = None
        if self.batch is not None and self.mask is not None and self.mask.any():
            v = self.num_poly(p)[self.mask]
            v = v[np.isfinite(v)]
            if len(v):
                if (v > 0).any() and (v < 0).any():
                    return 0
                cand = 1 if (v > 0).any() else (-1 if (v < 0).any() else None)
        for s in ([cand] if cand else [1, -1]):
            e, gens = self.zpoly(p)
            for al in (False, True) if self.sign_all else (False,):
                r = self.query([e <= 0 if s > 0 else e >= 0], gens, timeout=self.sign_timeout, all_atoms=al)
                if r == "unsat":
                    return s
                r = self.query([e < 0 if s > 0 else e > 0], gens, timeout=self.sign_timeout, all_atoms=al)
                if r == "unsat":
                    return 2 * s
        return 0

    def gen_sign(self, g):
        G = self.nf.gens[g]
        if G.kind in ("pi", "enum"):
            return 1
        if G.kind == "pow":
            s = self.base_sign(G.data[0])
            return 1 if s == 1 else 2
        if G.kind == "var":
            b = self.bounds.get(G.data)
            if b:
                lo, hi, sl, sh = b
                if lo is not None and (lo > 0 or (lo == 0 and sl)):
                    return 1
                if hi is not None and (hi < 0 or (hi == 0 and sh)):
                    return -1
                if lo is not None and lo == 0:
                    pass
        key = p_key({((g, 1),): F(1)})
        s = self.nf.sign_cache.get(key)
        if s is not None:
            return s
        p = {((g, 1),): F(1)}
        self.nf.sign_cache[key] = 0  # guards recursion
        s = self._sign(p)
        self.nf.sign_cache[key] = s
        return s

    def base_sign(self, b):
        p = self.nf.bases[b]
        if p_is_const(p):
            return 1
        k = p_key(p)
        if k in self.nf.sign_cache:
            s = self.nf.sign_cache[k]
            return 1 if s == 1 else 2
        self.nf.sign_cache[k] = 2
        s = self._sign(p)
        s = 1 if s == 1 else 2
        self.nf.sign_cache[k] = s
        return s

    def rf_sign(self, r):
        """sign of an RF"""
        if r.is_zero():
            return 0
        c, fs = self.nf.factor(r.num)
        s = 1 if c > 0 else -1
        weak = False
        for f, m in fs:
            t = self.nf.sign(self.nf.factors[f])
            if t == 0:
                if m % 2 == 0:
                    weak = True
                    continue
                # fall back to the whole numerator
                t2 = self.nf.sign(r.num)
                if t2 == 0:
                    return 0
                s, weak = (1 if t2 > 0 else -1), abs(t2) == 2
                break
            if abs(t) == 2:
                weak = True
            if m % 2 and t < 0:
                s = -s
        for f, m in r.den:
            t = self.nf.sign(self.nf.factors[f])
            if t == 0:
                if m % 2:
                    return 0
            elif m % 2 and t < 0:
                s = -s
        return 2 * s if weak else s

    # ------------------------------------------------------------ z3 terms
    def zgen(self, g):
        v = self.zv.get(g)
        if v is None:
            v = z3.Real("%s_%d" % (self.nf.gens[g].name, g))
            self.zv[g] = v
        return v

    def zpoly(self, p):
        gens = p_gens(p)
        if not p:
            return rat(F(0)), gens
        terms = []
        for m, c in sorted(p.items()):
            fs = [self.zgen(g) for g, e in m for _ in range(e)]
            if not fs:
                terms.append(rat(c))
            elif c == 1:
                terms.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            else:
                terms.append(z3.Product(rat(c), *fs))
        return (z3.Sum(*terms) if len(terms) > 1 else terms[0]), gens

    def zden(self, r):
        """z3 factors of the denominator with their parity"""
        out = []
        gens = set()
        for f, m in r.den:
            e, g = self.zpoly(self.nf.factors[f])
            gens |= g
            out.append((e, m, self.nf.sign(self.nf.factors[f])))
        return out, gens

    def zcmp(self, r, rel):
        """z3 formula for  r rel 0,  rel in  lt le eq gt ge ne"""
        e, gens = self.zpoly(r.num)
        if rel in ("eq", "ne"):
            return (e == 0 if rel == "eq" else e != 0), gens
        den, g2 = self.zden(r)
        gens = set(gens) | g2
        flip = False
        for d, m, s in den:
            if m % 2 == 0:
                continue
            if s in (1, 2):
                continue
            if s in (-1, -2):
                flip = not flip
                continue
            e = e * d
        if flip:
            rel = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[rel]
        return {"lt": e < 0, "le": e <= 0, "gt": e > 0, "ge": e >= 0}[rel], gens

    def linear_relaxation(self, r, rel):
        """r rel 0 (rel in gt, ge) refuted with every non-linear monomial of bounded inputs replaced by a variable
        between its interval bounds"""
        if r.den or not r.num:
            return False
        bd = {}
        for g in p_gens(r.num):
            G = self.nf.gens[g]
            b = self.bounds.get(G.name) if G.kind == "var" else None
            if b is None or b[0] is None or b[1] is None:
                return False
            bd[g] = (F(b[0]), F(b[1]))
        cons, terms = [], []
        for k, (m, c) in enumerate(sorted(r.num.items())):
            if not m:
                terms.append(rat(c))
                continue
            lo, hi = F(1), F(1)
            for g, e in m:
                a, b = bd[g]
                if e % 2 == 0:
                    w = (F(0) if a < 0 < b else min(abs(a), abs(b)) ** e, max(abs(a), abs(b)) ** e)
                else:
                    w = (a ** e, b ** e)
                q = [lo * w[0], lo * w[1], hi * w[0], hi * w[1]]
                lo, hi = min(q), max(q)
            v = z3.Real("mono%d" % k)
            cons += [v >= rat(lo), v <= rat(hi)]
            terms.append(rat(c) * v)
        e = z3.Sum(*terms) if len(terms) > 1 else terms[0]
        return solve(cons + [e > 0 if rel == "gt" else e >= 0], 2000)[0] == "unsat"

    # ------------------------------------------------------------ generator constraints
    def gen_constraints(self, g):
        """list of (z3 expr, gens)"""
        c = self.gen_done.get(g)
        if c is not None:
            return c
        self.gen_done[g] = []
        out = self._gen_constraints(g)
        self.gen_done[g] = out
        return out

    def _gen_constraints(self, g):
        G = self.nf.gens[g]
        z = self.zgen(g)
        out = []
        K = G.kind
        if K == "var":
            b = self.bounds.get(G.data)
            if b:
                lo, hi, sl, sh = b
                if lo is not None:
                    out.append((z > rat(lo) if sl else z >= rat(lo), {g}))
                if hi is not None:
                    out.append((z < rat(hi) if sh else z <= rat(hi), {g}))
        elif K == "pi":
            out.append((z > rat(F("3.14159265358979")), {g}))
            out.append((z < rat(F("3.14159265358980")), {g}))
        elif K == "enum":
            out.append((z > rat(F("2.718281828459")), {g}))
            out.append((z < rat(F("2.718281828460")), {g}))
        elif K == "pow":
            out += self._pow_constraints(g, G, z)
        elif K == "log":
            out += self._log_constraints(g, G, z)
        elif K in ("cos", "sin"):
            out += self._trig_constraints(g, G, z)
        elif K == "ang":
            out += self._ang_constraints(g, G, z)
        return out

    def _pow_constraints(self, g, G, z):
        b, ex = G.data
        p = self.nf.bases[b]
        be, bg = self.zpoly(p)
        bs = self.base_sign(b)
        out = [((z > 0) if bs == 1 else (z >= 0), {g})]
        gs = set(bg) | {g}
        if ex.is_const():
            q = ex.cval()
            n, d = q.numerator, q.denominator
            if p_is_const(p):
                # tight numeric enclosure
                v = float(p_cval(p)) ** float(q)
                out.append((z > rat(F(v * (1 - 1e-12))), {g}))
                out.append((z < rat(F(v * (1 + 1e-12))), {g}))
                if d <= 4:
                    out.append((z3.Product(*([z] * d)) == rat(p_cval(p) ** n), {g}))
                return out
            if d <= 6 and n <= 12:
                lhs = z3.Product(*([z] * d)) if d > 1 else z
                rhs = z3.Product(*([be] * n)) if n > 1 else be
                out.append((lhs == rhs, gs))
                if d == 2:
                    return out
            E = rat(q)
            esg = 1
            rel1 = -1  # 0<q<1
            out.append((z3.Implies(be > 1, z3.And(z > 1, z < be)), gs))
            out.append((z3.Implies(be < 1, z3.And(z < 1, z > be)), gs))
            out.append((z3.Implies(be == 1, z == 1), gs))
            out.append((z <= 1 + E * (be - 1), gs))
        else:
            en, eg = self.zpoly(ex.num)
            den, dg = self.zden(ex)
            es = self.rf_sign(ex)
            one_minus = self.rf_sign(self.nf.sub(ex, self.nf.const(1)))
            gs |= set(eg) | set(dg)
            up = z3.And(z3.Implies(be > 1, z > 1), z3.Implies(be < 1, z < 1), z3.Implies(be == 1, z == 1))
            dn = z3.And(z3.Implies(be > 1, z < 1), z3.Implies(be < 1, z > 1), z3.Implies(be == 1, z == 1))
            if es == 1:
                out.append((up, gs))
            elif es == -1:
                out.append((dn, gs))
            else:
                ee, g3 = self.zcmp(ex, "gt")
                e2, _ = self.zcmp(ex, "lt")
                out.append((z3.And(z3.Implies(ee, up), z3.Implies(e2, dn)), gs | set(g3)))
            # Bernoulli:  z vs 1 + e (b-1)
            D = rat(F(1))
            dpos = all(m % 2 == 0 or s in (1, 2) for _, m, s in den)
            if dpos:
                for d_, m_, _ in den:
                    for _k in range(m_):
                        D = D * d_
                lhs, rhs = D * (z - 1), en * (be - 1)
                if es in (1, 2) and one_minus in (-1, -2):
                    out.append((lhs <= rhs, gs))
                elif one_minus in (1, 2) or es in (-1, -2):
                    out.append((lhs >= rhs, gs))
        return out

    def pair_constraints(self, gens):
        """relations between generators present together"""
        out = []
        pw = [(g, self.nf.gens[g]) for g in gens if self.nf.gens[g].kind == "pow"]
        for i in range(len(pw)):
            for j in range(i + 1, len(pw)):
                g1, G1 = pw[i]
                g2, G2 = pw[j]
                (b1, e1), (b2, e2) = G1.data, G2.data
                z1, z2 = self.zgen(g1), self.zgen(g2)
                if e1.key == e2.key and b1 != b2:
                    p1, q1 = self.zpoly(self.nf.bases[b1])
                    p2, q2 = self.zpoly(self.nf.bases[b2])
                    s = self.rf_sign(e1)
                    gs = set(q1) | set(q2) | {g1, g2}
                    if s == 1:
                        out.append((z3.And(z3.Implies(p1 < p2, z1 < z2), z3.Implies(p1 > p2, z1 > z2),
                                           z3.Implies(p1 == p2, z1 == z2)), gs))
                    elif s == -1:
                        out.append((z3.And(z3.Implies(p1 < p2, z1 > z2), z3.Implies(p1 > p2, z1 < z2),
                                           z3.Implies(p1 == p2, z1 == z2)), gs))
                elif b1 != b2:
                    # exponents equal or opposite up to an integer k:  compare b1**e1 with b2**(+-e1)
                    p1, q1 = self.zpoly(self.nf.bases[b1])
                    p2, q2 = self.zpoly(self.nf.bases[b2])
                    gs = set(q1) | set(q2) | {g1, g2}
                    for opp in (False, True):
                        d = self.nf.add(e1, e2) if opp else self.nf.sub(e1, e2)
                        if not d.is_const():
                            continue
                        k = d.cval()
                        if k.denominator != 1 or abs(k) > 3:
                            continue
                        k = int(k)
                        s = self.rf_sign(e1)
                        if s not in (1, -1):
                            continue
                        if opp:  # z1*z2 = (b1/b2)**e1 * b2**k
                            lhs, rhs = z1 * z2, rat(F(1))
                            if k > 0:
                                rhs = z3.Product(*([p2] * k)) if k > 1 else p2
                            elif k < 0:
                                lhs = z3.Product(*([lhs] + [p2] * -k))
                        else:  # z1 / z2 = (b1/b2)**e1 * b2**k
                            lhs, rhs = z1, z2
                            if k > 0:
                                rhs = z3.Product(*([rhs] + [p2] * k))
                            elif k < 0:
                                lhs = z3.Product(*([lhs] + [p2] * -k))
                        u, v = (p1, p2) if s == 1 else (p2, p1)
                        out.append((z3.And(z3.Implies(u > v, lhs > rhs), z3.Implies(u < v, lhs < rhs),
                                           z3.Implies(u == v, lhs == rhs)), gs))
                elif b1 == b2:
                    d = self.nf.sub(e1, e2)
                    s = self.rf_sign(d)
                    p1, q1 = self.zpoly(self.nf.bases[b1])
                    gs = set(q1) | {g1, g2}
                    if s == 1:
                        out.append((z3.And(z3.Implies(p1 > 1, z1 > z2), z3.Implies(p1 < 1, z1 < z2)), gs))
                    elif s == -1:
                        out.append((z3.And(z3.Implies(p1 > 1, z1 < z2), z3.Implies(p1 < 1, z1 > z2)), gs))
                    k = self.nf.div(e1, e2)
                    if k.is_const() and k.cval() > 0:
                        k = k.cval()
                        if k.numerator <= 4 and k.denominator <= 4:
                            out.append((z3.Product(*([z1] * k.denominator + [rat(F(1))]))
                                        == z3.Product(*([z2] * k.numerator + [rat(F(1))])), {g1, g2}))
        lg = [(g, self.nf.gens[g]) for g in gens if self.nf.gens[g].kind == "log"]
        for i in range(len(lg)):
            for j in range(i + 1, len(lg)):
                g1, G1 = lg[i]
                g2, G2 = lg[j]
                p1, q1 = self.zpoly(self.nf.bases[G1.data])
                p2, q2 = self.zpoly(self.nf.bases[G2.data])
                z1, z2 = self.zgen(g1), self.zgen(g2)
                gs = set(q1) | set(q2) | {g1, g2}
                out.append((z3.And(z3.Implies(p1 < p2, z1 < z2), z3.Implies(p1 > p2, z1 > z2),
                                   z3.Implies(p1 == p2, z1 == z2)), gs))
        return out

    def _log_constraints(self, g, G, z):
        p = self.nf.bases[G.data]
        be, bg = self.zpoly(p)
        gs = set(bg) | {g}
        if p_is_const(p):
            v = math.log(float(p_cval(p)))
            d = abs(v) * 1e-12 + 1e-15
            return [(z > rat(F(v - d)), {g}), (z < rat(F(v + d)), {g})]
        out = [
            (z3.Implies(be > 1, z > 0), gs), (z3.Implies(be < 1, z < 0), gs), (z3.Implies(be == 1, z == 0), gs),
            (z <= be - 1, gs), (z * be >= be - 1, gs),
            (z3.Implies(be >= 1, z * (be + 1) >= 2 * (be - 1)), gs),
            (z3.Implies(be <= 1, z * (be + 1) <= 2 * (be - 1)), gs),
            (z3.Implies(be >= 1, 2 * z * be <= be * be - 1), gs),
            (z3.Implies(be <= 1, 2 * z * be >= be * be - 1), gs),
        ]
        return out

    def _trig_constraints(self, g, G, z):
        nf = self.nf
        out = [(z <= 1, {g}), (z >= -1, {g})]
        cg = nf.gen_by_key.get(("cos", G.data))
        sg = nf.gen_by_key.get(("sin", G.data))
        if cg is not None and sg is not None and g == cg.id:
            c, s = self.zgen(cg.id), self.zgen(sg.id)
            out.append((c * c + s * s == 1, {cg.id, sg.id}))
        elif sg is not None and g == sg.id:
            c, s = self.zgen(cg.id), self.zgen(sg.id)
            out.append((c * c + s * s == 1, {cg.id, sg.id}))
        t, m = nf.angle_info[G.data]
        isc = G.kind == "cos"
        # quadrant
        q = self.quadrant(nf.mul(t, nf.const(F(1, m))))
        if q is not None:
            k, strict = q
            if isc:
                pos = k % 4 in (0, 3)
            else:
                pos = k % 4 in (0, 1)
            if strict:
                out.append(((z > 0) if pos else (z < 0), {g}))
            else:
                out.append(((z >= 0) if pos else (z <= 0), {g}))
        else:
            # two quadrants of the same sign
            ang = nf.mul(t, nf.const(F(1, m)))
            k0 = self.half_turn(ang if not isc else nf.add(ang, nf.mul(nf.const(F(1, 2)), nf.rf_gen(nf.PI))))
            if k0 is not None:
                k, strict = k0
                pos = k % 2 == 0
                out.append((((z > 0) if pos else (z < 0)) if strict else ((z >= 0) if pos else (z <= 0)), {g}))
        # numeric enclosure for an input angle inside one quadrant
        mono = next(iter(t.num)) if len(t.num) == 1 and not t.den else None
        if mono is not None and q is not None and t.num[mono] == 1:
            vs = [h for h, e in mono if nf.gens[h].kind == "var" and e == 1]
            pis = [h for h, e in mono if nf.gens[h].kind == "pi" and e == 1]
            if len(vs) == 1 and len(vs) + len(pis) == len(mono):
                bd = self.bounds.get(nf.gens[vs[0]].data)
                if bd and bd[0] is not None and bd[1] is not None:
                    k = (math.pi if pis else 1.0) / m
                    ends = [(math.cos if isc else math.sin)(k * float(v)) for v in bd[:2]]
                    lo, hi = k * float(bd[0]), k * float(bd[1])
                    if math.floor(lo / (math.pi / 2) + 1e-12) == math.ceil(hi / (math.pi / 2) - 1e-12) - 1:
                        out.append((z >= rat(F(min(ends) - 1e-12)), {g}))
                        out.append((z <= rat(F(max(ends) + 1e-12)), {g}))
        # link with the whole angle  T_m(cos(t/m)) = cos t
        if m > 1 and isc:
            tm = None
            mono = next(iter(t.num)) if len(t.num) == 1 and not t.den else None
            if mono is not None and len(mono) == 1 and mono[0][1] == 1:
                GG = nf.gens[mono[0][0]]
                if GG.kind == "ang" and t.num[mono] == 1:
                    tm = nf.base_cs(t, 1)[0]
                    kind = GG.data[0]
                    if m <= 4:
                        lo = math.cos(math.pi / m) if kind in ("acos",) else math.cos(math.pi / 2 / m)
                        out.append((z >= rat(F(lo - 1e-12) if m != 3 or kind != "acos" else F(1, 2)), {g}))
                elif GG.kind == "pi":
                    tm = nf.const(-1)
                    v = math.cos(math.pi / m)
                    out.append((z > rat(F(v) - F(1, 10**13)), {g}))
                    out.append((z < rat(F(v) + F(1, 10**13)), {g}))
            if tm is not None and m <= 12:
                T = self.cheb(z, m)
                num, ng = self.zpoly(tm.num)
                den, dg = self.zden(tm)
                D = rat(F(1))
                for d_, mm, _ in den:
                    for _k in range(mm):
                        D = D * d_
                out.append((T * D == num, {g} | set(ng) | set(dg)))
        if isc is False and m > 1:
            mono = next(iter(t.num)) if len(t.num) == 1 and not t.den else None
            if mono is not None and len(mono) == 1 and nf.gens[mono[0][0]].kind == "pi":
                v = math.sin(math.pi / m)
                out.append((z > rat(F(v) - F(1, 10**13)), {g}))
                out.append((z < rat(F(v) + F(1, 10**13)), {g}))
        return out

    def trig_relation(self, g):
        """polynomial  D*T_m(cos(t/m)) - D*cos(t)  of a basis cosine whose full angle is known, else None"""
        nf = self.nf
        G = nf.gens[g]
        if G.kind != "cos" or G.data not in getattr(nf, "angle_info", {}):
            return None
        t, m = nf.angle_info[G.data]
        if m == 1 or m > 6:
            return None
        mono = next(iter(t.num)) if len(t.num) == 1 and not t.den else None
        if mono is None or len(mono) != 1 or mono[0][1] != 1:
            return None
        GG = nf.gens[mono[0][0]]
        if GG.kind != "ang" or t.num[mono] != 1:
            return None
        tm = nf.base_cs(t, 1)[0]
        a, b = nf.const(1), nf.rf_gen(G)
        x = b
        for _ in range(m - 1):
            a, b = b, nf.sub(nf.mul(nf.const(2), nf.mul(x, b)), a)
        return nf.sub(b, tm).num

    def cheb(self, z, m):
        a, b = rat(F(1)), z
        if m == 0:
            return a
        for _ in range(m - 1):
            a, b = b, 2 * z * b - a
        return b

    def quadrant(self, ang):
        """k, strict with  k*pi/2 < ang < (k+1)*pi/2  proven (strict) or <=, else None"""
        nf = self.nf
        if self.batch is None or self.mask is None or not self.mask.any():
            return None
        v = self.num_rf(ang)[self.mask]
        v = v[np.isfinite(v)]
        if not len(v):
            return None
        k = math.floor(np.median(v) / (math.pi / 2))
        if v.min() < k * math.pi / 2 - 1e-9 or v.max() > (k + 1) * math.pi / 2 + 1e-9:
            return None
        hp = nf.mul(nf.const(F(1, 2)), nf.rf_gen(nf.PI))
        lo = self.rf_sign(nf.sub(ang, nf.mul(hp, nf.const(k)))) if k else self.rf_sign(ang)
        hi = self.rf_sign(nf.sub(nf.mul(hp, nf.const(k + 1)), ang))
        if lo in (1, 2) and hi in (1, 2):
            return k, (lo == 1 and hi == 1)
        return None

    def half_turn(self, ang):
        """k, strict with  k*pi < ang < (k+1)*pi  proven (strict) or <=, else None"""
        nf = self.nf
        if self.batch is None or self.mask is None or not self.mask.any():
            return None
        v = self.num_rf(ang)[self.mask]
        v = v[np.isfinite(v)]
        if not len(v):
            return None
        k = math.floor(np.median(v) / math.pi)
        if v.min() < k * math.pi - 1e-9 or v.max() > (k + 1) * math.pi + 1e-9:
            return None
        p = nf.rf_gen(nf.PI)
        lo = self.rf_sign(nf.sub(ang, nf.mul(p, nf.const(k)))) if k else self.rf_sign(ang)
        hi = self.rf_sign(nf.sub(nf.mul(p, nf.const(k + 1)), ang))
        if lo in (1, 2) and hi in (1, 2):
            return k, (lo == 1 and hi == 1)
        return None

    def _ang_constraints(self, g, G, z):
        nf = self.nf
        kind, arg = G.data
        pi = self.zgen(nf.PI.id)
        gs = {g, nf.PI.id}
        out = []
        if kind == "atan2":
            y, x = arg
            out += [(z <= pi, gs), (z >= -pi, gs)]
            sy = self.rf_sign(y)
            if sy == 1:
                out += [(z > 0, {g})]
            elif sy == -1:
                out += [(z < 0, {g})]
            return out
        s = self.rf_sign(arg)
        if kind in ("atan", "asin"):
            out += [(2 * z <= pi, gs), (2 * z >= -pi, gs)]
            if kind == "atan":
                out += [(2 * z < pi, gs), (2 * z > -pi, gs)]
            if s == 1:
                out.append((z > 0, {g}))
            elif s == -1:
                out.append((z < 0, {g}))
            elif s == 2:
                out.append((z >= 0, {g}))
            elif s == -2:
                out.append((z <= 0, {g}))
            lin, lg = self.zcmp(nf.sub(arg, nf.rf_gen(G)), "ge" if kind == "atan" else "le")
            if s in (1, 2):
                out.append((lin, set(lg)))
        else:
            out += [(z >= 0, {g}), (z <= pi, gs)]
            if s == 1:
                out.append((2 * z < pi, gs))
            elif s == -1:
                out.append((2 * z > pi, gs))
        return out

    # ------------------------------------------------------------ assumptions
    def lower_bool(self, b, positive=True):
        """SymBool -> (z3, gens)"""
        if isinstance(b, (bool, np.bool_)):
            return z3.BoolVal(bool(b) == positive), set()
        if b.op == "not":
            return self.lower_bool(b.a, not positive)
        if b.op in ("and", "or"):
            e1, g1 = self.lower_bool(b.a, positive)
            e2, g2 = self.lower_bool(b.b, positive)
            isand = (b.op == "and") == positive
            return (z3.And(e1, e2) if isand else z3.Or(e1, e2)), g1 | g2
        d = self.nf.sub(self.rf(b.a), self.rf(b.b))
        rel = b.op
        if not positive:
            rel = {"lt": "ge", "le": "gt", "eq": "ne"}[rel]
        e, g = self.zcmp(d, rel)
        return e, set(g)

    def add_atom(self, b):
        e, g = self.lower_bool(b)
        self.atoms.append((e, g))

    # ------------------------------------------------------------ queries
    def closure(self, gens):
        """generator closure and their constraints"""
        todo = list(gens)
        seen = set()
        cons = []
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            for e, gs in self.gen_constraints(g):
                cons.append(e)
                for h in gs:
                    if h not in seen:
                        todo.append(h)
        return seen, cons

    def prove_order(self, p, q, timeout=1500):
        """sign of p - q (polynomials) under every assumption: +-1, +-2 or 0"""
        from .nf import p_add, p_neg

        d = p_add(p, p_neg(q))
        if not d:
            return 0
        cand = None
        if self.batch is not None and self.mask is not None and self.mask.any():
            v = self.num_poly(d)[self.mask]
            v = v[np.isfinite(v)]
            if len(v):
                if (v > 0).any() and (v < 0).any():
                    return 0
                cand = 1 if (v > 0).any() else (-1 if (v < 0).any() else None)
        e, gens = self.zpoly(d)
        for s in ([cand] if cand else [1, -1]):
            if self.query([e <= 0 if s > 0 else e >= 0], gens, timeout=timeout, all_atoms=True) == "unsat":
                return s
            if self.query([e < 0 if s > 0 else e > 0], gens, timeout=timeout, all_atoms=True) == "unsat":
                return 2 * s
        return 0

    def two_term_sign(self, r):
        """sign of A - B for positive products of powers A, B:  log(A/B) = sum of exponent*log(base), where bases
        with opposite exponents are compared with each other and the others with one"""
        nf = self.nf
        if len(r.num) != 2:
            return 0
        (m1, c1), (m2, c2) = r.num.items()
        if c1 * c2 > 0:
            return 0
        if c1 < 0:
            (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
        ds = self.rf_sign(RF({(): F(1)}, r.den)) if r.den else 1
        if ds not in (1, -1):
            return 0
        ex = {}
        for m, sg in ((m1, 1), (m2, -1)):
            for g, e in m:
                G = nf.gens[g]
                if self.gen_sign(g) != 1:
                    return 0
                if G.kind == "pow":
                    base, x = nf.bases[G.data[0]], nf.mul(nf.const(sg * e), G.data[1])
                else:
                    base, x = {((g, 1),): F(1)}, nf.const(sg * e)
                k = p_key(base)
                ex[k] = (base, nf.add(ex[k][1], x) if k in ex else x)
        q = c1 / -c2
        todo = [(b, x) for b, x in ex.values() if not x.is_zero()]
        if q != 1:
            todo.append((p_const(q), nf.const(1)))
        out = None
        while todo:
            b, x = todo.pop()
            group, rest = [(b, F(1))], []
            for b2, x2 in todo:  # bases whose exponents are rational multiples of this one
                k = nf.div(x2, x)
                if k.is_const() and abs(k.cval().numerator) <= 6 and k.cval().denominator <= 4:
                    group.append((b2, k.cval()))
                else:
                    rest.append((b2, x2))
            todo = rest
            den = 1
            for _, k in group:
                den = den * k.denominator // math.gcd(den, k.denominator)
            left = right = p_const(F(1))
            for b2, k in group:
                n = int(k * den)
                for _ in range(abs(n)):
                    if n > 0:
                        left = nf.p_mul(left, b2)
                    else:
                        right = nf.p_mul(right, b2)
            sx, sb = self.rf_sign(x), self.prove_order(left, right)
            if sx not in (1, -1) or sb == 0:
                return 0
            s = sx * sb
            if out is None:
                out = s
            elif out * s < 0:
                return 0
            else:
                out = (1 if s > 0 else -1) * min(abs(out), abs(s))
        return 0 if out is None else out * ds

    def factor_sign(self, r):
        """sign of r from the signs of its factors, with two_term_sign for the factors"""
        s = self.two_term_sign(r)
        if s or len(r.num) < 3 or len(r.num) > 60:
            return s
        c, fs = self.nf.factor(r.num)
        if len(fs) + (1 if r.den else 0) < 2:
            return 0
        out = (1 if c > 0 else -1) * (self.rf_sign(RF({(): F(1)}, r.den)) if r.den else 1)
        if abs(out) != 1:
            return 0
        for f, m in fs:
            p = self.nf.factors[f]
            t = self.nf.sign(p)
            if abs(t) != 1:
                t = self.two_term_sign(RF(p)) or t
            if t == 0:
                return 0
            if m % 2 == 0:
                t = abs(t)
            out = (1 if out * t > 0 else -1) * max(abs(out), abs(t))
        return out

    def query(self, formulas, gens, timeout=2000, want_model=False, all_atoms=False, pairs=False):
        gens = set(gens)
        seen, cons = self.closure(gens)
        used = []
        changed = True
        pool = list(self.atoms)
        if all_atoms:
            for e, g in pool:
                seen |= g
                used.append(e)
            seen, cons = self.closure(seen)
        else:
            for e, g in pool:
                if g <= seen:
                    used.append(e)
        if pairs:
            for e, g in self.pair_constraints(seen):
                cons.append(e)
                if not g <= seen:
                    s2, c2 = self.closure(g)
                    cons += c2
                    seen |= s2
        r, m = solve(cons + used + list(formulas), timeout, want_model)
        if want_model:
            if m is not None:
                out = {}
                for g in seen:
                    G = self.nf.gens[g]
                    if G.kind == "var":
                        v = z3_to_fraction(m.eval(self.zgen(g), model_completion=True))
                        if v is not None:
                            out[G.data] = v
                return r, out
            return r, None
        return r

    def formulas_for(self, gens, all_atoms=True):
        seen, cons = self.closure(gens)
        return cons


def solve(formulas, timeout, want_model=False):
    t0 = time.time()
    s = z3.SolverFor("QF_NRA")
    # the limit is z3's own step count (roughly 1800 steps per millisecond), so that a verdict does not depend on the load
    # of the machine; wall time is only a safety net
    s.set("rlimit", int(timeout * 1800))
    s.set("timeout", int(timeout * 4))
    for f in formulas:
        s.add(f)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    m = s.model() if (r == "sat" and want_model) else None
    STATS.queries += 1
    STATS.solver_s += time.time() - t0
    setattr(STATS, r, getattr(STATS, r) + 1)
    return r, m
