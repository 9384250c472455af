"""Path exploration, claim discharge, replay and validation against the real code."""
import contextlib
import functools
import io
import json
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction as F

import numpy as np

from . import sym, lower
from .sym import Sym, SymBool, CSym, Unsupported, lift, const
from .world import World, ConcreteWorld, secant_contract, oarr, is_scalar
from .nf import NegativeBase

NSAMP = 96


class Infeasible(Exception):
    pass


class ClaimFailed(Exception):
    pass


HARNESSES = {}


def harness(prop, name=None, **opts):
    def deco(fn):
        HARNESSES.setdefault(prop, []).append((name or fn.__name__.strip("_"), fn, opts))
        return fn

    return deco


# ---------------------------------------------------------------------------- sampling of inputs
@functools.lru_cache(maxsize=400000)
def sample_value(name, lo, hi, sl, sh, idx, seed, log=False):
    rnd = random.Random("%s/%s/%s" % (seed, name, idx))
    lo_f, hi_f = float(lo), float(hi)
    u = rnd.random()
    mode = rnd.random()
    if mode < 0.10:
        u = 0.002 * rnd.random() + 1e-6
    elif mode < 0.20:
        u = 1 - 0.002 * rnd.random() - 1e-6
    elif mode < 0.50:  # usual values of wide ranges: the middle, or the low end of positive ones
        if log or lo_f < 0:
            u = 0.5 + 4 * (u - 0.5) ** 3
        elif hi_f >= 10 * lo_f:
            u = u ** 3
    if log and lo_f > 0:
        import math

        v = math.exp(math.log(lo_f) + u * (math.log(hi_f) - math.log(lo_f)))
    else:
        v = lo_f + u * (hi_f - lo_f)
    q = F(("%.5g" % v))
    if q < lo or (q == lo and sl) or q > hi or (q == hi and sh):
        q = F(v)
    if q <= lo and (sl or q < lo):
        q = lo + (hi - lo) / 1000
    if q >= hi and (sh or q > hi):
        q = hi - (hi - lo) / 1000
    return q


# ---------------------------------------------------------------------------- harness API
class Base:
    concrete = False

    def mod(self, name):
        return self.world.load(name)

    @property
    def np(self):
        return self.world.np

    @property
    def math(self):
        return self.world.math

    def need(self, obj, name):
        """an attribute that is not part of the documented interface; without it the harness does not apply"""
        if not hasattr(obj, name):
            raise Infeasible()
        return getattr(obj, name)

    def q(self, s):
        """exact rational constant"""
        return self.num(s)


class H(Base):
    """symbolic harness context (one path)"""

    def __init__(self, eng):
        self.eng = eng
        self.world = eng.world
        self.vars = {}

    def num(self, s):
        return const(F(str(s)))

    def var(self, name, lo, hi, lo_open=True, hi_open=True, log=False):
        lo, hi = F(str(lo)), F(str(hi))
        self.eng.declare(name, lo, hi, lo_open, hi_open, log)
        v = sym.var(name)
        self.vars[name] = v
        return v

    def array(self, xs):
        return oarr(list(xs))

    def assume(self, b):
        self.eng.assume(b)

    def plots(self):
        return self.world.plots

    def opaque(self, obj, forget=False, keep=()):
        """replace every computed value held by obj by a fresh unconstrained variable (over-approximation):
        what follows is decided for all such values, subject to lemmas proved elsewhere; forget drops the path condition so far"""
        return self.eng.opaque(obj, forget, keep)

    def cut_method(self, cls, name):
        """values of cls.name enter as opaque variables (equal arguments give equal values)"""
        f = getattr(cls, name)
        eng = self.eng

        def g(*a, **k):
            return eng.opaque(f(*a, **k), False, ())

        setattr(cls, name, g)

    def lemma(self, b):
        """a fact proved by another claim, used as an assumption on opaque values"""
        self.eng.assume(b)

    # claims -----------------------------------------------------------------
    def eq(self, name, a, b, tol=None, cuts=None, scale=None, undef=False):
        self.eng.claim("eq", name, a, b, cuts=cuts)

    def le(self, name, a, b, tol=None, cuts=None):
        self.eng.claim("le", name, a, b, cuts=cuts)

    def lt(self, name, a, b, tol=None, cuts=None):
        self.eng.claim("lt", name, a, b, cuts=cuts)

    def between(self, name, lo, x, hi, tol=None):
        self.le(name + " (lower)", lo, x)
        self.le(name + " (upper)", x, hi)

    def true(self, name, cond):
        self.eng.claim_true(name, cond)

    def soft_lt(self, name, a, b):
        self.eng.claim("lt", name, a, b, soft=True)

    def soft_le(self, name, a, b):
        self.eng.claim("le", name, a, b, soft=True)

    def increasing(self, name, f, x, sign=1, tol=None):
        """f is strictly monotone in the variable x (derivative has the given sign everywhere)"""
        y = lift(_one(f(x)))
        d = sym.diff(y, x)
        self.eng.claim("lt", name, const(0), d if sign > 0 else -d, obs=y)

    def sign_from(self, name, f, x, x0, sign=1, side=1, tol=None):
        """f(x0) == 0 and f' has the given sign for x beyond x0 (side=+1) or below it (side=-1), hence
        sign*side*f(x) > 0 there.  (mean value theorem on the interval between x0 and x)"""
        y = lift(_one(f(x)))
        y0 = lift(_one(f(lift(x0))))
        d = sym.diff(y, x)
        self.eng.claim("eq", name + " [at origin]", y0, const(0))
        self.eng.claim("lt", name + " [derivative]", const(0), d if sign > 0 else -d, obs=y)

    def pos_by_mvt(self, *a, **k):
        return self.sign_from(*a, **k)

    def finding(self, fid, name, a, b, known):
        """claim a == b; when it fails and finding fid is listed, the failure must be exactly a == known"""
        self.eng.claim("eq", name, a, b, finding=(fid, known))

    def same(self, name, a, b):
        """identical concrete (non-numeric) values"""
        self.eng.claim_obj(name, a, b)

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            self.eng.claim_obj(name, True, True)
            return
        except (Unsupported, Infeasible, ClaimFailed):
            raise
        except Exception as e:
            self.eng.claim_obj(name, type(e).__name__, "expected exception")
            return
        self.eng.claim_obj(name, "no exception", "expected exception")

    def diff(self, y, x):
        return sym.diff(lift(_one(y)), x)

    def slope(self, f, x, sing=0):
        """derivative of f at the variable x (concrete runs: finite difference, in steps small against x - sing)"""
        return sym.diff(lift(_one(f(x))), x)

    def pin(self, v):
        return v

    def symbolic(self, f):
        """run f only in the symbolic world"""
        f()

    def note(self, text):
        self.eng.notes.add(text)

    @property
    def roots(self):
        return self.eng.root_list


def _one(v):
    if isinstance(v, np.ndarray):
        if v.size == 1:
            return v.ravel()[0]
    return v


class CH(Base):
    """concrete harness context: the same harness on the real code, inputs = floats"""

    concrete = True

    def __init__(self, env, repo=None, only_vars=None):
        self.env = env
        self.world = ConcreteWorld(repo)
        self.failed = []  # (name, detail)
        self.scales = {}
        self.observed = []  # (name, which, value)
        self.out_of_domain = False
        self.known = []

    def num(self, s):
        return float(F(str(s)))

    def var(self, name, lo, hi, lo_open=True, hi_open=True, log=False):
        if name not in self.env:
            # a variable the counterexample does not constrain
            lo, hi = F(str(lo)), F(str(hi))
            self.env[name] = sample_value(name, lo, hi, lo_open, hi_open, 0, 1, log)
        v = float(self.env[name])
        if not (float(F(str(lo))) - 1e-12 <= v <= float(F(str(hi))) + 1e-12):
            raise Infeasible()
        return np.float64(v)

    def array(self, xs):
        return np.array([float(x) for x in xs])

    def assume(self, b):
        if not bool(np.all(b)):
            raise Infeasible()

    def plots(self):
        return self.world.plots

    def opaque(self, obj, forget=False, keep=()):
        return obj

    def cut_method(self, cls, name):
        pass

    def lemma(self, b):
        pass

    def _obs(self, name, *vals):
        for i, v in enumerate(vals):
            self.observed.append((name, i, v))

    def _fail(self, name, detail):
        self.failed.append((name, detail))

    def eq(self, name, a, b, tol=None, cuts=None, scale=None, undef=False):
        """undef: two undefined values (outside the domain of the formulas) are equal"""
        tol = 2e-6 if tol is None else tol
        try:
            aa, bb = np.asarray(a), np.asarray(b)
            if aa.dtype == object:
                aa = aa.astype(complex if any(isinstance(x, complex) for x in aa.ravel()) else float)
            if bb.dtype == object:
                bb = bb.astype(complex if any(isinstance(x, complex) for x in bb.ravel()) else float)
            if aa.shape != bb.shape and not (aa.size == 1 or bb.size == 1):
                self._fail(name, "shapes %s and %s differ" % (aa.shape, bb.shape))
                return
            aa, bb = np.broadcast_arrays(aa, bb)
        except (TypeError, ValueError) as e:
            self._fail(name, "values cannot be compared: %r %r" % (a, b))
            return
        self._obs(name, aa, bb)
        if scale is not None:
            self.scales[name] = float(np.max(np.abs(scale)))
        sc = np.maximum(np.maximum(np.abs(aa), np.abs(bb)), 1e-30 if scale is None else float(np.max(np.abs(scale))))
        sc = np.maximum(sc, 1e-9 if scale is None else 0)
        bad = ~(np.abs(aa - bb) <= tol * sc)
        if undef:
            bad &= ~(np.isnan(aa) & np.isnan(bb))
        if bad.any():
            i = int(np.argmax(bad.ravel()))
            self._fail(name, "%r != %r" % (aa.ravel()[i], bb.ravel()[i]))

    def _ineq(self, name, a, b, strict, tol):
        aa, bb = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        self._obs(name, aa, bb)
        t = 1e-7 if tol is None else tol
        sc = np.maximum(np.maximum(np.abs(aa), np.abs(bb)), 1e-9)
        bad = ~(aa <= bb + t * sc)
        if bad.any():
            i = int(np.argmax(bad.ravel()))
            self._fail(name, "not (%r %s %r)" % (aa.ravel()[i], "<" if strict else "<=", bb.ravel()[i]))

    def le(self, name, a, b, tol=None, cuts=None):
        self._ineq(name, a, b, False, tol)

    def lt(self, name, a, b, tol=None, cuts=None):
        self._ineq(name, a, b, True, tol)

    def between(self, name, lo, x, hi, tol=None):
        self.le(name + " (lower)", lo, x, tol)
        self.le(name + " (upper)", x, hi, tol)

    def true(self, name, cond):
        if not bool(np.all(cond)):
            self._fail(name, "condition is false")

    def soft_lt(self, name, a, b):
        pass

    soft_le = soft_lt

    def increasing(self, name, f, x, sign=1, tol=None):
        h = 1e-4 * max(abs(float(x)), 1e-3)
        y0, y1 = float(_one(f(x))), float(_one(f(x + h)))
        self._obs(name, np.asarray(y0))
        if not (sign * (y1 - y0) > -1e-9 * max(abs(y0), abs(y1))):
            self._fail(name, "f(%r)=%r, f(%r)=%r" % (float(x), y0, float(x + h), y1))

    def sign_from(self, name, f, x, x0, sign=1, side=1, tol=None):
        y0 = float(_one(f(np.float64(x0))))
        y = float(_one(f(x)))
        self._obs(name + " [at origin]", np.asarray(y0), np.asarray(0.0))
        self._obs(name + " [derivative]", np.asarray(y))
        if not abs(y0) <= 1e-9:
            self._fail(name + " [at origin]", "f(%r)=%r, expected 0" % (float(x0), y0))
        if not sign * side * y > -1e-9:
            self._fail(name + " [derivative]", "f(%r)=%r has the wrong sign" % (float(x), y))

    def finding(self, fid, name, a, b, known):
        n0 = len(self.failed)
        self.eq(name, a, b)
        if len(self.failed) > n0:
            det = self.failed.pop()
            if len(self.failed) > n0:
                del self.failed[n0:]
            if fid in KNOWN:
                self.eq(name + " [known deviation]", a, known)
                self.observed = [o for o in self.observed if o[0] != name + " [known deviation]"]
                if len(self.failed) == n0:
                    self.known.append(fid)
                else:
                    self.failed[n0:] = [(name, det[1])]
            else:
                self.failed.append(det)

    def same(self, name, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ok = np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
        else:
            ok = a == b
        if not bool(ok):
            self._fail(name, "%r != %r" % (a, b))

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            return
        except Exception as e:
            self._fail(name, "raised %r" % e)
            return
        self._fail(name, "no exception raised")

    def diff(self, y, x):
        raise Unsupported("diff is symbolic only")

    def slope(self, f, x, sing=0):
        d = 1e-3 * abs(x - sing)
        return (f(x - 2 * d) - 8 * f(x - d) + 8 * f(x + d) - f(x + 2 * d)) / (12 * d)

    def pin(self, v):
        return v

    def symbolic(self, f):
        pass

    def note(self, text):
        pass

    roots = ()


KNOWN = {}


IN_DOMAIN = "nominal case within the domain"
try:
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "nominal.json")) as _fh:
        NOMINAL = json.load(_fh)
except FileNotFoundError:
    NOMINAL = {}


def run_concrete(fn, env, repo=None):
    """-> CH  (failed list filled; an exception of the code under test is a failure)"""
    ch = CH(dict(env), repo)
    buf = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            fn(ch)
        except Infeasible:
            ch.out_of_domain = not ch.failed  # a claim made before the assumption did not have it
        except Unsupported:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if "/aerokit/" in t.filename]
            loc = "%s:%d" % (where[-1].filename, where[-1].lineno) if where else "harness"
            ch._fail("no exception", "%s: %s at %s" % (type(e).__name__, e, loc))
            ch.exc_in_code = bool(where)
    return ch


# ---------------------------------------------------------------------------- the engine
class Claim:
    __slots__ = ("kind", "name", "a", "b", "status", "detail", "path")


class Engine:
    """explores one harness"""

    def __init__(self, prop, name, fn, opts, tier="quick", seed=1, repo=None):
        self.prop, self.name, self.fn, self.opts = prop, name, fn, opts
        self.tier, self.seed, self.repo = tier, seed, repo
        self.budget = opts.get("budget", 200 if tier == "quick" else 1200)
        self.qtimeout = opts.get("timeout", 8000 if tier == "quick" else 30000)
        self.max_paths = opts.get("max_paths", 400)
        self.notes = set()
        self.functions = set()
        self.res = dict(paths=0, forks=0, claims=0, proved=0, trivial=0, reduced=0, pinned=0, soft_open=0,
                        undecided=[], violations=[], known=[], defined=0, defined_assumed=0,
                        validated=0, mismatches=[], samples=[], infeasible=0, errors=[], bounds={}, vacuous=0,
                        pinned_claims=[], reduced_claims=[], assumptions=0)
        self.claim_cache = {}
        self.def_cache = {}
        self.viol_names = set()
        self.t0 = time.time()
        self.deadline = self.t0 + self.budget

    # ------------------------------------------------------------ exploration
    def explore(self):
        sym.reset()
        sym.S.digits = self.opts.get("digits", 0)
        work = [[]]
        self.decl = {}
        while work:
            prefix = work.pop()
            if self.res["paths"] >= self.max_paths or time.time() > self.deadline:
                self.res["undecided"].append("path budget exhausted (%d prefixes left)" % (len(work) + 1))
                break
            self.prefix = prefix
            self.work = work
            self.run_path()
        return self.res

    def run_path(self):
        self.pos = 0
        self.taken = []
        self.decided = {}
        self.atoms = []
        self.root_list = []
        sym.S.roots = {}
        sym.S.decide = self.decide
        self.bounds = {}
        self.subst = {}
        self.ctx_cache = {}
        self._mask_key = None
        self.batch = None
        self.claim_no = {}
        self.path_claims = []  # (name, a, b) as executed, for validation
        stubs = {}
        if not self.opts.get("real_secant"):
            stubs["aerokit.aero.IterativeSolve.secant_solve"] = secant_contract
        stubs.update(self.opts.get("stubs", {}))
        self.world = World(self, self.repo, stubs=stubs)
        h = H(self)
        self.pending_root = 0
        self.nopaque = 0
        self.opaque_memo = {}
        try:
            self.fn(h)
            self.res["paths"] += 1
            self.finish_path()
        except Infeasible:
            self.res["infeasible"] += 1
        except Unsupported as e:
            self.res["errors"].append("%s: unsupported: %s%s" % (self.name, e, _where(e)))
            self.res["paths"] += 1
        except RecursionError as e:
            self.res["errors"].append("%s: recursion" % self.name)
        except Exception as e:
            self.exception_on_path(e)
            self.res["paths"] += 1
        finally:
            self.functions |= self.world.functions
            sym.S.decide = None

    def finish_path(self):
        # vacuity: is the path condition satisfiable?
        if self.mask().any():
            return
        c = self.ctx()
        if c is None:
            self.res["vacuous"] += 1
            return
        gens = set()
        for e, g in c.atoms:
            gens |= g
        r = c.query([], gens, timeout=1500, all_atoms=True)
        if r != "sat":
            self.res["vacuous"] += 1

    def exception_on_path(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if "/aerokit/" in t.filename]
        msg = "%s: %s" % (type(e).__name__, e)
        loc = "%s:%d" % (where[-1].filename, where[-1].lineno) if where else str(tb[-1])
        # candidate inputs: samples of this path
        for env in self.candidates():
            ch = run_concrete(self.fn, env, self.repo)
            if ch.failed:
                self.violation(ch.failed[0][0], env, ch.failed[0][1])
                return
        self.res["errors"].append("%s: symbolic execution raised %s at %s; not reproduced" % (self.name, msg, loc))

    def candidates(self, k=6):
        """inputs satisfying the current path: samples, else a solver model"""
        m = self.mask()
        out = [self.batch.envs[i] for i in np.nonzero(m)[0][:k]] if m.any() else []
        if not out:
            try:
                c = self.ctx()
                gens = set()
                for e, g in c.atoms:
                    gens |= g
                r, mod = c.query([], gens, timeout=3000, want_model=True, all_atoms=True)
                if mod:
                    out.append(self.complete(mod))
            except Unsupported:
                pass
        return out

    def complete(self, model):
        env = {}
        base = self.batch.envs[0] if self.batch is not None and self.batch.envs else {}
        for n, (lo, hi, sl, sh, log) in self.decl_path().items():
            if n in model:
                env[n] = model[n]
            elif n in base:
                env[n] = base[n]
            else:
                env[n] = (lo + hi) / 2
        # inputs that were eliminated by a solved equality
        if any(n in self.subst for n in env):
            full = dict(env)
            full.update(model)
            for n, s in self.subst.items():
                if n not in env:
                    continue
                v = sym.mp_eval([s], full)[0]
                try:
                    env[n] = F(float(v)).limit_denominator(10**12)
                except (ValueError, OverflowError):
                    pass
        return env

    def decl_path(self):
        return {n: self.decl[n] for n in self.bounds if n in self.decl}

    # ------------------------------------------------------------ declarations and assumptions
    def declare(self, name, lo, hi, sl, sh, log):
        self.decl[name] = (lo, hi, sl, sh, log)
        self.bounds[name] = (lo, hi, sl, sh)
        self.res["bounds"][name] = "%s%s, %s%s" % ("(" if sl else "[", _fs(lo), _fs(hi), ")" if sh else "]")
        self.batch = None
        self.ctx_cache = {}

    def get_batch(self):
        if self.batch is None:
            names = list(self.bounds)
            n = NSAMP
            envs = []
            for i in range(n):
                envs.append({
                    nm: sample_value(nm, *self.decl[nm][:4], i, self.seed, self.decl[nm][4]) for nm in names
                })
            # special samples: corners are informative for case splits
            self.batch = sym.Batch(envs)
            self._mask_key = None
        return self.batch

    def mask(self):
        b = self.get_batch()
        key = (id(b), len(self.atoms), len(self.root_list))
        if self._mask_key == key:
            return self._mask
        m = np.ones(b.n, dtype=bool)
        for a in self.atoms:
            m &= self.truth(a, b, False)
        self._mask, self._mask_key = m, key
        if not m.any() and not getattr(self, "_resampled", None) == key:
            self._resampled = key
            self.resample()
        return self._mask

    def resample(self):
        """look further for samples that satisfy the path condition"""
        names = list(self.bounds)
        if not names:
            return
        for rnd in range(1, 9):
            envs = [
                {nm: sample_value(nm, *self.decl[nm][:4], i + 1000 * rnd, self.seed, self.decl[nm][4]) for nm in names}
                for i in range(400)
            ]
            b = sym.Batch(envs)
            m = np.ones(b.n, dtype=bool)
            for a in self.atoms:
                m &= self.truth(a, b, False)
                if not m.any():
                    break
            if m.any():
                good = [envs[i] for i in np.nonzero(m)[0]][: NSAMP // 2]
                keep = self.batch.envs[: NSAMP - len(good)]
                self.batch = sym.Batch(good + keep)
                m = np.ones(self.batch.n, dtype=bool)
                for a in self.atoms:
                    m &= self.truth(a, self.batch, False)
                self._mask, self._mask_key = m, (id(self.batch), len(self.atoms), len(self.root_list))
                self.ctx_cache = {}
                return

    def truth(self, a, b, default):
        """boolean vector of the atom on the batch (NaN -> default)"""
        if isinstance(a, (bool, np.bool_)):
            return np.full(b.n, bool(a))
        if a.op == "and":
            return self.truth(a.a, b, default) & self.truth(a.b, b, default)
        if a.op == "or":
            return self.truth(a.a, b, default) | self.truth(a.b, b, default)
        if a.op == "not":
            return ~self.truth(a.a, b, not default)
        x, y = b.get(a.a), b.get(a.b)
        nan = np.isnan(x) | np.isnan(y)
        with np.errstate(all="ignore"):
            d = x - y
            sc = 1e-11 * (np.abs(x) + np.abs(y))
            if a.op == "lt":
                r = d < 0
            elif a.op == "le":
                r = d <= sc
            else:
                r = np.abs(d) <= 1e-9 * (np.abs(x) + np.abs(y)) + 1e-12
        return np.where(nan, default, r)

    def assume(self, b):
        if isinstance(b, np.ndarray):
            for x in b.ravel():
                self.assume(x)
            return
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise Infeasible()
            return
        if b.op == "and":
            self.assume(b.a)
            self.assume(b.b)
            return
        self.atoms.append(b)
        self.res["assumptions"] += 1
        if b.op in ("lt", "le", "eq"):
            self.decided[(b.op, b.a.id, b.b.id)] = True
        if b.op == "eq":
            for x, y in ((b.a, b.b), (b.b, b.a)):
                if x.op == "root" and x.val not in self.subst and (
                        y.op == "const" or y.op in ("var", "root") and y is not x and y.val not in self.subst):
                    self.subst[x.val] = y
                    self.ctx_cache = {}
                    break

    def opaque(self, obj, forget, keep):
        kept = set()
        for k in keep:
            kept |= {lift(x).id for x in np.ravel(np.array(k, dtype=object))}
        if forget:
            self.atoms = []
            self.subst = {}
        memo = self.opaque_memo

        def var(n):
            n = lift(n)
            if not isinstance(n, Sym) or n.op in ("const", "var", "root", "pi") or n.id in kept:
                return n
            v = memo.get(n.id)
            if v is None:
                self.nopaque += 1
                v = memo[n.id] = sym.mk("root", (), "opq%d" % self.nopaque)
                sym.S.roots[v.val] = (v - n, n, "definition")
            return v

        seen = set()

        def walk(o):
            if isinstance(o, Sym):
                return var(o)
            if isinstance(o, CSym):
                return CSym(var(o.re), var(o.im))
            if isinstance(o, list):
                o[:] = [walk(x) for x in o]
                return o
            if isinstance(o, tuple):
                return tuple(walk(x) for x in o)
            if isinstance(o, dict):
                for k in o:
                    o[k] = walk(o[k])
                return o
            if isinstance(o, np.ndarray) and o.dtype == object:
                if o.ndim == 0:
                    o[()] = walk(o[()])
                else:
                    for i in np.ndindex(*o.shape):
                        o[i] = walk(o[i])
                return o
            d = getattr(o, "__dict__", None)
            if d is not None and type(o).__module__.startswith("aerokit") and id(o) not in seen:
                seen.add(id(o))
                for k in list(d):
                    d[k] = walk(d[k])
            return o

        out = walk(obj)
        if self.batch is not None:
            self.batch = sym.Batch(self.batch.envs)
        self._mask_key = None
        self.ctx_cache = {}
        return out

    def add_root(self, r, res, guess, kind):
        # the same equation from the same start has the same answer: solvers are deterministic
        for r0, res0, guess0, kind0 in self.root_list:
            if kind0 == kind and guess0 is guess and sym.substitute(res, {r.id: r0}) is res0:
                return r0
        sym.S.roots[r.val] = (res, guess, kind)
        self.root_list.append((r, res, guess, kind))
        # samples now have a value for r
        self.batch = None if self.batch is None else sym.Batch(self.batch.envs)
        self._mask_key = None
        self.ctx_cache = {}
        self.solve_equality(res, r)
        hook = self.opts.get("root_hook")
        if hook:
            hook(self, r, res, guess, kind)
        return r

    def solve_equality(self, res, r=None):
        """residual == 0: eliminate an input variable that occurs linearly, else keep as an atom"""
        try:
            c = self.ctx()
            rf = c.rf(res)
            num = rf.num
            nf = c.nf
            cand = []
            gens = set()
            for m in num:
                for g, e in m:
                    gens.add(g)
            deps = {g: self.gen_vars(c, g) for g in gens}
            for g in gens:
                G = nf.gens[g]
                if G.kind != "var" or G.data.startswith(("root", "opq")) or G.data in self.subst or G.data in c.cuts.values():
                    continue
                if any(g in deps[h] for h in gens if h != g):
                    continue
                if any(g in self.poly_vars(c, nf.factors[f]) for f, _ in rf.den):
                    continue
                deg = max(dict(m).get(g, 0) for m in num)
                if deg != 1:
                    continue
                coef = {}
                rest = {}
                for m, k in num.items():
                    d = dict(m)
                    if g in d:
                        del d[g]
                        coef[tuple(sorted(d.items()))] = k
                    else:
                        rest[m] = k
                if len(coef) != 1 or () not in coef:
                    # factors of the denominator do not vanish where the residual is defined
                    _k, fs = nf.factor(coef)
                    dens = {f for f, _ in rf.den}
                    if not all(f in dens or nf.sign(nf.factors[f]) in (1, -1) for f, _ in fs):
                        continue
                cand.append((len(coef), G.data))
            if cand:
                cand.sort()
                v = cand[0][1]
                vn = sym.var(v)
                # v = expr(root, ...) in the DAG:  res is affine in v
                d1 = sym.substitute(res, {vn.id: const(1)})
                d0 = sym.substitute(res, {vn.id: const(0)})
                expr = self.affine(res, vn)
                if expr is None:
                    expr = -(d0 / (d1 - d0))
                self.subst[v] = expr
                self.ctx_cache = {}
                lo, hi, sl, sh = self.bounds[v]
                self.atoms.append(SymBool("lt" if sl else "le", const(lo), expr))
                self.atoms.append(SymBool("lt" if sh else "le", expr, const(hi)))
                return
        except (Unsupported, ZeroDivisionError):
            pass
        self.atoms.append(SymBool("eq", res, const(0)))

    def affine(self, res, vn):
        """res = A +- v  syntactically -> v as a DAG"""
        sign, n, other = 1, res, const(0)
        # walk nested additions
        def walk(n, s):
            nonlocal found, acc
            if n is vn:
                if found:
                    return False
                found = s
                return True
            if n.op == "add":
                return walk(n.args[0], s) and walk(n.args[1], s)
            if n.op == "mul" and n.args[0].op == "const":
                k = n.args[0].val
                if any(x is vn for x in sym.cone([n.args[1]])):
                    return walk(n.args[1], s * k)
            elif any(x is vn for x in sym.cone([n])):
                return False
            acc = acc + n * const(s)
            return True

        found, acc = 0, const(0)
        if walk(res, F(1)) and found:
            return -acc / const(found)
        return None

    def gen_vars(self, c, g, seen=None):
        seen = set() if seen is None else seen
        if g in seen:
            return set()
        seen.add(g)
        G = c.nf.gens[g]
        out = set()
        polys = []
        if G.kind == "var":
            return {g}
        if G.kind == "pow":
            polys = [c.nf.bases[G.data[0]], G.data[1].num] + [c.nf.factors[f] for f, _ in G.data[1].den]
        elif G.kind == "log":
            polys = [c.nf.bases[G.data]]
        elif G.kind in ("cos", "sin"):
            t, _m = c.nf.angle_info[G.data]
            polys = [t.num] + [c.nf.factors[f] for f, _ in t.den]
        elif G.kind == "ang":
            a = G.data[1]
            for x in a if isinstance(a, tuple) else (a,):
                polys += [x.num] + [c.nf.factors[f] for f, _ in x.den]
        for p in polys:
            for m in p:
                for h, _ in m:
                    out |= self.gen_vars(c, h, seen)
        return out

    def poly_vars(self, c, p):
        out = set()
        for m in p:
            for h, _ in m:
                out |= self.gen_vars(c, h)
        return out

    # ------------------------------------------------------------ contexts
    def ctx(self, extra=(), subst=None, cuts=None):
        key = (len(self.atoms), tuple(sorted(self.subst)), tuple((k, v.id) for k, v in sorted((subst or {}).items())),
               tuple(sorted((cuts or {}).items())), len(self.bounds), len(self.root_list))
        c = self.ctx_cache.get(key)
        if c is None:
            full = dict(self.subst)
            for k, v in (subst or {}).items():
                full[k] = v
            c = lower.Ctx(self.bounds, [], full, self.get_batch(), self.mask(), cuts,
                          approx_trig=self.opts.get("approx_trig", False))
            c.sign_all = self.opts.get("sign_all", False)
            # plain atoms first: the signs they give decide how powers are lowered
            for a in sorted(self.atoms, key=atom_weight):
                try:
                    c.add_atom(a)
                except (Unsupported, ZeroDivisionError):
                    continue  # a weaker assumption set is sound
            # signs found before all assumptions were known may be improved now
            for k in [k for k, v in c.nf.sign_cache.items() if v in (0, 2, -2)]:
                del c.nf.sign_cache[k]
            c.gen_done = {}
            self.ctx_cache[key] = c
        return c

    def plain_ctx(self):
        key = ("plain", len(self.atoms), len(self.bounds))
        c = self.ctx_cache.get(key)
        if c is None:
            c = lower.Ctx(self.bounds, [], {}, self.get_batch(), self.mask(), None,
                          approx_trig=self.opts.get("approx_trig", False))
            c.sign_all = self.opts.get("sign_all", False)
            for a in self.atoms:
                if any(n.op == "root" and n.val.startswith("root") for n in sym.cone(atom_nodes(a))):
                    continue
                try:
                    c.add_atom(a)
                except (Unsupported, ZeroDivisionError):
                    continue
            c.gen_done = {}
            self.ctx_cache[key] = c
        return c

    # ------------------------------------------------------------ branching
    def decide(self, b):
        key = (b.op, b.a.id, b.b.id)
        if key in self.decided:
            return self.decided[key]
        # a<b  <=>  not b<=a
        if b.op == "lt" and ("le", b.b.id, b.a.id) in self.decided:
            return not self.decided[("le", b.b.id, b.a.id)]
        if b.op == "le" and ("lt", b.b.id, b.a.id) in self.decided:
            return not self.decided[("lt", b.b.id, b.a.id)]
        if b.op in ("lt", "le") and (self.decided.get(("lt", b.a.id, b.b.id)) or self.decided.get(("lt", b.b.id, b.a.id))):
            return bool(self.decided.get(("lt", b.a.id, b.b.id)))
        if b.op == "eq" and ("eq", b.b.id, b.a.id) in self.decided:
            return self.decided[("eq", b.b.id, b.a.id)]
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            self.record(b, key, v, forced)
            return v
        v = self.ground(b)
        if v is not None:
            self.decided[key] = v
            return v
        self.mask()  # may draw further samples
        t = self.truth(b, self.get_batch(), False)
        f = self.truth(SymBool("not", b), self.get_batch(), False)
        m = self.mask()
        can_t, can_f = bool((t & m).any()), bool((f & m).any())
        und = [n for n in sym.cone([b.a, b.b]) if n.op == "root" and n.val not in sym.S.roots]
        forced = False
        if b.op in ("lt", "le") and can_t and can_f and not und:
            with np.errstate(all="ignore"):
                x, y = self.get_batch().get(b.a)[m], self.get_batch().get(b.b)[m]
                if (np.abs(x - y) <= 1e-13 * (np.abs(x) + np.abs(y)) + 1e-14).all():
                    can_t = can_f = False  # equal up to rounding: the solver tells
        if und:
            can_t = can_f = True
        else:
            if not (can_t and can_f):
                if not can_t:
                    can_t = self.feasible(b, True) and not self.proved(b, False)
                if not can_f:
                    can_f = self.feasible(b, False) and not self.proved(b, True)
                if not can_t and not can_f:
                    raise Infeasible()
                forced = not (can_t and can_f)
        v = can_t
        if can_t and can_f:
            self.res["forks"] += 1
            self.work.append(self.taken + [(False, False)])
        self.pos += 1
        self.record(b, key, v, forced)
        self.prefix = self.taken[:]
        return v

    def proved(self, b, v):
        """the branch condition has the value v on the whole path (decided like a claim)"""
        if b.op not in ("lt", "le") or self.opts.get("light") or not self.mask().any():
            return False
        k, x, y = (b.op, b.a, b.b) if v else ("le" if b.op == "lt" else "lt", b.b, b.a)
        old, self.qtimeout = self.qtimeout, min(self.qtimeout, 1500)
        try:
            return self.decide_claim(k, "branch", x, y, None)[0] == "proved"
        finally:
            self.qtimeout = old

    def ground(self, b):
        """truth of a comparison of constants (evaluated to 60 digits; None when it is not one or too close)"""
        roots, seen, todo = False, set(), [b.a, b.b]
        while todo:
            for n in sym.cone(todo):
                if n.op == "var":
                    return None
                if n.op == "root":
                    roots = True
                    if n.val not in sym.S.roots:
                        return None
                    seen.add(n.val)
            todo = [x for v in seen if v in sym.S.roots for x in sym.S.roots[v][:2] if x.id not in seen]
            seen |= {x.id for x in todo}
        if roots:
            # roots of equations without inputs: the solver contract determines their value
            B = self.get_batch()
            x, y = B.get(b.a)[0], B.get(b.b)[0]
            if not abs(x - y) > 1e-6 * (abs(x) + abs(y)):
                return None
            return bool(x < y) if b.op in ("lt", "le") else False
        try:
            x, y = sym.mp_eval([b.a, b.b], {}, dps=60)
            d = float(x - y)
        except (TypeError, ValueError, ZeroDivisionError, OverflowError, ArithmeticError):
            return None
        if not abs(d) > 1e-25:
            return None
        return d < 0 if b.op in ("lt", "le") else False

    def record(self, b, key, v, forced):
        self.taken.append((v, forced))
        self.decided[key] = v
        if not forced:
            atom = b if v else SymBool("not", b)
            if not v and b.op == "lt":
                atom = SymBool("le", b.b, b.a)
            elif not v and b.op == "le":
                atom = SymBool("lt", b.b, b.a)
            self.atoms.append(atom)
            if isinstance(atom, SymBool) and atom.op == "le" and any(
                    isinstance(t, SymBool) and t.op == "le" and t.a is atom.b and t.b is atom.a for t in self.atoms):
                und = [n for n in sym.cone([b.a, b.b]) if n.op == "root" and n.val not in sym.S.roots]
                if not und:
                    self.solve_equality(atom.a - atom.b)

    def feasible(self, b, v):
        k = 0.1 if self.opts.get("light") else 1
        try:
            c = self.ctx()
            e, g = c.lower_bool(b, v)
            r = c.query([e], g, timeout=int(1000 * k))
            if r == "unsat":
                return False
            if r == "unknown" and (b.op == "eq") == v:
                # equality branches: keep only if not refutable with all assumptions
                r = c.query([e], g, timeout=int(2000 * k), all_atoms=True, pairs=True)
                if r == "unsat":
                    return False
            if r == "sat":
                r = c.query([e], g, timeout=int(1500 * k), all_atoms=True, pairs=True)
                if r == "unsat":
                    return False
        except (Unsupported, ZeroDivisionError):
            pass
        return True

    # ------------------------------------------------------------ claims
    def flatten(self, name, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            aa = a if isinstance(a, np.ndarray) else np.array(a, dtype=object)
            bb = b if isinstance(b, np.ndarray) else np.array(b, dtype=object)
            if aa.shape != bb.shape and aa.size != 1 and bb.size != 1:
                raise ClaimFailed("%s: shapes %s and %s" % (name, aa.shape, bb.shape))
            if aa.shape != bb.shape:
                if aa.size == 1:
                    aa = np.broadcast_to(aa.reshape(()), bb.shape)
                elif bb.size == 1:
                    bb = np.broadcast_to(bb.reshape(()), aa.shape)
            out = []
            for i in np.ndindex(*aa.shape):
                out.append((i, aa[i], bb[i]))
            return out
        return [((), a, b)]

    def claim(self, kind, name, a, b, cuts=None, soft=False, obs=None, finding=None):
        if not soft:
            if obs is None:
                self.path_claims.append((name, [a, b]))
            else:
                self.path_claims.append((name, [obs]))
        pairs = self.flatten(name, a, b)
        for i, x, y in pairs:
            nm = name if i == () else "%s%s" % (name, list(i))
            x, y = lift(x), lift(y)
            if x is None or y is None:
                raise Unsupported("claim on a non-number: " + name)
            if isinstance(x, CSym) or isinstance(y, CSym):
                x, y = CSym.of(x), CSym.of(y)
                self._claim(kind, nm + ".re", x.re, y.re, cuts, soft, None)
                self._claim(kind, nm + ".im", x.im, y.im, cuts, soft, None)
            else:
                self._claim(kind, nm, x, y, cuts, soft, finding)

    def claim_true(self, name, cond):
        if isinstance(cond, np.ndarray):
            for i, c in enumerate(cond.ravel()):
                self.claim_true("%s[%d]" % (name, i), c)
            return
        if isinstance(cond, (bool, np.bool_)):
            self.claim_obj(name, bool(cond), True)
            return
        if cond.op in ("lt", "le", "eq"):
            self._claim(cond.op, name, cond.a, cond.b, None, False, None)
        elif cond.op == "and":
            self.claim_true(name, cond.a)
            self.claim_true(name, cond.b)
        else:
            raise Unsupported("claim_true on a compound condition")

    def claim_obj(self, name, a, b):
        """claim on plain objects: decided by execution of this path"""
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ok = np.shape(a) == np.shape(b)
            if ok:
                for x, y in zip(np.asarray(a).ravel(), np.asarray(b).ravel()):
                    if isinstance(x, (Sym, CSym)) or isinstance(y, (Sym, CSym)):
                        if x is y:
                            continue
                        self.claim("eq", name, x, y)
                    elif not (x == y):
                        ok = False
        elif isinstance(a, (Sym, CSym)) or isinstance(b, (Sym, CSym)):
            self.claim("eq", name, a, b)
            return
        else:
            ok = bool(a == b)
        key = ("obj", name, ok, tuple(self.taken))
        if key in self.claim_cache:
            return
        self.claim_cache[key] = ok
        self.res["claims"] += 1
        if ok:
            # the path reaches the claim with the expected value; the negation is unsatisfiable on it
            r, _ = lower.solve([lower.z3.BoolVal(False)], 1000)
            self.res["proved"] += r == "unsat"
            self.res["trivial"] += 1
            return
        for env in self.candidates() or [{}]:
            ch = run_concrete(self.fn, env, self.repo)
            for nm, det in ch.failed:
                self.violation(nm, env, det)
                return
        self.res["undecided"].append("%s: %r vs %r not reproduced" % (name, a, b))

    def _claim(self, kind, name, a, b, cuts, soft, finding):
        cutmap = {}
        for i, cnode in enumerate(cuts or ()):
            cnode = lift(_one(cnode))
            if isinstance(cnode, Sym) and cnode.op not in ("const", "var"):
                cutmap[cnode.id] = "cut%d" % i
        key = (kind, name, a.id, b.id, tuple(repr_atom(x) for x in self.atoms),
               tuple((r.val, res.id) for r, res, _, _ in self.root_list), soft)
        if key in self.claim_cache:
            return
        self.claim_cache[key] = True
        self.res["claims"] += 1
        if name in self.viol_names:
            return
        verdict, env = self.decide_claim(kind, name, a, b, cutmap)
        if verdict == "proved":
            self.res["proved"] += 1
        elif verdict == "trivial":
            self.res["proved"] += 1
            self.res["trivial"] += 1
        elif verdict == "reduced":
            self.res["reduced"] += 1
            self.res["reduced_claims"].append(name)
        elif verdict == "pinned":
            self.res["pinned"] += 1
            self.res["pinned_claims"].append(name)
        elif verdict == "sat":
            if soft:
                self.soft_open(name, env)
                return
            if finding is not None and finding[0] in KNOWN:
                # the listed deviation, and nothing else
                v2, env2 = self.decide_claim(kind, name + " [known deviation]", a, lift(_one(finding[1])), cutmap)
                if v2 in ("proved", "trivial", "reduced", "pinned"):
                    self.res["known"].append(finding[0])
                    self.res["proved"] += 1
                    return
                if env2 is not None:
                    env = env2
            self.check_cex(name, env, kind, a, b)
        else:
            if soft:
                self.soft_open(name, None)
                return
            self.res["undecided"].append(name)
        if not soft and verdict != "sat":
            self.check_defined(name, [a, b])

    def soft_open(self, name, env):
        """a convergence side condition that is not established: directed replay at the solver's point"""
        self.res["soft_open"] += 1
        self.notes.add("side condition not established (%s); directed replays only" % name)
        envs = ([env] if env else []) + self.candidates(8)
        for e in envs:
            try:
                ch = run_concrete(self.fn, e, self.repo)
            except Unsupported:
                continue
            if ch.failed and not ch.out_of_domain:
                self.violation(ch.failed[0][0], e, ch.failed[0][1])
                return

    def holds_numeric(self, kind, a, b, env, dps=40):
        x, y = sym.mp_eval([a, b], env, dps)
        import mpmath

        if mpmath.isnan(x) or mpmath.isnan(y):
            return None
        sc = max(abs(x), abs(y), mpmath.mpf(10) ** -12)
        if kind == "eq":
            return abs(x - y) <= sc * mpmath.mpf(10) ** -14
        if kind == "le":
            return x <= y + sc * mpmath.mpf(10) ** -18
        return x < y

    def env_in_path(self, env):
        """the environment satisfies bounds and path condition (mp evaluation)"""
        for n, (lo, hi, sl, sh) in self.bounds.items():
            if n not in env:
                return False
            v = env[n]
            if v < lo or v > hi or (sl and v <= lo) or (sh and v >= hi):
                return False
        b = sym.Batch([env])
        for a in self.atoms:
            if not self.truth(a, b, False)[0]:
                return False
        return True

    def decide_claim(self, kind, name, a, b, cutmap):
        """-> (verdict, env)   verdict in proved trivial reduced pinned sat undecided"""
        if a is b:
            return ("trivial", None) if kind != "lt" else ("sat", self.first_env())
        # numeric pre-scan: a candidate point for the solver
        m = self.mask()  # may draw further samples
        batch = self.get_batch()
        m = self.mask()
        with np.errstate(all="ignore"):
            xa, xb = batch.get(a), batch.get(b)
            sc = np.abs(xa) + np.abs(xb)
            if kind == "eq":
                bad = np.abs(xa - xb) > 1e-7 * sc
                # absolute cancellation guard
                bad &= np.abs(xa - xb) > 1e-12
            elif kind == "le":
                bad = xa > xb + 1e-9 * sc
            else:
                bad = xa >= xb + 1e-9 * sc
            bad &= m & np.isfinite(xa) & np.isfinite(xb)
        hints = [batch.envs[i] for i in np.nonzero(bad)[0][:4]]
        if not hints and self.mask().any():
            nanbad = m & (np.isnan(xa) | np.isnan(xb))
            if nanbad.any() and not self.root_list:
                # undefined value inside the domain
                return "sat", batch.envs[int(np.nonzero(nanbad)[0][0])]
        for env in hints:
            ok = self.holds_numeric(kind, a, b, env)
            if ok is False:
                v = self.pinned_query(kind, a, b, env)
                if v == "sat":
                    return "sat", env
        try:
            return self.solver_claim(kind, a, b, cutmap)
        except NegativeBase:
            pass
        except (Unsupported, ZeroDivisionError) as e:
            self.notes.add("normal form of %s: %s" % (name, e))
        return self.fallback(kind, a, b, cutmap)

    def first_env(self):
        c = self.candidates(1)
        return c[0] if c else {}

    def solver_claim(self, kind, a, b, cutmap):
        if self.subst and not cutmap and not any(n.op == "root" for n in sym.cone([a, b])):
            # nothing but inputs: decide without the solved equations first
            c = self.plain_ctx()
            d = c.nf.sub(c.rf(a), c.rf(b))
            if not d.is_zero():
                e, g = c.zcmp(d, {"eq": "ne", "le": "gt", "lt": "ge"}[kind])
                if c.query([e], g, timeout=self.qtimeout // 4, all_atoms=True, pairs=True) == "unsat":
                    return "proved", None
        c = self.ctx(cuts=cutmap)
        ra, rb = c.rf(a), c.rf(b)
        d = c.nf.sub(ra, rb)
        if kind == "eq" and d.is_zero():
            if a.is_const and b.is_const:
                lower.solve([lower.z3.BoolVal(False)], 500)
                return "trivial", None
            # the two sides have the same normal form: the solver confirms num_a*den_b == num_b*den_a
            return self.confirm_identity(c, ra, rb), None
        rel = {"eq": "ne", "le": "gt", "lt": "ge"}[kind]
        if kind != "eq":
            if sym.S.digits and c.linear_relaxation(d, rel):
                return "proved", None
            s = c.rf_sign(d)
            if s == -1 or (s == -2 and kind == "le") or (kind == "le" and d.is_zero()):
                return "proved", None
            s = c.factor_sign(d)
            if s == -1 or (s == -2 and kind == "le"):
                return "proved", None
        if self.angle_claim(c, kind, d):
            return "proved", None
        if kind == "eq" and self.reduced_identity(c, d):
            return "proved", None
        e, g = c.zcmp(d, rel)
        for step, (allat, pairs, to) in enumerate(
            [(False, False, self.qtimeout // 4), (True, True, self.qtimeout)]
        ):
            r, mod = c.query([e], g, timeout=to, want_model=True, all_atoms=allat, pairs=pairs)
            if r == "unsat":
                return "proved", None
            if r == "sat" and step == 1:
                env = self.complete(mod)
                if self.env_in_path(env) and self.holds_numeric(kind, a, b, env) is False:
                    return "sat", env
        return self.fallback(kind, a, b, cutmap)

    def angle_claim(self, c, kind, d):
        """d compared with zero where d is an angle:  with |D| < pi,  sin D = 0 and cos D > 0 give D = 0,
        sin D < 0 gives D < 0   (D = d or d in radians)"""
        nf = c.nf
        gens = {g for m in d.num for g, _ in m}
        if not any(nf.gens[g].kind == "ang" for g in gens):
            return False
        pi = nf.rf_gen(nf.PI)
        for D in (nf.mul(d, nf.mul(pi, nf.const(F(1, 180)))), d):
            if any(nf.gens[g].kind == "pi" for f, _ in D.den for m in nf.factors[f] for g, _ in m):
                continue
            # every angle must occur linearly with a small rational factor
            ok = True
            for m, k in D.num.items():
                a = [(g, e) for g, e in m if nf.gens[g].kind == "ang"]
                if a and (len(m) != 1 or a[0][1] != 1 or D.den or k.denominator > 4 or abs(k.numerator) > 6):
                    ok = False
            if not ok:
                continue
            try:
                cs, sn = nf.cos_sin(D)
            except (Unsupported, ZeroDivisionError, NegativeBase):
                continue
            below, above = nf.sub(D, pi), nf.add(D, pi)
            todo = []
            if kind == "eq":
                if not (sn.is_zero() or self.reduced_identity(c, sn)):
                    todo.append((sn, "ne"))
                todo.append((cs, "le"))
            else:
                todo.append((sn, "gt" if kind == "le" else "ge"))
            # the ends of the turn have the cosine -1: they are excluded by cos D > 0
            todo += [(above, "lt"), (below, "gt")] if kind == "eq" else [(above, "le"), (below, "ge")]
            good = True
            for r, rel in todo:
                sg = c.rf_sign(r)
                if (rel in ("le", "lt") and sg == 1) or (rel in ("ge", "gt") and sg == -1):
                    continue
                e, g = c.zcmp(r, rel)
                q = c.query([e], g, timeout=self.qtimeout // 4, all_atoms=True, pairs=True)
                if q != "unsat":
                    good = False
                    break
            if good:
                return True
        return False

    def reduced_identity(self, c, d):
        """numerator reduced with the defining relations of multiple angles  T_m(cos(t/m)) = cos t"""
        nf = c.nf
        p = d.num
        for _ in range(4):
            rels = [(g, r) for g in sorted({g for m in p for g, _ in m}) for r in [c.trig_relation(g)] if r is not None]
            done = True
            for g, rel in rels:
                n = max(dict(m).get(g, 0) for m in rel)
                while p:
                    e = max(dict(m).get(g, 0) for m in p)
                    if e < n or len(p) > 20000 or time.time() > self.deadline:
                        break
                    done = False
                    lc = lead(rel, g, n)
                    lp = lead(p, g, e)
                    shift = {((g, e - n),) if e > n else (): F(1)}
                    from .nf import p_add, p_neg

                    p = p_add(nf.p_mul(p, lc), p_neg(nf.p_mul(nf.p_mul(lp, shift), rel)))
            if not p:
                lower.solve([lower.rat(F(0)) != lower.rat(F(0))], 500)
                return True
            if done:
                return False
        return False

    def confirm_identity(self, c, ra, rb):
        z3 = lower.z3
        ea, ga = c.zpoly(ra.num)
        eb, gb = c.zpoly(rb.num)
        if ra.den == rb.den:
            f = ea != eb
        else:
            da, g1 = c.zden(ra)
            db, g2 = c.zden(rb)
            for e, m, _ in db:
                for _k in range(m):
                    ea = ea * e
            for e, m, _ in da:
                for _k in range(m):
                    eb = eb * e
            f = ea != eb
        r, _ = lower.solve([f], 1500)
        if r == "unsat":
            return "proved"
        # identity needs the defining equations of the generators (powers, sin^2+cos^2)
        g = set(ga) | set(gb)
        r = c.query([f], g, timeout=1500)
        if r == "unsat":
            return "proved"
        # difference reduced to the zero polynomial by the exact rewriting of nf.py
        lower.solve([lower.rat(F(0)) != lower.rat(F(0))], 500)
        return "trivial"

    def pinned_query(self, kind, a, b, env):
        """solver verdict with the inputs fixed to env; transcendental generators in tight enclosures"""
        try:
            z3 = lower.z3
            full = {n: const(F(v)) for n, v in env.items()}
            import mpmath

            vals = sym.mp_eval([a, b], env)
            if any(mpmath.isnan(v) for v in vals):
                return "sat"
            x, y = z3.Reals("x y")
            fs = []
            for v, t in zip(vals, (x, y)):
                eps = (abs(v) + 1) * mpmath.mpf(10) ** -25
                lo = F(int(mpmath.floor((v - eps) * 10**40)), 10**40)
                hi = F(int(mpmath.ceil((v + eps) * 10**40)), 10**40)
                fs += [t >= lower.rat(lo), t <= lower.rat(hi)]
            neg = {"eq": x != y, "le": x > y, "lt": x >= y}[kind]
            if kind == "eq":
                sc = max(abs(vals[0]), abs(vals[1]))
                t = lower.rat(F(float(sc * mpmath.mpf(10) ** -15)))
                neg = z3.Or(x - y > t, y - x > t)
            r, _ = lower.solve(fs + [neg], 1000)
            return r
        except (Unsupported, ZeroDivisionError):
            return "unknown"

    def fallback(self, kind, a, b, cutmap):
        """smaller bounds: parameters fixed to rational values, then pinned points"""
        grid = self.opts.get("grid") or {}
        names = [n for n in grid if n in self.bounds]
        left = self.deadline - time.time()
        if names and left > 5:
            import itertools

            ok = True
            for vals in itertools.product(*[grid[n] for n in names]):
                sub = {n: const(F(str(v))) for n, v in zip(names, vals)}
                if any(not (self.bounds[n][0] <= F(str(v)) <= self.bounds[n][1]) for n, v in zip(names, vals)):
                    continue
                if time.time() > self.deadline:
                    ok = False
                    break
                try:
                    r = self.reduced_claim(kind, a, b, cutmap, sub)
                except (Unsupported, ZeroDivisionError):
                    r = "unknown"
                if r != "unsat":
                    ok = False
                    break
            if ok:
                return "reduced", None
        # pinned points: the solver decides the claim on finitely many inputs
        batch = self.get_batch()
        idx = np.nonzero(self.mask())[0][:16]
        n = 0
        for i in idx:
            ok = self.holds_numeric(kind, a, b, batch.envs[i])
            if ok is False:
                if self.pinned_query(kind, a, b, batch.envs[i]) == "sat":
                    return "sat", batch.envs[i]
            elif ok:
                n += 1
                self.pinned_query(kind, a, b, batch.envs[i])
        if n:
            return "pinned", None
        return "undecided", None

    def reduced_claim(self, kind, a, b, cutmap, sub):
        batch = sym.Batch([dict(e, **{k: v.val for k, v in sub.items()}) for e in self.get_batch().envs])
        m = np.ones(batch.n, dtype=bool)
        for t in self.atoms:
            m &= self.truth(t, batch, False)
        full = dict(self.subst)
        full.update(sub)
        c = lower.Ctx(self.bounds, [], full, batch, m, cutmap)
        for t in self.atoms:
            try:
                c.add_atom(t)
            except (Unsupported, ZeroDivisionError):
                continue
        d = c.nf.sub(c.rf(a), c.rf(b))
        if kind in ("eq", "le") and d.is_zero():
            return "unsat"
        e, g = c.zcmp(d, {"eq": "ne", "le": "gt", "lt": "ge"}[kind])
        return c.query([e], g, timeout=self.qtimeout // 2, all_atoms=True, pairs=True)

    # ------------------------------------------------------------ definedness
    def check_defined(self, name, nodes):
        """no division by zero / negative root / domain error inside the declared bounds"""
        if self.opts.get("light"):
            return
        conds = []
        for n in sym.cone(nodes):
            if n.op == "div":
                conds.append((n, "ne", n.args[1]))
            elif n.op == "pow":
                e = n.args[1]
                if e.op == "const":
                    if e.val.denominator == 1:
                        if e.val < 0:
                            conds.append((n, "ne", n.args[0]))
                    else:
                        conds.append((n, "gt" if e.val < 0 else "ge", n.args[0]))
                else:
                    conds.append((n, "ge", n.args[0]))
            elif n.op == "log":
                conds.append((n, "gt", n.args[0]))
            elif n.op in ("asin", "acos"):
                conds.append((n, "ge", n.args[0] + 1))
                conds.append((n, "ge", 1 - n.args[0]))
        akey = tuple(repr_atom(x) for x in self.atoms)
        batch = None
        for n, rel, x in conds:
            k = (n.id, rel, x.id, akey, tuple((r.val, res.id) for r, res, _, _ in self.root_list))
            if k in self.def_cache:
                continue
            self.def_cache[k] = True
            if x.is_const:
                continue
            ok = False
            batch = self.get_batch()
            v = batch.get(x)[self.mask()]
            v = v[np.isfinite(v)]
            try:
                c = self.ctx()
                r = c.rf(x)
                s = c.rf_sign(r)
                ok = {"ne": s in (1, -1), "gt": s == 1, "ge": s in (1, 2)}[rel] or (rel == "ge" and r.is_zero())
                if not ok and rel in ("gt", "ge", "ne"):
                    e, g = c.zcmp(r, {"ne": "eq", "gt": "le", "ge": "lt"}[rel])
                    q, mod = c.query([e], g, timeout=1200, all_atoms=True, want_model=True, pairs=True)
                    ok = q == "unsat"
                    if q == "sat" and mod and rel == "ge":
                        env = self.complete(mod)
                        if self.env_in_path(env):
                            val = sym.mp_eval([x], env)[0]
                            if val < -1e-9:
                                ch = run_concrete(self.fn, env, self.repo)
                                if ch.failed and not ch.out_of_domain:
                                    self.violation(ch.failed[0][0], env, ch.failed[0][1])
            except (Unsupported, ZeroDivisionError):
                pass
            if ok:
                self.res["defined"] += 1
            else:
                self.res["defined_assumed"] += 1

    # ------------------------------------------------------------ replay
    def check_cex(self, name, env, kind, a, b):
        """replay a solver counterexample against the real code"""
        tried = []
        envs = [env] if env is not None else []
        # more witnesses of the same failing claim
        batch = self.get_batch()
        with np.errstate(all="ignore"):
            xa, xb = batch.get(a), batch.get(b)
            sc = np.abs(xa) + np.abs(xb) + 1e-30
            gap = {"eq": np.abs(xa - xb) / sc, "le": (xa - xb) / sc, "lt": (xa - xb) / sc}[kind]
            gap = np.where(np.isfinite(gap) & self.mask(), gap, -1)
        for i in np.argsort(-gap)[:6]:
            if gap[i] > 1e-9:
                envs.append(batch.envs[i])
        for e in envs:
            ch = run_concrete(self.fn, e, self.repo)
            if ch.failed and not ch.out_of_domain:
                names = [n for n, _ in ch.failed]
                base = name.split("[")[0].strip()
                det = next((d for n, d in ch.failed if n == name or n.startswith(base)), ch.failed[0][1])
                nm = next((n for n, d in ch.failed if n == name or n.startswith(base)), ch.failed[0][0])
                self.violation(nm, e, det)
                return
            tried.append(e)
        self.res["undecided"].append("%s: solver counterexample not reproduced on the real code" % name)

    def violation(self, claim, env, detail):
        if claim in self.viol_names:
            return
        self.viol_names.add(claim)
        self.res["violations"].append(dict(
            harness=self.name, claim=claim, detail=detail,
            inputs={k: (str(v) if isinstance(v, F) else repr(float(v))) for k, v in env.items()},
            inputs_float={k: float(v) for k, v in env.items()},
        ))

    # ------------------------------------------------------------ nominal cases
    def nominal(self):
        """the assumptions of a harness may bear on values the code computes: at the inputs of nominal.json they hold on
        the verified tree, so that a code that leaves the domain there has changed (a proof over an empty domain is void)"""
        for env in NOMINAL.get(self.prop, {}).get(self.name, []):
            env = {k: F(v) for k, v in env.items()}
            try:
                ch = run_concrete(self.fn, env, self.repo)
            except Unsupported:
                return
            if ch.out_of_domain:
                self.violation(IN_DOMAIN, env, "at these inputs the assumptions of the property hold on the verified code; "
                               "here the computed values do not meet them")
            elif ch.failed:
                self.violation(ch.failed[0][0], env, ch.failed[0][1])

    # ------------------------------------------------------------ validation of the encoding
    def validate(self, k):
        """run the real code on samples: claims must hold concretely, and the values computed by the
        real code must equal the values of the encoding on the path the sample takes"""
        if not self.decl:
            envs = [{}]
        else:
            envs = []
            for i in range(k):
                envs.append({n: sample_value(n, *d[:4], i + 5000, self.seed, d[4]) for n, d in self.decl.items()})
        done = 0
        for env in envs:
            if time.time() > self.deadline + 60:
                break
            try:
                ch = run_concrete(self.fn, env, self.repo)
            except Unsupported as e:
                self.res["errors"].append("concrete run unsupported: %s" % e)
                return
            if ch.out_of_domain:
                continue
            done += 1
            if ch.failed:
                self.violation(ch.failed[0][0], env, ch.failed[0][1])
                continue
            self.compare(env, ch)
        if done == 0 and self.decl:
            # assumptions are narrow: use samples of explored paths
            pass

    def compare(self, env, ch):
        """symbolic execution with every input pinned to env follows one path; compare observed values"""
        sym_eng = PinnedRun(self, env, [x for slot in ch.world.solver_values for x in slot])
        obs = sym_eng.run()
        if obs is None:
            return
        seen = {}
        for name, i, v in ch.observed:
            seen.setdefault((name, i), []).append(v)
        for (name, i), vals in seen.items():
            sv = obs.get((name, i))
            if sv is None or len(sv) != len(vals):
                continue
            for cv, node in zip(vals, sv):
                ca = np.asarray(cv)
                na = oarr(node) if isinstance(node, np.ndarray) else np.array([node], dtype=object)
                if ca.size != na.size:
                    continue
                for x, y in zip(ca.ravel(), na.ravel()):
                    y = lift(y)
                    if isinstance(y, CSym):
                        z = complex(*[float(t) for t in sym.mp_eval([y.re, y.im], sym_eng.env, 25)])
                    else:
                        z = float(sym.mp_eval([y], sym_eng.env, 25)[0])
                    if z != z:
                        continue
                    if abs(complex(x) - z) > 1e-5 * max(abs(z), abs(complex(x)), ch.scales.get(name, 0), 1e-4):
                        self.res["mismatches"].append("%s: real code %r, encoding %r at %s" % (
                            name, x, z, {k: float(v) for k, v in env.items()}))
                        return
        self.res["validated"] += 1
        if len(self.res["samples"]) < 2:
            self.res["samples"].append(dict(
                harness=self.name, inputs={k: float(v) for k, v in env.items()},
                observed=[[n, i, np.asarray(v).ravel()[:3].tolist() if np.asarray(v).dtype != complex
                           else [str(q) for q in np.asarray(v).ravel()[:3]]]
                          for n, i, v in ch.observed[:4]]))


class PinnedRun:
    """re-runs the harness symbolically, decisions answered by the concrete point"""

    def __init__(self, eng, env, solved=()):
        self.eng = eng
        self.env = {k: F(v) for k, v in env.items()}
        self.solved = solved

    def run(self):
        e = self.eng
        obs = {}
        self.roots = []
        sym.S.roots = {}
        stubs = {}
        if not e.opts.get("real_secant"):
            stubs["aerokit.aero.IterativeSolve.secant_solve"] = secant_contract
        stubs.update(e.opts.get("stubs", {}))
        w = self.w = World(self, e.repo, stubs=stubs)
        pr = self

        class P(H):
            def __init__(self):
                self.eng = pr
                self.world = w
                self.vars = {}

            def var(self, name, *a, **k):
                return sym.var(name)

            def assume(self, b):
                pass

            def eq(self, name, a, b, **k):
                obs.setdefault((name, 0), []).append(a)
                obs.setdefault((name, 1), []).append(b)

            le = lt = eq

            def true(self, *a):
                pass

            soft_lt = soft_le = true

            def increasing(self, name, f, x, *a, **k):
                obs.setdefault((name, 0), []).append(f(x))

            def sign_from(self, name, f, x, x0, *a, **k):
                obs.setdefault((name + " [at origin]", 0), []).append(f(lift(x0)))
                obs.setdefault((name + " [derivative]", 0), []).append(f(x))

            def finding(self, fid, name, a, b, known):
                self.eq(name, a, b)

            def same(self, *a):
                pass

            def raises(self, name, exc, f):
                try:
                    f()
                except Unsupported:
                    raise
                except Exception:
                    pass

            def symbolic(self, f):
                pass

            def note(self, t):
                pass

            def opaque(self, obj, forget=False, keep=()):
                return obj

            def cut_method(self, cls, name):
                pass

            def lemma(self, b):
                pass

        sym.S.decide = self.decide
        try:
            e.fn(P())
        except (Unsupported, Infeasible):
            return None
        except Exception:
            return None
        finally:
            sym.S.decide = None
        return obs

    notes = set()
    root_list = ()

    def decide(self, b):
        env = self.env
        und = [n for n in sym.cone([b.a, b.b]) if n.op == "root" and n.val not in sym.S.roots]
        if und:  # inside the function given to a root finder
            env = dict(env)
            for n in und:
                v = self.found(n.val)
                if v is not None:
                    env[n.val] = F(v)
        x, y = sym.mp_eval([b.a, b.b], env, 30)
        import mpmath

        if mpmath.isnan(x) or mpmath.isnan(y):
            raise Unsupported("undetermined branch")
        if b.op == "lt":
            return bool(x < y)
        if b.op == "le":
            return bool(x <= y)
        return bool(abs(x - y) <= 1e-25 * (abs(x) + abs(y)))

    def found(self, name):
        l = self.w.solver_roots
        i = l.index(name) if name in l else len(self.solved)
        v = self.solved[i] if i < len(self.solved) else None
        if v is not None and name in self.w.log_roots:
            v = float(np.exp(v))
        return v if v is not None and np.isfinite(v) else None

    def add_root(self, r, res, guess, kind):
        v = self.found(r.val)
        sym.S.roots[r.val] = (res, guess if v is None else const(F(v)), kind)
        return r

    def assume(self, b):
        pass


def lead(p, g, n):
    """coefficient polynomial of g**n"""
    out = {}
    for m, k in p.items():
        d = dict(m)
        if d.get(g, 0) == n:
            d.pop(g, None)
            out[tuple(sorted(d.items()))] = k
    return out


_WEIGHT = {}


def atom_weight(a):
    if isinstance(a, (bool, np.bool_)):
        return 0
    k = (a.op,) + tuple(n.id for n in atom_nodes(a))
    w = _WEIGHT.get(k)
    if w is None:
        w = _WEIGHT[k] = int(any(n.op not in ("const", "var", "root", "add", "mul", "div") and not (
            n.op == "pow" and n.args[1].op == "const" and n.args[1].val.denominator == 1)
            for n in sym.cone(atom_nodes(a))))
    return w


def atom_nodes(a):
    if isinstance(a, (bool, np.bool_)):
        return []
    if a.op in ("and", "or"):
        return atom_nodes(a.a) + atom_nodes(a.b)
    if a.op == "not":
        return atom_nodes(a.a)
    return [a.a, a.b]


def repr_atom(a):
    if isinstance(a, (bool, np.bool_)):
        return bool(a)
    if a.op in ("and", "or"):
        return (a.op, repr_atom(a.a), repr_atom(a.b))
    if a.op == "not":
        return ("not", repr_atom(a.a))
    return (a.op, a.a.id, a.b.id)


def _fs(q):
    return str(q) if q.denominator < 10**6 else repr(float(q))


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    w = [t for t in tb if "/aerokit/" in t.filename or "/props/" in t.filename]
    return " (%s:%d)" % (os.path.basename(w[-1].filename), w[-1].lineno) if w else ""
