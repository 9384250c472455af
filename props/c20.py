"""C20  eigenmodes of a linear operator: pencil, selection, sorting, Rayleigh iteration, and no stale operators"""
from symx.engine import harness

P = "C20"


def carray(h, rows):
    if h.concrete:
        import numpy as np
        return np.array([[complex(x) for x in r] for r in rows])
    import numpy as np
    out = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            out[i, j] = x
    return out


def pencil(h, V):
    """symbolic eigenvalue routine for a pencil with known eigenvectors (columns of V)"""
    if h.concrete:
        return
    import numpy as np
    n = len(V)

    def eig(A, M):
        vals = np.empty(n, dtype=object)
        for k in range(n):
            a, m = A @ V[:, k], M @ V[:, k]
            vals[k] = a[k] / m[k]
            for i in range(n):
                d = a[i] - vals[k] * m[i]
                h.eq("pencil given to the eigenvalue routine: eigenvector %d, row %d" % (k, i), d.real, h.q(0))
                h.eq("pencil given to the eigenvalue routine: eigenvector %d, row %d, im" % (k, i), d.imag, h.q(0))
        return vals, V.copy()
    h.world.eig_hook = eig


def residual(h, name, B, At, w, v):
    r = B @ v + 1j * w * (At @ v)
    for i in range(len(v)):
        h.eq("%s, row %d, re" % (name, i), r[i].real, h.q(0), scale=10)
        h.eq("%s, row %d, im" % (name, i), r[i].imag, h.q(0), scale=10)


def model(h, B, At):
    stab = h.mod("aerokit.stability")

    class Model(stab.LinOperator):
        def compute_operators(self):
            self._B, self._At = B.copy(), At.copy()

    return Model(len(At))


def general(h, ident=False):
    """2 unknowns: B = -i At V W V^-1 with chosen eigenvalues and real eigenvectors"""
    a, b = h.var("a", "-0.7", "0.7"), h.var("b", "-0.7", "0.7")
    w = [h.var("w%dr" % k, *((-2, -1) if k == 0 else (1, 2))) + 1j * h.var("w%di" % k, -1, 1) for k in range(2)]
    if not ident:
        At = h.array([h.q(1), h.var("m", "-0.5", "0.5"), h.q("0.3"), h.q(2)]).reshape(2, 2)
    else:
        m = h.var("scale", "0.5", 2)
        At = h.array([m, h.q(0), h.q(0), m]).reshape(2, 2)
    det = 1 - a * b
    V = h.array([h.q(1), a, b, h.q(1)]).reshape(2, 2)
    Vi = h.array([h.q(1), -a, -b, h.q(1)]).reshape(2, 2) / det
    B = carray(h, [[-1j * sum(At[i, l] * V[l, k] * w[k] * Vi[k, j] for k in range(2) for l in range(2))
                    for j in range(2)] for i in range(2)])
    return B, At, V, w


@harness(P)
def modes(h):
    """each pair returned satisfies B v = -i omega At v: perturbations evolve as exp(-i omega t)"""
    B, At, V, w = general(h)
    pencil(h, carray(h, V.tolist()))
    op = model(h, B, At)
    vals, vects = op.solve_eig()
    h.same("count", (len(vals), vects.shape), (2, (2, 2)))
    for k in range(2):
        residual(h, "mode %d" % k, B, At, vals[k], vects[:, k])
    x = sorted(vals, key=lambda z: z.real) if h.concrete else vals
    for k in range(2):
        h.eq("frequency %d" % k, x[k].real, w[k].real)
        h.eq("growth rate %d" % k, x[k].imag, w[k].imag)


def diag_model(h, n, lo, hi, ilo, ihi):
    w = [h.var("r%d" % k, lo, hi) + 1j * h.var("i%d" % k, ilo, ihi) for k in range(n)]
    m = [h.q(k + 1) / 2 for k in range(n)]
    B = carray(h, [[-1j * w[i] * m[i] if i == j else h.q(0) + 0j for j in range(n)] for i in range(n)])
    At = carray(h, [[m[i] + 0j if i == j else h.q(0) + 0j for j in range(n)] for i in range(n)])
    V = carray(h, [[h.q(int(i == j)) + 0j if not h.concrete else complex(i == j) for j in range(n)] for i in range(n)])
    pencil(h, V)
    return model(h, B, At), B, At, w


def selection(h, n, kw, inside, key, rng):
    op, B, At, w = diag_model(h, n, *rng)
    op.solve_eig()
    vals, vects, order = op.select_and_sort(**kw)
    want = [z for z in w if inside(z)]
    h.same("count", (len(vals), vects.shape[1], len(order)), (len(want),) * 3)
    h.same("permutation", sorted(int(i) for i in order), list(range(len(want))))
    for k in range(len(want)):
        residual(h, "mode %d" % k, B, At, vals[k], vects[:, k])
    x = [vals[int(i)] for i in order]
    for k in range(len(want) - 1):
        h.le("sorted %d" % k, key(x[k]), key(x[k + 1]))
    # same set: the sorted lists agree
    idx = []
    for z in want:
        p = 0
        while p < len(idx) and bool(key(idx[p]) <= key(z)):
            p += 1
        idx.insert(p, z)
    for k in range(len(want)):
        h.eq("kept value %d" % k, x[k].real, idx[k].real)
        h.eq("kept value %d, im" % k, x[k].imag, idx[k].imag)


def re(z):
    return z.real


def amp(z):
    return -z.imag


@harness(P, light=True)
def select_default(h):
    """default selection keeps non-negative frequencies, sorted by frequency"""
    selection(h, 3, {}, lambda z: bool(z.real >= 0), re, (-2, 2, -1, 1))


@harness(P, light=True)
def select_frequency(h):
    """frequency bounds: lower one included, upper one excluded"""
    a, b = h.var("lo", -2, 2), h.var("hi", -2, 2)
    selection(h, 2, dict(realmin=a, realmax=b), lambda z: bool(z.real < b) and bool(z.real >= a), re, (-3, 3, -1, 1))


@harness(P, light=True)
def select_growth(h):
    """growth rate bounds, and sorting from the most amplified mode"""
    a, b = h.var("lo", -2, 2), h.var("hi", -2, 2)
    selection(h, 2, dict(imagmin=a, imagmax=b, sort="imag"), lambda z: bool(z.imag > a) and bool(z.imag < b), amp,
              (1, 3, -3, 3))


@harness(P, light=True)
def select_all(h):
    """all four bounds on one mode"""
    a, b, c, d = (h.var(n, -2, 2) for n in ("rlo", "rhi", "ilo", "ihi"))
    selection(h, 1, dict(realmin=a, realmax=b, imagmin=c, imagmax=d),
              lambda z: bool(z.real < b) and bool(z.real >= a) and bool(z.imag > c) and bool(z.imag < d), re, (-3, 3, -3, 3))


@harness(P, light=True)
def sort_frequency(h):
    """three modes sorted by frequency"""
    selection(h, 3, dict(realmin=-h.q(10), sort="real"), lambda z: True, re, (-3, 3, -3, 3))


@harness(P, light=True)
def sort_growth(h):
    """three modes sorted from the most amplified"""
    selection(h, 3, dict(realmin=-h.q(10), sort="imag"), lambda z: True, amp, (-3, 3, -3, 3))


@harness(P, light=True)
def select_twice(h):
    """a selection leaves the computed modes available for another one, and unknown sort keys are refused"""
    op, B, At, w = diag_model(h, 2, 1, 2, -1, 1)
    op.solve_eig()
    v0 = op.select_and_sort(realmin=h.q(5))[0]
    h.same("none", len(v0), 0)
    v1, e1, o1 = op.select_and_sort()
    h.same("all", len(v1), 2)
    h.raises("unknown sort key", KeyError, lambda: op.select_and_sort(sort="size"))


@harness(P)
def rayleigh_fixed_point(h):
    """At a multiple of the identity: from an exact mode and any other shift, one iteration gives its eigenvalue and
    keeps the mode with unit norm; the given mode is not modified"""
    B, At, V, w = general(h, True)
    op = model(h, B, At)
    s = h.var("sr", "-0.5", "0.5") + 1j * h.var("si", -1, 1)
    start = carray(h, [[V[0, 0] + 0j, V[1, 0] + 0j]])[0]
    keep = start.copy()
    om, v = op.converge_eigenpair(s, start, niter=1)
    h.eq("eigenvalue", om.real, w[0].real, scale=1)
    h.eq("eigenvalue, im", om.imag, w[0].imag, scale=1)
    d = v[0] * V[1, 0] - v[1] * V[0, 0]
    h.eq("mode direction", d.real, h.q(0), scale=1)
    h.eq("mode direction, im", d.imag, h.q(0), scale=1)
    h.eq("unit norm", v[0].real ** 2 + v[0].imag ** 2 + v[1].real ** 2 + v[1].imag ** 2, h.q(1))
    for i in range(2):
        h.eq("start unchanged %d" % i, start[i].real, keep[i].real)


def step(h, m, shifted):
    a, b, c = h.var("a", -1, 1), h.var("b", "0.1", 1), h.var("c", 2, 4)
    B = h.array([a, b, b, c]).reshape(2, 2)
    M = h.array([h.q(1), h.q(0), h.q(0), h.q(m)]).reshape(2, 2)
    At = carray(h, [[1j * M[i, j] for j in range(2)] for i in range(2)])
    s, x = h.var("s", -9, -3), h.array([h.q(1), h.var("x", -1, 1)])
    op = model(h, carray(h, [[B[i, j] + 0j for j in range(2)] for i in range(2)]), At)
    om, v = op.converge_eigenpair(s, x, niter=1)
    if shifted:
        r = B @ v - s * (M @ v)
        d = r[0] * x[1] - r[1] * x[0]
        h.eq("shifted system", d.real, h.q(0), scale=1)
        h.eq("shifted system, im", d.imag, h.q(0), scale=1)
    v0, v1 = v[0].real, v[1].real
    h.eq("real mode", v[0].imag, h.q(0), scale=1)
    h.eq("unit norm", v0 ** 2 + v1 ** 2, h.q(1))
    h.eq("quotient", om.real * (v0 ** 2 + m * v1 ** 2), a * v0 ** 2 + 2 * b * v0 * v1 + c * v1 ** 2, scale=1)
    h.eq("quotient, im", om.imag, h.q(0), scale=1)


@harness(P)
def rayleigh_step(h):
    """one iteration from any start (real symmetric problem): the new mode solves the shifted system up to a factor and
    has unit norm, the new value is its Rayleigh quotient"""
    step(h, 1, True)


@harness(P)
def rayleigh_quotient(h):
    """same with another matrix in front of the time derivative: unit norm and Rayleigh quotient"""
    step(h, 2, False)


@harness(P)
def rayleigh_complex(h):
    """one iteration from a complex start and shift: shifted system, unit norm, Rayleigh quotient with conjugation"""
    b, x, y = h.var("b", "0.1", 2), h.var("x", -1, 1), h.var("y", -1, 1)
    B = [[h.q(1), b], [h.q(0), h.q(3)]]
    op = model(h, carray(h, [[B[i][j] + 0j for j in range(2)] for i in range(2)]),
               carray(h, [[h.q(int(i == j)) + 0j for j in range(2)] for i in range(2)]))
    s = h.q("0.5") + 1j * h.q("0.75")
    start = carray(h, [[h.q(1) + 0j, x + 1j * y]])[0]
    om, v = op.converge_eigenpair(s, start, niter=1)
    is_ = 1j * s
    r0, r1 = v[0] + b * v[1] + is_ * v[0], 3 * v[1] + is_ * v[1]
    d = r0 * start[1] - r1 * start[0]
    h.eq("shifted system", d.real, h.q(0), scale=1)
    h.eq("shifted system, im", d.imag, h.q(0), scale=1)
    a0, b0, a1, b1 = v[0].real, v[0].imag, v[1].real, v[1].imag
    h.eq("unit norm", a0 ** 2 + b0 ** 2 + a1 ** 2 + b1 ** 2, h.q(1))
    # v^H B v = -i omega
    h.eq("quotient, re", om.imag, a0 ** 2 + b0 ** 2 + 3 * (a1 ** 2 + b1 ** 2) + b * (a0 * a1 + b0 * b1), scale=1)
    h.eq("quotient, im", -om.real, b * (a0 * b1 - b0 * a1), scale=1)


@harness(P)
def rayleigh_two(h):
    """two iterations are one iteration restarted from the result of one iteration (symmetric problem)"""
    b, x = h.var("b", "0.1", 1), h.var("x", -1, 1)
    B = h.array([h.q("0.5"), b, b, h.q(3)]).reshape(2, 2)
    op = model(h, carray(h, [[B[i, j] + 0j for j in range(2)] for i in range(2)]),
               carray(h, [[1j * h.q(int(i == j)) for j in range(2)] for i in range(2)]))
    s, start = h.q(-4), h.array([h.q(1), x])
    o1, v1 = op.converge_eigenpair(s, start, niter=1)
    o2, v2 = op.converge_eigenpair(s, start, niter=2)
    o3, v3 = op.converge_eigenpair(o1, v1, niter=1)
    h.eq("value", o2.real, o3.real, scale=1)
    d = v2[0] * v3[1] - v2[1] * v3[0]
    h.eq("direction", d.real, h.q(0), scale=1)
    h.eq("direction, im", d.imag, h.q(0), scale=1)


@harness(P)
def rayleigh_none(h):
    """without iterations the value is unchanged and the mode is normalised"""
    B, At, V, w = general(h)
    op = model(h, B, At)
    s, x = h.var("s", -9, -3), h.array([h.q(1), h.var("x", -1, 1)])
    om, v = op.converge_eigenpair(s, x, niter=0)
    h.eq("value", om.real, s)
    h.eq("norm", v[0].real ** 2 + v[1].real ** 2, h.q(1))
    h.eq("direction", v[0].real * x[1], v[1].real * x[0])


def same_matrices(h, name, A, B):
    for k, (x, y) in enumerate(zip(A, B)):
        h.same("%s: shape %d" % (name, k), x.shape, y.shape)
        for i in range(x.shape[0]):
            for j in range(x.shape[1]):
                p, q = x[i, j], y[i, j]
                h.eq("%s: %s[%d,%d]" % (name, ("B", "At")[k], i, j), p.real, q.real, scale=10)
                if (p - q).imag is not None and not h.concrete and k == 0:
                    h.eq("%s: %s[%d,%d] im" % (name, ("B", "At")[k], i, j), p.imag, q.imag)
                elif h.concrete:
                    h.eq("%s: %s[%d,%d] im" % (name, ("B", "At")[k], i, j), p.imag, q.imag, scale=10)


@harness(P, light=True)
def not_stale_euler(h):
    """changing the base flow or the boundary conditions of an Euler operator gives the operators of a fresh object;
    operators obtained before do not change, conditions given as dictionaries are left as they were"""
    E, m1 = h.mod("aerokit.stability.Euler"), h.mod("aerokit.aero.model1D")

    def st(t):
        return m1.state(h.array([h.var("rho%d%s" % (i, t), 1, 2) for i in range(3)]),
                        h.array([h.var("u%d%s" % (i, t), 1, 2) for i in range(3)]),
                        h.array([h.var("p%d%s" % (i, t), 1, 2) for i in range(3)]), gamma=h.var("g" + t, "1.1", 2))
    s1, s2 = st("a"), st("b")

    def fresh(s, *bc):
        o = E.Euler1D(3, basestate=s)
        o.set_BC(*bc)
        return o.get_RHS_time_matrices()
    bc = {"type": "sym"}
    op = E.Euler1D(3, basestate=s1)
    op.set_BC(bc, bc)
    first = op.get_RHS_time_matrices()
    ref1 = fresh(s1, "sym", "sym")
    same_matrices(h, "first", first, ref1)
    op.set_basestate(s2)
    same_matrices(h, "new base flow", op.get_RHS_time_matrices(), fresh(s2, "sym", "sym"))
    op.set_BC("per", "per")
    same_matrices(h, "new conditions", op.get_RHS_time_matrices(), fresh(s2, "per", "per"))
    op.set_BC(bc, bc)
    op.set_basestate(s1)
    same_matrices(h, "back to the first", op.get_RHS_time_matrices(), ref1)
    same_matrices(h, "asked again", op.get_RHS_time_matrices(), ref1)
    same_matrices(h, "first ones kept", first, ref1)
    h.same("dictionary", bc, {"type": "sym"})


@harness(P, light=True)
def not_stale_shock(h):
    """a shock condition enlarges the system; changing the condition or the base flow afterwards gives the system of a
    fresh object, of the right size"""
    E, m1 = h.mod("aerokit.stability.Euler"), h.mod("aerokit.aero.model1D")

    def st(t):
        a = h.var("a" + t, "0.6", "0.9")
        return m1.state(h.array([h.q(1)] * 3), h.array([a] * 3), h.array([h.q("0.7143")] * 3), gamma=h.q("1.4"))
    s1, s2 = st("a"), st("b")

    def fresh(s, *bc):
        o = E.Euler1D(3, basestate=s)
        o.set_BC(*bc)
        return o.get_RHS_time_matrices()
    rh = {"type": "RH", "dM0dx": h.q(0)}
    keep = dict(rh)
    op = E.Euler1D(3, basestate=s1)
    op.set_BC(rh, "sym")
    first = op.get_RHS_time_matrices()
    same_matrices(h, "first", first, fresh(s1, dict(keep), "sym"))
    op.set_basestate(s2)
    same_matrices(h, "new base flow", op.get_RHS_time_matrices(), fresh(s2, dict(keep), "sym"))
    op.set_BC("sym", "sym")
    same_matrices(h, "new conditions", op.get_RHS_time_matrices(), fresh(s2, "sym", "sym"))
    op.set_BC(rh, "sym")
    same_matrices(h, "shock again", op.get_RHS_time_matrices(), fresh(s2, dict(keep), "sym"))
    h.same("dictionary", sorted(rh), sorted(keep))
    slope = {"type": "RH", "dM0dx": h.var("dM0dx", "0.1", "0.5")}
    keep = dict(slope)
    op.set_BC(slope, "sym")
    same_matrices(h, "shock with another Mach slope", op.get_RHS_time_matrices(), fresh(s2, dict(keep), "sym"))


@harness(P, light=True)
def not_stale_os(h):
    """changing the parameters of an Orr-Sommerfeld operator"""
    OS = h.mod("aerokit.stability.OrrSommerfeld")

    def par(t):
        c = h.var("c" + t, 1, 2)
        return dict(alpha=h.var("alpha" + t, "0.5", 2), Reynolds=h.var("Re" + t, 10, 100), uprofile=lambda x: c * x ** 2)
    p1, p2 = par("a"), par("b")

    def fresh(p):
        o = OS.OrrSommerfeldModel(5, basestate=p)
        o.set_BC("wall", "wall")
        return o.get_RHS_time_matrices()
    op = OS.OrrSommerfeldModel(5, basestate=p1)
    op.set_BC("wall", {"type": "wall"})
    first = op.get_RHS_time_matrices()
    same_matrices(h, "first", first, fresh(p1))
    op.set_basestate(p2)
    same_matrices(h, "new base flow", op.get_RHS_time_matrices(), fresh(p2))
    op.set_BC("wall", "wall")
    same_matrices(h, "conditions set again", op.get_RHS_time_matrices(), fresh(p2))
    same_matrices(h, "first ones kept", first, fresh(p1))
    h.same("size", op.dim, 5)


@harness(P, max_paths=400)
def modes_after_change(h):
    """every sequence of three operations (other base flow, look at the matrices, solve, select) on an operator already
    solved: modes solved afterwards are those of the present base flow"""
    stab = h.mod("aerokit.stability")

    class Model(stab.LinOperator):
        def compute_operators(self):
            w = self._basestate
            self._B = carray(h, [[-1j * w[i] if i == j else h.q(0) + 0j for j in range(2)] for i in range(2)])
            self._At = carray(h, [[h.q(int(i == j)) + 0j for j in range(2)] for i in range(2)])
    V = carray(h, [[h.q(int(i == j)) + 0j for j in range(2)] for i in range(2)])
    pencil(h, V)
    w1 = [h.var("a", 1, 2), h.var("b", 3, 4)]
    w2 = [h.var("c", 5, 6), h.var("d", 7, 8)]
    def fresh(w):
        op = Model(2)
        op.set_basestate(w)
        return op
    op = fresh(w1)
    op.solve_eig()
    v, e, o = op.select_and_sort()
    h.eq("first", h.array([v[int(i)].real for i in o]), h.array(w1))
    w = w1
    for k in range(3):
        code = h.var("op%d" % k, 0, 4)
        if bool(code < 1):
            w = w2 if w is w1 else w1
            op.set_basestate(w)
        elif bool(code < 2):
            op.get_RHS_time_matrices()
        elif bool(code < 3):
            op.solve_eig()
            v, e, o = op.select_and_sort()
            h.eq("modes %d" % k, h.array([v[int(i)].real for i in o]), h.array(w))
        else:
            # selecting does not change what is selected next
            op.select_and_sort(realmin=h.q(2), sort="imag")
    op.solve_eig()
    v, e, o = op.select_and_sort()
    h.eq("changed", h.array([v[int(i)].real for i in o]), h.array(w))
    h.raises("abstract", NotImplementedError, lambda: stab.LinOperator(3).get_RHS_time_matrices())
