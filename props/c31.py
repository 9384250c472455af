"""C31  integer data: states, nozzles, Riemann and inflow problems, spectral tools, operators, modes, integrators, plots"""
import numpy

from symx.engine import harness
from props.c14 import hook

P = "C31"


def ints(*v):
    return numpy.array(v)


def reals(h, a):
    """the same numbers, as real ones"""
    a = numpy.asarray(a)
    if not a.ndim:
        return h.q(int(a))
    return h.array([h.q(int(v)) for v in a.ravel()]).reshape(a.shape)


def same(h, name, a, b):
    h.same(name + ": shape", numpy.shape(a), numpy.shape(b))
    for i in numpy.ndindex(*numpy.shape(a)):
        x, y = (a[i], b[i]) if numpy.ndim(a) else (a, b)
        if hasattr(y, "imag") and not h.concrete or isinstance(y, complex):
            h.eq("%s %s" % (name, list(i)), x.real, y.real, scale=1)
            if not isinstance(y.imag, (int, float)) or y.imag:
                h.eq("%s %s, im" % (name, list(i)), x.imag, y.imag, scale=1)
        else:
            h.eq("%s %s" % (name, list(i)), x, y, scale=1)


def gam(h):
    return h.var("gamma", "1.1", "1.9")


def state_values(h, name, s, t):
    for k in ("rho", "u", "p"):
        same(h, "%s %s" % (name, k), getattr(s, k), getattr(t, k))


CASES = {"arrays": (ints(1, 2, 3), ints(4, -5, 7), ints(2, 1, 3)), "scalars": (2, 3, 1)}


@harness(P)
def states(h):
    """derived quantities and transformations of states given by integers"""
    m = h.mod("aerokit.aero.model1D")
    g, M = gam(h), h.var("M", "0.1", 3)
    for k, d in CASES.items():
        s, t = m.state(*d, gamma=g), m.state(*[reals(h, v) for v in d], gamma=g)
        for f in ("asound", "left_acoustic", "right_acoustic", "Mach", "massflow", "Ptot", "rTtot"):
            same(h, "%s %s" % (k, f), getattr(s, f)(), getattr(t, f)())
        state_values(h, k + " jump", s.state_RH(), t.state_RH())
        state_values(h, k + " isentropic", s.state_isentropic_Mach(M), t.state_isentropic_Mach(M))
        state_values(h, k + " isentropic, integer Mach", s.state_isentropic_Mach(2), t.state_isentropic_Mach(h.q(2)))
        state_values(h, k + " copy", s.copy(), t.copy())
        h.same(k + " size", s.size, t.size)
    s, t = (m.state(*[v if k else reals(h, v) for v in CASES["arrays"]], gamma=g) for k in (1, 0))
    state_values(h, "element", s[1], t[1])
    for v, r in zip(CASES["arrays"], ((1, 2, 3), (4, -5, 7), (2, 1, 3))):
        same(h, "given", v, ints(*r))


@harness(P)
def totals(h):
    """states built from integer total quantities and Mach number, velocity or pressure"""
    m = h.mod("aerokit.aero.model1D")
    g = gam(h)
    for k, d in {"arrays": (ints(3, 5), ints(2, 4), ints(1, 2)), "scalars": (5, 4, 1)}.items():
        for f in ("M", "u", "p"):
            s, t = (m.state(1, 0, 1, gamma=g) for _ in (0, 1))
            getattr(s, "compute_from_pt_rtt_" + f)(*d)
            getattr(t, "compute_from_pt_rtt_" + f)(*[reals(h, v) for v in d])
            state_values(h, k + " from " + f, s, t)


@harness(P)
def unsteady(h):
    """unsteady relations with integer states and pressures"""
    U = h.mod("aerokit.aero.unsteady1D")
    g = gam(h)
    for k, d in CASES.items():
        s, t = U.unsteady_state(*d, gamma=g), U.unsteady_state(*[reals(h, v) for v in d], gamma=g)
        state_values(h, k + " copy", s.copy(), t.copy())
        state_values(h, k + " mirrored", s.copysymmetric(), t.copysymmetric())
        for p, n in ((4, "integer"), (h.var("p", "0.5", 6), "real")):
            q = reals(h, p) if isinstance(p, int) else p
            for f in ("delta_u_expansion", "delta_u_shock", "rho_through_shock", "rho_through_isentropic"):
                same(h, "%s %s %s" % (k, f, n), getattr(s, f)(p), getattr(t, f)(q))


def between(eng, r, res, guess, kind):
    """same velocity on both sides: the pressure at the contact is between the given ones (decided by C10)"""
    from symx.sym import const

    eng.assume(const(1) < r)
    eng.assume(r < const(3))


def contact(h, tag, L, Q, g):
    """Riemann problems of the same states given by integers and by real numbers"""
    U, R = h.mod("aerokit.aero.unsteady1D"), h.mod("aerokit.instance.riemann")
    a = R.riemann_pb(*[U.unsteady_state(*d, gamma=g) for d in (L, Q)])
    b = R.riemann_pb(*[U.unsteady_state(*[reals(h, v) for v in d], gamma=g) for d in (L, Q)])
    same(h, tag + " ustar", a.ustar(), b.ustar())
    same(h, tag + " pstar", a.pstar(), b.pstar())
    state_values(h, tag + " left star", a.qstarL(), b.qstarL())
    state_values(h, tag + " right star", a.qstarR(), b.qstarR())
    far = numpy.array([-90, 90])
    for pb, n in ((a, "integer"), (b, "real")):
        s = pb.qsol(far)
        for i, d in ((0, L), (1, Q)):
            for k, v in zip(("rho", "u", "p"), d):
                h.eq("%s %s states, far %s %d" % (tag, n, k, i), getattr(s, k)[i], h.q(v), scale=1)
    return a, b


@harness(P, root_hook=between, sign_all=True)
def riemann_right(h):
    """Riemann problem of integer states at rest"""
    contact(h, "right", (2, 0, 3), (1, 0, 1), gam(h))


@harness(P, root_hook=between, sign_all=True)
def riemann_left(h):
    """Riemann problem of integer states in motion"""
    contact(h, "left", (1, 1, 1), (2, 1, 3), gam(h))


@harness(P, root_hook=between, sign_all=True)
def sampled(h):
    """solution of a Riemann problem of integer states, sampled in the star regions and beyond the waves"""
    a, b = contact(h, "sampled", (2, 0, 3), (1, 0, 1), h.q("1.4"))
    u = b.ustar()
    e = h.q("0.001")
    x = h.array([b.left_fastest() - 1, u - e, u + e, b.right_fastest() + 1])
    h.assume(b.qstarL().u - b.qstarL().asound() < u - 2 * e)
    state_values(h, "sampled", a.qsol(x), b.qsol(x))


def compression(eng, r, res, guess, kind):
    """total pressure above the pressure of a gas at rest: the wave compresses (decided by C12)"""
    from symx.sym import const

    eng.assume(const(1) < r)


@harness(P, root_hook=compression, sign_all=True)
def inflow(h):
    """inflow problem of an integer state and integer total quantities"""
    U, I = h.mod("aerokit.aero.unsteady1D"), h.mod("aerokit.instance.unsteady_inflow")
    g = gam(h)
    d, pt, tt = (1, 0, 1), 2, 3
    a, b = I.inflow_pb(U.unsteady_state(*d, gamma=g)), I.inflow_pb(U.unsteady_state(*[reals(h, v) for v in d], gamma=g))
    a.solve_with_pt0_rtt0(pt, tt)
    b.solve_with_pt0_rtt0(h.q(pt), h.q(tt))
    h.assume(b.ustar() ** 2 < 2 * g / (g - 1) * tt)
    same(h, "ustar", a.ustar(), b.ustar())
    same(h, "pstar", a.pstar(), b.pstar())
    state_values(h, "left", a.qstarL(), b.qstarL())
    state_values(h, "right", a.qstarR(), b.qstarR())


@harness(P, root_hook=hook)
def nozzles(h):
    """nozzle with integer sections and positions, in the three regimes, exit ratio computed or forced"""
    nz, Is = h.mod("aerokit.instance.nozzle"), h.mod("aerokit.aero.Isentropic")
    g = h.q("1.3")
    A, x = ints(4, 2, 3, 5), ints(0, 1, 2, 3)
    N = h.var("NPR", 4, 300, log=True)
    cases = (("supersonic", N), ("subsonic", Is.PtPs_Mach(h.q("0.2"), g)), ("shock", h.q("1.6")))
    a, b = nz.nozzle(x, A, gamma=g), nz.nozzle(reals(h, x), reals(h, A), gamma=g)
    h.assume(N > b.NPR0)
    h.assume(N > b.NPRsw)
    h.assume(cases[1][1] < b.NPR0)
    same(h, "ratio", a.AsoAc, b.AsoAc)
    same(h, "sections", a.AxoAc, b.AxoAc)
    for k, n in cases:
        a.set_NPR(n)
        b.set_NPR(n)
        for f in ("Mach", "Ps", "Ptot"):
            same(h, k + " " + f, getattr(a, f)(), getattr(b, f)())
    f, e = nz.nozzle(x, A, AsoAc=3, gamma=g), nz.nozzle(reals(h, x), reals(h, A), AsoAc=h.q(3), gamma=g)
    same(h, "forced ratio", f.AsoAc, e.AsoAc)
    same(h, "forced sections", f.AxoAc, e.AxoAc)
    same(h, "given sections", A, ints(4, 2, 3, 5))
    same(h, "given positions", x, ints(0, 1, 2, 3))


@harness(P)
def chebyshev(h):
    """collocation on a domain with integer ends; interpolation and fit of integer data at integer positions"""
    ns = h.mod("aerokit.common.numspectral")
    for n in (2, 3, 4):
        a, b = ns.ChebCollocation(n, 0, 3), ns.ChebCollocation(n, h.q(0), h.q(3))
        same(h, "points %d" % n, a.x, b.x)
        for o in (2, 1):
            same(h, "matrix %d %d" % (n, o), a.matder(o), b.matder(o))
        f = ints(1, 4, -2, 5)[:n]
        for t, y in (("integer", ints(0, 2, 4)), ("real", h.array([h.var("x", -1, 4)]))):
            z = reals(h, y) if t == "integer" else y
            same(h, "interpolation %d %s" % (n, t), a.extrapol(f, y), b.extrapol(reals(h, f), z))
            same(h, "real data %d %s" % (n, t), a.extrapol(reals(h, f), y), b.extrapol(reals(h, f), z))
        X, F = ints(0, 2, 1, 3, 4), ints(1, 0, 2, -3, 2)
        same(h, "fit %d" % n, a.fit_to_gauss(X, F), b.fit_to_gauss(reals(h, X), reals(h, F)))
        W = h.array([h.var("f%d" % i, -2, 2) for i in range(5)])
        same(h, "fit of real data %d" % n, a.fit_to_gauss(X, W), b.fit_to_gauss(reals(h, X), W))


BCS = {"symmetry": ("sym", "sym"), "periodic": ("per", "per"), "shock": (dict(type="RH", dM0dx=0), "sym")}


@harness(P)
def euler(h):
    """Euler operator of an integer base flow and domain"""
    E, m1 = h.mod("aerokit.stability.Euler"), h.mod("aerokit.aero.model1D")
    g = gam(h)
    d = (ints(2, 1, 3), ints(1, 1, 2), ints(4, 5, 7))
    for k, bc in BCS.items():
        ops = []
        for v, lo, hi in ((d, 0, 2), ([reals(h, x) for x in d], h.q(0), h.q(2))):
            op = E.Euler1D(3, xmin=lo, xmax=hi, basestate=m1.state(*v, gamma=g))
            op.set_BC(*bc)
            ops.append(op.get_RHS_time_matrices())
        same(h, k + " B", ops[0][0], ops[1][0])
        same(h, k + " At", ops[0][1], ops[1][1])


@harness(P)
def orr_sommerfeld(h):
    """Orr-Sommerfeld operator with integer parameters and an integer velocity profile"""
    OS = h.mod("aerokit.stability.OrrSommerfeld")
    c = h.var("c", -2, 2)
    for k, prof in (("uniform", lambda x: numpy.full(5, 2)), ("any", lambda x: 1 - c * x ** 2)):
        ops = []
        for al, re, lo, hi, real in ((1, 2000, 0, 2, False), (h.q(1), h.q(2000), h.q(0), h.q(2), True)):
            up = prof
            if real and k == "uniform":
                up = lambda x: reals(h, numpy.full(5, 2))
            op = OS.OrrSommerfeldModel(5, xmin=lo, xmax=hi, basestate=dict(alpha=al, Reynolds=re, uprofile=up))
            op.set_BC("wall", "wall")
            ops.append(op.get_RHS_time_matrices())
        same(h, k + " B", ops[0][0], ops[1][0])
        same(h, k + " At", ops[0][1], ops[1][1])
    a, b = (OS.Poiseuille(5, *p).get_RHS_time_matrices() for p in ((1, 2000), (h.q(1), h.q(2000))))
    same(h, "Poiseuille B", a[0], b[0])
    same(h, "Poiseuille At", a[1], b[1])


@harness(P)
def integrators(h):
    """Runge-Kutta integrations from integer values, integer end point and step"""
    ode = h.mod("aerokit.common._ode")
    a, b = h.var("a", -1, 1), h.var("b", -1, 1)

    def F(x, y):
        return h.array([a * y[1] + x, b])

    y0 = ints(1, 2)
    for f in (ode.RK4, ode.RKF45):
        X, Y = f(F, 0, y0, 2, 1)
        U, V = f(F, h.q(0), reals(h, y0), h.q(2), h.q(1))
        same(h, f.__name__ + " x", X, U)
        same(h, f.__name__ + " y", Y, V)
    same(h, "start", y0, ints(1, 2))


@harness(P)
def modes(h):
    """Rayleigh iterations from an integer start and shift"""
    from props.c20 import carray, model

    b = h.var("b", "0.1", 1)
    B = carray(h, [[h.q(1) + 0j, b + 0j], [b + 0j, h.q(3) + 0j]])
    At = carray(h, [[1j * h.q(1), 0j * h.q(1)], [0j * h.q(1), 1j * h.q(1)]])
    op = model(h, B, At)
    v = ints(1, 2)
    o, m = op.converge_eigenpair(-4, v, niter=1)
    p, n = op.converge_eigenpair(h.q(-4), reals(h, ints(1, 2)), niter=1)
    same(h, "value", o, p)
    same(h, "mode", m, n)
    same(h, "start", v, ints(1, 2))


@harness(P)
def polars(h):
    """polars of an integer Mach number, pressure and flow angle"""
    pl = h.mod("aerokit.aero.plot.shockpolar")
    g = gam(h)

    def curves(f):
        n = len(h.world.plots)
        f()
        return [c[1] for c in h.world.plots[n:] if c[0].split(".")[-1] == "plot"]

    for k, f, kw in (("angle", "plot_theta_sigma", {}), ("pressure", "plot_theta_pressure", dict(thet_init=10, p_init=2))):
        a = curves(lambda: getattr(pl, f)(3, g, npts=3, devmax=True, sonic=True, **kw))
        b = curves(lambda: getattr(pl, f)(h.q(3), g, npts=3, devmax=True, sonic=True, **{n: h.q(v) for n, v in kw.items()}))
        h.same(k + " curves", len(a), len(b))
        for i, (s, t) in enumerate(zip(a, b)):
            if numpy.ndim(t[0]):  # not the normal shock, whose tangent is infinite
                s, t = (s[0][:-1], s[1]), (t[0][:-1], t[1])
            same(h, "%s %d x" % (k, i), s[0], t[0])
            same(h, "%s %d y" % (k, i), s[1], t[1])
