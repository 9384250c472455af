"""C21  ODE integrators: order of accuracy, end point, step control"""
from symx.engine import harness

P = "C21"


# polynomials in the step (lists of coefficients, lowest degree first)
def pmul(a, b):
    out = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x * y
    return out


def padd(*ps):
    n = max(len(p) for p in ps)
    return [sum((p[i] for p in ps if i < len(p)), 0) for i in range(n)]


def pscale(c, p):
    return [c * x for x in p]


def pint(p, y0):
    return [y0] + [x / (k + 1) for k, x in enumerate(p)]


def peval(p, t, upto=None):
    s = 0
    for x in reversed(p if upto is None else p[:upto + 1]):
        s = s * t + x
    return s


def system(h, x0):
    """triangular system whose solution is a polynomial; its terms span every elementary differential up to order 5"""
    k = {n: h.var(n, "0.5", "1.5") for n in ("a", "b1", "b2", "b3", "b4", "c1", "c2", "c3", "c4", "d1", "d2", "e1",
                                            "f1", "f2")}

    def F(x, y):
        return h.array([
            k["a"],
            k["b1"] * y[0] + k["b2"] * y[0] ** 2 + k["b3"] * y[0] ** 3 + k["b4"] * y[0] ** 4,
            k["c1"] * y[1] + k["c2"] * y[0] * y[1] + k["c3"] * y[0] ** 2 * y[1] + k["c4"] * y[1] ** 2,
            k["d1"] * y[2] + k["d2"] * y[0] * y[2],
            k["e1"] * y[3],
            k["f1"] * x ** 3 + k["f2"] * x * y[1]])
    y0 = [0] * 6
    p = [pint([k["a"]], y0[0])]
    sq = pmul(p[0], p[0])
    p.append(pint(padd(pscale(k["b1"], p[0]), pscale(k["b2"], sq), pscale(k["b3"], pmul(sq, p[0])),
                       pscale(k["b4"], pmul(sq, sq))), y0[1]))
    p.append(pint(padd(pscale(k["c1"], p[1]), pscale(k["c2"], pmul(p[0], p[1])), pscale(k["c3"], pmul(sq, p[1])),
                       pscale(k["c4"], pmul(p[1], p[1]))), y0[2]))
    p.append(pint(padd(pscale(k["d1"], p[2]), pscale(k["d2"], pmul(p[0], p[2]))), y0[3]))
    p.append(pint(pscale(k["e1"], p[3]), y0[4]))
    x = [x0, 1]
    p.append(pint(padd(pscale(k["f1"], pmul(x, pmul(x, x))), pscale(k["f2"], pmul(x, p[1]))), y0[5]))
    return F, p


def order(h, one_step, n, const):
    """y after one step of size t agrees with the exact solution up to t^n"""
    t = h.var("t", "0.001", "0.02")
    x0 = h.var("x0", -1, 1)
    F, p = system(h, x0)
    y = one_step(F, x0, h.array([h.q(0)] * 6), t)
    for i in range(6):
        ex = peval(p[i], t)
        if h.concrete:
            h.le("order of component %d" % i, abs(y[i] - ex), const * t ** (n + 1))
        else:
            from symx import sym
            d = sym.lift(y[i]) - ex
            for k in range(n + 1):
                h.eq("term %d of component %d" % (k, i), sym.substitute(d, {t.id: sym.const(0)}), h.q(0))
                d = sym.diff(d, t)


@harness(P)
def rk4_order(h):
    """RK4: one step agrees with the exact solution up to the fourth power of the step for every elementary
    differential (all 8 order conditions), any coefficients and start"""
    ode = h.mod("aerokit.common._ode")
    order(h, lambda F, x, y, t: ode.RK4(F, x, y, x + t, t)[1][-1], 4, 1e4)


@harness(P)
def rk45_order(h):
    """embedded step: fifth order (all 17 conditions)"""
    ode = h.mod("aerokit.common._ode")
    step = h.need(ode, "_rkf45")
    order(h, lambda F, x, y, t: y + step(F, x, y, t)[0], 5, 1e6)


@harness(P)
def rk45_error(h):
    """embedded step: the error estimate vanishes for integrands of degree 3 and is the difference with the embedded
    fourth order quadrature for degree 4"""
    ode = h.mod("aerokit.common._ode")
    step = h.need(ode, "_rkf45")
    t, x0 = h.var("t", "0.1", 2), h.var("x0", -1, 1)
    c = [h.var("c%d" % k, -2, 2) for k in range(4)]

    def F(x, y):
        return h.array([peval(c, x), 2 * c[1] * x])
    dy, e = step(F, x0, h.array([h.q(1), h.q(2)]), t)
    h.eq("increment", dy[0], peval(pint(c, 0), x0 + t) - peval(pint(c, 0), x0), scale=1)
    h.eq("second increment", dy[1], c[1] * ((x0 + t) ** 2 - x0 ** 2), scale=1)
    h.eq("estimate", e, h.q(0), scale=1)
    c4 = h.var("c4", "0.1", 2)
    dy, e = step(lambda x, y: h.array([c4 * x ** 4, h.q(0) * x]), h.q(0), h.array([h.q(1), h.q(2)]), t)
    h.eq("increment, degree 4", dy[0], c4 * t ** 5 / 5)
    h.lt("estimate is positive", h.q(0), e)


def path(h, F, exact, X, Y, x0, y0, stop, tag=""):
    n = len(X)
    h.same("as many values as points" + tag, len(Y), n)
    h.eq("first point" + tag, X[0], x0)
    h.eq("first value" + tag, Y[0][0], y0, scale=1)
    h.eq("end reached" + tag, X[n - 1], stop, scale=1)
    for k in range(n):
        h.eq("exact%s %d" % (tag, k), Y[k][0] - exact(X[k]), h.q(0), scale=10)


@harness(P)
def rk4_path(h):
    """RK4 with a fixed step, any interval of up to 4 steps: equal steps and a shorter last one ending exactly at the
    end point; exact for integrands of degree 3"""
    ode = h.mod("aerokit.common._ode")
    x0, st, m = h.var("x0", -1, 1), h.var("step", "0.1", 1), h.var("m", "0.2", "3.9")
    c = [h.var("c%d" % k, -2, 2) for k in range(4)]
    y0 = h.array([h.var("y0", -1, 1)])
    keep = y0.copy()
    stop = x0 + m * st
    X, Y = ode.RK4(lambda x, y: h.array([peval(c, x)]), x0, y0, stop, st)
    q = pint(c, 0)
    path(h, None, lambda x: keep[0] + peval(q, x) - peval(q, x0), X, Y, x0, keep[0], stop)
    n = len(X)
    for k in range(n - 2):
        h.eq("step %d" % k, X[k + 1] - X[k], st)
    h.lt("last step forward", X[n - 2], X[n - 1])
    h.le("last step", X[n - 1] - X[n - 2], st)
    h.eq("start unchanged", y0[0], keep[0])


@harness(P)
def rk4_vector(h):
    """RK4, two coupled equations and two steps: every step is the result of a single step restarted from the last point"""
    ode = h.mod("aerokit.common._ode")
    a, b, x0, t = h.var("a", -1, 1), h.var("b", -1, 1), h.var("x0", -1, 1), h.var("t", "0.1", 1)

    def F(x, y):
        return h.array([a * y[1] + x, b * y[0] * y[1]])
    y0 = h.array([h.var("u", -1, 1), h.var("v", -1, 1)])
    X, Y = ode.RK4(F, x0, y0, x0 + h.q("1.5") * t, t)
    h.same("points", (len(X), len(Y), len(Y[0])), (3, 3, 2))
    A, B = ode.RK4(F, x0, y0, x0 + t, t)
    C, D = ode.RK4(F, A[1], B[1], x0 + h.q("1.5") * t, t)
    h.eq("first step", Y[1], B[1])
    h.eq("second step", Y[2], D[1])
    h.eq("nothing to do", ode.RK4(F, x0, y0, x0, t)[1][0], y0)
    h.same("nothing to do, points", len(ode.RK4(F, x0, y0, x0, t)[0]), 1)
    h.same("end before the start", len(ode.RK4(F, x0, y0, x0 - t, t)[0]), 1)


def estimate(c):
    """error estimate of the embedded pair for y' = c x^4 on a step: c |K| h^5 (Cash-Karp coefficients)"""
    from fractions import Fraction as Q
    C = [Q(37, 378), 0, Q(250, 621), Q(125, 594), 0, Q(512, 1771)]
    D = [Q(2825, 27648), 0, Q(18575, 48384), Q(13525, 55296), Q(277, 14336), Q(1, 4)]
    A = [0, Q(1, 5), Q(3, 10), Q(3, 5), 1, Q(7, 8)]
    return abs(sum((x - y) * a ** 4 for x, y, a in zip(C, D, A)))


def adaptive(h, sign, hi, tol, lo="0.3"):
    """y' = c x^4: the fifth order solution is exact, the error estimate of a step t is c K t^5"""
    ode = h.mod("aerokit.common._ode")
    k = estimate(1)
    K = h.q(k) if not h.concrete else float(k)
    r = h.var("r", "0.5", "1.6")                       # first step over the largest admissible one
    L = h.var("L", lo, hi)                        # interval over the largest admissible step
    unit = h.var("unit", "0.5", 2)
    tol = h.q(tol)
    c = tol / (K * unit ** 5)                          # admissible step = unit
    x0 = h.var("x0", -1, 1)
    y0 = h.array([h.var("y0", -1, 1)])
    stop, st = x0 + sign * L * unit, sign * r * unit
    X, Y = ode.RKF45(lambda x, y: h.array([c * x ** 4]), x0, y0, stop, st, tol=tol)
    n = len(X)
    path(h, None, lambda x: y0[0] + c * (x ** 5 - x0 ** 5) / 5, X, Y, x0, y0[0], stop)
    for i in range(n - 1):
        h.true("forward %d" % i, sign * (X[i + 1] - X[i]) >= 0)
        h.true("step %d within tolerance" % i, sign * (X[i + 1] - X[i]) <= unit * (1 + h.q("1e-9")))


@harness(P)
def adaptive_forward(h):
    """RKF45 on y'=c x^4, any start, first step, tolerance scale: ends exactly at the end point, never steps back or past
    it, every accepted step has its error estimate within the tolerance (rejected first or last steps included)"""
    adaptive(h, 1, "1.7", "1e-6")


@harness(P)
def adaptive_backward(h):
    """same towards decreasing x"""
    adaptive(h, -1, "1.7", "1e-6")


@harness(P)
def adaptive_tolerance(h):
    """another tolerance"""
    adaptive(h, 1, "1.7", "1e-3")


@harness(P, thorough_only=True, max_paths=600)
def adaptive_long(h):
    """longer intervals (up to 3 admissible steps)"""
    adaptive(h, 1, "3", "1e-6", "1.7")


@harness(P)
def adaptive_smooth(h):
    """RKF45 when the estimate vanishes (degree 3): exact at every point, ends at the end point, both directions"""
    ode = h.mod("aerokit.common._ode")
    x0, m, t = h.var("x0", -1, 1), h.var("m", "0.2", "2.9"), h.var("step", "0.1", 1)
    c = [h.q(1), h.q(-2), h.q("0.5"), h.q(1)]
    q = pint(c, 0)
    y0 = h.array([h.var("y0", -1, 1)])
    for s in (1, -1):
        X, Y = ode.RKF45(lambda x, y: h.array([peval(c, x)]), x0, y0, x0 + s * m * t, s * t)
        path(h, None, lambda x: y0[0] + peval(q, x) - peval(q, x0), X, Y, x0, y0[0], x0 + s * m * t, " %d" % s)
