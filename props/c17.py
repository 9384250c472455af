"""C17  Chebyshev interpolation at any position and least-squares fit to the collocation points"""
from symx.engine import harness

P = "C17"


def setup(h, n):
    ns = h.mod("aerokit.common.numspectral")
    a, L = h.var("xmin", -10, 10), h.var("L", "0.1", 10)
    return ns.ChebCollocation(n, xmin=a, xmax=a + L), a, L


def poly(coef, t):
    s = 0
    for c in reversed(coef):
        s = s * t + c
    return s


def near(h, name, v, w):
    """equality, or equality up to 1e-20 when constants are rounded"""
    if h.concrete:
        h.eq(name, v, w, scale=100)
        return
    eps = h.q("1e-20")
    h.between(name, w - eps, v, w + eps)


def interpolation(h, n, exact):
    c, a, L = setup(h, n)
    co = [h.var("c%d" % k, -3, 3) for k in range(n)]
    t = h.var("t", "-0.3", "1.3")
    tx = [(1 - xi) / 2 for xi in c.xi]
    f = h.array([poly(co, s) for s in tx])
    keep = f.copy()
    pos = h.array([a + t * L, a, a + h.q("0.4") * L])
    want = [poly(co, s) for s in (t, h.q(0), h.q("0.4"))]
    got = c.extrapol(f, pos)
    one = c.extrapol(f, a + t * L)
    h.same("size", len(got), 3)
    for k in range(3):
        h.eq("value %d" % k, got[k], want[k], scale=10) if exact else near(h, "value %d" % k, got[k], want[k])
    h.eq("scalar position", one, want[0], scale=10) if exact else near(h, "scalar position", one, want[0])
    h.eq("data unchanged", f, keep)


@harness(P)
def interpolate3(h):
    """any polynomial of degree 2 or less known at 3 points is recovered at any position in or near any domain"""
    interpolation(h, 3, True)


@harness(P)
def interpolate4(h):
    """same with 4 points"""
    interpolation(h, 4, True)


@harness(P)
def interpolate2(h):
    """same with 2 points"""
    interpolation(h, 2, True)


@harness(P, approx_trig=True, digits=60)
def interpolate6(h):
    """same with 6 points, collocation angles rounded to 60 digits, within 1e-20"""
    interpolation(h, 6, False)


@harness(P, approx_trig=True, digits=60)
def interpolate9(h):
    """same with 9 points"""
    interpolation(h, 9, False)


def nodes(h, n, exact):
    c, a, L = setup(h, n)
    f = h.array([h.var("f%d" % k, -3, 3) for k in range(n)])
    g = c.extrapol(f, c.x)
    for k in range(n):
        h.eq("node %d" % k, g[k], f[k], scale=10) if exact else near(h, "node %d" % k, g[k], f[k])


@harness(P)
def at_nodes(h):
    """the interpolant of any data takes the data at the points (3 points)"""
    nodes(h, 3, True)


@harness(P, approx_trig=True, digits=60)
def at_nodes7(h):
    """same with 7 points, within 1e-20"""
    nodes(h, 7, False)


def fit_poly(h, n, pos):
    c, a, L = setup(h, n)
    co = [h.var("c%d" % k, -3, 3) for k in range(n)]
    ts = [h.q(s) for s in pos]
    x = h.array([a + s * L for s in ts])
    f = h.array([poly(co, s) for s in ts])
    kx, kf = x.copy(), f.copy()
    g = c.fit_to_gauss(x, f)
    h.same("size", len(g), n)
    for k in range(n):
        near(h, "value at point %d" % k, g[k], poly(co, (1 - c.xi[k]) / 2))
    h.eq("positions unchanged", x, kx)
    h.eq("data unchanged", f, kf)


@harness(P, approx_trig=True, digits=60)
def fit_polynomial(h):
    """fit of samples of any polynomial of degree below the number of points gives its values at the points:
    3 points from 5 scattered samples"""
    fit_poly(h, 3, ("0.9", "0.15", "0.5", "0.3", "0"))


@harness(P, approx_trig=True, digits=60)
def fit_polynomial5(h):
    """5 points from 7 samples, some of them outside the domain"""
    fit_poly(h, 5, ("0.05", "0.2", "0.35", "0.6", "1.1", "0.95", "-0.1"))


@harness(P, approx_trig=True, digits=60)
def fit_square(h):
    """as many samples as points: interpolation of the samples"""
    fit_poly(h, 4, ("0.1", "0.3", "0.65", "0.9"))


def fit_best(h, n, pos):
    c, a, L = setup(h, n)
    ts = [h.q(s) for s in pos]
    x = h.array([a + s * L for s in ts])
    f = h.array([h.var("f%d" % k, -3, 3) for k in range(len(ts))])
    g = c.fit_to_gauss(x, f)
    r = c.extrapol(g, x) - f
    for k in range(n):
        m = 0
        for j in range(len(ts)):
            m = m + r[j] * (ts[j] ** k if k else 1)
        near(h, "residual orthogonal to degree %d" % k, m, h.q(0))


@harness(P, approx_trig=True, digits=60)
def fit_least_squares(h):
    """for any data, the residual of the fit is orthogonal to every polynomial of degree below the number of points,
    which characterises the least-squares fit (3 points, 6 samples)"""
    fit_best(h, 3, ("0.9", "0.15", "0.5", "0.3", "0", "0.7"))


@harness(P, approx_trig=True, digits=60)
def fit_least_squares5(h):
    """5 points, 8 samples"""
    fit_best(h, 5, ("0.9", "0.15", "0.5", "0.3", "0", "0.7", "1", "0.07"))


@harness(P)
def fit_any_position(h):
    """2 points, 3 samples at any positions: residual orthogonal to constants and to x"""
    c, a, L = setup(h, 2)
    ts = [h.var("t%d" % k, k, k + 0.9) for k in range(3)]
    x = h.array([a + s * L for s in ts])
    f = h.array([h.var("f%d" % k, -3, 3) for k in range(3)])
    g = c.fit_to_gauss(x, f)
    # the fitted line through the two end points
    line = [g[0] + (g[1] - g[0]) * s for s in ts]
    for k in range(2):
        m = 0
        for j in range(3):
            m = m + (line[j] - f[j]) * (ts[j] if k else 1)
        h.eq("residual orthogonal to degree %d" % k, m, h.q(0), scale=10)
