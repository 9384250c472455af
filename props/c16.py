"""C16  Chebyshev collocation: points, mapping and differentiation matrices"""
from symx.engine import harness

P = "C16"


def dom(h):
    a, L = h.var("xmin", -10, 10), h.var("L", "0.1", 10)
    return a, a + L, L


def check(h, n, orders):
    ns = h.mod("aerokit.common.numspectral")
    a, b, L = dom(h)
    c = ns.ChebCollocation(n, xmin=a, xmax=b)
    x = c.x
    coef = [h.var("c%d" % k, -3, 3) for k in range(n)]
    t = [(x[i] - a) / L for i in range(n)]

    def poly(d):
        out = []
        for i in range(n):
            s = 0
            for k in range(d, n):
                m = 1
                for j in range(d):
                    m = m * (k - j)
                s = s + coef[k] * m * t[i] ** (k - d) if k > d else s + coef[k] * m
            out.append(s / L ** d)
        return out

    p = h.array(poly(0))
    for d in orders:
        D = c.matder(d)
        h.eq("derivative %d" % d, D @ p, h.array(poly(d)), scale=100 / float(L) ** d if h.concrete else None)


def approx(h, n, orders):
    """same with the collocation angles' sines and cosines replaced by 60-digit rationals: error below 1e-20"""
    ns = h.mod("aerokit.common.numspectral")
    a, b, L = dom(h)
    c = ns.ChebCollocation(n, xmin=a, xmax=b)
    x = c.x
    coef = [h.var("c%d" % k, -3, 3) for k in range(n)]
    t = [(1 - c.xi[i]) / 2 for i in range(n)]

    def poly(d):
        out = []
        for i in range(n):
            s = 0
            for k in range(d, n):
                m = 1
                for j in range(d):
                    m = m * (k - j)
                s = s + coef[k] * m * t[i] ** (k - d) if k > d else s + coef[k] * m
            out.append(s)
        return out

    p = h.array(poly(0))
    eps = h.q("1e-20")
    for d in orders:
        e = (c.matder(d) @ p) * L ** d
        w = poly(d)
        for i in range(n):
            if h.concrete:
                h.eq("derivative %d at %d" % (d, i), e[i], w[i], scale=100)
            else:
                h.between("derivative %d at %d" % (d, i), w[i] - eps, e[i], w[i] + eps)


def exact(n, orders, **o):
    @harness(P, name="points%d" % n, **o)
    def f(h):
        check(h, n, orders)
    return f


def rounded(n, orders, **o):
    @harness(P, name="rounded%d" % n, approx_trig=True, digits=60, **o)
    def f(h):
        approx(h, n, orders)
    return f


for n, o in ((2, (1,)), (3, (1, 2)), (4, (1, 2, 3)), (5, (1, 2))):
    exact(n, o)
for n, o in ((6, (1, 2, 5)), (7, (4, 5, 6)), (8, (3,)), (9, (1, 2)), (10, (1,)), (13, (1, 2))):
    rounded(n, o)
for n, o in ((12, (1, 2, 3, 4)), (16, (1, 2)), (21, (1, 2))):
    rounded(n, o, thorough_only=True)


def points(h, n):
    ns = h.mod("aerokit.common.numspectral")
    a, b, L = dom(h)
    c = ns.ChebCollocation(n, xmin=a, xmax=b)
    x = c.x
    h.same("number of points", (c.npts, len(x)), (n, n))
    h.eq("first point", x[0], a)
    h.eq("last point", x[-1], b)
    for i in range(n):
        h.eq("cosine distribution %d" % i, x[i], (a + b) / 2 - L / 2 * h.np.cos(i * h.np.pi / (n - 1)))
    for i in range(n - 1):
        h.lt("increasing %d" % i, x[i], x[i + 1])
    h.eq("symmetric", x + x[::-1], h.array([a + b] * n))


@harness(P)
def distribution(h):
    """any domain, 2 to 7 points: both ends are points, cosine spacing, increasing order, symmetric"""
    for n in (2, 3, 4, 5, 7):
        points(h, n)


@harness(P, approx_trig=True, digits=60)
def distribution_large(h):
    """same with 6, 8, 11, 20 points (rounded cosines): ends, increasing order"""
    ns = h.mod("aerokit.common.numspectral")
    a, b, L = dom(h)
    for n in (6, 8, 11, 20):
        x = ns.ChebCollocation(n, xmin=a, xmax=b).x
        h.same("number of points", len(x), n)
        h.eq("first point", x[0], a)
        h.eq("last point", x[-1], b)
        for i in range(n - 1):
            h.lt("increasing %d" % i, x[i], x[i + 1])


@harness(P)
def default_domain(h):
    """without bounds, or with one of them, the domain ends default to -1 and 1; a bound of 0 is a bound"""
    ns = h.mod("aerokit.common.numspectral")
    v = h.var("v", 2, 9)
    for kw, lo, hi in (({}, -1, 1), (dict(xmax=v), -1, v), (dict(xmin=-v), -v, 1), (dict(xmin=0, xmax=v), 0, v),
                       (dict(xmin=-v, xmax=0), -v, 0)):
        c = ns.ChebCollocation(4, **kw)
        lo, hi = lo + h.q(0), hi + h.q(0)
        h.eq("first", c.x[0], lo)
        h.eq("last", c.x[-1], hi)
        h.eq("derivative of x", c.matder(1) @ c.x, h.array([h.q(1)] * 4))
        h.eq("second derivative of x^2", c.matder(2) @ (c.x * c.x), h.array([h.q(2)] * 4))


def reuse(h, n, seq):
    ns = h.mod("aerokit.common.numspectral")
    a, b, L = dom(h)
    c = ns.ChebCollocation(n, xmin=a, xmax=b)
    kept = []
    for k, d in enumerate(seq):
        m = c.matder(d)
        ref = ns.ChebCollocation(n, xmin=a, xmax=b).matder(d)
        h.eq("call %d order %d" % (k, d), m, ref, scale=100 / float(L) ** d if h.concrete else None)
        kept.append((d, m, ref))
    for k, (d, m, ref) in enumerate(kept):
        h.eq("kept matrix %d order %d" % (k, d), m, ref, scale=100 / float(L) ** d if h.concrete else None)
    h.same("points unchanged", len(c.x), n)
    h.eq("first", c.x[0], a)


@harness(P)
def history(h):
    """matrices asked in any order, again, and of higher order afterwards are those of a fresh object; a matrix
    obtained earlier does not change"""
    for seq in ((2, 1, 3, 1), (3, 2, 1, 3), (1, 2, 3, 2, 1), (4, 1)):
        reuse(h, 4, seq)


@harness(P)
def two_objects(h):
    """objects of different size or domain do not share anything"""
    ns = h.mod("aerokit.common.numspectral")
    a, b, L = dom(h)
    v = h.var("v", 2, 9)
    c1, c2, c3 = ns.ChebCollocation(3, xmin=a, xmax=b), ns.ChebCollocation(4), ns.ChebCollocation(3, xmax=v)
    x1, D1 = c1.x, c1.matder(1)
    x2, D2 = c2.x, c2.matder(2)
    x3, D3 = c3.x, c3.matder(1)
    h.eq("middle of the first", c1.x[1], (a + b) / 2)
    h.eq("middle of the third", c3.x[1], (v - 1) / 2)
    h.eq("last of the second", c2.x[3], h.q(1))
    h.eq("first matrix", c1.matder(1) @ (x1 * x1), 2 * x1, scale=10)
    h.eq("third matrix", c3.matder(1) @ (x3 * x3), 2 * x3, scale=10)
    h.eq("second matrix", c2.matder(2) @ (x2 * x2 * x2), 6 * x2, scale=10)


@harness(P)
def refused(h):
    """orders below one are refused"""
    ns = h.mod("aerokit.common.numspectral")
    c = ns.ChebCollocation(3)
    h.raises("order 0", AssertionError, lambda: c.matder(0))
    h.raises("order -1", AssertionError, lambda: c.matder(-1))
    c.matder(2)
    h.raises("order 0 later", AssertionError, lambda: c.matder(0))
