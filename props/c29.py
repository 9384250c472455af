"""C29  secant solver and thrust function"""
from symx.engine import harness

P = "C29"
ITS, PR = "aerokit.aero.IterativeSolve", "aerokit.aero.Propulsion"


class Fun:
    """an arbitrary function: a new unknown value at each new point of the iterations, at most n of them"""

    def __init__(self, h, x0, n, lo=-10, hi=10):
        self.h, self.x0, self.n, self.lo, self.hi = h, x0, n, lo, hi
        self.calls = []

    def __call__(self, x):
        if self.calls and (x is self.x0 or (self.h.concrete and x == self.x0)):
            self.calls = []  # numpy.vectorize evaluates the first element twice
        k = len(self.calls)
        self.h.assume(self.h.q(k) < self.n)
        v = self.h.var("f%d" % k, self.lo, self.hi)
        if k:
            self.h.assume(abs(v - self.calls[-1][1]) > self.h.q("0.01"))
        self.calls.append((x, v))
        return v


def secant(h, n, x, y, **kw):
    s = h.mod(ITS)
    f = Fun(h, x, n)
    r = s.secant_solve(f, y, x, **kw)
    tol = kw.get("tol", h.q("0.00001"))
    pts = f.calls
    h.same("first point", pts[0][0] is x or (h.concrete and pts[0][0] == x), True)
    for k in range(1, len(pts)):
        (a, fa), (b, fb) = pts[k - 1:k + 1]
        c = pts[k + 1][0] if k + 1 < len(pts) else r
        h.eq("secant through the two last points %d" % k, (c - b) * (fb - fa), (b - a) * (y - fb), scale=100)
    d = abs(r - pts[-1][0])
    h.le("last step within the tolerance", d, h.np.maximum(tol, tol * abs(r)))


@harness(P, real_secant=True)
def steps(h):
    """each iterate is the zero of the line through the last two points; the last step is within the tolerance (20 iterations
    at most); whatever the function, up to 3 evaluations"""
    secant(h, 3, h.var("x", 1, 10), h.var("y", -5, 5))


@harness(P, real_secant=True, thorough_only=True, max_paths=2000, budget=800)
def steps_four(h):
    """same with 4 evaluations"""
    secant(h, 4, h.var("x", 2, 10), h.var("y", -5, 5))


@harness(P, real_secant=True)
def steps_tol(h):
    """same for any tolerance given, negative start"""
    secant(h, 3, h.var("x", -10, -1), h.var("y", -5, 5), tol=h.var("tol", "0.0000001", "0.0005"))


@harness(P, real_secant=True)
def affine(h):
    """affine functions are solved exactly, for any start"""
    s = h.mod(ITS)
    a, b, y, x = h.var("a", "0.1", 100, log=True), h.var("b", -10, 10), h.var("y", -10, 10), h.var("x", "0.1", 100, log=True)
    for t, z in (("", x), ("negative start", -x)):
        h.eq("solution " + t, a * s.secant_solve(lambda m: a * m + b, y, z) + b, y, scale=10)
        h.eq("decreasing " + t, b - a * s.secant_solve(lambda m: b - a * m, y, z), y, scale=10)


@harness(P, real_secant=True)
def affine_array(h):
    """arrays of values and of starts, element by element"""
    s = h.mod(ITS)
    a = h.var("a", "0.1", 100, log=True)
    y = [h.var("y%d" % i, 2, 10) for i in range(2)]
    x = [h.var("x%d" % i, 2, 20) for i in range(2)]
    f = lambda m: a * m + 1
    r = s.secant_solve(f, h.array(y), h.array(x))
    h.same("shape", r.shape, (2,))
    for i in range(2):
        h.eq("pair %d" % i, a * r[i] + 1, y[i], scale=10)


@harness(P, real_secant=True)
def array_elements(h):
    """each element of arrays of values and starts is solved as alone"""
    s = h.mod(ITS)
    y = [h.var("y0", "1", "1.5"), h.var("y1", "0.5", "2.5")]
    x = [h.var("x0", "1", "1.5"), -h.var("x1", "1", "1.5")]
    tol = h.q("0.05")
    r = s.secant_solve(lambda m: m ** 2, h.array(y), h.array(x), tol)
    for i in range(2):
        h.eq("element %d" % i, r[i], s.secant_solve(lambda m: m ** 2, y[i], x[i], tol))


@harness(P, real_secant=True)
def affine_array_one(h):
    """arrays of values with one start, and the other way round"""
    s = h.mod(ITS)
    a = h.var("a", "0.1", 100, log=True)
    y = [h.var("y%d" % i, 2, 10) for i in range(2)]
    x = h.var("x", 2, 20)
    f = lambda m: a * m + 1
    r = s.secant_solve(f, h.array(y), x)
    h.same("shape", r.shape, (2,))
    for i in range(2):
        h.eq("values %d" % i, a * r[i] + 1, y[i], scale=10)


@harness(P)
def thrust(h):
    """thrust function: impulse p A (1 + gamma M^2) over its total pressure times critical section"""
    p = h.mod(PR)
    mf, Is = h.mod("aerokit.aero.MassFlow"), h.mod("aerokit.aero.Isentropic")
    M, g = h.var("M", "0.01", 20, log=True), h.var("gamma", "1.05", 3)
    F = p.ThrustFunction(M, g)
    h.eq("definition", F, mf.Sigma_Mach(M, g) / Is.PtPs_Mach(M, g) * (1 + g * M ** 2))
    one = (1 + g) / h.np.sqrt((1 + g) / 2)
    h.eq("closed form", F * one, p.ThrustFunction(h.q(1), g) * (1 + g * M ** 2) / (M * h.np.sqrt(1 + (g - 1) / 2 * M ** 2)))
    h.eq("default", p.ThrustFunction(M), p.ThrustFunction(M, h.q("1.4")))
    h.eq("array", p.ThrustFunction(h.array([M, 1]), g), h.array([F, p.ThrustFunction(h.q(1), g)]))


@harness(P)
def thrust_slope(h):
    """decreases with a subsonic Mach number, increases with a supersonic one"""
    p = h.mod(PR)
    g = h.var("gamma", "1.05", 3)
    h.increasing("subsonic", lambda m: p.ThrustFunction(m, g), h.var("M", "0.01", 1), sign=-1)
    h.increasing("supersonic", lambda m: p.ThrustFunction(m, g), h.var("N", 1, 20))


@harness(P)
def thrust_inverse(h):
    """the inverse has the thrust asked for, with the gamma and from the Mach number given"""
    p = h.mod(PR)
    g, M = h.var("gamma", "1.05", 2), h.var("M", "1.3", 6)
    F = p.ThrustFunction(M, g)
    r = p.Mach_ThrustFunction(F, gamma=g)
    h.eq("inverse", p.ThrustFunction(r, g), F)
    s = p.Mach_ThrustFunction(F, M * h.q("1.1"), g)
    h.eq("inverse, start", p.ThrustFunction(s, g), F)
    m0 = M * h.q("1.1")
    h.symbolic(lambda: [h.eq("start used", gs, m0) for r_, res, gs, kind in h.roots[-1:]])
    F = p.ThrustFunction(M)
    h.eq("default", p.ThrustFunction(p.Mach_ThrustFunction(F)), F)


@harness(P, real_secant=True, light=True)
def never(h):
    """iterations that do not converge end too, with the last iterate and a message"""
    s = h.mod(ITS)
    x0 = h.var("x", 1, 10)
    calls = []

    def f(x):
        if x is x0 or (h.concrete and x == x0):
            calls.clear()
        calls.append(x)
        assert len(calls) < 200
        return h.q(0 if len(calls) % 2 else 1) + 0 * x  # steps are multiplied by 2 and by -3

    r = s.secant_solve(f, h.q(3), x0)
    n = len(calls)
    h.eq("last iterate", r - calls[-1], (calls[-1] - calls[-2]) * h.q(2 if n % 2 == 0 else -3), scale=abs(r - calls[-1]))
