"""C28  conical shock waves"""
from symx.engine import harness

P = "C28"
SW, ODE, DEG = "aerokit.aero.ShockWave", "aerokit.common._ode", "aerokit.aero.degree"


def patch(h, step):
    """the embedded Runge-Kutta step (C21) replaced by step(F, x, y, h)"""
    sw, ode = h.mod(SW), h.mod(ODE)
    h.need(ode, "_rkf45")
    ode._rkf45 = step
    h.need(sw, "_rkf45")
    sw._rkf45 = step
    return sw


def flow(h):
    return h.var("M", "1.5", 8), h.var("gamma", "1.1", "1.7")


class Linear:
    """flow angle decreasing with the polar angle, Mach number with slope q; slopes slightly different from one attempt to
    the next; rejected attempts give garbage"""

    def __init__(self, h, p, q, reject, tol):
        self.h, self.p, self.q, self.reject, self.tol = h, p, q, reject, tol
        self.calls = []

    def __call__(self, F, x, y, st):
        k = len(self.calls)
        assert k < 40
        h = self.h
        if k in self.reject:
            d = h.array([h.var("garbage%d" % k, -10, 10), h.var("garbage'%d" % k, -10, 10)])
            e = self.tol * h.var("e%d" % k, "1.001", "2") ** 5  # fifth powers: the next step divides by a fifth root
        else:
            d = h.array([-(self.p - k * self.tol / 10) * st, self.q * st])
            e = self.tol * h.var("e%d" % k, "0.001", 1, hi_open=False)
        self.calls.append((x, [y[0], y[1]], st, d))
        return d, e


class First(Exception):
    pass


def first(h, M, s, *a):
    """what is given to the first step"""
    got = []

    def step(F, x, y, st):
        got.append((F, x, y, st))
        raise First

    sw = patch(h, step)
    try:
        sw.conical_deflection_Mach_sigma(M, s, *a)
    except First:
        pass
    return sw, got[0]


@harness(P)
def equations(h):
    """the equations integrated are irrotationality and mass conservation of a conical flow of constant total enthalpy"""
    M, g = flow(h)
    sw, (F, x, y, st) = first(h, M, h.var("sigma", 50, 60), g)
    d = h.mod(DEG)
    th, a, m = h.var("theta", 1, 50), h.var("a", 1, 35), h.var("m", "0.3", 6)
    h.assume(m * d.sin(a) < h.q("0.98"))
    phi = th + a
    r = F(phi, h.array([th, m]))
    t, dm = r[0], r[1] * 180 / h.np.pi
    dlnv = dm / m / (1 + (g - 1) / 2 * m ** 2)
    dlnr = -m ** 2 * dlnv
    s, c = d.sin(a), d.cos(a)
    h.eq("irrotational flow", dlnv * c - s * (1 - t), -s)
    h.eq("mass", 2 * c - s * d.cos(phi) / d.sin(phi) - dlnv * s - c * (1 - t) - s * dlnr, 0, scale=1)


@harness(P)
def behind_the_shock(h):
    """integration starts from the state behind the oblique shock, towards the wall"""
    M, g = flow(h)
    s = h.var("sigma", 10, 85)
    d = h.mod(DEG)
    h.assume(M * d.sin(s) > h.q("1.05"))
    for t, a in (("", (g,)), (" default", ())):
        gg = a[0] if a else h.q("1.4")
        sw, (F, x, y, st) = first(h, M, s, *a)
        th = sw.deflection_Mach_sigma(M, s, gg)
        h.eq("angle" + t, x, s)
        h.eq("flow angle" + t, y[0], th)
        h.eq("normal Mach number" + t, (y[1] * d.sin(s - th)) ** 2, sw.downstream_Mn(M * d.sin(s), gg) ** 2)
        h.lt("positive" + t, 0, y[1])
        h.lt("towards the wall" + t, st, 0)


def march(h, reject, default):
    s, th, ma = h.var("sigma", 20, 60), h.var("theta", 5, 50), h.var("m", "0.3", 5)
    h.assume(th < s - 1)
    h.assume(th > s / 2)
    p, q = h.var("p", 2, 5), h.var("q", "0.001", "0.02")
    tol = h.q("0.000001") if default else h.var("tol", "0.0000001", "0.001")
    rec = Linear(h, p, q, reject, tol)
    sw = patch(h, rec)
    d = h.mod(DEG)
    M = h.var("M", 5, 8)
    # any state behind the shock
    h.need(sw, "deflection_Mach_sigma")
    h.need(sw, "downstream_Mn")
    sw.deflection_Mach_sigma = lambda *a, **k: th
    sw.downstream_Mn = lambda *a, **k: ma * d.sin(s - th)
    w = sw.conical_deflection_Mach_sigma(M, s) if default else sw.conical_deflection_Mach_sigma(M, s, h.q("1.4"), tol)
    h.eq("first angle", rec.calls[0][0], s)
    h.eq("first flow angle", rec.calls[0][1][0], th)
    h.eq("first Mach number", rec.calls[0][1][1], ma)
    for k, (x, y, st, dy) in enumerate(rec.calls[:-1]):
        x1, y1 = rec.calls[k + 1][:2]
        dx = x1 - x
        if k in reject:
            h.eq("rejected %d" % k, dx, 0, scale=1)
        else:
            h.eq("whole step or nothing %d" % k, dx * (dx - st), 0, scale=1)
        for i in range(2):
            h.eq("increment of the step %d, %d" % (k, i), (y1[i] - y[i]) * st, dy[i] * dx if k not in reject else 0, scale=1)
        h.le("not beyond the wall %d" % k, y[0], x)
    x, y, st, dy = rec.calls[-1]
    e, f = y[0] - x, y[0] + dy[0] - x - st
    h.le("along the ray", h.np.minimum(abs(e), abs(f)), tol)
    a = y[0] + x
    h.eq("wall", (2 * w - a) * (2 * w - a - dy[0] - st), 0, scale=1)


@harness(P)
def wall(h):
    """steps are chained from the shock to the angle where the flow is along the ray"""
    march(h, (), True)


@harness(P)
def wall_rejected(h):
    """attempts whose error is above the tolerance leave no trace, whatever the tolerance"""
    march(h, (0, 2), False)


def law(h):
    """a family of laws in place of the integration"""
    sw = h.mod(SW)
    h.need(sw, "conical_deflection_Mach_sigma")
    a, b, c = h.var("a", 5, 10), h.var("b", "0.5", "0.6"), h.var("c", -3, 3)
    f = lambda M, s, g=h.q("1.4"), *k: 10 + a * (M - h.q("3.5")) + b * (s - 50) + c * (g - h.q("1.4"))
    sw.conical_deflection_Mach_sigma = f
    return sw, f, h.var("d", 8, 12)


@harness(P)
def shock_angle(h):
    """shock angle from the wall deflection: the wall deflection of the solution is the one asked for, with the gamma given"""
    sw, f, d = law(h)
    M, g = h.var("M", "3.3", "3.7"), h.var("gamma", "1.1", "1.7")
    h.eq("angle", f(M, sw.conical_sigma_Mach_walldeflection(M, d, g), g), d)


@harness(P)
def shock_angle_default(h):
    """default gamma"""
    sw, f, d = law(h)
    M = h.var("M", "3.3", "3.7")
    h.eq("angle", f(M, sw.conical_sigma_Mach_walldeflection(M, d)), d)


@harness(P)
def mach_number(h):
    """Mach number from the wall deflection and the shock angle"""
    sw, f, d = law(h)
    g, s = h.var("gamma", "1.1", "1.7"), h.var("sigma", 45, 55)
    h.raises("shock inside the cone", AssertionError, lambda: sw.conical_Mach_walldeflection_sigma(s + 1, s, g))
    h.eq("Mach", f(sw.conical_Mach_walldeflection_sigma(d, s, g), s, g), d)


@harness(P)
def mach_number_default(h):
    """default gamma"""
    sw, f, d = law(h)
    s = h.var("sigma", 45, 55)
    h.eq("Mach", f(sw.conical_Mach_walldeflection_sigma(d, s), s), d)


def search(h, call, inside, N):
    """whatever the deflections found, the integration is asked only for shocks stronger than a Mach wave (it never ends otherwise)"""
    sw = h.mod(SW)
    h.need(sw, "conical_deflection_Mach_sigma")
    n = [0]

    def f(M, s, *a):
        h.true("stronger than a Mach wave %d" % n[0], inside(M, s))
        h.assume(h.q(n[0]) < N)
        n[0] += 1
        return h.var("f%d" % n[0], 1, 80)

    sw.conical_deflection_Mach_sigma = f
    call(sw)


def angle(h, N):
    M, d = h.q(2), h.q(10)
    search(h, lambda sw: sw.conical_sigma_Mach_walldeflection(M, d), lambda m, s: s > h.q("29.9999"), N)


def mach(h, N):
    s, d = h.q(90), h.q(60)
    search(h, lambda sw: sw.conical_Mach_walldeflection_sigma(d, s), lambda m, s: m > h.q("0.99999"), N)


@harness(P, real_secant=True)
def angle_search(h):
    """search of the shock angle at Mach 2, first steps"""
    angle(h, 2)


@harness(P, real_secant=True)
def mach_search(h):
    """search of the Mach number of a normal shock, first steps"""
    mach(h, 2)
