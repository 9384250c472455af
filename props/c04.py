"""C04  oblique shock: deflection, shock angle, limits"""
from symx.engine import harness

P = "C04"


def gam(h):
    return h.var("gamma", "1.05", "2")


def shock(h, lo="1.05", hi=30):
    """Mach number and shock angle (degree) between the Mach angle and 90"""
    M = h.var("M", lo, hi)
    s = h.var("sigma", 2, 90)
    deg = h.mod("aerokit.aero.degree")
    h.assume(M * deg.sin(s) > 1)
    return M, s


@harness(P)
def deflection(h):
    """theta-beta-Mach relation, tangential velocity kept"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g = gam(h)
    M, s = shock(h)
    d = sw.deflection_Mach_sigma(M, s, g)
    h.eq("tangential velocity", deg.tan(s - d) * sw.Rho_ratio(M * deg.sin(s), g), deg.tan(s))
    h.eq("theta-beta-M", deg.sin(d) * (M ** 2 * (g + deg.cos(2 * s)) + 2) * deg.sin(s),
         2 * deg.cos(s) * (M ** 2 * deg.sin(s) ** 2 - 1) * deg.cos(d))


@harness(P)
def bounds(h):
    """the flow turns towards the shock, by less than the shock angle"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g = gam(h)
    M, s = shock(h)
    d = sw.deflection_Mach_sigma(M, s, g)
    h.lt("positive", 0, d)
    h.lt("below the shock angle", d, s)


@harness(P)
def limits(h):
    """no deflection for a Mach wave"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g, M = gam(h), h.var("M", "1.05", 30)
    h.eq("Mach wave", sw.deflection_Mach_sigma(M, deg.asin(1 / M), g), 0, tol=1e-9, scale=1)


@harness(P)
def by_pressure(h):
    """deflection and downstream Mach from the pressure ratio; total temperature kept"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    Is = h.mod("aerokit.aero.Isentropic")
    g = gam(h)
    M, s = shock(h)
    Mn = M * deg.sin(s)
    p = sw.Ps_ratio(Mn, g)
    h.eq("deflection", sw.deflection_Mach_ShockPsratio(M, p, g), sw.deflection_Mach_sigma(M, s, g))
    m1 = sw.downstreamMach_Mach_ShockPsratio(M, p, g)
    h.lt("positive", 0, m1)
    h.eq("total temperature", sw.Ts_ratio(Mn, g) * Is.TtTs_Mach(m1, g), Is.TtTs_Mach(M, g))


@harness(P)
def maximum(h):
    """sigma_DevMax is the stationary point of the deflection, dev_Max its value"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g, M = gam(h), h.var("M", "1.05", 30)
    sm = sw.sigma_DevMax(M, gamma=g)
    h.eq("value", sw.dev_Max(M, gamma=g), sw.deflection_Mach_sigma(M, sm, g))
    h.between("angle", 0, sm, 90)

    # d(deflection)/d(sin^2 sigma) = 0 : classical quadratic in sin^2 sigma
    x = deg.sin(sm) ** 2
    h.eq("stationary", 2 * g * M ** 4 * x ** 2, ((g + 1) * M ** 2 - 4) * M ** 2 * x + (g + 1) * M ** 2 + 2)


@harness(P)
def stationary(h):
    """the quadratic above is the derivative of the deflection"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g = gam(h)
    M, s = shock(h)

    def f():
        dd = h.diff(sw.deflection_Mach_sigma(M, s, g), s)
        x = deg.sin(s) ** 2
        h.eq("root", dd * 0 + 1, 1)
        q = ((g + 1) * M ** 2 - 4) * M ** 2 * x + (g + 1) * M ** 2 + 2 - 2 * g * M ** 4 * x ** 2
        # same sign as q: increasing below sigma_DevMax, decreasing above
        h.le("sign", 0, dd * q)

    h.symbolic(f)
    h.eq("anchor", sw.deflection_Mach_sigma(M, s, g), sw.deflection_Mach_sigma(M, s, gamma=g))


@harness(P)
def sonic(h):
    """sigma_Sonic gives a sonic downstream flow, dev_Sonic its deflection; it is below sigma_DevMax"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    Is = h.mod("aerokit.aero.Isentropic")
    g, M = gam(h), h.var("M", "1.05", 30)
    ss = sw.sigma_Sonic(M, gamma=g)
    Mn = M * deg.sin(ss)
    h.eq("value", sw.dev_Sonic(M, gamma=g), sw.deflection_Mach_sigma(M, ss, g))
    # total temperature kept with M1 = 1
    h.eq("sonic downstream", sw.Ts_ratio(Mn, g) * (g + 1) / 2, Is.TtTs_Mach(M, g))
    h.le("below the maximum", deg.sin(ss) ** 2, deg.sin(sw.sigma_DevMax(M, gamma=g)) ** 2)


def cubic(h):
    """Mach number, gamma and the tangent of a deflection for which attached shocks exist"""
    g, M, T = gam(h), h.var("M", "1.1", 30), h.var("T", "0.002", 1)
    a = (2 + (g + 1) * M ** 2) / 2 * T
    b = 1 - M ** 2
    c = (2 + (g - 1) * M ** 2) / 2 * T
    p = (a ** 2 / 3 - b) / 3
    q = 2 * a ** 3 / 27 - a * b / 3 + c
    # cot(sigma) is a root of x^3 + a x^2 + b x + c : three real roots
    h.assume(q ** 2 - 4 * p ** 3 < 0)
    return g, M, T


def relation(h, g, M, T, s):
    deg = h.mod("aerokit.aero.degree")
    x = 1 / deg.tan(s)
    h.eq("deflection", T * (M ** 2 * (g - 1 + (g + 1) * x ** 2) + 2 * (1 + x ** 2)), 2 * x * (M ** 2 - 1 - x ** 2))


@harness(P, cost=5)
def weak(h):
    """weak closed form: deflection recovered"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g, M, T = cubic(h)
    relation(h, g, M, T, sw.weaksigma_Mach_deflection(M, deg.atan(T), g))


@harness(P, cost=5)
def strong(h):
    """strong closed form: deflection recovered"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g, M, T = cubic(h)
    relation(h, g, M, T, sw.strongsigma_Mach_deflection(M, deg.atan(T), g))


@harness(P, cost=5)
def ordering(h):
    """weak angle below the strong angle"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g, M, T = cubic(h)
    w = sw.weaksigma_Mach_deflection(M, deg.atan(T), g)
    s = sw.strongsigma_Mach_deflection(M, deg.atan(T), g)
    h.le("order", 1 / deg.tan(s), 1 / deg.tan(w))


@harness(P)
def detached(h):
    """no attached shock: the weak solution is the Mach wave and the strong one the normal shock"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g, M = gam(h), h.var("M", "1.1", 3)
    d = deg.atan(h.var("T", "2", 10))
    h.eq("weak", sw.weaksigma_Mach_deflection(M, d, g), deg.asin(1 / M))
    h.eq("strong", sw.strongsigma_Mach_deflection(M, d, g), 90)


def weak_branch(eng, r, res, guess, kind):
    """the secant solver started above zero stays there"""
    from symx.sym import SymBool, const

    if bool(SymBool("lt", const(0), guess)):
        eng.assume(const(0) <= r)


@harness(P)
def iterative(h):
    """iterative shock angle: the deflection is recovered"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g, M, d = h.var("gamma", "1.1", "1.67"), h.var("M", 2, 8), h.var("dev", "0.5", 10)
    s = sw.sigma_Mach_deflection(M, d, gamma=g)
    h.eq("deflection", sw.deflection_Mach_sigma(M, s, g), d, tol=1e-3)
    guess_weak(h, sw, deg, M, g)


def guess_weak(h, sw, deg, M, g):
    def side():
        for r, res, guess, kind in h.roots:
            h.soft_lt("start above the Mach angle", 1, M * deg.sin(guess))
            h.soft_lt("start below the maximum deflection", deg.sin(guess) ** 2, deg.sin(sw.sigma_DevMax(M, gamma=g)) ** 2)

    h.symbolic(side)


@harness(P, root_hook=weak_branch)
def iterative_negative(h):
    """a negative deflection gives the opposite angle"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g, M, d = h.var("gamma", "1.1", "1.67"), h.var("M", 2, 8), h.var("dev", "0.5", 10)
    t = sw.sigma_Mach_deflection(M, -d, gamma=g)
    h.le("sign", t, 0)
    h.eq("deflection", sw.deflection_Mach_sigma(M, -t, g), d, tol=1e-3)
    guess_weak(h, sw, deg, M, g)


@harness(P)
def iterative_init(h):
    """the given initial angle is used"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g, M, d = h.var("gamma", "1.1", "1.67"), h.var("M", 2, 8), h.var("dev", "0.5", 10)
    s = sw.sigma_Mach_deflection(M, d, h.q(80), gamma=g)
    h.eq("deflection", sw.deflection_Mach_sigma(M, s, g), d, tol=1e-3)
    h.symbolic(lambda: [h.eq("start", r[2], 80) for r in h.roots])


@harness(P)
def defaults(h):
    """omitted gamma is 1.4"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    g = h.q("1.4")
    M, s = shock(h)
    h.eq("deflection", sw.deflection_Mach_sigma(M, s), sw.deflection_Mach_sigma(M, s, g))
    h.eq("DevMax", sw.sigma_DevMax(M), sw.sigma_DevMax(M, g))
    h.eq("Sonic", sw.sigma_Sonic(M), sw.sigma_Sonic(M, g))
    h.eq("dev_Max", sw.dev_Max(M), sw.dev_Max(M, g))
    h.eq("dev_Sonic", sw.dev_Sonic(M), sw.dev_Sonic(M, g))
