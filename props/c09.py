"""C09  unsteady one-dimensional shock and expansion relations"""
from symx.engine import harness

P = "C09"


def gam(h):
    return h.var("gamma", "1.05", "3")


def st(h):
    U = h.mod("aerokit.aero.unsteady1D")
    g = gam(h)
    rho, p, u = h.var("rho", "0.01", 100, log=True), h.var("p", "0.01", 1000000, log=True), h.var("u", -1000, 1000)
    return U.unsteady_state(rho, u, p, gamma=g), rho, u, p, g


@harness(P)
def moving_jump(h):
    """state behind a shock of given velocity: the three conservation laws in the laboratory frame"""
    s, rho, u, p, g = st(h)
    w = h.var("W", "-50", 50)  # signed Mach number relative to the shock
    us = u - w * h.np.sqrt(g * p / rho)
    h.assume(w * w > h.q("0.2"))
    h.assume((w * w - 1) * (2 * g) + g + 1 > h.q("0.01"))  # positive pressure
    n = h.need(s, "_rankinehugoniot_from_ushock")(us)
    h.eq("mass", n.rho * (n.u - us), rho * (u - us))
    h.eq("momentum", n.rho * (n.u - us) ** 2 + n.p, rho * (u - us) ** 2 + p)
    E1 = p / (g - 1) + rho * u ** 2 / 2
    E2 = n.p / (g - 1) + n.rho * n.u ** 2 / 2
    h.eq("energy", us * (E2 - E1), n.u * (E2 + n.p) - u * (E1 + p), scale=rho * (abs(us) + abs(u) + h.np.sqrt(g * p / rho)) ** 3 + 1)
    h.eq("kept", h.array([s.rho, s.u, s.p]), h.array([rho, u, p]))
    h.eq("gamma", n.asound() ** 2 * n.rho, g * n.p)


@harness(P)
def shock(h):
    """velocity change and density across a shock of given pressure satisfy the jump conditions"""
    s, rho, u, p, g = st(h)
    p2 = p * h.var("R", 1, 10000, log=True)
    du, r2 = s.delta_u_shock(p2), s.rho_through_shock(p2)
    # mass flux through the shock m: m*du = p2-p, m^2 (1/rho - 1/r2) = p2-p
    h.eq("momentum and mass", du ** 2, (p2 - p) * (1 / rho - 1 / r2))
    # Hugoniot
    h.eq("energy", (p2 / r2 - p / rho) / (g - 1), (p2 + p) / 2 * (1 / rho - 1 / r2))
    h.lt("compression", rho, r2)
    h.lt("sign", 0, du)


@harness(P)
def shock_moving(h):
    """both descriptions of a shock agree (velocity of the shock / pressure behind it)"""
    s, rho, u, p, g = st(h)
    w = h.var("W", 1, 80, log=True)
    a = h.np.sqrt(g * p / rho)
    h.need(s, "_rankinehugoniot_from_ushock")
    n = s._rankinehugoniot_from_ushock(u - w * a)  # left running in the gas
    h.eq("left velocity", n.u, u - s.delta_u_shock(n.p), scale=a)
    h.eq("left density", n.rho, s.rho_through_shock(n.p))
    m = s._rankinehugoniot_from_ushock(u + w * a)
    h.eq("right velocity", m.u, u + s.delta_u_shock(m.p), scale=a)
    h.eq("right density", m.rho, s.rho_through_shock(m.p))
    k = s.copysymmetric()._rankinehugoniot_from_ushock(-u + w * a)
    h.eq("mirror", h.array([k.rho, -k.u, k.p]), h.array([n.rho, n.u, n.p]))


@harness(P)
def expansion(h):
    """velocity change across a simple wave keeps the Riemann invariant and the entropy"""
    s, rho, u, p, g = st(h)
    p2 = p * h.var("R", "0.00001", 1, log=True)
    r2, du = s.rho_through_isentropic(p2), s.delta_u_expansion(p2)
    h.eq("entropy", p2 * rho ** g, p * r2 ** g)
    a, a2 = h.np.sqrt(g * p / rho), h.np.sqrt(g * p2 / r2)
    h.eq("invariant", du, 2 / (g - 1) * (a2 - a))
    h.lt("sign", du, 0)
    h.lt("rarefaction", r2, rho)


@harness(P)
def differential(h):
    """both velocity laws increase with pressure and start as an acoustic wave: du = dp/(rho a)"""
    s, rho, u, p, g = st(h)
    x = h.var("R", "0.01", 1)
    h.increasing("expansion increases", lambda q: s.delta_u_expansion(p * q), x)
    y = h.var("Q", 1, 100)
    h.increasing("shock increases", lambda q: s.delta_u_shock(p * q), y)
    h.increasing("shock density increases", lambda q: s.rho_through_shock(p * q), y)
    h.eq("no shock", s.delta_u_shock(p), 0)
    h.eq("no expansion", s.delta_u_expansion(p), 0)
    h.eq("density", s.rho_through_shock(p), rho)

    dp = h.slope(lambda q: s.delta_u_expansion(p * q), x)
    a2 = g * p * x / s.rho_through_isentropic(p * x)
    h.eq("acoustic", dp * s.rho_through_isentropic(p * x) * h.np.sqrt(a2), p)


@harness(P)
def shock_density(h):
    """density behind a shock stays below the limit compression"""
    s, rho, u, p, g = st(h)
    h.lt("limit", s.rho_through_shock(p * h.var("R", 1, 1000)) * (g - 1), rho * (g + 1))


@harness(P)
def arrays(h):
    """element by element on array pressures; pressures kept"""
    s, rho, u, p, g = st(h)
    a, b = h.var("a", "1", 10), h.var("b", "1", 10)
    v = h.array([p * a, p * b])
    for f in (s.delta_u_shock, s.delta_u_expansion, s.rho_through_shock, s.rho_through_isentropic):
        h.eq(f.__name__, f(v), h.array([f(p * a), f(p * b)]))
    h.eq("kept", v, h.array([p * a, p * b]))
