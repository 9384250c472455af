"""C06  Fanno flow"""
from symx.engine import harness

P = "C06"


def gam(h):
    return h.var("gamma", "1.05", "3")


@harness(P)
def ratios(h):
    """adiabatic flow in a constant section: mass, energy, state, speed of sound"""
    F = h.mod("aerokit.aero.Fanno")
    Is = h.mod("aerokit.aero.Isentropic")
    M, g = h.var("M", 0, 50), gam(h)
    p, T, r, V = F.Ps_Pscri(M, g), F.Ts_Tscri(M, g), F.Rho_Rhocri(M, g), F.V_Vcri(M, g)
    h.eq("mass", r * V, 1)
    h.eq("total temperature", T * Is.TtTs_Mach(M, g), Is.TtTs_Mach(h.q(1), g))
    h.eq("perfect gas", p, r * T)
    h.eq("Mach", V ** 2, M ** 2 * T)
    h.lt("velocity positive", 0, V)
    h.eq("total pressure", F.Pi_Picri(M, g), p * Is.PtPs_Mach(M, g) / Is.PtPs_Mach(h.q(1), g))


@harness(P)
def critical(h):
    """every ratio is one and every distance zero at Mach one"""
    F = h.mod("aerokit.aero.Fanno")
    g, o = gam(h), h.q(1)
    for f in (F.Ps_Pscri, F.Ts_Tscri, F.Rho_Rhocri, F.V_Vcri, F.Pi_Picri):
        h.eq(f.__name__, f(o, g), 1)
    h.eq("entropy", F.NormdS(o, g), 0)
    h.eq("length", F.maxFparam_Mach(o, g), 0)


@harness(P)
def entropy(h):
    """entropy from temperature and pressure, and from the total pressure"""
    F = h.mod("aerokit.aero.Fanno")
    M, g = h.var("M", 0, 50), gam(h)
    S = h.np.exp(F.NormdS(M, g))
    h.eq("Gibbs", S ** g * F.Ps_Pscri(M, g) ** (g - 1), F.Ts_Tscri(M, g) ** g)
    h.eq("total pressure", S ** g * F.Pi_Picri(M, g) ** (g - 1), 1)


@harness(P)
def friction_sub(h):
    """friction length decreases to choking, its slope is the Fanno momentum equation; entropy increases"""
    F = h.mod("aerokit.aero.Fanno")
    M, g = h.var("M", 0, 1), gam(h)
    h.increasing("length", lambda m: F.maxFparam_Mach(m, g), M, sign=-1)
    h.increasing("entropy", lambda m: F.NormdS(m, g), M)


@harness(P)
def friction_sup(h):
    """same on the supersonic side"""
    F = h.mod("aerokit.aero.Fanno")
    M, g = h.var("M", 1, 50), gam(h)
    h.increasing("length", lambda m: F.maxFparam_Mach(m, g), M)
    h.increasing("entropy", lambda m: F.NormdS(m, g), M, sign=-1)


@harness(P)
def momentum(h):
    """differential momentum balance with wall friction: gamma M^2 dF/2 = -dp/p - gamma M^2 dV/V"""
    F = h.mod("aerokit.aero.Fanno")
    M, g = h.var("M", 0, 50), gam(h)

    dF = h.slope(lambda m: F.maxFparam_Mach(m, g), M)
    p, V = F.Ps_Pscri(M, g), F.V_Vcri(M, g)
    dp, dV = h.slope(lambda m: F.Ps_Pscri(m, g), M), h.slope(lambda m: F.V_Vcri(m, g), M)
    # F is the length left to the critical point, hence the sign
    h.eq("momentum", g * M ** 2 * dF / 2, dp / p + g * M ** 2 * dV / V, scale=g * M * 2)


@harness(P)
def value(h):
    """closed form of the friction parameter"""
    F = h.mod("aerokit.aero.Fanno")
    M, g = h.var("M", "0.05", 50), gam(h)
    h.eq("friction parameter", F.maxFparam_Mach(M, g),
         (1 - M ** 2) / (g * M ** 2) + (g + 1) / (2 * g) * h.np.log((g + 1) * M ** 2 / (2 + (g - 1) * M ** 2)), scale=1)


@harness(P)
def defaults(h):
    """omitted gamma is 1.4; arrays element by element"""
    F = h.mod("aerokit.aero.Fanno")
    a, b, g = h.var("a", 0, 50), h.var("b", 0, 20), h.q("1.4")
    v = h.array([a, b])
    for f in (F.Ps_Pscri, F.Ts_Tscri, F.Rho_Rhocri, F.V_Vcri, F.Pi_Picri, F.NormdS, F.maxFparam_Mach):
        h.eq(f.__name__ + " default", f(a), f(a, g))
        h.eq(f.__name__ + " array", f(v, g), h.array([f(a, g), f(b, g)]))
    h.eq("argument kept", v, h.array([a, b]))
