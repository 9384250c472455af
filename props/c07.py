"""C07  Rayleigh flow"""
from symx.engine import harness

P = "C07"


def gam(h):
    return h.var("gamma", "1.05", "3")


@harness(P)
def ratios(h):
    """frictionless flow with heat addition in a constant section"""
    R = h.mod("aerokit.aero.Rayleigh")
    Is = h.mod("aerokit.aero.Isentropic")
    M, g = h.var("M", 0, 50), gam(h)
    p, T, r, V = R.Ps_Pscri(M, g), R.Ts_Tscri(M, g), R.Rho_Rhocri(M, g), R.V_Vcri(M, g)
    o = h.q(1)
    h.eq("mass", r * V, 1)
    h.eq("momentum", p * (1 + g * M ** 2), 1 + g)
    h.eq("perfect gas", p, r * T)
    h.eq("Mach", V ** 2, M ** 2 * T)
    h.eq("total temperature", R.Ti_Ticri(M, g), T * Is.TtTs_Mach(M, g) / Is.TtTs_Mach(o, g))
    h.eq("total pressure", R.Pi_Picri(M, g), p * Is.PtPs_Mach(M, g) / Is.PtPs_Mach(o, g))


@harness(P)
def critical(h):
    """every ratio is one at Mach one, entropy zero"""
    R = h.mod("aerokit.aero.Rayleigh")
    g, o = gam(h), h.q(1)
    for f in (R.Ps_Pscri, R.Ts_Tscri, R.Rho_Rhocri, R.V_Vcri, R.Ti_Ticri, R.Pi_Picri):
        h.eq(f.__name__, f(o, g), 1)
    h.eq("entropy", R.NormdS(o, g), 0)


@harness(P)
def entropy(h):
    """entropy from temperature and pressure"""
    R = h.mod("aerokit.aero.Rayleigh")
    M, g = h.var("M", 0, 50), gam(h)
    S = h.np.exp(R.NormdS(M, g))
    h.eq("Gibbs", S ** g * R.Ps_Pscri(M, g) ** (g - 1), R.Ts_Tscri(M, g) ** g)


@harness(P)
def sub(h):
    """subsonic heating drives the flow to Mach one"""
    R = h.mod("aerokit.aero.Rayleigh")
    M, g = h.var("M", 0, 1), gam(h)
    h.increasing("total temperature", lambda m: R.Ti_Ticri(m, g), M)
    h.increasing("entropy", lambda m: R.NormdS(m, g), M)
    h.increasing("total pressure", lambda m: R.Pi_Picri(m, g), M, sign=-1)
    h.eq("inverse", R.SubMach_TiTicri(R.Ti_Ticri(M, g), g), M)
    t = h.var("t", 0, 1)
    m = R.SubMach_TiTicri(t, g)
    h.eq("inverse 2", R.Ti_Ticri(m, g), t)
    h.lt("subsonic", m, 1)


@harness(P)
def sup(h):
    """supersonic heating drives the flow to Mach one"""
    R = h.mod("aerokit.aero.Rayleigh")
    M, g = h.var("M", 1, 50), gam(h)
    h.increasing("total temperature", lambda m: R.Ti_Ticri(m, g), M, sign=-1)
    h.increasing("entropy", lambda m: R.NormdS(m, g), M, sign=-1)
    h.increasing("total pressure", lambda m: R.Pi_Picri(m, g), M)
    h.eq("inverse", R.SupMach_TiTicri(R.Ti_Ticri(M, g), g), M)


@harness(P)
def sup_inverse(h):
    """supersonic inverse on the reachable total temperature ratios"""
    R = h.mod("aerokit.aero.Rayleigh")
    g, t = gam(h), h.var("t", 0, 1)
    h.assume((1 - t) * g ** 2 < 1)
    m = R.SupMach_TiTicri(t, g)
    h.eq("inverse", R.Ti_Ticri(m, g), t)
    h.lt("supersonic", 1, m)


@harness(P)
def max_heating(h):
    """largest total temperature ratio before choking"""
    R = h.mod("aerokit.aero.Rayleigh")
    M, g = h.var("M", 0, 50), gam(h)
    d = h.q("1.4")
    h.finding("rayleigh-maxTiratio-gamma", "heating ratio", R.maxTiratio_Mach(M, g), 1 / R.Ti_Ticri(M, g), 1 / R.Ti_Ticri(M, d))
    h.eq("default gamma", R.maxTiratio_Mach(M), 1 / R.Ti_Ticri(M, d))


@harness(P)
def defaults(h):
    """omitted gamma is 1.4; arrays element by element"""
    R = h.mod("aerokit.aero.Rayleigh")
    a, b, g = h.var("a", 0, 50), h.var("b", 0, 20), h.q("1.4")
    t = h.var("t", "0.5", 1)
    v = h.array([a, b])
    for f in (R.Ps_Pscri, R.Ts_Tscri, R.Rho_Rhocri, R.V_Vcri, R.Ti_Ticri, R.Pi_Picri, R.NormdS):
        h.eq(f.__name__ + " default", f(a), f(a, g))
        h.eq(f.__name__ + " array", f(v, g), h.array([f(a, g), f(b, g)]))
    for f in (R.SubMach_TiTicri, R.SupMach_TiTicri):
        h.eq(f.__name__ + " default", f(t), f(t, g))
    h.eq("argument kept", v, h.array([a, b]))
