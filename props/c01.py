"""C01  isentropic stagnation/static relations and their legacy entry points"""
from symx.engine import harness

P = "C01"
G = dict(lo="1.01", hi="3")


def gam(h):
    return h.var("gamma", "1.01", "3")


@harness(P)
def temperature_ratio(h):
    """Tt/Ts = 1 + (g-1)/2 M^2 : value, bound, monotonicity, inverse in both directions"""
    Is = h.mod("aerokit.aero.Isentropic")
    M, g = h.var("M", 0, 50, lo_open=False), gam(h)
    t = Is.TtTs_Mach(M, g)
    h.eq("definition", t, 1 + (g - 1) / 2 * M ** 2)
    h.le("not below one", 1, t)
    h.eq("at rest", Is.TtTs_Mach(0 * M, g), 1)
    h.eq("inverse", Is.Mach_TtTs(t, g), M)
    T = h.var("T", 1, 500, lo_open=False, log=True)
    h.eq("inverse 2", Is.TtTs_Mach(Is.Mach_TtTs(T, g), g), T)


@harness(P)
def pressure_ratio(h):
    """Pt/Ps = (Tt/Ts)^(g/(g-1)), inverse in both directions"""
    Is = h.mod("aerokit.aero.Isentropic")
    M, g = h.var("M", 0, 50, lo_open=False), gam(h)
    p = Is.PtPs_Mach(M, g)
    h.eq("isentropic law", p, Is.TtTs_Mach(M, g) ** (g / (g - 1)))
    h.eq("at rest", Is.PtPs_Mach(0 * M, g), 1)
    h.eq("inverse", Is.Mach_PtPs(p, g), M)
    R = h.var("R", 1, 10000, lo_open=False, log=True)
    h.eq("inverse 2", Is.PtPs_Mach(Is.Mach_PtPs(R, g), g), R)


@harness(P)
def monotone(h):
    """both ratios and the velocity increase with the Mach number"""
    Is = h.mod("aerokit.aero.Isentropic")
    M, g = h.var("M", 0, 50), gam(h)
    Tt, r = h.var("Tt", 10, 3000), h.var("r", 50, 5000)
    h.increasing("temperature ratio", lambda m: Is.TtTs_Mach(m, g), M)
    h.increasing("pressure ratio", lambda m: Is.PtPs_Mach(m, g), M)
    h.increasing("velocity", lambda m: Is.Velocity_MachTt(m, Tt, r, g), M)
    h.lt("pressure ratio exceeds temperature ratio", Is.TtTs_Mach(M, g), Is.PtPs_Mach(M, g))


@harness(P)
def velocity(h):
    """V = M a(Ts) and conservation of total enthalpy"""
    Is = h.mod("aerokit.aero.Isentropic")
    M, g = h.var("M", 0, 50), gam(h)
    Tt, r = h.var("Tt", 10, 3000), h.var("r", 50, 5000)
    V = Is.Velocity_MachTt(M, Tt, r, g)
    Ts = Tt / Is.TtTs_Mach(M, g)
    cp = g * r / (g - 1)
    h.eq("speed of sound", V ** 2, M ** 2 * g * r * Ts)
    h.eq("total enthalpy", cp * Ts + V ** 2 / 2, cp * Tt)
    h.le("sign", 0, V)
    h.eq("odd in Mach", Is.Velocity_MachTt(-M, Tt, r, g), -V)


@harness(P)
def legacy(h):
    """every legacy name returns the value of the current function, for every gamma"""
    Is = h.mod("aerokit.aero.Isentropic")
    CF = h.mod("aerokit.aero.CompressibleFlow")
    M, g = h.var("M", 0, 50), gam(h)
    Tt, r = h.var("Tt", 10, 3000), h.var("r", 50, 5000)
    R = h.var("R", 1, 10000, log=True)
    for f in (Is.TiTs_Mach, CF.TtTs_Mach):
        h.eq("TtTs", f(M, g), 1 + (g - 1) / 2 * M ** 2)
    for f in (Is.PiPs_Mach, CF.PtPs_Mach):
        h.eq("PtPs", f(M, g), (1 + (g - 1) / 2 * M ** 2) ** (g / (g - 1)))
    for f in (Is.Mach_TiTs, CF.Mach_TtTs):
        h.eq("Mach_TtTs", f(R, g), Is.Mach_TtTs(R, g))
    for f in (Is.Mach_PiPs, CF.Mach_PtPs):
        h.eq("Mach_PtPs", f(R, g), Is.Mach_PtPs(R, g))
    for f in (Is.Velocity_MachTi, CF.Velocity_MachTi):
        h.eq("Velocity", f(M, Tt, r, g), Is.Velocity_MachTt(M, Tt, r, g))


@harness(P)
def legacy_functions(h):
    """legacy supersonic and mass-flow entry points agree with the current functions for every gamma"""
    CF = h.mod("aerokit.aero.CompressibleFlow")
    sup = h.mod("aerokit.aero.Supersonic")
    mf = h.mod("aerokit.aero.MassFlow")
    M, g = h.var("M", 1, 10), gam(h)
    r = h.var("r", 50, 5000)
    pr = h.var("pr", "0.2", 1)
    d = h.var("dev", 0, 10)
    h.eq("Prandtl-Meyer", CF.PrandtlMeyer_Mach(M, g), sup.PrandtlMeyer_Mach(M, g))
    h.eq("deflection", CF.deflection_Mach_IsentropicPsratio(M, pr, g), sup.deflection_Mach_IsentropicPsratio(M, pr, g))
    h.eq("mass flow", CF.WeightMassFlow(M, r, g), mf.WeightMassFlow(M, r, g))
    h.eq("sigma", CF.Sigma_Mach(M, g), mf.Sigma_Mach(M, g))


@harness(P)
def defaults(h):
    """omitted gamma means 1.4, omitted r means 287.1, legacy included"""
    Is = h.mod("aerokit.aero.Isentropic")
    CF = h.mod("aerokit.aero.CompressibleFlow")
    M, R = h.var("M", 0, 50), h.var("R", 1, 10000, log=True)
    Tt = h.var("Tt", 10, 3000)
    g, r = h.q("1.4"), h.q("287.1")
    for m in (Is, CF):
        h.eq("TtTs", m.TtTs_Mach(M), Is.TtTs_Mach(M, g))
        h.eq("PtPs", m.PtPs_Mach(M), Is.PtPs_Mach(M, g))
        h.eq("Mach_TtTs", m.Mach_TtTs(R), Is.Mach_TtTs(R, g))
        h.eq("Mach_PtPs", m.Mach_PtPs(R), Is.Mach_PtPs(R, g))
        h.eq("Velocity", m.Velocity_MachTi(M, Tt), Is.Velocity_MachTi(M, Tt, r, g))


@harness(P)
def arrays(h):
    """an array argument gives the scalar results element by element and is left unchanged"""
    Is = h.mod("aerokit.aero.Isentropic")
    a, b, g = h.var("a", 0, 50), h.var("b", 0, 20), gam(h)
    v = h.array([a, b])
    t = Is.TtTs_Mach(v, g)
    p = Is.PtPs_Mach(v, g)
    h.eq("TtTs", t, h.array([Is.TtTs_Mach(a, g), Is.TtTs_Mach(b, g)]))
    h.eq("PtPs", p, h.array([Is.PtPs_Mach(a, g), Is.PtPs_Mach(b, g)]))
    h.eq("Mach_TtTs", Is.Mach_TtTs(t, g), v)
    h.eq("Mach_PtPs", Is.Mach_PtPs(p, g), v)
    h.eq("argument kept", v, h.array([a, b]))
