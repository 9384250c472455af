"""C03  normal shock: jump conditions, second law, inverses"""
from symx.engine import harness

P = "C03"


def gam(h):
    return h.var("gamma", "1.05", "3")


@harness(P)
def jump(h):
    """mass, momentum, energy, equation of state across the shock"""
    sw = h.mod("aerokit.aero.ShockWave")
    M, g = h.var("M", 1, 50, lo_open=False), gam(h)
    p, rho, T, m1 = sw.Ps_ratio(M, g), sw.Rho_ratio(M, g), sw.Ts_ratio(M, g), sw.downstream_Mn(M, g)
    h.eq("mass", rho ** 2 * m1 ** 2 * T, M ** 2)
    h.eq("momentum", p * (1 + g * m1 ** 2), 1 + g * M ** 2)
    h.eq("energy", T * (2 + (g - 1) * m1 ** 2), 2 + (g - 1) * M ** 2)
    h.eq("perfect gas", p, rho * T)
    h.lt("downstream Mach positive", 0, m1)


@harness(P)
def ranges(h):
    """compression shock: subsonic downstream, pressure, density, temperature rise, density bound"""
    sw = h.mod("aerokit.aero.ShockWave")
    M, g = h.var("M", 1, 50), gam(h)
    h.lt("subsonic downstream", sw.downstream_Mn(M, g), 1)
    h.lt("pressure rises", 1, sw.Ps_ratio(M, g))
    h.lt("density rises", 1, sw.Rho_ratio(M, g))
    h.lt("density limit", sw.Rho_ratio(M, g), (g + 1) / (g - 1))
    h.lt("temperature rises", 1, sw.Ts_ratio(M, g))
    h.increasing("pressure", lambda m: sw.Ps_ratio(m, g), M)
    h.increasing("density", lambda m: sw.Rho_ratio(m, g), M)
    h.increasing("temperature", lambda m: sw.Ts_ratio(m, g), M)
    h.increasing("downstream Mach", lambda m: sw.downstream_Mn(m, g), M, sign=-1)


@harness(P)
def sonic(h):
    """no jump at Mach one"""
    sw = h.mod("aerokit.aero.ShockWave")
    g, o = gam(h), h.q(1)
    for f in (sw.Ps_ratio, sw.Rho_ratio, sw.Ts_ratio, sw.downstream_Mn, sw.Pt_ratio):
        h.eq(f.__name__, f(o, g), 1)


@harness(P)
def symmetric(h):
    """the jump read from the downstream side is the inverse jump"""
    sw = h.mod("aerokit.aero.ShockWave")
    M, g = h.var("M", 1, 50), gam(h)
    m1 = sw.downstream_Mn(M, g)
    h.eq("Mach", sw.downstream_Mn(m1, g), M)
    h.eq("pressure", sw.Ps_ratio(m1, g) * sw.Ps_ratio(M, g), 1)
    h.eq("density", sw.Rho_ratio(m1, g) * sw.Rho_ratio(M, g), 1)
    h.eq("temperature", sw.Ts_ratio(m1, g) * sw.Ts_ratio(M, g), 1)


@harness(P)
def stagnation(h):
    """total pressure ratio from static quantities, total temperature kept, second law"""
    sw = h.mod("aerokit.aero.ShockWave")
    Is = h.mod("aerokit.aero.Isentropic")
    M, g = h.var("M", 1, 50), gam(h)
    m1 = sw.downstream_Mn(M, g)
    h.eq("total pressure", sw.Pt_ratio(M, g), sw.Ps_ratio(M, g) * Is.PtPs_Mach(m1, g) / Is.PtPs_Mach(M, g))
    # entropy form:  s1-s0 = -r ln(Pt1/Pt0)
    h.eq("entropy", sw.Pt_ratio(M, g) ** (g - 1) * sw.Ps_ratio(M, g), sw.Rho_ratio(M, g) ** g)
    h.eq("total temperature", sw.Ts_ratio(M, g) * Is.TtTs_Mach(m1, g), Is.TtTs_Mach(M, g))


@harness(P)
def second_law(h):
    """total pressure decreases across the shock, more for stronger shocks"""
    sw = h.mod("aerokit.aero.ShockWave")
    M, g = h.var("M", 1, 50), gam(h)
    h.increasing("total pressure", lambda m: sw.Pt_ratio(m, g), M, sign=-1)
    h.eq("no loss at Mach one", sw.Pt_ratio(h.q(1), g), 1)


@harness(P)
def inverse_pressure(h):
    """normal Mach number from the pressure ratio, both compositions"""
    sw = h.mod("aerokit.aero.ShockWave")
    M, g, R = h.var("M", 1, 50), gam(h), h.var("R", 1, 10000, log=True)
    h.eq("Mach", sw.Mn_Ps_ratio(sw.Ps_ratio(M, g), g), M)
    h.eq("ratio", sw.Ps_ratio(sw.Mn_Ps_ratio(R, g), g), R)
    h.lt("supersonic", 1, sw.Mn_Ps_ratio(R, g))


def supersonic(eng, r, res, guess, kind):
    from symx.sym import SymBool, const

    if bool(SymBool("lt", const(1), guess)):
        eng.assume(const(1) <= r)


@harness(P, root_hook=supersonic)
def inverse_total_pressure(h):
    """normal Mach number from the total pressure ratio, for any gamma, legacy name included"""
    sw = h.mod("aerokit.aero.ShockWave")
    g, R = h.var("gamma", "1.1", 2), h.var("R", "0.05", "0.995")
    for f in (sw.Mn_Pt_ratio, sw.Mn_Pi_ratio):
        M = f(R, g)
        h.eq("ratio", sw.Pt_ratio(M, g), R, tol=1e-4)
        h.eq("legacy", sw.Pi_ratio(M, g), R, tol=1e-4)
        h.le("supersonic", 1, M, tol=1e-3)


@harness(P)
def no_solution(h):
    """a total pressure gain has no shock: the sonic Mach number is returned"""
    sw = h.mod("aerokit.aero.ShockWave")
    g, R = gam(h), h.var("R", 1, 10)
    h.eq("sonic", sw.Mn_Pt_ratio(R, g), 1)


@harness(P)
def defaults(h):
    """omitted gamma is 1.4"""
    sw = h.mod("aerokit.aero.ShockWave")
    M, R, g = h.var("M", 1, 50), h.var("R", 1, 10000, log=True), h.q("1.4")
    for f in (sw.Ps_ratio, sw.Rho_ratio, sw.Ts_ratio, sw.downstream_Mn, sw.Pt_ratio, sw.Pi_ratio):
        h.eq(f.__name__, f(M), f(M, g))
    h.eq("Mn_Ps_ratio", sw.Mn_Ps_ratio(R), sw.Mn_Ps_ratio(R, g))


@harness(P)
def arrays(h):
    """element by element on arrays"""
    sw = h.mod("aerokit.aero.ShockWave")
    a, b, g = h.var("a", 1, 50), h.var("b", 1, 20), gam(h)
    v = h.array([a, b])
    for f in (sw.Ps_ratio, sw.Rho_ratio, sw.Ts_ratio, sw.downstream_Mn, sw.Pt_ratio):
        h.eq(f.__name__, f(v, g), h.array([f(a, g), f(b, g)]))
    h.eq("argument kept", v, h.array([a, b]))
