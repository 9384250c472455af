"""C05  Prandtl-Meyer expansion"""
from symx.engine import harness

P = "C05"


def gam(h, hi=2):
    return h.var("gamma", "1.05", hi)


def reachable(h, om, g):
    """the angle is below the one of an expansion to vacuum"""
    h.assume(om < h.q("0.95") * 90 * (h.np.sqrt((g + 1) / (g - 1)) - 1))


def sup_branch(eng, r, res, guess, kind):
    from symx.sym import const

    eng.assume(const(1) <= r)


@harness(P)
def angle(h):
    """the Prandtl-Meyer angle vanishes at Mach one and increases; slope sqrt(M^2-1)/(M Tt/Ts)"""
    sup = h.mod("aerokit.aero.Supersonic")
    M, g = h.var("M", 1, 50), gam(h)
    h.eq("origin", sup.PrandtlMeyer_Mach(h.q(1), g), 0)
    h.increasing("angle", lambda m: sup.PrandtlMeyer_Mach(m, g), M)

    d = h.slope(lambda m: sup.PrandtlMeyer_Mach(m, g), M, sing=1) * h.np.pi / 180
    h.eq("slope", d * M * (1 + (g - 1) / 2 * M ** 2), h.np.sqrt(M ** 2 - 1))


@harness(P, root_hook=sup_branch)
def inverse(h):
    """Mach number from the Prandtl-Meyer angle, for any gamma, old and legacy names included"""
    sup = h.mod("aerokit.aero.Supersonic")
    CF = h.mod("aerokit.aero.CompressibleFlow")
    g, om = h.var("gamma", "1.05", "2"), h.var("omega", 2, 80)
    reachable(h, om, g)
    M = sup.Mach_PrandtlMeyer(om, g)
    h.eq("inverse", sup.PrandtlMeyer_Mach(M, g), om)
    h.le("supersonic", 1, M)
    h.eq("legacy", sup.PrandtlMeyer_Mach(CF.Mach_PrandtlMeyer(om, g), g), om)


@harness(P, root_hook=sup_branch)
def inverse_old(h):
    """old secant version"""
    sup = h.mod("aerokit.aero.Supersonic")
    g, om = h.var("gamma", "1.1", "1.8"), h.var("omega", 2, 70)
    reachable(h, om, g)
    h.eq("inverse", sup.PrandtlMeyer_Mach(sup.old_Mach_PrandtlMeyer(om, g), g), om, tol=1e-3)


@harness(P, root_hook=sup_branch)
def inverse_array(h):
    """array of angles"""
    sup = h.mod("aerokit.aero.Supersonic")
    g, a, b = h.var("gamma", "1.1", "1.8"), h.var("a", 2, 70), h.var("b", 2, 70)
    reachable(h, a, g)
    reachable(h, b, g)
    v = h.array([a, b])
    M = sup.Mach_PrandtlMeyer(v, g)
    h.eq("inverse", sup.PrandtlMeyer_Mach(M, g), v)
    h.eq("argument kept", v, h.array([a, b]))


@harness(P)
def characteristics(h):
    """Mach number from omega - mu on a characteristic"""
    sup, deg = h.mod("aerokit.aero.Supersonic"), h.mod("aerokit.aero.degree")
    M, g = h.var("M", 1, 50), gam(h)
    # mu = asin(1/M) = 90 - atan(sqrt(M^2-1))
    ommu = sup.PrandtlMeyer_Mach(M, g) - 90 + deg.atan(h.np.sqrt(M ** 2 - 1))
    h.eq("Mach", sup.Mach_PMFmmu(ommu, g), M)


@harness(P)
def deflection(h):
    """turning angle of an isentropic pressure change"""
    sup, Is = h.mod("aerokit.aero.Supersonic"), h.mod("aerokit.aero.Isentropic")
    M, M2, g = h.var("M", 1, 20), h.var("M2", 1, 20), gam(h)
    pr = Is.PtPs_Mach(M, g) / Is.PtPs_Mach(M2, g)
    d = sup.deflection_Mach_IsentropicPsratio(M, pr, g)
    h.eq("deflection", d, sup.PrandtlMeyer_Mach(M2, g) - sup.PrandtlMeyer_Mach(M, g))
    h.eq("no change", sup.deflection_Mach_IsentropicPsratio(M, h.q(1), g), 0, scale=1)


@harness(P)
def expansion(h):
    """a lower pressure turns the flow away (positive), a higher pressure towards"""
    sup = h.mod("aerokit.aero.Supersonic")
    M, g, m = h.var("M", 1, 20), gam(h), h.var("m", 1, 50)
    # the pressure ratio is given by the Mach number it leads to, of which it is a decreasing function
    tt = lambda x: 2 + (g - 1) * x ** 2
    h.increasing("pressure", lambda x: sup.deflection_Mach_IsentropicPsratio(M, (tt(M) / tt(x)) ** (g / (g - 1)), g), m)
    h.eq("none", sup.deflection_Mach_IsentropicPsratio(M, h.q(1), g), 0, scale=1)


@harness(P, root_hook=sup_branch)
def pressure(h):
    """pressure ratio of an isentropic turn of given angle, legacy name included"""
    sup, Is = h.mod("aerokit.aero.Supersonic"), h.mod("aerokit.aero.Isentropic")
    CF = h.mod("aerokit.aero.CompressibleFlow")
    M, g, d = h.var("M", 2, 4), h.var("gamma", "1.1", "1.67"), h.var("dev", -10, 10)
    for f in (sup.IsentropicPsratio_Mach_deflection, CF.IsentropicPsratio_Mach_deflection):
        pr = f(M, d, g)
        # positive deflection is a compression in this function
        h.eq("round trip", sup.deflection_Mach_IsentropicPsratio(M, pr, g), -d, scale=1)


@harness(P, root_hook=sup_branch)
def defaults(h):
    """omitted gamma is 1.4"""
    sup = h.mod("aerokit.aero.Supersonic")
    CF = h.mod("aerokit.aero.CompressibleFlow")
    M, om, pr, g = h.var("M", 2, 4), h.var("omega", 5, 50), h.var("pr", "0.2", 1), h.q("1.4")
    x = h.var("x", -80, 20)
    for m in (sup, CF):
        h.eq("angle", m.PrandtlMeyer_Mach(M), sup.PrandtlMeyer_Mach(M, g))
        h.eq("inverse", sup.PrandtlMeyer_Mach(m.Mach_PrandtlMeyer(om), g), om)
        h.eq("deflection", m.deflection_Mach_IsentropicPsratio(M, pr), sup.deflection_Mach_IsentropicPsratio(M, pr, g))
        h.eq("pressure", sup.deflection_Mach_IsentropicPsratio(M, m.IsentropicPsratio_Mach_deflection(M, h.q(5)), g), -5)
    h.eq("characteristics", sup.Mach_PMFmmu(x), sup.Mach_PMFmmu(x, g))
