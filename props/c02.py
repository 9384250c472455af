"""C02  mass-flow function, section ratio and their inverses"""
from symx.engine import harness

P = "C02"


def gam(h, hi="2.5"):
    return h.var("gamma", "1.05", hi)


def branch(eng, r, res, guess, kind):
    """convergence contract: the solver converges to the root on the side of Mach 1 where it starts"""
    from symx.sym import SymBool, const

    eng.assume(const(0) < r)
    if eng.decide_claim("le", "side of the start", guess, const(1), None)[0] == "proved":
        eng.assume(r <= const(1))
        return
    if eng.decide_claim("lt", "side of the start", const(1), guess, None)[0] == "proved":
        eng.assume(const(1) <= r)
        return
    if bool(SymBool("le", guess, const(1))):
        eng.assume(r <= const(1))
    else:
        eng.assume(const(1) <= r)


@harness(P)
def massflow(h):
    """W = m sqrt(r Tt)/(A Pt) from the isentropic relations; independent of r"""
    mf = h.mod("aerokit.aero.MassFlow")
    Is = h.mod("aerokit.aero.Isentropic")
    M, g = h.var("M", 0, 50), gam(h, "3")
    Tt, r = h.var("Tt", 10, 3000), h.var("r", 50, 5000)
    Ts = Tt / Is.TtTs_Mach(M, g)
    V = Is.Velocity_MachTt(M, Tt, r, g)
    h.eq("definition", mf.WeightMassFlow(M, r, g), V * h.np.sqrt(r * Tt) / (r * Ts) / Is.PtPs_Mach(M, g))
    h.lt("positive", 0, mf.WeightMassFlow(M, r, g))


@harness(P)
def sigma(h):
    """A/A* = W(1)/W(M), equal to one at Mach one, and at least one"""
    mf = h.mod("aerokit.aero.MassFlow")
    M, g = h.var("M", 0, 50), gam(h, "3")
    r = h.q("287.1")
    h.eq("section ratio", mf.Sigma_Mach(M, g) * mf.WeightMassFlow(M, r, g), mf.WeightMassFlow(h.q(1), r, g))
    h.eq("throat", mf.Sigma_Mach(h.q(1), g), 1)


@harness(P)
def sub_monotone(h):
    """subsonic: A/A* decreases, W increases with Mach"""
    mf = h.mod("aerokit.aero.MassFlow")
    M, g = h.var("M", 0, 1), gam(h, "3")
    h.increasing("section ratio", lambda m: mf.Sigma_Mach(m, g), M, sign=-1)
    h.increasing("mass flow", lambda m: mf.WeightMassFlow(m, h.q("287.1"), g), M)


@harness(P)
def sup_monotone(h):
    """supersonic: A/A* increases, W decreases with Mach"""
    mf = h.mod("aerokit.aero.MassFlow")
    M, g = h.var("M", 1, 50), gam(h, "3")
    h.increasing("section ratio", lambda m: mf.Sigma_Mach(m, g), M)
    h.increasing("mass flow", lambda m: mf.WeightMassFlow(m, h.q("287.1"), g), M, sign=-1)


@harness(P, root_hook=branch)
def inverse_sub(h):
    """the subsonic inverse has the section ratio asked for and is subsonic, for any gamma"""
    mf = h.mod("aerokit.aero.MassFlow")
    g, s = gam(h), h.var("sigma", "1.0001", 2000, log=True)
    M = mf.MachSub_Sigma(s, g)
    h.eq("inverse", mf.Sigma_Mach(M, g), s)
    h.le("subsonic", M, 1)
    h.lt("positive", 0, M)

    def side():
        for r, res, guess, kind in h.roots:
            h.soft_lt("initial Mach number positive", 0, guess)
            h.soft_le("initial Mach number subsonic", guess, 1)
            h.soft_le("initial Mach number below the solution", s, mf.Sigma_Mach(guess, g))

    h.symbolic(side)


@harness(P, root_hook=branch)
def inverse_sup(h):
    """the supersonic inverse has the section ratio asked for and is supersonic, for any gamma"""
    mf = h.mod("aerokit.aero.MassFlow")
    g, s = gam(h, "2"), h.var("sigma", "1.0001", 500, log=True)
    M = mf.MachSup_Sigma(s, g)
    h.eq("inverse", mf.Sigma_Mach(M, g), s)
    h.le("supersonic", 1, M)

    def side():
        for r, res, guess, kind in h.roots:
            h.soft_le("initial Mach number supersonic", 1, guess)

    h.symbolic(side)


@harness(P, root_hook=branch)
def inverse_init(h):
    """general inverse: any subsonic given Mach number selects the subsonic solution, any other the supersonic one"""
    mf = h.mod("aerokit.aero.MassFlow")
    g, s = gam(h), h.var("sigma", "1.0001", 2000, log=True)
    m = h.var("init", "0.01", "0.999")
    M = mf.Mach_Sigma(s, m, g)
    h.eq("sub", mf.Sigma_Mach(M, g), s)
    h.le("sub branch", M, 1)
    h.lt("sub sign", 0, M)

    def side():
        for r, res, guess, kind in h.roots:
            h.soft_le("initial Mach number below the solution", s, mf.Sigma_Mach(guess, g))

    h.symbolic(side)


@harness(P, root_hook=branch)
def inverse_init_sup(h):
    """supersonic given Mach number"""
    mf = h.mod("aerokit.aero.MassFlow")
    g, s = gam(h), h.var("sigma", "1.0001", 500, log=True)
    M = mf.Mach_Sigma(s, h.var("init", "1.001", 10), g)
    h.eq("sup", mf.Sigma_Mach(M, g), s)
    h.le("sup branch", 1, M)


@harness(P, root_hook=branch)
def inverse_default(h):
    """default is supersonic"""
    mf = h.mod("aerokit.aero.MassFlow")
    g, s = gam(h), h.var("sigma", "1.0001", 500, log=True)
    M = mf.Mach_Sigma(s, gamma=g)
    h.eq("default", mf.Sigma_Mach(M, g), s)
    h.le("default branch", 1, M)


@harness(P, root_hook=branch)
def inverse_array(h):
    """array of initial Mach numbers selects the branch element by element"""
    mf = h.mod("aerokit.aero.MassFlow")
    g, s, t = gam(h, "1.7"), h.var("sigma", "1.01", 20), h.var("tau", "1.01", 20)
    st = h.array([s, t])
    M = mf.Mach_Sigma(st, h.array([h.q("0.5"), h.q("2")]), g)
    h.eq("inverse", mf.Sigma_Mach(M, g), st)
    h.le("first subsonic", M[0], 1)
    h.le("second supersonic", 1, M[1])
    A = mf.MachSub_Sigma(st, g)
    h.eq("sub array", mf.Sigma_Mach(A, g), st)
    h.le("sub array branch", A, h.array([h.q(1), h.q(1)]))
    C = mf.Mach_Sigma(st, h.q("0.4"), g)
    h.eq("sub, one initial value", mf.Sigma_Mach(C, g), st)
    h.le("sub, one initial value, branch", C, h.array([h.q(1), h.q(1)]))
    D = mf.Mach_Sigma(st, gamma=g)
    h.eq("default array", mf.Sigma_Mach(D, g), st)
    h.le("default array branch", h.array([h.q(1), h.q(1)]), D)
    B = mf.MachSup_Sigma(st, g)
    h.eq("sup array", mf.Sigma_Mach(B, g), st)
    h.le("sup array branch", h.array([h.q(1), h.q(1)]), B)


@harness(P, root_hook=branch)
def defaults(h):
    """omitted gamma is 1.4 everywhere, and legacy entry points forward gamma"""
    mf = h.mod("aerokit.aero.MassFlow")
    CF = h.mod("aerokit.aero.CompressibleFlow")
    M = h.var("M", 0, 50)
    s = h.var("sigma", "1.01", 20)
    g = h.q("1.4")
    h.eq("W", mf.WeightMassFlow(M), mf.WeightMassFlow(M, h.q("287.1"), g))
    h.eq("sigma", mf.Sigma_Mach(M), mf.Sigma_Mach(M, g))
    h.eq("legacy W", CF.WeightMassFlow(M), mf.WeightMassFlow(M, h.q("287.1"), g))
    h.eq("legacy sigma", CF.Sigma_Mach(M), mf.Sigma_Mach(M, g))
    h.eq("sub", mf.Sigma_Mach(mf.MachSub_Sigma(s), g), s)
    h.eq("sup", mf.Sigma_Mach(mf.MachSup_Sigma(s), g), s)
    h.eq("legacy inverse", mf.Sigma_Mach(CF.Mach_Sigma(s), g), s)


@harness(P, root_hook=branch)
def legacy_gamma(h):
    """legacy inverse uses the gamma and the initial Mach number it is given"""
    mf = h.mod("aerokit.aero.MassFlow")
    CF = h.mod("aerokit.aero.CompressibleFlow")
    g, s = gam(h, "1.7"), h.var("sigma", "1.01", 20)
    M = CF.Mach_Sigma(s, h.q("0.1") / s, g)
    h.eq("legacy inverse", mf.Sigma_Mach(M, g), s)
    h.le("legacy branch", M, 1)
