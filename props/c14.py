"""C14  nozzle flow along the axis"""
from symx.engine import harness
from props.c03 import supersonic

P = "C14"


def start_side(eng, r, res, guess, kind):
    """convergence contract: the root lies on the side of Mach 1 of its start.  The side of the start is read from the
    samples of the path when they agree (C02 decides it for every value), and forked on otherwise"""
    from symx.sym import SymBool, const

    if kind == "secant":
        return supersonic(eng, r, res, guess, kind)
    one = const(1)
    eng.assume(const(0) < r)
    m = eng.mask()
    t = eng.truth(SymBool("le", guess, one), eng.get_batch(), False)[m]
    if m.any() and t.all():
        eng.assume(r <= one)
    elif m.any() and not t.any():
        eng.assume(one <= r)
    elif bool(SymBool("le", guess, one)):
        eng.assume(r <= one)
    else:
        eng.assume(one <= r)


def exit_contract(world):
    """contract of Ms_from_AsAc_NPR in the shock regime, decided by C13: a subsonic Mach number that carries the mass flow
    of the sonic throat at the outer pressure; elsewhere the code itself runs"""
    nz = world.load("aerokit.instance.nozzle")
    real = nz.Ms_from_AsAc_NPR
    Is, mf = world.load("aerokit.aero.Isentropic"), world.load("aerokit.aero.MassFlow")
    from fractions import Fraction as F

    from symx.sym import const, lift

    def f(AsAc, NPR, gamma=None):
        if gamma is None:
            return real(AsAc, NPR)
        r = world.new_root(False)
        res = lift(Is.PtPs_Mach(r, gamma)) * lift(AsAc) - lift(NPR) * lift(mf.Sigma_Mach(r, gamma))
        r = world.engine.add_root(r, res, const(F(1, 5)), "closed")
        return r

    return f


def hook(eng, r, res, guess, kind):
    from symx.sym import const

    if kind == "closed":
        eng.assume(const(0) < r)
        eng.assume(r <= const(1))
        return
    start_side(eng, r, res, guess, kind)


def mods(h):
    return (h.mod("aerokit.instance.nozzle"), h.mod("aerokit.aero.Isentropic"), h.mod("aerokit.aero.MassFlow"),
            h.mod("aerokit.aero.ShockWave"))


def sections(h):
    """convergent, throat, two diverging sections (section area in any unit)"""
    k = h.var("unit", "0.1", 10)
    a = [h.var("Ain", "1.2", 3), h.q(1), h.var("Adiv", "1.2", "1.8"), h.var("Aout", "2", 6)]
    return a, h.array([k * q for q in a]), h.array([h.q(i) for i in range(4)])


def build(h, g, gkw=None):
    nz, Is, mf, sw = mods(h)
    a, A, x = sections(h)
    n = nz.nozzle(x, A, **({"gamma": g} if gkw is None else gkw))
    return n, a, A, x


def common(h, n, a, A, g, tag="", sonic=True, Me=None):
    """mass flow and static pressure consistent with the Mach number at every station"""
    nz, Is, mf, sw = mods(h)
    M, Pt, Ps = n.Mach(), n.Ptot(), n.Ps()
    if sonic:
        throat(h, M[1], g)
    for i in range(4):
        h.eq(tag + "static pressure %d" % i, Ps[i] * Is.PtPs_Mach(M[i], g), Pt[i])
        if sonic:  # mass flow of the sonic throat
            h.eq(tag + "mass flow %d" % i, mf.Sigma_Mach(M[i], g), a[i] * Pt[i])
        else:
            h.eq(tag + "mass flow %d" % i, a[3] * mf.Sigma_Mach(M[i], g), a[i] * Pt[i] * mf.Sigma_Mach(Me, g))
    return M, Pt, Ps


def throat(h, M1, g):
    """the throat is sonic: section ratio one, C02 (sub_monotone) gives Mach one"""
    nz, Is, mf, sw = mods(h)
    h.eq("throat section ratio", mf.Sigma_Mach(M1, g), 1)
    h.le("throat not supersonic", M1, 1, tol=2e-3)
    h.symbolic(lambda: h.lemma(M1 == h.q(1)))


def exit_is(h, M3, Ms, g):
    """the station at the exit has the Mach number Ms: same section ratio, same side; C02 (sub_monotone) gives equality"""
    nz, Is, mf, sw = mods(h)
    h.eq("exit section ratio", mf.Sigma_Mach(M3, g), mf.Sigma_Mach(Ms, g))
    h.le("exit subsonic", M3, 1)
    h.le("reference subsonic", Ms, 1)
    h.symbolic(lambda: h.lemma(M3 == Ms))


@harness(P, root_hook=hook)
def limits(h):
    """pressure ratio limits and exit Mach numbers of the nozzle, section ratio from the section law or forced"""
    nz, Is, mf, sw = mods(h)
    g = h.var("gamma", "1.1", "1.7")
    n, a, A, x = build(h, g)
    h.eq("section ratio", n.AsoAc, a[3])
    h.eq("relative sections", n.AxoAc, h.array(a))
    h.eq("gamma", n.gamma, g)
    h.eq("subsonic exit", mf.Sigma_Mach(n.Msub, g), a[3])
    h.eq("supersonic exit", mf.Sigma_Mach(n.Msup, g), a[3])
    h.le("subsonic side", n.Msub, 1)
    h.le("supersonic side", 1, n.Msup)
    h.eq("NPR0", n.NPR0, Is.PtPs_Mach(n.Msub, g))
    h.eq("NPR1", n.NPR1, Is.PtPs_Mach(n.Msup, g))
    h.eq("NPRsw", n.NPRsw * sw.Ps_ratio(n.Msup, g), n.NPR1)
    h.eq("Msh", n.Msh, sw.downstream_Mn(n.Msup, g))


@harness(P, root_hook=hook)
def forced(h):
    """a forced exit section ratio rescales the sections"""
    nz, Is, mf, sw = mods(h)
    g = h.var("gamma", "1.1", "1.7")
    a, A, x = sections(h)
    keep = [q for q in A]
    s = h.var("forced", "1.5", 8)
    f = nz.nozzle(x, A, AsoAc=s, gamma=g)
    h.eq("forced section ratio", f.AsoAc, s)
    h.eq("forced relative sections", f.AxoAc, A * s / A[3])
    h.eq("forced exit", mf.Sigma_Mach(f.Msup, g), s)
    h.eq("sections kept", A, h.array(keep))
    h.eq("default gamma", nz.nozzle(x, A, AsoAc=s).NPR1, nz.nozzle(x, A, AsoAc=s, gamma=h.q("1.4")).NPR1)


@harness(P, root_hook=hook)
def subsonic(h):
    """below the choking pressure ratio: isentropic subsonic flow, exit pressure is the outer pressure"""
    nz, Is, mf, sw = mods(h)
    g = h.var("gamma", "1.1", "1.7")
    n, a, A, x = build(h, g)
    Me = h.var("Me", "0.03", 1, log=True)  # every pressure ratio is the one of some exit Mach number
    N = Is.PtPs_Mach(Me, g)
    h.assume(N < n.NPR0)
    n.set_NPR(N)
    M, Pt, Ps = common(h, n, a, A, g, sonic=False, Me=Me)
    exit_is(h, M[3], Me, g)
    h.eq("exit pressure", Ps[3] * N, 1)
    for i in range(4):
        h.eq("no loss %d" % i, Pt[i], 1)
        h.le("subsonic %d" % i, M[i], 1)


@harness(P, root_hook=hook)
def supersonic_flow(h):
    """above the pressure ratio of a shock at exit: sonic throat, isentropic supersonic diverging part"""
    g = h.var("gamma", "1.1", "1.7")
    n, a, A, x = build(h, g)
    N = h.var("NPR", "1.1", 300, log=True)
    h.assume(N > n.NPR0)
    h.assume(N > n.NPRsw)
    n.set_NPR(N)
    M, Pt, Ps = common(h, n, a, A, g)
    h.le("convergent", M[0], 1)
    h.le("divergent", 1, M[2])
    h.le("exit", 1, M[3])
    for i in range(4):
        h.eq("no loss %d" % i, Pt[i], 1)


@harness(P, root_hook=hook, stubs={"aerokit.instance.nozzle.Ms_from_AsAc_NPR": exit_contract})
def shock(h):
    """normal shock in the diverging part: losses from there on, exit pressure is the outer pressure"""
    nz, Is, mf, sw = mods(h)
    g = h.var("gamma", "1.1", "1.7")
    n, a, A, x = build(h, g)
    N = h.var("NPR", "1.05", 20, log=True)
    h.assume(n.NPR0 < N)
    h.assume(N < n.NPRsw)
    n.set_NPR(N)
    M, Pt, Ps = common(h, n, a, A, g)
    h.le("convergent", M[0], 1)
    h.eq("no loss", Pt[0], 1)
    h.eq("no loss at the throat", Pt[1], 1)
    Ms = nz.Ms_from_AsAc_NPR(n.AsoAc, N, g)
    exit_is(h, M[3], Ms, g)
    h.eq("exit pressure", Ps[3] * N, 1)


@harness(P, root_hook=hook)
def again(h):
    """setting another pressure ratio leaves nothing of the previous one; constructor and setter agree"""
    nz, Is, mf, sw = mods(h)
    g = h.q("1.3")
    A, x = h.array([h.q(q) for q in ("1.6", "1", "1.4", "2.5")]), h.array([h.q(i) for i in range(4)])
    n = nz.nozzle(x, A, gamma=g)
    N2 = h.var("NPR2", 4, 300, log=True)
    h.assume(N2 > n.NPR0)
    h.assume(N2 > n.NPRsw)
    # the history is the subject here: values are those of the harnesses above
    N = Is.PtPs_Mach(h.q("0.2"), g)
    h.assume(N < n.NPR0)
    n.set_NPR(N2)
    M1 = n.Mach()
    keep = [M1[i] for i in range(4)]
    S = h.q("1.6")
    n.set_NPR(S)
    f = nz.nozzle(x, A, gamma=g, NPR=S)
    h.assume(f.Ptot()[3] < 1)  # in the regime of the shock
    h.eq("shock Mach", n.Mach(), f.Mach())
    h.eq("shock Ps", n.Ps(), f.Ps())
    h.eq("shock Ptot", n.Ptot(), f.Ptot())
    n.set_NPR(N)
    f = nz.nozzle(x, A, gamma=g, NPR=N)
    h.eq("Mach", n.Mach(), f.Mach())
    h.eq("Ps", n.Ps(), f.Ps())
    h.eq("Ptot", n.Ptot(), f.Ptot())
    h.eq("earlier result", M1, h.array(keep))
    n.set_NPR(N2)
    h.eq("back", n.Mach(), h.array(keep))
    h.eq("back, no loss", n.Ptot(), h.array([1, 1, 1, 1]))
