"""C10  exact Riemann problem: star states and waves"""
from symx.engine import harness

P = "C10"


def positive(eng, r, res, guess, kind):
    """convergence contract: a positive pressure is found"""
    from symx.sym import const

    eng.assume(const(0) < r)


def problem(h, same_gamma=False, lo="0.01", hi="100", um="5", plo=None, phi=None):
    U, R = h.mod("aerokit.aero.unsteady1D"), h.mod("aerokit.instance.riemann")
    gL = h.var("gL", "1.1", "1.9")
    gR = gL if same_gamma else h.var("gR", "1.1", "1.9")
    rL, rR = h.var("rhoL", lo, hi, log=True), h.var("rhoR", lo, hi, log=True)
    plo, phi = plo or lo, phi or hi
    pL, pR = h.var("pL", plo, phi, log=True), h.var("pR", plo, phi, log=True)
    uL, uR = h.var("uL", "-" + um, um), h.var("uR", "-" + um, um)
    # no vacuum
    a, b = h.np.sqrt(gL * pL / rL), h.np.sqrt(gR * pR / rR)
    h.assume((uR - uL) < h.q("0.8") * (2 * a / (gL - 1) + 2 * b / (gR - 1)))
    L = U.unsteady_state(rL, uL, pL, gamma=gL)
    Rr = U.unsteady_state(rR, uR, pR, gamma=gR)
    return R.riemann_pb(L, Rr), L, Rr, (rL, uL, pL, gL), (rR, uR, pR, gR)


def one_side(h, q, s, side, tag):
    """relations between the given state q=(rho,u,p,g) and the star state s; side=-1 left, +1 right;
    the mirror image of a right state is a left one"""
    rho, u, p, g = q
    h.eq(tag + " gamma", s.asound() ** 2 * s.rho, g * s.p)
    return rho, u, p, g


@harness(P, root_hook=positive)
def contact(h):
    """pressure and velocity are equal on both sides of the contact, gammas are kept on each side"""
    pb, L, R, qL, qR = problem(h)
    sL, sR = pb.qstarL(), pb.qstarR()
    h.eq("pressure", sL.p, sR.p)
    h.eq("velocity", sL.u, sR.u)
    h.eq("pstar", pb.pstar(), sL.p)
    h.eq("ustar", pb.ustar(), sL.u)
    h.eq("left gamma", sL.asound() ** 2 * sL.rho, qL[3] * sL.p)
    h.eq("right gamma", sR.asound() ** 2 * sR.rho, qR[3] * sR.p)
    h.eq("inputs kept", h.array([L.rho, L.u, L.p, R.rho, R.u, R.p]), h.array(list(qL[:3] + qR[:3])))


def check_side(h, pb, q, s, k_fast, k_slow, sg, tag):
    """sg=-1 for the left wave: fastest wave k_fast, slowest k_slow"""
    rho, u, p, g = q
    w, v = h.need(pb, "_waves")[k_fast], h.need(pb, "_waves")[k_slow]
    a = h.np.sqrt(g * p / rho)
    if bool(s.p > p):
        h.eq(tag + " one shock", w, v)
        h.eq(tag + " shock mass", rho * (u - w), s.rho * (s.u - w))
        h.eq(tag + " shock momentum", rho * (u - w) ** 2 + p, s.rho * (s.u - w) ** 2 + s.p)
        h.eq(tag + " shock energy", g / (g - 1) * p / rho + (u - w) ** 2 / 2,
             g / (g - 1) * s.p / s.rho + (s.u - w) ** 2 / 2)
        h.lt(tag + " compression", rho, s.rho)
        # supersonic with respect to the gas ahead, and beyond the contact
        h.lt(tag + " supersonic", a, sg * (w - u))
        h.lt(tag + " order", sg * s.u, sg * w)
    else:
        b = h.np.sqrt(g * s.p / s.rho)
        h.eq(tag + " entropy", s.p * rho ** g, p * s.rho ** g)
        h.eq(tag + " invariant", s.u - sg * 2 / (g - 1) * b, u - sg * 2 / (g - 1) * a, scale=a)
        h.eq(tag + " head", w, u + sg * a)
        h.eq(tag + " tail", v, s.u + sg * b)
        h.le(tag + " sound speed", b, a)
        if bool(s.p < p):
            h.lt(tag + " fan", sg * v, sg * w)
        else:
            h.eq(tag + " no wave", v, w)
        h.lt(tag + " no vacuum", -sg * (v - u), 2 / (g - 1) * a)
        h.le(tag + " rarefaction", s.rho, rho)


@harness(P, root_hook=positive, cost=9)
def left(h):
    """left wave: jump conditions and admissibility of a shock, invariants and bounds of an expansion"""
    pb, L, R, qL, qR = problem(h)
    check_side(h, pb, qL, pb.qstarL(), 0, 1, -1, "left")
    h.eq("left fastest", pb.left_fastest(), h.need(pb, "_waves")[0])


@harness(P, root_hook=positive, cost=9)
def right(h):
    """right wave: same"""
    pb, L, R, qL, qR = problem(h)
    check_side(h, pb, qR, pb.qstarR(), 4, 3, 1, "right")
    h.eq("right fastest", pb.right_fastest(), h.need(pb, "_waves")[4])


@harness(P, root_hook=positive, cost=9)
def waves_si(h):
    """both waves and the contact for states in SI units"""
    pb, L, R, qL, qR = problem(h, lo="0.01", hi="20", um="600", plo="1000", phi="1000000")
    check_side(h, pb, qL, pb.qstarL(), 0, 1, -1, "left")
    check_side(h, pb, qR, pb.qstarR(), 4, 3, 1, "right")
    h.eq("pressure", pb.qstarL().p, pb.qstarR().p)
    h.eq("velocity", pb.qstarL().u, pb.qstarR().u)


@harness(P, root_hook=positive)
def order(h):
    """the contact lies between both waves and moves with the star velocity"""
    pb, L, R, qL, qR = problem(h)
    h.eq("contact", h.need(pb, "_waves")[2], pb.ustar())
    h.lt("left of contact", h.need(pb, "_waves")[1], h.need(pb, "_waves")[2])
    h.lt("right of contact", h.need(pb, "_waves")[2], h.need(pb, "_waves")[3])


@harness(P, root_hook=positive)
def expansions(h):
    """two expansions of one gas: the closed-form estimate is the solution itself"""
    pb, L, R, qL, qR = problem(h, same_gamma=True)
    if bool(pb.pstar() <= qL[2]) and bool(pb.pstar() <= qR[2]):
        g = qL[3]
        z = (g - 1) / (2 * g)
        a, b = h.np.sqrt(g * qL[2] / qL[0]), h.np.sqrt(g * qR[2] / qR[0])
        h.eq("closed form", pb.pstar() ** z * (a / qL[2] ** z + b / qR[2] ** z), a + b - (g - 1) / 2 * (qR[1] - qL[1]))


@harness(P, root_hook=positive)
def trivial_problem(h):
    """equal states on both sides: star values equal to them satisfy the pressure equation; no jump"""
    U, R = h.mod("aerokit.aero.unsteady1D"), h.mod("aerokit.instance.riemann")
    g, r, p, u = h.var("g", "1.1", "1.9"), h.var("rho", "0.1", 10), h.var("p", "0.1", 10), h.var("u", -2, 2)
    pb = R.riemann_pb(U.unsteady_state(r, u, p, gamma=g), U.unsteady_state(r, u, p, gamma=g))
    h.eq("u", pb.ustar(), u, scale=1)


@harness(P)
def alias(h):
    """the old module name gives the same solver"""
    R, old = h.mod("aerokit.instance.riemann"), h.mod("aerokit.aero.riemann")
    h.same("same class", issubclass(old.riemann_pb, R.riemann_pb), True)
