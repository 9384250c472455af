"""C11  sampling of the Riemann solution along x/t"""
from symx.engine import harness
from props.c10 import positive

P = "C11"


def same_state(h, tag, s, i, rho, u, p, g):
    h.eq(tag + " rho", s.rho[i], rho)
    h.eq(tag + " u", s.u[i], u, scale=1)
    h.eq(tag + " p", s.p[i], p)
    h.eq(tag + " gamma", s.asound()[i] ** 2 * rho, g * p)


def problem(h):
    """states given by density, velocity and speed of sound"""
    U, R = h.mod("aerokit.aero.unsteady1D"), h.mod("aerokit.instance.riemann")
    q, t = [], []
    for k in "LR":
        g, r, a, u = h.var("g" + k, "1.1", "1.9"), h.var("rho" + k, "0.01", 100, log=True), h.var("a" + k, "0.1", 10, log=True), h.var(
            "u" + k, -5, 5)
        t.append((r, u, r * a ** 2 / g, g))
        q.append(U.unsteady_state(r, u, r * a ** 2 / g, gamma=g))
    a, b = [h.np.sqrt(g * p / r) for r, u, p, g in t]
    h.assume(t[1][1] - t[0][1] < h.q("0.8") * (2 * a / (t[0][3] - 1) + 2 * b / (t[1][3] - 1)))
    return R.riemann_pb(q[0], q[1]), q[0], q[1], t[0], t[1]


def setup(h):
    pb, L, R, qL, qR = problem(h)
    ps, up = pb.pstar(), [bool(pb.pstar() > qL[2]), bool(pb.pstar() > qR[2])]
    h.opaque(pb, forget=True, keep=[qL, qR])
    w = h.need(pb, "_waves")
    h.lemma(0 < ps)
    for (r, u, p, g), shock, sg, k in ((qL, up[0], 1, 1), (qR, up[1], -1, 3)):
        h.lemma(ps > p if shock else ps <= p)
        if bool(ps < p):
            h.lemma(w[0] < w[1] if sg > 0 else w[3] < w[4])
        else:
            h.lemma(w[0] == w[1] if sg > 0 else w[3] == w[4])
        if not shock:
            h.lemma(w[0 if sg > 0 else 4] == u - sg * h.np.sqrt(g * p / r))
            # a fan ends before vacuum, proved by C10
            h.lemma(sg * (w[k] - u) < 2 / (g - 1) * h.np.sqrt(g * p / r))
    # order of the waves, proved by C10
    h.lemma(w[0] <= w[1])
    h.lemma(w[1] < w[2])
    h.lemma(w[2] < w[3])
    h.lemma(w[3] <= w[4])
    return pb, L, R, qL, qR


def zone(h, pb, x, s, i, qL, qR):
    """the sampled state i at x/t=x is the one of the zone x lies in"""
    w = h.need(pb, "_waves")
    sL, sR = pb.qstarL(), pb.qstarR()
    (rL, uL, pL, gL), (rR, uR, pR, gR) = qL, qR
    if bool(x < w[0]):
        same_state(h, "left", s, i, *qL)
    elif bool(x < w[1]):
        rho, u, p = s.rho[i], s.u[i], s.p[i]
        a, aL = s.asound()[i], h.np.sqrt(gL * pL / rL)
        h.eq("left fan characteristic", u - a, x, scale=1)
        h.eq("left fan entropy", p * rL ** gL, pL * rho ** gL)
        h.eq("left fan invariant", u + 2 * a / (gL - 1), uL + 2 * aL / (gL - 1), scale=1)
        h.eq("left fan gamma", a ** 2 * rho, gL * p)
    elif bool(x < w[2]):
        same_state(h, "left star", s, i, sL.rho, sL.u, sL.p, gL)
    elif bool(x < w[3]):
        same_state(h, "right star", s, i, sR.rho, sR.u, sR.p, gR)
    elif bool(x < w[4]):
        rho, u, p = s.rho[i], s.u[i], s.p[i]
        a, aR = s.asound()[i], h.np.sqrt(gR * pR / rR)
        h.eq("right fan characteristic", u + a, x, scale=1)
        h.eq("right fan entropy", p * rR ** gR, pR * rho ** gR)
        h.eq("right fan invariant", u - 2 * a / (gR - 1), uR - 2 * aR / (gR - 1), scale=1)
        h.eq("right fan gamma", a ** 2 * rho, gR * p)
    else:
        same_state(h, "right", s, i, *qR)


@harness(P, root_hook=positive, sign_all=True, cost=9)
def zones(h):
    """one position anywhere"""
    pb, L, R, qL, qR = setup(h)
    x = h.var("x", -20, 20)
    s = pb.qsol(h.array([x]))
    zone(h, pb, x, s, 0, qL, qR)


@harness(P, root_hook=positive, sign_all=True, cost=5)
def at_contact(h):
    """positions at the contact, between it and the neighbouring waves, and beyond both fastest waves"""
    pb, L, R, qL, qR = setup(h)
    w = h.need(pb, "_waves")
    sL, sR = pb.qstarL(), pb.qstarR()
    t = h.var("t", "0", 1)
    xs = h.array([w[0] - t, w[2] + t * (w[1] - w[2]), w[2] + t * (w[3] - w[2]), w[4] + t])
    s = pb.qsol(xs)
    same_state(h, "far left", s, 0, *qL)
    same_state(h, "left star", s, 1, sL.rho, sL.u, sL.p, qL[3])
    same_state(h, "right star", s, 2, sR.rho, sR.u, sR.p, qR[3])
    same_state(h, "far right", s, 3, *qR)
    h.eq("positions kept", xs, h.array([w[0] - t, w[2] + t * (w[1] - w[2]), w[2] + t * (w[3] - w[2]), w[4] + t]))


@harness(P, root_hook=positive, sign_all=True, cost=5)
def fans(h):
    """positions inside the fans, in any order in the array"""
    pb, L, R, qL, qR = setup(h)
    w = h.need(pb, "_waves")
    t, v = h.var("t", "0", 1), h.var("v", "0", 1)
    xl, xr = w[0] + t * (w[1] - w[0]), w[3] + v * (w[4] - w[3])
    s = pb.qsol(h.array([xr, xl]))
    (rL, uL, pL, gL), (rR, uR, pR, gR) = qL, qR
    if bool(pb.pstar() < pL):
        a = s.asound()[1]
        h.eq("left characteristic", s.u[1] - a, xl, scale=1)
        h.eq("left entropy", s.p[1] * rL ** gL, pL * s.rho[1] ** gL)
        h.eq("left invariant", s.u[1] + 2 * a / (gL - 1), uL + 2 * h.np.sqrt(gL * pL / rL) / (gL - 1), scale=1)
    if bool(pb.pstar() < pR):
        a = s.asound()[0]
        h.eq("right characteristic", s.u[0] + a, xr, scale=1)
        h.eq("right entropy", s.p[0] * rR ** gR, pR * s.rho[0] ** gR)
        h.eq("right invariant", s.u[0] - 2 * a / (gR - 1), uR - 2 * h.np.sqrt(gR * pR / rR) / (gR - 1), scale=1)


