"""C08  one-dimensional flow states"""
from symx.engine import harness

P = "C08"


def gam(h):
    return h.var("gamma", "1.05", "3")


def st(h, lo="-3", hi="3"):
    """state with a velocity of lo..hi speeds of sound"""
    m = h.mod("aerokit.aero.model1D")
    g = gam(h)
    rho, p, M = h.var("rho", "0.01", 100, log=True), h.var("p", "0.01", 1000000, log=True), h.var("M", lo, hi)
    u = M * h.np.sqrt(g * p / rho)
    return m.state(rho, u, p, gamma=g), rho, u, p, M, g


@harness(P)
def derived(h):
    """speed of sound, characteristic speeds, Mach number, mass flow and total quantities of a state"""
    s, rho, u, p, M, g = st(h)
    a = s.asound()
    h.eq("speed of sound", rho * a ** 2, g * p)
    h.lt("positive", 0, a)
    h.eq("left", s.left_acoustic(), u - a)
    h.eq("right", s.right_acoustic(), u + a)
    h.eq("Mach", s.Mach(), M)
    h.eq("mass flow", s.massflow(), rho * u)
    h.eq("total pressure", s.Ptot(), p * (1 + (g - 1) / 2 * M ** 2) ** (g / (g - 1)))
    h.eq("total temperature", s.rTtot() * rho, p * (1 + (g - 1) / 2 * M ** 2))


@harness(P)
def from_mach(h):
    """state built from total pressure, total temperature and Mach number gives them back, gamma kept"""
    m = h.mod("aerokit.aero.model1D")
    g, M = gam(h), h.var("M", "-10", 20)
    pt, rtt = h.var("pt", "0.01", 1000000, log=True), h.var("rtt", "0.01", 1000000, log=True)
    s = m.state(h.q(1), h.q(0), h.q(1), gamma=g)
    s.compute_from_pt_rtt_M(pt, rtt, M)
    h.eq("pt", s.p * (1 + (g - 1) / 2 * M ** 2) ** (g / (g - 1)), pt)
    h.eq("Ptot", s.Ptot(), pt)
    h.eq("rTtot", s.rTtot(), rtt)
    h.eq("Mach", s.Mach(), M)
    h.eq("Mach 2", s.u * s.u * s.rho, M ** 2 * g * s.p)
    h.lt("rho", 0, s.rho)
    h.lt("p", 0, s.p)


@harness(P)
def from_velocity(h):
    """state built from total quantities and a velocity (below the maximal one) gives them back"""
    m = h.mod("aerokit.aero.model1D")
    g, w = gam(h), h.var("w", "-0.95", "0.95")
    pt, rtt = h.var("pt", "0.01", 1000000, log=True), h.var("rtt", "0.01", 1000000, log=True)
    u = w * h.np.sqrt(2 * g / (g - 1) * rtt)
    s = m.state(h.q(1), h.q(0), h.q(1), gamma=g)
    s.compute_from_pt_rtt_u(pt, rtt, u)
    h.eq("velocity", s.u, u)
    h.eq("rTtot", s.rTtot(), rtt)
    h.eq("Ptot", s.p, pt * (1 - w ** 2) ** (g / (g - 1)))
    h.eq("Ptot 2", s.Ptot(), pt)


@harness(P)
def from_pressure(h):
    """state built from total quantities and a static pressure gives them back, with a positive velocity"""
    m = h.mod("aerokit.aero.model1D")
    g, R = gam(h), h.var("R", "1", 10000, log=True)
    p, rtt = h.var("p", "0.01", 1000000, log=True), h.var("rtt", "0.01", 1000000, log=True)
    s = m.state(h.q(1), h.q(0), h.q(1), gamma=g)
    s.compute_from_pt_rtt_p(p * R, rtt, p)
    h.eq("static pressure", s.p, p)
    h.eq("rTtot", s.rTtot(), rtt)
    h.eq("Ptot", s.Ptot(), p * R)
    h.le("velocity", 0, s.u)


@harness(P)
def isentropic(h):
    """change of Mach number at constant total quantities; same entropy; original state kept"""
    s, rho, u, p, M, g = st(h, "0.05", "3")
    M2 = h.var("M2", "-3", "3")
    n = s.state_isentropic_Mach(M2)
    h.eq("Mach", n.u * n.u * n.rho, M2 ** 2 * g * n.p)
    h.eq("sign", n.Mach(), M2)
    h.eq("total temperature", n.rTtot(), s.rTtot())
    h.eq("total pressure", n.Ptot(), s.Ptot())
    h.eq("entropy", n.p * rho ** g, p * n.rho ** g)
    h.eq("kept", h.array([s.rho, s.u, s.p]), h.array([rho, u, p]))
    b = s.state_isentropic_Mach(M)
    h.eq("back rho", b.rho, rho)
    h.eq("back u", b.u, u)
    h.eq("back p", b.p, p)


@harness(P)
def jump(h):
    """state behind a steady normal shock conserves mass, momentum and total energy flux and compresses"""
    s, rho, u, p, M, g = st(h, "1", "10")
    n = s.state_RH()
    h.eq("mass", n.rho * n.u, rho * u)
    h.eq("momentum", n.rho * n.u ** 2 + n.p, rho * u ** 2 + p)
    h.eq("energy", n.rTtot(), s.rTtot())
    h.lt("compression", p, n.p)
    h.lt("subsonic", n.Mach(), 1)
    h.lt("positive", 0, n.u)
    h.eq("gamma kept", n.asound() ** 2 * n.rho, g * n.p)
    h.eq("kept", h.array([s.rho, s.u, s.p]), h.array([rho, u, p]))


@harness(P)
def containers(h):
    """copies and elements of array states keep every value and gamma"""
    m = h.mod("aerokit.aero.model1D")
    g = gam(h)
    v = [h.var(n, "0.01", 1000000, log=True) for n in ("r1", "r2", "p1", "p2")]
    u = [h.var(n, -1000, 1000) for n in ("u1", "u2")]
    s = m.state(h.array(v[:2]), h.array(u), h.array(v[2:]), gamma=g)
    for i in (0, 1):
        e = s[i]
        h.eq("element %d" % i, h.array([e.rho, e.u, e.p]), h.array([v[i], u[i], v[2 + i]]))
        h.eq("gamma %d" % i, e.asound() ** 2 * v[i], g * v[2 + i])
        h.eq("array Mach %d" % i, s.Mach()[i], e.Mach())
        h.eq("array Ptot %d" % i, s.Ptot()[i], e.Ptot())
        h.eq("array rTtot %d" % i, s.rTtot()[i], e.rTtot())
    c = s.copy()
    h.eq("copy", c.rho, s.rho)
    h.eq("copy u", c.u, s.u)
    h.eq("copy p", c.p, s.p)
    h.eq("copy gamma", c.asound(), s.asound())
    h.same("size", s.size, 2)
    h.same("size of an element", s[0].size, 1)
    d = m.state(v[0], u[0], v[2])
    h.eq("default gamma", d.asound() ** 2 * v[0], h.q("1.4") * v[2])
    uns = h.mod("aerokit.aero.unsteady1D")
    t = uns.unsteady_state(v[0], u[0], v[2], gamma=g)
    k = t.copy()
    h.eq("unsteady copy", h.array([k.rho, k.u, k.p]), h.array([v[0], u[0], v[2]]))
    h.eq("unsteady copy gamma", k.asound() ** 2 * v[0], g * v[2])
    y = t.copysymmetric()
    h.eq("mirror", h.array([y.rho, y.u, y.p]), h.array([v[0], -u[0], v[2]]))
    h.eq("mirror gamma", y.asound(), t.asound())


@harness(P)
def array_jump(h):
    """jump and isentropic states of array states, element by element"""
    m = h.mod("aerokit.aero.model1D")
    g = gam(h)
    v = [h.var(n, "0.01", 1000000, log=True) for n in ("r1", "r2", "p1", "p2")]
    M = [h.var(n, "1", 5) for n in ("m1", "m2")]
    u = [M[i] * h.np.sqrt(g * v[2 + i] / v[i]) for i in (0, 1)]
    s = m.state(h.array(v[:2]), h.array(u), h.array(v[2:]), gamma=g)
    a = s.state_RH()
    b = s.state_isentropic_Mach(h.q("0.5"))
    for i in (0, 1):
        e = m.state(v[i], u[i], v[2 + i], gamma=g)
        f, k = e.state_RH(), e.state_isentropic_Mach(h.q("0.5"))
        h.eq("jump %d" % i, h.array([a.rho[i], a.u[i], a.p[i]]), h.array([f.rho, f.u, f.p]))
        h.eq("isentropic %d" % i, h.array([b.rho[i], b.u[i], b.p[i]]), h.array([k.rho, k.u, k.p]))
