"""C12  unsteady inflow boundary problem"""
from symx.engine import harness
from props.c10 import check_side

P = "C12"


def contract(eng, r, res, guess, kind):
    """convergence contract: a positive pressure is found"""
    from symx.sym import const

    eng.assume(const(0) < r)


def problem(h, glo="1.1", ghi="1.9", cut=False, wide=False):
    U, I = h.mod("aerokit.aero.unsteady1D"), h.mod("aerokit.instance.unsteady_inflow")
    g, r, M = h.var("gamma", glo, ghi), h.var("rho", "0.02" if wide else "0.2", 50 if wide else 5), h.var("M", "0", "0.8")
    a = h.var("a", "0.3", 1000, log=True) if wide else h.var("a", "0.3", 3)
    u, p = M * a, r * a ** 2 / g
    R = U.unsteady_state(r, u, p, gamma=g)
    pt, tt = p * h.var("R", "1.2", 300 if wide else 4), a ** 2 / g * h.var("T", "0.7", 10 if wide else 3)
    if cut:
        for f in ("delta_u_shock", "delta_u_expansion"):
            h.cut_method(U.unsteady_state, f)
    pb = I.inflow_pb(R)
    pb.solve_with_pt0_rtt0(pt, tt)
    return pb, (r, u, p, g), pt, tt, R


@harness(P, root_hook=contract, sign_all=True)
def matching(h):
    """pressure and velocity equal on both sides of the contact; the inflow has the total quantities given"""
    check_matching(h)


@harness(P, root_hook=contract, sign_all=True)
def matching_wide(h):
    """the same for total pressures to 300 times the static pressure"""
    check_matching(h, wide=True)


def check_matching(h, wide=False):
    pb, (r, u, p, g), pt, tt, R = problem(h, cut=True, wide=wide)
    L, S = pb.qstarL(), pb.qstarR()
    h.assume(L.u ** 2 < 2 * g / (g - 1) * tt)
    h.eq("velocity", L.u, S.u)
    h.eq("ustar", pb.ustar(), S.u)
    h.eq("pstar", pb.pstar(), S.p)
    e = (g - 1) / g
    h.eq("pressure", (L.p / pt) ** e, (S.p / pt) ** e)
    h.eq("total temperature", L.rTtot(), tt)
    h.eq("total pressure", L.p * L.rTtot() ** (g / (g - 1)), pt * (L.p / L.rho) ** (g / (g - 1)))
    h.eq("gamma", L.asound() ** 2 * L.rho, g * L.p)
    h.eq("right gamma", S.asound() ** 2 * S.rho, g * S.p)
    h.eq("initial state kept", h.array([R.rho, R.u, R.p]), h.array([r, u, p]))


@harness(P, root_hook=contract, sign_all=True, cost=5)
def wave(h):
    """the wave running into the initial state: jump conditions and admissibility, or a simple wave"""
    check_wave(h)


@harness(P, root_hook=contract, sign_all=True, cost=5)
def wave_wide(h):
    """the same for total pressures to 300 times the static pressure"""
    check_wave(h, wide=True)


def check_wave(h, wide=False):
    pb, q, pt, tt, R = problem(h, wide=wide)
    w = h.need(pb, "_waves")
    check_side(h, pb, q, pb.qstarR(), 4, 3, 1, "right")
    h.eq("fastest right", pb.right_fastest(), w[4])
    h.eq("fastest left", pb.left_fastest(), w[0])


@harness(P, root_hook=contract, sign_all=True)
def again(h):
    """solving again for other total quantities leaves nothing of the first solution"""
    U, I = h.mod("aerokit.aero.unsteady1D"), h.mod("aerokit.instance.unsteady_inflow")
    g, r, a, M = h.var("gamma", "1.2", "1.7"), h.var("rho", "0.2", 5), h.var("a", "0.3", 3), h.var("M", "0", "0.8")
    u, p = M * a, r * a ** 2 / g
    for f in ("delta_u_shock", "delta_u_expansion"):
        h.cut_method(U.unsteady_state, f)
    pb = I.inflow_pb(U.unsteady_state(r, u, p, gamma=g))
    pb.solve_with_pt0_rtt0(p * h.q(3), a ** 2 / g * 2)
    h.opaque(pb, forget=True, keep=[r, u, p])
    pt, tt = p * h.var("R", "1.2", 4), a ** 2 / g * h.var("T", "0.7", 3)
    pb.solve_with_pt0_rtt0(pt, tt)
    L, S = pb.qstarL(), pb.qstarR()
    h.assume(L.u ** 2 < 2 * g / (g - 1) * tt)
    h.eq("velocity", L.u, S.u)
    e = (g - 1) / g
    h.eq("pressure", (L.p / pt) ** e, (S.p / pt) ** e)
    h.eq("total temperature", L.rTtot(), tt)
    h.eq("contact", h.need(pb, "_waves")[0], L.u)
    # the wave still starts from the state given first
    R = U.unsteady_state(r, u, p, gamma=g)
    ps = pb.pstar()
    h.eq("wave from the initial state", S.u - u, R.delta_u_shock(ps) if bool(ps > p) else R.delta_u_expansion(ps))
    h.eq("density behind the wave", S.rho, R.rho_through_shock(ps) if bool(ps > p) else R.rho_through_isentropic(ps))
