"""C15  default gas: setters, save and restore, no side effects"""
from symx.engine import harness
from props.c14 import hook

P = "C15"
STEPS = 4


def step(h, dg, model, k):
    """one operation chosen by a symbolic code, with symbolic values, on the module and on its model"""
    code = h.var("op%d" % k, 0, 4)
    g, r = h.var("g%d" % k, "1.05", 2), h.var("r%d" % k, 10, 5000)
    if bool(code < 1):
        dg.set_gamma(g)
        model["gamma"] = g
    elif bool(code < 2):
        dg.set_r_ideal(r)
        model["r"] = r
    elif bool(code < 3):
        dg.save_default()
        model["saved"] = (model["gamma"], model["r"])
    elif "saved" in model:
        dg.restore_default()
        model["gamma"], model["r"] = model["saved"]
    h.eq("gamma after %d" % k, dg.gamma(), model["gamma"])
    h.eq("r after %d" % k, dg.r_ideal(), model["r"])


def history(h, n):
    dg = h.mod("aerokit.common.defaultgas")
    h.eq("initial gamma", dg.gamma(), h.q("1.4"))
    h.eq("initial r", dg.r_ideal(), h.q("287.1"))
    model = {"gamma": dg.gamma(), "r": dg.r_ideal()}
    for k in range(n):
        step(h, dg, model, k)


@harness(P)
def history3(h):
    """every sequence of three operations (set gamma, set r, save, restore) with any values"""
    history(h, 3)


@harness(P, thorough_only=True, max_paths=2000)
def history5(h):
    """every sequence of five operations"""
    history(h, 5)


@harness(P, max_paths=800)
def saved(h):
    """save, then every sequence of two operations, then restore twice: the last saved values come back"""
    dg = h.mod("aerokit.common.defaultgas")
    a, b = h.var("ga", "1.05", 2), h.var("ra", 10, 5000)
    dg.set_gamma(a)
    dg.set_r_ideal(b)
    dg.save_default()
    model = {"gamma": a, "r": b, "saved": (a, b)}
    for k in range(2):
        step(h, dg, model, k)
    for k in range(2):
        dg.restore_default()
        h.eq("restored gamma %d" % k, dg.gamma(), model["saved"][0])
        h.eq("restored r %d" % k, dg.r_ideal(), model["saved"][1])
        dg.set_gamma(h.q(3))
        dg.set_r_ideal(h.q(1))


def calls(h, g, r):
    """values of documented functions with an explicit gas"""
    Is, mf, sw = h.mod("aerokit.aero.Isentropic"), h.mod("aerokit.aero.MassFlow"), h.mod("aerokit.aero.ShockWave")
    sup = h.mod("aerokit.aero.Supersonic")
    fa, ra = h.mod("aerokit.aero.Fanno"), h.mod("aerokit.aero.Rayleigh")
    M, s, T = h.var("M", "1.1", 5), h.var("sig", 50, 89), h.var("T", 10, 1000)
    out = []
    for f in (Is.TtTs_Mach, Is.PtPs_Mach, mf.Sigma_Mach, sw.Ps_ratio, sw.Rho_ratio, sw.Ts_ratio, sw.downstream_Mn,
              sw.Pt_ratio, sup.PrandtlMeyer_Mach, fa.maxFparam_Mach, fa.Ps_Pscri, fa.Ts_Tscri, fa.Rho_Rhocri,
              fa.Pi_Picri, fa.V_Vcri, fa.NormdS, ra.Ps_Pscri, ra.Ts_Tscri, ra.Ti_Ticri, ra.Rho_Rhocri, ra.Pi_Picri,
              ra.V_Vcri, ra.NormdS):
        out.append((f.__module__ + "." + f.__name__, f(M, g)))
    for f in (Is.Mach_TtTs, Is.Mach_PtPs, sw.Mn_Ps_ratio):
        out.append((f.__name__, f(M, g)))
    out.append(("Velocity", Is.Velocity_MachTt(M, T, r, g)))
    out.append(("WeightMassFlow", mf.WeightMassFlow(M, r, g)))
    out.append(("deflection", sw.deflection_Mach_sigma(M, s, g)))
    out.append(("deflection p", sw.deflection_Mach_ShockPsratio(M, h.q("1.1"), g)))
    out.append(("Mach behind", sw.downstreamMach_Mach_ShockPsratio(M, h.q("1.1"), g)))
    return out


@harness(P)
def explicit(h):
    """functions given a gas do not depend on the default one, and leave it and the saved one alone"""
    dg = h.mod("aerokit.common.defaultgas")
    g, r = h.var("gamma", "1.05", 2), h.var("r", 10, 5000)
    G, R, G2, R2 = h.var("G", "1.05", 2), h.var("R", 10, 5000), h.var("G2", "1.05", 2), h.var("R2", 10, 5000)
    before = calls(h, g, r)
    dg.set_gamma(G)
    dg.set_r_ideal(R)
    dg.save_default()
    dg.set_gamma(G2)
    dg.set_r_ideal(R2)
    after = calls(h, g, r)
    for (n, a), (_, b) in zip(before, after):
        h.eq(n, a, b)
    h.eq("default gamma", dg.gamma(), G2)
    h.eq("default r", dg.r_ideal(), R2)
    dg.restore_default()
    h.eq("saved gamma", dg.gamma(), G)
    h.eq("saved r", dg.r_ideal(), R)


@harness(P, root_hook=hook)
def objects(h):
    """building and using states, a nozzle, a gas generator and cycles leaves the default and the saved gas alone"""
    dg = h.mod("aerokit.common.defaultgas")
    G, R, G2, R2 = h.var("G", "1.05", 2), h.var("R", 10, 5000), h.var("G2", "1.05", 2), h.var("R2", 10, 5000)
    nz, U, m1 = h.mod("aerokit.instance.nozzle"), h.mod("aerokit.aero.unsteady1D"), h.mod("aerokit.aero.model1D")
    gg, tj, tf = h.mod("aerokit.engine.gasgenerator"), h.mod("aerokit.engine.turbojet"), h.mod("aerokit.engine.turbofan")
    ct = h.mod("aerokit.engine.Cycle_Turbofan")
    dg.set_gamma(G)
    dg.set_r_ideal(R)
    dg.save_default()
    dg.set_gamma(G2)
    dg.set_r_ideal(R2)

    def unchanged(t):
        h.eq(t + ": gamma", dg.gamma(), G2)
        h.eq(t + ": r", dg.r_ideal(), R2)

    g = h.q("1.3")
    n = nz.nozzle(h.array([0, 1, 2, 3]), h.array([h.q(x) for x in ("1.6", "1", "1.4", "2.5")]), gamma=g)
    for N in ("1.01", "1.6", "5"):
        n.set_NPR(h.q(N))
        unchanged("nozzle " + N)
    s = U.unsteady_state(h.q(1), h.q("0.1"), h.q(1), gamma=g)
    s.compute_from_pt_rtt_u(h.q(2), h.q("1.5"), h.q("0.1"))
    s.delta_u_shock(h.q(3)), s.rTtot(), s.Ptot(), s.Mach(), s.massflow(), s.left_acoustic(), s.right_acoustic(), repr(s)
    s.delta_u_expansion(h.q("0.5")), s.rho_through_shock(h.q(3)), s.rho_through_isentropic(h.q("0.5"))
    s.shock_downstream(h.q(3)), s.copy(), s.copysymmetric()
    unchanged("states")
    for cl in (m1.state, U.unsteady_state):
        s = cl(h.q(1), h.q("1.5"), h.q(1), gamma=g)
        s.state_RH()
        unchanged("shock")
        s.state_isentropic_Mach(h.q("0.5"))
        unchanged("isentropic")
        s.compute_from_pt_rtt_M(h.q(2), h.q("1.5"), h.q("0.3"))
        s.compute_from_pt_rtt_p(h.q(2), h.q("1.5"), h.q("1.2"))
        unchanged("totals")
        a = cl(h.array([h.q(1), h.q(2)]), h.array([h.q(0), h.q(1)]), h.array([h.q(1), h.q(1)]), gamma=g)
        a[1], a.size
        unchanged("indexing")
    for f in (nz.NPR_choked_subsonic, nz.NPR_choked_supersonic, nz.NPR_shock_at_exit):
        f(h.q("2.5"))
    for N in ("1.01", "1.6", "5", "30"):
        nz.Ms_from_AsAc_NPR(h.q("2.5"), h.q(N), g)
        unchanged("nozzle functions " + N)
    E = h.mod("aerokit.stability.Euler")
    op = E.Euler1D(3, basestate=m1.state(h.array([h.q(1)] * 3), h.array([h.q("0.5")] * 3), h.array([h.q(1)] * 3), gamma=g))
    op.set_BC({"type": "RH", "dM0dx": h.q(0)}, "sym")
    op.get_RHS_time_matrices()
    unchanged("stability")
    for m, a in ((gg.base, ()), (tj.turbojet_opt, ()), (tf.turbofan_adapt, (h.q(5), h.q("0.7")))):
        c = m(h.q(20), h.q(1500), *a, gam_cold=h.q("1.4"), gam_hot=h.q("1.33"))
        c.flight_conditions(h.q(220), h.q(25000), h.q("0.8"))
        c.update()
        unchanged("engine")
    ct.Gaz(gamma=g, r=h.q(290))
    unchanged("cycle")
    dg.restore_default()
    h.eq("saved gamma", dg.gamma(), G)
    h.eq("saved r", dg.r_ideal(), R)


def with_gas(h, use):
    """save a gas, set another, use the library, look at both"""
    dg = h.mod("aerokit.common.defaultgas")
    G, R, G2, R2 = h.var("G", "1.05", 2), h.var("R", 10, 5000), h.var("G2", "1.05", 2), h.var("R2", 10, 5000)
    dg.set_gamma(G)
    dg.set_r_ideal(R)
    dg.save_default()
    dg.set_gamma(G2)
    dg.set_r_ideal(R2)

    def unchanged(t):
        h.eq(t + ": gamma", dg.gamma(), G2)
        h.eq(t + ": r", dg.r_ideal(), R2)
    use(unchanged)
    dg.restore_default()
    h.eq("saved gamma", dg.gamma(), G)
    h.eq("saved r", dg.r_ideal(), R)


@harness(P, light=True, max_paths=200)
def states_any(h):
    """any state and arguments: no method of a state changes the default or the saved gas, on any branch"""
    U, m1 = h.mod("aerokit.aero.unsteady1D"), h.mod("aerokit.aero.model1D")
    g, r, u, p = h.var("gamma", "1.05", "1.8"), h.var("rho", "0.01", 100, log=True), h.var("u", -3, 3), h.var("p", "0.01", 100, log=True)
    x, M = h.var("x", "0.001", 1000, log=True), h.var("M", "0.01", 20, log=True)

    def use(unchanged):
        for cl in (m1.state, U.unsteady_state):
            n = cl.__name__ + "."
            s = cl(r, u, p, gamma=g)
            for f in ("asound", "left_acoustic", "right_acoustic", "Mach", "massflow", "Ptot", "rTtot", "state_RH", "copy"):
                getattr(s, f)()
                unchanged(n + f)
            s.state_isentropic_Mach(M)
            unchanged(n + "isentropic")
            cl(r, u, p, gamma=g).compute_from_pt_rtt_M(x * p, p / r, M)
            unchanged(n + "pt_rtt_M")
            cl(r, u, p, gamma=g).compute_from_pt_rtt_u(x * p, p / r, M * h.q("0.05"))
            unchanged(n + "pt_rtt_u")
            cl(r, u, p, gamma=g).compute_from_pt_rtt_p(p * (1 + x), p / r, p)
            unchanged(n + "pt_rtt_p")
        s = U.unsteady_state(r, u, p, gamma=g)
        for f in ("delta_u_expansion", "delta_u_shock", "rho_through_shock", "rho_through_isentropic"):
            getattr(s, f)(x * p)
            unchanged(f)
        s._rankinehugoniot_from_ushock(u + M * s.asound())
        s.copysymmetric()
        unchanged("unsteady")
    with_gas(h, use)


@harness(P, light=True, root_hook=hook, max_paths=200)
def nozzle_any(h):
    """same for nozzle functions at any section and pressure ratio, and a nozzle at any pressure ratio, in any regime"""
    nz = h.mod("aerokit.instance.nozzle")
    s, N, g = h.var("s", "1.05", 20, log=True), h.var("NPR", "1.001", 200, log=True), h.var("gamma", "1.1", "1.7")

    def use(unchanged):
        for f in (nz.NPR_choked_subsonic, nz.NPR_choked_supersonic, nz.NPR_shock_at_exit):
            f(s)
            unchanged(f.__name__)
        nz.Ms_from_AsAc_NPR(s, N)
        unchanged("Ms")
        nz.Ms_from_AsAc_NPR(s, N, g)
        unchanged("Ms, gamma")
        nz.Madapt_from_AsAc_NPR(s, N)
        unchanged("Madapt")
    with_gas(h, use)


@harness(P, light=True, max_paths=200)
def engines_any(h):
    """same for engines at any flight point and parameters"""
    gg, tj, tf = h.mod("aerokit.engine.gasgenerator"), h.mod("aerokit.engine.turbojet"), h.mod("aerokit.engine.turbofan")
    gc, gh = h.var("gc", "1.3", "1.5"), h.var("gh", "1.2", "1.5")
    opr, tt, M0 = h.var("opr", 2, 60), h.var("Tt", 900, 2500), h.var("M0", 0, 3)

    def use(unchanged):
        for m, a in ((gg.base, ()), (tj.turbojet_opt, ()), (tf.turbofan_adapt, (h.var("bpr", 1, 12), h.q("0.7")))):
            c = m(opr, tt, *a, gam_cold=gc, gam_hot=gh)
            c.flight_conditions(h.var("T0", 200, 320), h.var("P0", 10000, 120000), M0)
            c.update()
            unchanged(m.__name__)
    with_gas(h, use)


@harness(P)
def omitted(h):
    """an omitted gamma is the default gas set by the user"""
    dg, Is = h.mod("aerokit.common.defaultgas"), h.mod("aerokit.aero.Isentropic")
    sw, mf = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.MassFlow")
    M, G = h.var("M", "1.1", 5), h.var("G", "1.05", "1.35")
    dg.set_gamma(G)
    for f in (Is.TtTs_Mach, Is.PtPs_Mach, sw.Ps_ratio, mf.Sigma_Mach):
        h.finding("defaultgas-import-time", f.__name__, f(M), f(M, G), f(M, h.q("1.4")))
