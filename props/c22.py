"""C22  gas generator, turbojet and turbofan balances"""
from symx.engine import harness

P = "C22"


def gas(h, lo="1.2", hi="1.45"):
    gc, gh = h.var("gam_cold", lo, hi), h.var("gam_hot", lo, hi)
    rc, rh = h.var("r_cold", 200, 400), h.var("r_hot", 200, 400)
    return gc, gh, rc, rh


def par(h):
    gc, gh, rc, rh = gas(h)
    return dict(gam_cold=gc, gam_hot=gh, r_cold=rc, r_hot=rh, xi_inlet=h.var("xi_inlet", "0.9", 1),
                xi_cc=h.var("xi_cc", "0.9", 1), eta_cc=h.var("eta_cc", "0.9", 1), Pci=h.var("Pci", 30000000, 120000000),
                etapolCHP=h.var("etapolCHP", "0.8", 1), etapolTHP=h.var("etapolTHP", "0.8", 1),
                eta_shaft=h.var("eta_shaft", "0.9", 1))


def flight(h, k=""):
    return h.var("T0" + k, 200, 320), h.var("P0" + k, 10000, 110000), h.var("M0" + k, 0, "1.5")


def core(h):
    return h.var("OPR", 4, 40), h.var("Tt4", 1200, 1900)


def mods(h):
    return (h.mod("aerokit.aero.Isentropic"), h.mod("aerokit.engine.gasgenerator"), h.mod("aerokit.engine.turbojet"),
            h.mod("aerokit.engine.turbofan"))


def cp(g, r):
    return g * r / (g - 1)


def check_core(h, e, k, T0, P0, M0, OPR, Tt4, hot=True):
    Is, gg, tj, tf = mods(h)
    gc, gh, rc, rh = k["gam_cold"], k["gam_hot"], k["r_cold"], k["r_hot"]
    cpc, cph = cp(gc, rc), cp(gh, rh)
    h.eq("flight Tt", e.Tt0, T0 * Is.TtTs_Mach(M0, gc))
    h.eq("flight Pt", e.Pt0, P0 * Is.PtPs_Mach(M0, gc))
    h.eq("flight velocity", e.V0 ** 2, M0 ** 2 * gc * rc * T0)
    h.le("flight velocity sign", 0, e.V0)
    h.eq("inlet Tt", e.Tt2, e.Tt0)
    h.eq("inlet Pt", e.Pt2, k["xi_inlet"] * e.Pt0)
    h.eq("compressor ratio", e.Pt3, OPR * e.Pt2)
    h.eq("compressor polytropic", (e.Tt3 / e.Tt2) ** (gc * k["etapolCHP"] / (gc - 1)), OPR)
    h.eq("burner pressure", e.Pt4, k["xi_cc"] * e.Pt3)
    far = e.far
    h.eq("burner energy", k["eta_cc"] * far * k["Pci"], (1 + far) * cph * Tt4 - cpc * e.Tt3)
    if not hot:
        return
    h.eq("shaft balance", k["eta_shaft"] * (1 + far) * cph * (Tt4 - e.Tt45), cpc * (e.Tt3 - e.Tt2))
    h.eq("turbine polytropic", e.Pt45 / e.Pt4, (e.Tt45 / Tt4) ** (gh / ((gh - 1) * k["etapolTHP"])))


def feasible(h, e):
    """the cycle exists: fuel burns and the turbine drives the compressor"""
    h.assume(e.far > 0)
    h.assume(e.Tt45 > 100)


@harness(P)
def generator(h):
    """inlet, compressor, burner, shaft and turbine balances of the gas generator, all losses arbitrary"""
    Is, gg, tj, tf = mods(h)
    k = par(h)
    (T0, P0, M0), (OPR, Tt4) = flight(h), core(h)
    e = gg.base(OPR, Tt4, **k)
    e.flight_conditions(T0, P0, M0)
    h.assume(cp(k["gam_hot"], k["r_hot"]) * Tt4 < k["eta_cc"] * k["Pci"])
    e.update()
    feasible(h, e)
    check_core(h, e, k, T0, P0, M0, OPR, Tt4)
    h.eq("burner power", e.Wsp_cc(), e.far * k["Pci"])


@harness(P)
def power(h):
    """power left behind the gas generator: isentropic expansion to the outer or to a given pressure"""
    Is, gg, tj, tf = mods(h)
    gh, rh, P0, far = h.var("gam_hot", "1.2", "1.45"), h.var("r_hot", 200, 400), h.var("P0", 10000, 110000), h.var("far", 0, "0.05")
    e = gg.base(h.q(10), h.q(1500), gam_hot=gh, r_hot=rh)
    Tt45, R, Q = h.var("Tt45", 300, 1500), h.var("R", "1.01", 20), h.var("Q", "1.01", 20)
    e.flight_conditions(h.q(220), P0, h.q("0.5"))
    given(gg, far=far, Tt45=Tt45, Pt45=P0 * R)
    e.update()
    c = cp(gh, rh)
    h.eq("to the outer pressure", e.Wsp_TBP_ideal(), (1 + far) * c * (Tt45 - Tt45 / R ** ((gh - 1) / gh)))
    h.eq("to a given pressure", e.Wsp_TBP_ideal(P0 * R / Q), (1 + far) * c * (Tt45 - Tt45 / Q ** ((gh - 1) / gh)))
    h.lt("positive", 0, e.Wsp_TBP_ideal())
    h.eq("thermal efficiency", e.thermal_efficiency() * e.Wsp_cc(), e.Wsp_TBP_ideal())


@harness(P)
def turbojet_core(h):
    """the turbojet forwards every parameter to its gas generator"""
    Is, gg, tj, tf = mods(h)
    k = par(h)
    (T0, P0, M0), (OPR, Tt4) = flight(h), core(h)
    e = tj.turbojet_opt(OPR, Tt4, xi_nozzle=h.var("xi_nozzle", "0.9", 1), **k)
    f = gg.base(OPR, Tt4, **k)
    for n in k:
        h.eq(n, getattr(e, n), k[n])
    h.eq("OPR", e.OPR, OPR)
    h.eq("Tt4", e.Tt4, Tt4)
    h.eq("xi_nozzle", e.xi_nozzle, h.var("xi_nozzle", "0.9", 1))


def nozzle(h, tag, V, Tt, Pt, P0, g, r):
    """expansion to the outer pressure: energy"""
    h.eq(tag + " energy", V ** 2, 2 * cp(g, r) * Tt * (1 - (P0 / Pt) ** ((g - 1) / g)))
    h.le(tag + " velocity sign", 0, V)


def given(gg, **out):
    """gas generator whose outcome is replaced by the values given, all its other stations being computed"""
    orig = gg.base.update

    def update(self):
        orig(self)
        for n in out:
            setattr(self, n, out[n])
    gg.base.update = update


@harness(P)
def turbojet(h):
    """turbojet nozzle, thrust, powers and efficiencies from the gas generator outcome"""
    Is, gg, tj, tf = mods(h)
    gc, gh, rc, rh = gas(h)
    far, Tt45, R = h.var("far", 0, "0.05"), h.var("Tt45", 300, 1500), h.var("R", "0.5", 20)
    V0, P0, xn, Pci = h.var("V0", 0, 500), h.var("P0", 10000, 110000), h.var("xi_nozzle", "0.9", 1), h.var("Pci", 30000000, 120000000)
    e = tj.turbojet_opt(h.q(10), h.q(1500), gam_cold=gc, gam_hot=gh, r_cold=rc, r_hot=rh, xi_nozzle=xn, Pci=Pci)
    e.flight_conditions(h.q(220), P0, h.q("0.5"))

    given(gg, far=far, Tt45=Tt45, Pt45=P0 * R, V0=V0)
    e.update()
    if bool(R * xn > 1):
        h.eq("nozzle pressure", e.Pt9, xn * R * P0)
        h.eq("exit pressure", Is.PtPs_Mach(e.M9, gh) * P0, e.Pt9)
        nozzle(h, "nozzle", e.V9, Tt45, e.Pt9, P0, gh, rh)
    else:
        h.assume(R * xn < 1)
        h.eq("nozzle pressure at least outer pressure", e.Pt9, P0)
        h.eq("no velocity", e.V9, 0)
    perf(h, e, far, V0, Pci)


def perf(h, e, far, V0, Pci, bpr=0, V19=0):
    th = (1 + far) * e.V9 - V0 + bpr * (V19 - V0)
    ke = ((1 + far) * e.V9 ** 2 - V0 ** 2 + bpr * (V19 ** 2 - V0 ** 2)) / 2
    h.eq("thrust", e.norm_thrust(), th)
    h.eq("kinetic power", e.Wsp_kinEn(), ke)
    h.eq("specific thrust", e.spec_thrust() * (1 + bpr), th)
    h.eq("burner power", e.Wsp_cc(), far * Pci)
    h.assume(ke > 0)
    h.assume(th > 0)
    h.eq("thermal efficiency", e.thermal_efficiency() * far * Pci, ke)
    h.eq("propulsive efficiency", e.propulsive_efficiency() * ke, th * V0)
    h.eq("overall efficiency", e.thermoprop_efficiency() * far * Pci, th * V0)
    h.eq("efficiency product", e.thermal_efficiency() * e.propulsive_efficiency(), e.thermoprop_efficiency())
    h.eq("specific consumption", e.Sfc() * th, far)


@harness(P)
def turbofan(h):
    """low pressure turbine and fan share the power, nozzles of both streams, thrust and efficiencies"""
    Is, gg, tj, tf = mods(h)
    gc, gh, rc, rh = gas(h)
    far, Tt45, R = h.var("far", 0, "0.05"), h.var("Tt45", 700, 1500), h.var("R", 2, 20)
    V0, P0, xn, Pci = h.var("V0", 0, 500), h.var("P0", 10000, 110000), h.var("xi_nozzle", "0.9", 1), h.var("Pci", 30000000, 120000000)
    bpr, fr = h.var("bpr", 1, 12), h.var("fanpower_ratio", "0.1", "0.8")
    ef, et, es = h.var("etapolfan", "0.8", 1), h.var("etapolTBP", "0.8", 1), h.var("eta_shaft", "0.9", 1)
    Tt2, Q = h.var("Tt2", 200, 400), h.var("Q", "1.1", 3)
    e = tf.turbofan_adapt(h.q(10), h.q(1500), bpr, fr, gam_cold=gc, gam_hot=gh, r_cold=rc, r_hot=rh, xi_nozzle=xn,
                          Pci=Pci, etapolTBP=et, etapolfan=ef, eta_shaft=es)
    e.flight_conditions(h.q(220), P0, h.q("0.5"))

    given(gg, far=far, Tt45=Tt45, Pt45=P0 * R, V0=V0, Tt2=Tt2, Pt2=P0 * Q)
    e.update()
    cph, cpc = cp(gh, rh), cp(gc, rc)
    W = fr * (1 + far) * cph * Tt45 * (1 - (R * xn) ** (-(gh - 1) * et / gh))
    h.eq("turbine power", (1 + far) * cph * (Tt45 - e.Tt5), W)
    h.eq("turbine polytropic", e.Pt5 / (P0 * R), (e.Tt5 / Tt45) ** (gh / ((gh - 1) * et)))
    h.eq("fan power", bpr * cpc * (e.Tt17 - Tt2), es * W)
    h.eq("fan polytropic", e.Pt17 / (P0 * Q), (e.Tt17 / Tt2) ** (gc * ef / (gc - 1)))
    h.eq("core nozzle pressure", e.Pt9, xn * e.Pt5)
    h.eq("bypass nozzle pressure", e.Pt19, xn * e.Pt17)
    h.eq("bypass temperature", e.Tt19, e.Tt17)
    h.assume(e.Pt9 > P0)
    h.assume(e.Pt19 > P0)
    h.eq("core exit pressure", Is.PtPs_Mach(e.M9, gh) * P0, e.Pt9)
    h.eq("bypass exit pressure", Is.PtPs_Mach(e.M19, gc) * P0, e.Pt19)
    nozzle(h, "core", e.V9, e.Tt5, e.Pt9, P0, gh, rh)
    nozzle(h, "bypass", e.V19, e.Tt19, e.Pt19, P0, gc, rc)
    perf(h, e, far, V0, Pci, bpr, e.V19)


@harness(P)
def turbofan_core(h):
    """the turbofan forwards every parameter"""
    Is, gg, tj, tf = mods(h)
    k = par(h)
    OPR, Tt4 = core(h)
    x = dict(xi_nozzle=h.var("xi_nozzle", "0.9", 1), etapolTBP=h.var("etapolTBP", "0.8", 1), etapolfan=h.var("etapolfan", "0.8", 1))
    bpr, fr = h.var("bpr", 1, 12), h.var("fanpower_ratio", "0.1", "0.8")
    e = tf.turbofan_adapt(OPR, Tt4, bpr, fr, **k, **x)
    for n, v in list(k.items()) + list(x.items()) + [("OPR", OPR), ("Tt4", Tt4), ("bpr", bpr), ("fanpower_ratio", fr)]:
        h.eq(n, getattr(e, n), v)


@harness(P, light=True)
def again(h):
    """a second flight point leaves nothing of the first one"""
    Is, gg, tj, tf = mods(h)
    a, b, c = h.q(300), h.q(90000), h.q("0.3")
    T0, P0, M0 = h.q(220), h.var("P0", 10000, 110000), h.q("0.8")
    OPR, Tt4 = h.q(20), h.q(1500)
    names = {0: ("far", "Tt45", "Pt45", "V0"), 1: ("V9", "Pt9"), 2: ("V19", "Tt5")}
    for n, (cl, args) in enumerate(((gg.base, ()), (tj.turbojet_opt, ()), (tf.turbofan_adapt, (h.q(5), h.q("0.5"))))):
        e, f = cl(OPR, Tt4, *args), cl(OPR, Tt4, *args)
        e.flight_conditions(a, b, c)
        e.update()
        e.flight_conditions(T0, P0, M0)
        e.update()
        f.flight_conditions(T0=T0, P0=P0, M0=M0)
        f.update()
        for i in range(n + 1):
            for x in names[i]:
                h.eq("%s %s" % (cl.__name__, x), getattr(e, x), getattr(f, x))


@harness(P)
def defaults(h):
    """defaults are the standard gas, kerosene, and no losses"""
    Is, gg, tj, tf = mods(h)
    (T0, P0, M0), (OPR, Tt4) = flight(h), core(h)
    e = gg.base(OPR, Tt4)
    e.flight_conditions(T0, P0, M0)
    e.update()
    o = h.q(1)
    k = dict(gam_cold=h.q("1.4"), gam_hot=h.q("1.4"), r_cold=h.q("287.1"), r_hot=h.q("287.1"), xi_inlet=o, xi_cc=o,
             eta_cc=o, Pci=h.q(42800000), etapolCHP=o, etapolTHP=o, eta_shaft=o)
    check_core(h, e, k, T0, P0, M0, OPR, Tt4, hot=False)
    f = gg.base(OPR, Tt4)
    f.flight_conditions()
    h.eq("default flight", h.array([f.T0, f.P0, f.M0]), h.array([1, 1, 0]))


@harness(P)
def propulsion(h):
    """thrust function module: gross thrust over throat stagnation force"""
    pr, Is, mf = h.mod("aerokit.aero.Propulsion"), h.mod("aerokit.aero.Isentropic"), h.mod("aerokit.aero.MassFlow")
    M, g = h.var("M", "0.05", 10), h.var("gamma", "1.05", 2)
    h.eq("definition", pr.ThrustFunction(M, g) * Is.PtPs_Mach(M, g), mf.Sigma_Mach(M, g) * (1 + g * M ** 2))
