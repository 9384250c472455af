"""C23  turbofan cycles by stages, and the procedural turbofan scripts"""
from symx.engine import harness

P = "C23"
CT = "aerokit.engine.Cycle_Turbofan"
PAR = dict(xi_e=("0.9", 1), eta_c=("0.8", 1), eta_f=("0.8", 1), eta_comb=("0.9", 1), xi_cc=("0.9", 1), eta_m=("0.9", 1),
           eta_turb=("0.8", 1), xi_tuy=("0.9", 1))


def setup(h):
    """losses and flight point are class attributes"""
    ct = h.mod(CT)
    k = {n: h.var(n, *b) for n, b in PAR.items()}
    k.update(P0=h.var("P0", 15000, 100000), T0=h.var("T0", 200, 300), M0=h.var("M0", 0, 1))
    for n, v in k.items():
        setattr(ct.cycle_1_to_4, n, v)
    g = ct.Gaz(h.var("gamma", "1.25", "1.45"), h.var("r", 200, 400))
    f = ct.Gaz(h.var("gamma_fuel", "1.25", "1.4"), h.var("r_fuel", 200, 400), h.var("P_k", 30000000, 120000000))
    a = (h.var("lambda", "0.5", 12), h.var("pi_c", 4, 50), h.var("Tt4", 1200, 1900), h.var("m", 10, 500), g, f)
    return ct, k, g, f, a


def cp(g):
    return g.gamma * g.r / (g.gamma - 1)


@harness(P)
def gas(h):
    """gas object: specific heat and exponents; standard air by default"""
    ct = h.mod(CT)
    G, r, pk = h.var("gamma", "1.05", 3), h.var("r", 50, 5000), h.var("P_k", 0, 100000000)
    g = ct.Gaz(G, r, pk)
    h.eq("heat capacities", g.get_cp() - g.get_cp() / G, r)
    h.eq("exponent", g.gsgmu, G / (G - 1))
    h.eq("inverse exponent", g.gmusg, (G - 1) / G)
    h.eq("stored", h.array([g.gamma, g.r, g.P_k]), h.array([G, r, pk]))
    d = ct.Gaz()
    h.eq("default", h.array([d.gamma, d.r, d.P_k]), h.array([h.q("1.4"), h.q(287), h.q(0)]))
    h.eq("default cp", d.get_cp(), h.q("1004.5"))


def core(h, c, k, a):
    Is = h.mod("aerokit.aero.Isentropic")
    lam, pi_c, Tt4, m, g, f = a
    h.eq("flight Tt", c.Tt0, k["T0"] * Is.TtTs_Mach(k["M0"], g.gamma))
    h.eq("flight Pt", c.Pt0, k["P0"] * Is.PtPs_Mach(k["M0"], g.gamma))
    h.eq("flight velocity", c.V0 ** 2, k["M0"] ** 2 * g.gamma * g.r * k["T0"])
    h.le("flight velocity sign", 0, c.V0)
    h.eq("inlet Tt", c.Tt2, c.Tt0)
    h.eq("inlet Pt", c.Pt2, k["xi_e"] * c.Pt0)
    h.eq("core mass flow", c.m_c * (1 + lam), m)
    h.eq("compressor pressure", c.Pt3, pi_c * c.Pt2)
    h.eq("compressor polytropic", (c.Tt3 / c.Tt2) ** (g.gamma * k["eta_c"] / (g.gamma - 1)), pi_c)
    h.eq("compressor power", c.wu_c, c.m_c * cp(g) * (c.Tt3 - c.Tt2))
    h.eq("burner energy", k["eta_comb"] * c.m_k * f.P_k, c.m_c * ((1 + c.alpha) * cp(f) * Tt4 - cp(g) * c.Tt3))
    h.eq("fuel ratio", c.alpha * c.m_c, c.m_k)
    h.eq("burner pressure", c.Pt4, k["xi_cc"] * c.Pt3)


@harness(P)
def core_stages(h):
    """inlet, compressor and burner, all losses and both gases arbitrary"""
    ct, k, g, f, a = setup(h)
    h.assume(cp(f) * a[2] < k["eta_comb"] * f.P_k)
    c = ct.cycle_1_to_4(*a)
    c.calculs_1_to_4()
    h.assume(c.m_k > 0)
    core(h, c, k, a)


@harness(P)
def core_inherited(h):
    """both complete cycles contain the core cycle, computed when built"""
    ct, k, g, f, a = setup(h)
    h.assume(cp(f) * a[2] < k["eta_comb"] * f.P_k)
    c0 = ct.cycle_1_to_4(*a)
    c0.calculs_1_to_4()
    pf, tm = h.var("pi_f", "1.1", 2), h.var("taux_meca", "0.1", "0.9")
    c1, c2 = ct.cycle_taux_fan_fixe(*a, pf), ct.cycle_taux_fan_calcule(*a, tm)
    for n, c in (("fixed", c1), ("computed", c2)):
        for x in ("Pt0", "Tt0", "V0", "Tt2", "Pt2", "m_c", "Tt3", "Pt3", "wu_c", "m_k", "alpha", "Pt4"):
            h.eq("%s %s" % (n, x), getattr(c, x), getattr(c0, x))
    h.eq("fan ratio", c1.pi_f, pf)
    h.eq("power share", c2.taux_meca, tm)
    h.eq("default power share", ct.cycle_taux_fan_calcule(*a).taux_meca, h.q("0.5"))


def nozzle(h, tag, Is, V, M, Tt, Pt, Ps, P0, g):
    h.eq(tag + " nozzle static pressure", Ps, P0)
    h.eq(tag + " nozzle expansion", P0 * Is.PtPs_Mach(M, g.gamma), Pt)
    h.eq(tag + " nozzle energy", V ** 2, 2 * cp(g) * Tt * (1 - (P0 / Pt) ** ((g.gamma - 1) / g.gamma)))
    h.le(tag + " nozzle direction", 0, V)


def cut(h, c, g, f, *pos):
    """what follows is decided for any positive outcome of the stages before"""
    h.opaque(c, forget=True, keep=(g.gsgmu, g.gmusg, f.gsgmu, f.gmusg))
    for n in pos:
        if hasattr(c, n):
            h.lemma(getattr(c, n) > 0)
    h.lemma(c.V0 >= 0)


POS = ("Tt2", "Pt2", "Tt3", "Pt3", "Pt4", "m_c", "m_k", "alpha", "wu_c", "Tt13", "Pt13", "m_f", "Tt5", "Pt5", "Tt4_etoile",
       "Pt4_etoile")


def core_jet(h, c, k, f):
    Is = h.mod("aerokit.aero.Isentropic")
    h.eq("core nozzle pressure", c.Pt9, k["xi_tuy"] * c.Pt5)
    h.eq("core nozzle Tt", c.Tt9, c.Tt5)
    nozzle(h, "core", Is, c.V9, c.M9, c.Tt5, c.Pt9, c.P9, k["P0"], f)
    h.eq("core thrust", c.F_c, c.m_c * (c.V9 - c.V0))


def jets(h, c, k, a, core=True):
    """nozzles, thrust and efficiencies from the total conditions in front of them"""
    Is = h.mod("aerokit.aero.Isentropic")
    lam, pi_c, Tt4, m, g, f = a
    h.assume(c.Pt5 * k["xi_tuy"] > k["P0"])
    h.assume(c.Pt13 * k["xi_tuy"] > k["P0"])
    c.calculs_5_to_9()
    if core:
        core_jet(h, c, k, f)
    h.eq("fan nozzle pressure", c.Pt19, k["xi_tuy"] * c.Pt13)
    h.eq("fan nozzle Tt", c.Tt19, c.Tt13)
    nozzle(h, "fan", Is, c.V19, c.M19, c.Tt13, c.Pt19, c.P19, k["P0"], g)
    h.eq("fan thrust", c.F_f, c.m_f * (c.V19 - c.V0))
    h.eq("thrust", c.F, c.F_f + c.F_c)
    h.eq("specific thrust", c.F_spe * m, c.F)
    de = (c.m_c * ((1 + c.alpha) * c.V9 ** 2 - c.V0 ** 2) + c.m_f * (c.V19 ** 2 - c.V0 ** 2)) / 2
    h.assume(c.F > 0)
    h.assume(de > 0)
    h.eq("specific consumption", c.mk_spe * c.F, 1000000 * c.m_k)
    h.eq("thermal efficiency", c.eta_th * c.m_k * f.P_k, de)
    h.eq("propulsive efficiency", c.eta_prop * de, c.F * c.V0)
    h.eq("efficiency", c.eta * c.m_k * f.P_k, c.F * c.V0)


@harness(P)
def fixed_ratio(h):
    """fan pressure ratio given: fan, turbine driving fan and compressor, nozzles, thrust and efficiencies"""
    ct, k, g, f, a = setup(h)
    h.assume(cp(f) * a[2] < k["eta_comb"] * f.P_k)
    pf = h.var("pi_f", "1.1", 2)
    c = ct.cycle_taux_fan_fixe(*a, pf)
    h.assume(c.m_k > 0)
    cut(h, c, g, f, *POS)
    c.stage_13()
    h.eq("fan mass flow", c.m_f * (1 + a[0]), a[0] * a[3])
    h.eq("fan pressure", c.Pt13, pf * c.Pt2)
    h.eq("fan polytropic", (c.Tt13 / c.Tt2) ** (g.gamma * k["eta_f"] / (g.gamma - 1)), pf)
    h.eq("fan power", c.wu_f, c.m_f * cp(g) * (c.Tt13 - c.Tt2))
    cut(h, c, g, f, "wu_f", *POS)
    c.stage_5()
    h.assume(c.Tt5 > 100)
    h.eq("turbine power", k["eta_m"] * c.m_c * (1 + c.alpha) * cp(f) * (a[2] - c.Tt5), c.wu_f + c.wu_c)
    h.eq("turbine polytropic", a[2] / c.Tt5, (c.Pt4 / c.Pt5) ** (k["eta_turb"] * (f.gamma - 1) / f.gamma))
    h.eq("turbine ratio", c.pi_t * c.Pt5, c.Pt4)
    cut(h, c, g, f, *POS)
    jets(h, c, k, a)


@harness(P)
def computed_ratio(h):
    """fan driven by a share of the power left: turbines, fan, nozzles, thrust and efficiencies"""
    ct, k, g, f, a = setup(h)
    h.assume(cp(f) * a[2] < k["eta_comb"] * f.P_k)
    tm = h.var("taux_meca", "0.1", "0.9")
    c = ct.cycle_taux_fan_calcule(*a, tm)
    h.assume(c.m_k > 0)
    cut(h, c, g, f, *POS)
    c.stage_4_etoile()
    h.assume(c.Tt4_etoile > 100)
    h.eq("high pressure turbine power", k["eta_m"] * c.m_c * (1 + c.alpha) * cp(f) * (a[2] - c.Tt4_etoile), c.wu_c)
    h.eq("high pressure turbine polytropic", a[2] / c.Tt4_etoile,
         (c.Pt4 / c.Pt4_etoile) ** (k["eta_turb"] * (f.gamma - 1) / f.gamma))
    cut(h, c, g, f, *POS)
    h.assume(c.Pt4_etoile > k["P0"])
    c.stage_5()
    h.assume(c.Tt5 > 50)
    F = c.m_c * (1 + c.alpha) * cp(f)
    h.eq("low pressure turbine power", F * (c.Tt4_etoile - c.Tt5),
         tm * F * c.Tt4_etoile * (1 - (k["P0"] / c.Pt4_etoile) ** ((f.gamma - 1) / f.gamma)))
    h.eq("low pressure turbine polytropic", c.Tt4_etoile / c.Tt5,
         (c.Pt4_etoile / c.Pt5) ** (k["eta_turb"] * (f.gamma - 1) / f.gamma))
    h.eq("fan share of the power", c.wu_fan, -F * (c.Tt4_etoile - c.Tt5))
    cut(h, c, g, f, *POS)
    h.assume(c.Pt5 * k["xi_tuy"] > k["P0"])
    h.assume(c.wu_fan < 0)
    c.stage_9()
    core_jet(h, c, k, f)
    c.stage_13()
    h.eq("fan mass flow", c.m_f * (1 + a[0]), a[0] * a[3])
    h.eq("fan power", c.m_f * cp(g) * (c.Tt13 - c.Tt2), -k["eta_m"] * c.wu_fan)
    h.eq("fan polytropic", c.Pt13 / c.Pt2, (c.Tt13 / c.Tt2) ** (g.gamma * k["eta_f"] / (g.gamma - 1)))
    h.eq("fan ratio", c.pi_f * c.Pt2, c.Pt13)
    cut(h, c, g, f, *POS)
    jets(h, c, k, a, core=False)


OUT = ("V9", "V19", "F_c", "F_f", "F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta", "Tt5", "Pt5", "Tt13", "Pt13", "m_f")


def simple(h, which):
    ct, k, g, f, a = setup(h)
    x = h.var("pi_f", "1.4", "1.8") if which == 0 else h.var("taux_meca", "0.1", "0.9")
    h.assume(cp(f) * a[2] < k["eta_comb"] * f.P_k)
    return lambda: (ct.cycle_taux_fan_fixe if which == 0 else ct.cycle_taux_fan_calcule)(*a, x)


def compare(h, tag, c, r):
    for n in OUT:
        h.eq("%s: %s" % (tag, n), getattr(c, n), getattr(r, n), undef=True)


def orders(which, name, doc, seqs):
    @harness(P, name=name, light=True)
    def f(h):
        mk = simple(h, which)
        r = mk()
        r.calculs_5_to_9()
        for s in seqs:
            c = mk()
            for st in s:
                getattr(c, st)()
            if s[-1] != "calculs_5_to_9":
                h.same("%s: nothing computed early" % "-".join(s), hasattr(c, "F"), "perfo" in s)
                c.calculs_5_to_9()
            compare(h, "-".join(s), c, r)
    f.__doc__ = doc
    return f


S13, S19, S5, S9, PF, S4 = "stage_13", "stage_19", "stage_5", "stage_9", "perfo", "stage_4_etoile"
ALL = "calculs_5_to_9"
orders(0, "fixed_orders", "stages asked one by one, too early, twice, or in another order give the complete cycle",
       [(S13,), (S13, S19), (S13, S5), (S13, S5, S9), (S13, S19, S5), (S13, S19, S5, S9), (S5,), (S19, S9),
        (S13, S13, S9), (S13, S19, S5, S9, PF), (ALL, ALL)])
orders(1, "computed_orders", "same for the cycle with a computed fan ratio",
       [(S4,), (S4, S5), (S4, S5, S9), (S4, S5, S13), (S4, S5, S9, S13), (S4, S5, S9, S13, S19), (S13,), (S5,), (S9, S19),
        (S4, S5, S9, S13, S19, PF), (ALL, ALL)])


@harness(P, light=True)
def core_orders(h):
    """core stages asked one by one, too early or twice"""
    ct = h.mod(CT)
    g, f = ct.Gaz(h.q("1.4"), h.q(287)), ct.Gaz(h.q("1.4"), h.q(291), h.q(42800000))
    ct.cycle_1_to_4.P0 = h.var("P0", 20000, 30000)
    a = (h.var("lambda", 4, 7), h.q(32), h.q(1500), h.var("m", 100, 200), g, f)
    r = ct.cycle_1_to_4(*a)
    r.calculs_1_to_4()
    I, S2, S3, S4, C = "InitialValues", "stage_2", "stage_3", "stage_4", "calculs_1_to_4"
    for s in ((I,), (I, S2), (I, S2, S3), (S2,), (S4, S3), (I, S3), (I, S2, S4), (I, S2, S2, S3, S3), (C,)):
        c = ct.cycle_1_to_4(*a)
        for st in s:
            getattr(c, st)()
        if s != (C,):
            h.same("%s: not finished" % "-".join(s), hasattr(c, "Pt4"), False)
        c.calculs_1_to_4()
        for n in ("Pt0", "Tt0", "V0", "Tt2", "Pt2", "m_c", "Tt3", "Pt3", "wu_c", "m_k", "alpha", "Pt4"):
            h.eq("%s: %s" % ("-".join(s), n), getattr(c, n), getattr(r, n))


def script_case(h, mod):
    """same parameters in the script (module constants) and in the cycle (class constants)"""
    s = h.mod(mod)
    ct, k, g, f, a = setup(h)
    for n, v in k.items():
        setattr(s, n, v)
    s.gamma, s.r, s.gamma_, s.r_, s.P_k = g.gamma, g.r, f.gamma, f.r, f.P_k
    return ct, s, a


def constants(name, mod):
    @harness(P, name=name)
    def f(h):
        ct, s = h.mod(CT), h.mod(mod)
        for n in list(PAR) + ["P0", "T0", "M0"]:
            h.eq(n, getattr(s, n), getattr(ct.cycle_1_to_4, n))
    f.__doc__ = "the script and the cycle have the same flight point and component losses"
    return f


DC, SC = "aerokit.engine.propu_be_double_corps", "aerokit.engine.propu_be"
constants("constants_double", DC)
constants("constants_single", SC)


@harness(P, light=True)
def script_computed(h):
    """the procedural double spool turbofan gives the performances of the cycle by stages"""
    ct, s, (lam, pi_c, Tt4, m, g, f) = script_case(h, DC)
    tm = h.var("taux_meca", "0.1", "0.9")
    c = ct.cycle_taux_fan_calcule(lam, pi_c, Tt4, m, g, f, tm)
    c.stage_4_etoile()
    h.assume(c.Tt4_etoile > 100)
    h.assume(c.Pt4_etoile > c.P0)
    c.stage_5()
    h.assume(c.Tt5 > 50)
    h.assume(c.Pt5 * c.xi_tuy > c.P0)
    c.stage_9()
    c.stage_13()
    h.assume(c.Tt13 > 50)
    h.assume(c.Pt13 * c.xi_tuy > c.P0)
    c.calculs_5_to_9()
    out = s.calculs(lam, pi_c, Tt4, m, tm)
    for n, v in zip(("F_spe", "mk_spe", "eta_th", "eta_prop", "eta", "pi_f"), out):
        h.eq(n, v, getattr(c, n), undef=True)


@harness(P, light=True)
def script_fixed(h):
    """the procedural turbofan prints the performances of the cycle by stages"""
    ct, s, (lam, pi_c, Tt4, m, g, f) = script_case(h, SC)
    pf = h.var("pi_f", "1.1", 2)
    c = ct.cycle_taux_fan_fixe(lam, pi_c, Tt4, m, g, f, pf)
    c.stage_13()
    c.stage_5()
    h.assume(c.Tt5 > 100)
    h.assume(c.Pt5 * c.xi_tuy > c.P0)
    h.assume(c.Pt13 * c.xi_tuy > c.P0)
    c.calculs_5_to_9()
    out = []
    s.print = lambda *a, **k: out.append(a)
    s.format = lambda v, spec="": v
    s.calculs(lam, pi_c, Tt4, pf, m)
    named = {a[0].split("=")[0].strip(): a[1] for a in out if len(a) == 2}
    for n, t in (("F", "F"), ("F_spe", "Fspe"), ("mk_spe", "conso spe"), ("eta_th", "eta_th"), ("eta_prop", "eta_prop"), ("eta", "eta")):
        h.eq(t, named[t], getattr(c, n), undef=True)


@harness(P)
def script_study(h):
    """the parametric study draws the performances against bypass, compression and turbine temperature
    (the performance computation itself, script_computed, is replaced here by any five independent results)"""
    s = h.mod(DC)
    lam = (h.var("lam0", "0.5", 6), h.var("lam1", "6.5", 12))
    pi = (h.var("pi0", 2, 30), h.var("pi1", 31, 60))
    Tt = (h.var("Tt0", 1000, 1400), h.var("Tt1", 1410, 2000))
    base = (h.q("6.1"), h.q("32.8"), h.q(1410))
    c = [h.var("c%d" % k, 1, 10) for k in range(6)]

    def calculs(lambda_, pi_c, Tt4, m, taux_meca):
        t = lambda_ + 3 * pi_c + 7 * Tt4 + 11 * m + 13 * taux_meca
        return tuple(c[k] * t + k for k in range(6))

    s.calculs = calculs
    s.main(*lam, *pi, *Tt)
    drawn = [c[1] for c in h.world.plots if c[0].split(".")[-1] == "plot"]
    h.same("curves", len(drawn), 15)
    for i, (lo, hi) in enumerate((lam, pi, Tt)):
        n = len(drawn[5 * i][0])
        h.same("points %d" % i, n >= 2, True)
        for j in range(n):
            v = lo + (hi - lo) * h.q(j) / (n - 1)
            x = list(base)
            x[i] = v
            out = calculs(*x, h.q(180), h.q("0.5"))
            for k in range(5):
                h.eq("abscissa %d.%d.%d" % (i, k, j), drawn[5 * i + k][0][j], v)
                h.eq("performance %d.%d.%d" % (i, k, j), drawn[5 * i + k][1][j], out[k])
