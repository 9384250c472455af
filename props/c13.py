"""C13  nozzle regimes: pressure ratio limits and exit Mach number"""
from symx.engine import harness
from props.c02 import branch

P = "C13"


def mods(h):
    return (h.mod("aerokit.instance.nozzle"), h.mod("aerokit.aero.Isentropic"), h.mod("aerokit.aero.MassFlow"),
            h.mod("aerokit.aero.ShockWave"))


@harness(P, root_hook=branch)
def limits(h):
    """limit pressure ratios: isentropic with sonic throat (sub, super), normal shock at exit; their order"""
    nz, Is, mf, sw = mods(h)
    s = h.var("AsAc", "1.01", 500, log=True)
    a, b, c = nz.NPR_choked_subsonic(s), nz.NPR_choked_supersonic(s), nz.NPR_shock_at_exit(s)
    m, M = Is.Mach_PtPs(a), Is.Mach_PtPs(b)
    h.eq("subsonic section", mf.Sigma_Mach(m), s)
    h.eq("supersonic section", mf.Sigma_Mach(M), s)
    h.le("subsonic", m, 1)
    h.le("supersonic", 1, M)
    # shock at exit: static pressure behind a shock of the supersonic solution
    h.eq("shock at exit", c * sw.Ps_ratio(M), b)


@harness(P, root_hook=branch)
def order(h):
    """choked subsonic below shock at exit below adapted supersonic, all above one"""
    nz, Is, mf, sw = mods(h)
    s = h.var("AsAc", "1.01", 500, log=True)
    a, b, c = nz.NPR_choked_subsonic(s), nz.NPR_choked_supersonic(s), nz.NPR_shock_at_exit(s)
    h.lt("one", 1, a)
    h.le("shock below adapted", c, b)
    h.le("critical", a, Is.PtPs_Mach(h.q(1)))
    h.le("critical 2", Is.PtPs_Mach(h.q(1)), b)


def regimes(h, nz, Is, mf, sw, s, N, M, g):
    """the exit Mach number M is the one of the regime N lies in"""
    a, b, c = nz.NPR_choked_subsonic(s), nz.NPR_choked_supersonic(s), nz.NPR_shock_at_exit(s)
    if bool(N < a):
        h.eq("adapted subsonic", Is.PtPs_Mach(M, g), N)
    elif bool(N > c):
        h.eq("supersonic", mf.Sigma_Mach(M, g), s)
        h.le("supersonic side", 1, M)
    else:
        # mass flow through sonic throat and exit, exit pressure is the outer one
        h.eq("shock in the nozzle", (Is.PtPs_Mach(M, g) / mf.Sigma_Mach(M, g)) ** 2, (N / s) ** 2)
        h.lt("subsonic side", 0, M)


def exit_case(h, ratio, npr):
    nz, Is, mf, sw = mods(h)
    s, N = h.var("AsAc", *ratio, log=True), h.var("NPR", *npr, log=True)
    regimes(h, nz, Is, mf, sw, s, N, nz.Ms_from_AsAc_NPR(s, N), h.q("1.4"))


@harness(P, root_hook=branch)
def exit_mach(h):
    """exit Mach number of each regime: pressure matched, or section ratio, or mass flow behind the shock"""
    exit_case(h, ("1.01", 500), ("1.001", 20000))


@harness(P, root_hook=branch)
def exit_mach_usual(h):
    """same, among usual ratios"""
    exit_case(h, ("1.05", 20), ("1.001", 100))


@harness(P, root_hook=branch)
def exit_mach_gamma(h):
    """same with an explicit gamma"""
    nz, Is, mf, sw = mods(h)
    s, N = h.var("AsAc", "1.02", 100, log=True), h.var("NPR", "1.001", 5000, log=True)
    g = h.var("gamma", "1.1", "1.7")
    M = nz.Ms_from_AsAc_NPR(s, N, gamma=g)
    m, Ms = mf.MachSub_Sigma(s, g), mf.MachSup_Sigma(s, g)
    c = Is.PtPs_Mach(sw.downstream_Mn(Ms, g), g) / sw.Pt_ratio(Ms, g)
    if bool(N < Is.PtPs_Mach(m, g)):
        h.eq("adapted subsonic", Is.PtPs_Mach(M, g), N)
    elif bool(N > c):
        h.eq("supersonic", mf.Sigma_Mach(M, g), s)
        h.le("supersonic side", 1, M)
    else:
        h.eq("shock in the nozzle", (Is.PtPs_Mach(M, g) / mf.Sigma_Mach(M, g)) ** 2, (N / s) ** 2)
        h.lt("subsonic side", 0, M)


@harness(P, root_hook=branch)
def adapted(h):
    """Mach number of the jet at outer pressure: isentropic, or behind an oblique or a nozzle shock"""
    nz, Is, mf, sw = mods(h)
    deg = h.mod("aerokit.aero.degree")
    s, N = h.var("AsAc", "1.01", 500, log=True), h.var("NPR", "1.001", 20000, log=True)
    M = nz.Madapt_from_AsAc_NPR(s, N)
    a, b, c = nz.NPR_choked_subsonic(s), nz.NPR_choked_supersonic(s), nz.NPR_shock_at_exit(s)
    if bool(N < a) or bool(N > b):
        h.eq("isentropic", Is.PtPs_Mach(M), N)
    elif bool(N > c):
        pass  # jet shock, below
    else:
        h.eq("shock in the nozzle", Is.PtPs_Mach(M) * s, N * mf.Sigma_Mach(M))
        h.lt("subsonic side", 0, M)


@harness(P, root_hook=branch)
def jet_shock(h):
    """overexpanded jet: oblique shock at the lip from the exit pressure to the outer pressure, energy kept"""
    nz, Is, mf, sw = mods(h)
    s, R = h.var("AsAc", "1.02", 100, log=True), h.var("R", "1", 100, log=True)
    Me = mf.MachSup_Sigma(s)
    b, c = nz.NPR_choked_supersonic(s), nz.NPR_shock_at_exit(s)
    N = b / R
    h.assume(N > c)
    h.assume(nz.NPR_choked_subsonic(s) <= N)
    h.assume(N <= b)
    M = nz.Madapt_from_AsAc_NPR(s, N)
    Mn = sw.Mn_Ps_ratio(R)
    h.eq("energy", sw.Ts_ratio(Mn) * Is.TtTs_Mach(M), Is.TtTs_Mach(Me))
    h.lt("positive", 0, M)


@harness(P, root_hook=branch)
def alias(h):
    """the old module name gives the same functions"""
    nz, Is, mf, sw = mods(h)
    old = h.mod("aerokit.aero.nozzle")
    s = h.var("AsAc", "1.05", 20, log=True)
    for f in ("NPR_choked_subsonic", "NPR_choked_supersonic", "NPR_shock_at_exit"):
        h.eq(f, getattr(old, f)(s), getattr(nz, f)(s))
