"""C24  real air and kerosene thermodynamics"""
from symx.engine import harness

P = "C24"
AIR, KER = "aerokit.aero.ThermoRealGas", "aerokit.aero.ThermoKerosen"
R = "287.04"


def mods(h):
    return h.mod(AIR), h.mod(KER)


@harness(P)
def air_gamma(h):
    """gamma = Cp / (Cp - r) of the same gas"""
    t, _ = mods(h)
    T, r = h.var("T", 50, 5000, log=True), h.q(R)
    g, c = t.Gamma(T), t.Cp(T)
    h.eq("ratio", g * (c - r), c)
    h.eq("constant", t.rconst, r)


@harness(P)
def air_law(h):
    """heat capacity: diatomic gas with its vibration (3090 K) and a small polynomial correction"""
    t, _ = mods(h)
    T = h.var("T", 100, 4000, log=True)
    c = t.Cp(T) / h.q(R)
    x = 3090 / T
    e = h.np.exp(x)
    vib = x ** 2 * e / (e - 1) ** 2
    d = c - h.q("3.5") - vib
    h.between("correction", h.q("-0.009"), d, h.q("0.25"))
    h.lt("positive", h.q("3.4"), c)
    h.between("gamma", 1, t.Gamma(T), h.q("1.402"))


@harness(P)
def air_enthalpy(h):
    """the slope of the enthalpy is the heat capacity (to the digits of the coefficients); enthalpy rises from zero"""
    t, _ = mods(h)
    T = h.var("T", 100, 4000, log=True)
    d = h.slope(t.Enthalpy, T) - t.Cp(T)
    h.between("slope", h.q("-0.0001"), d / h.q(R), h.q("0.0001"))
    h.lt("positive", 0, t.Enthalpy(T))
    # nothing but the diatomic gas, its vibration and the correction: no offset
    v = t.Enthalpy(T) / h.q(R) / T - h.q("3.5") - 3090 / T / (h.np.exp(3090 / T) - 1)
    h.between("value", h.q("-0.007"), v, h.q("0.09"))
    S = h.var("S", 100, 4000, log=True)
    h.assume(S > T)
    x, y = 3090 / T, 3090 / S
    h.lt("differences", t.Enthalpy(T) - 3090 / (h.np.exp(x) - 1) * h.q(R), t.Enthalpy(S) - 3090 / (h.np.exp(y) - 1) * h.q(R))


@harness(P)
def air_entropy(h):
    """the slope of Phi is Cp / (r T ln 10): pressure ratios of isentropic transformations are powers of ten"""
    t, _ = mods(h)
    T = h.var("T", 100, 4000, log=True)
    h.eq("slope", h.slope(t.Phi, T) * T * h.np.log(h.q(10)) * h.q(R), t.Cp(T))


@harness(P)
def kerosene(h):
    """heat capacity, enthalpy, Phi and heating value of kerosene belong together"""
    _, k = mods(h)
    T = h.var("T", 100, 3000, log=True)
    r = h.q(R)
    c = k.Cp(T)
    h.eq("law", c, r * (h.q("4.47659") + h.q("0.00801994") * T - h.q("0.0000018373") * T ** 2))
    h.between("slope of the enthalpy", h.q("-0.0001"), (h.slope(k.Enthalpy, T) - c) / r, h.q("0.0001"))
    h.between("slope of Phi", h.q("-0.0001"), h.slope(k.Phi, T) * T * h.np.log(h.q(10)) - c / r, h.q("0.0001"))
    h.eq("heating value", k.Pc_inf(), h.q(43095200))
    h.eq("heating value and enthalpy", k.Pc_eff(T) + k.Enthalpy(T) - k.Pc_inf(), r * h.q("1458.146"))
    h.between("reference temperature 288 K", h.q("-0.1"), (k.Pc_eff(h.q(288)) - k.Pc_inf()) / r, h.q("0.1"))
    h.eq("constant", k.r_air, r)
