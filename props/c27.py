"""C27  arrays of any shape, integers, broadcasting, inputs left alone (functions of the gas dynamics modules)"""
from symx.engine import harness

P = "C27"
G = ("1.05", "2.5")
SUP, ANY = ("1.05", 20), ("0.01", 20)
A = "aerokit.aero."


def table(mod, **fs):
    return [(mod, n, d) for n, d in fs.items()]


TABLE = {
    "isentropic": table("Isentropic", TiTs_Mach=(ANY, G), TtTs_Mach=(ANY, G), PiPs_Mach=(ANY, G), PtPs_Mach=(ANY, G),
                        Mach_TiTs=(("1.1", 3), G), Mach_TtTs=(("1.1", 3), G), Mach_PiPs=(("1.1", 9), G), Mach_PtPs=(("1.1", 9), G),
                        Velocity_MachTi=(ANY, (200, 400), (280, 300), G), Velocity_MachTt=(ANY, (200, 400), (280, 300), G)),
    "massflow": table("MassFlow", Sigma_Mach=(ANY, G)) + table("Propulsion", ThrustFunction=(ANY, G)),
    "shock": table("ShockWave", Ps_ratio=(SUP, G), Rho_ratio=(SUP, G), Ts_ratio=(SUP, G), Pt_ratio=(SUP, G), Pi_ratio=(SUP, G),
                   downstream_Mn=(SUP, G), Mn_Ps_ratio=(("1.2", 6), G)),
    "oblique": table("ShockWave", deflection_Mach_sigma=((3, 4), (30, 80), G), deflection_Mach_ShockPsratio=((3, 4), ("1.5", 4), G),
                     downstreamMach_Mach_ShockPsratio=((3, 4), ("1.5", 4), G)),
    "limits": table("ShockWave", **{f: (("1.5", 4), ("1.2", "1.6")) for f in "dev_Max dev_Sonic sigma_DevMax sigma_Sonic".split()}),
    "fanno": table("Fanno", **{f: (ANY, G) for f in "NormdS Pi_Picri Ps_Pscri Rho_Rhocri Ts_Tscri V_Vcri maxFparam_Mach".split()}),
    "rayleigh": table("Rayleigh", **{f: (ANY, G) for f in "NormdS Pi_Picri Ps_Pscri Rho_Rhocri Ts_Tscri V_Vcri Ti_Ticri".split()}),
    "rayleigh_inverse": table("Rayleigh", SubMach_TiTicri=(("0.3", "0.9"), G), SupMach_TiTicri=(("0.8", "0.95"), ("1.05", "1.6"))),
    "expansion": table("Supersonic", PrandtlMeyer_Mach=(SUP, G), Mach_PMFmmu=((-50, 0), G), deflection_Mach_IsentropicPsratio=((2, 3), ("0.3", "1.5"), G)),
    "degree": table("degree", **{f: (("-0.9", "0.9"),) for f in "acos asin atan sin cos tan".split()}) + table("degree", atan2=((-1, 1), ("0.1", 1))),
}
# integers inside the domains
INTS = {ANY: [1, 2, 3], SUP: [2, 3, 4], (3, 4): [3, 4, 3], (200, 400): [250, 300, 350], (280, 300): [285, 290, 295], (30, 80): [40, 50, 60],
        ("1.1", 3): [2, 3, 2], ("1.1", 9): [2, 5, 8], ("1.2", 6): [2, 4, 6], ("1.5", 4): [2, 3, 4], (-50, 0): [-40, -20, -10], (2, 3): [2, 3, 2]}


def each(h, what, group):
    for mod, name, dom in TABLE[group]:
        f = getattr(h.mod(A + mod), name)
        what(h, f, "%s.%s" % (mod, name), dom)


def scalar(h, name, d):
    return h.var(name, d[0], d[1])


def compare(h, f, args, tag, shape):
    """f on these arguments (arrays, broadcast to shape) against f element by element; arguments unchanged"""
    import numpy
    before = [list(a.ravel()) if hasattr(a, "ravel") else a for a in args]
    r = f(*args)
    h.same(tag + " inputs", all(all(x is y or (h.concrete and x == y) or type(x) == type(y) == numpy.int64 and x == y for x, y in zip(a.ravel(), b))
                                for a, b in zip(args, before) if hasattr(a, "ravel")), True)
    h.same(tag + " shape", getattr(r, "shape", ()), shape)
    full = [numpy.broadcast_to(a, shape) if hasattr(a, "ravel") else None for a in args]
    out = [r[ix] for ix in numpy.ndindex(*shape)]
    one = []
    for ix in numpy.ndindex(*shape):
        e = f(*[a if b is None else (b[ix] if not isinstance(b[ix], numpy.integer) else h.q(int(b[ix]))) for a, b in zip(args, full)])
        one.append(e)
    for k, (x, y) in enumerate(zip(out, one)):
        h.eq("%s element %d" % (tag, k), x, y)
    # a second call gives the same: nothing kept
    s = f(*args)
    h.eq(tag + " again", s[(0,) * len(shape)], one[0])


def size(tag):
    return 2 if "dev" in tag.lower() or "sigma_" in tag else 3


def values(h, f, tag, dom):
    """one-dimensional arrays of the first argument, then of each"""
    n = len(dom)
    sc = [scalar(h, "%s %d" % (tag, i), d) for i, d in enumerate(dom)]
    ar = [h.array([scalar(h, "%s %d %d" % (tag, i, j), d) for j in range(size(tag))]) for i, d in enumerate(dom)]
    compare(h, f, [ar[0]] + sc[1:], tag + " first", (size(tag),))
    if n > 1:
        compare(h, f, ar, tag + " all", (size(tag),))
        compare(h, f, sc[:-1] + [ar[-1]], tag + " last", (size(tag),))


def shapes(h, f, tag, dom):
    """two-dimensional arrays, one element, and broadcasting of a column with a row"""
    ar = [h.array([scalar(h, "%s %d %d" % (tag, i, j), d) for j in range(4)]) for i, d in enumerate(dom)]
    sc = [a[0] for a in ar]
    compare(h, f, [ar[0].reshape(2, 2)] + sc[1:], tag + " square", (2, 2))
    compare(h, f, [ar[0][:1]] + sc[1:], tag + " single", (1,))
    if len(dom) > 1:
        compare(h, f, [ar[0][:2].reshape(2, 1), ar[1][1:3]] + sc[2:], tag + " broadcast", (2, 2))
        compare(h, f, [ar[0][:2]] + sc[1:-1] + [ar[-1][1:3].reshape(2, 1)], tag + " broadcast last", (2, 2))


def integers(h, f, tag, dom):
    """integers and arrays of integers give the results of the same real numbers"""
    import numpy
    if dom[0] not in INTS:
        return
    sc = [scalar(h, "%s %d" % (tag, i), d) for i, d in enumerate(dom)]
    a = numpy.array(INTS[dom[0]])
    compare(h, f, [a] + sc[1:], tag + " integers", (3,))
    h.eq(tag + " integer", f(INTS[dom[0]][0], *sc[1:]), f(h.q(INTS[dom[0]][0]), *sc[1:]))
    k = [i for i in range(1, len(dom)) if dom[i] in INTS]
    if k:
        i = k[0]
        compare(h, f, sc[:i] + [numpy.array(INTS[dom[i]])] + sc[i + 1:], tag + " integers %d" % i, (3,))


for _group in TABLE:
    for _what in (values, shapes, integers):
        def _fn(h, what=_what, group=_group):
            each(h, what, group)
        _fn.__doc__ = "%s: %s" % (_group, _what.__doc__)
        harness(P, name="%s_%s" % (_group, _what.__name__))(_fn)
