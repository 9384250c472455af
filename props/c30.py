"""C30  polar plots: shock and isentropic polars"""
from symx.engine import harness

P = "C30"
SH, IS, STY = "aerokit.aero.plot.shockpolar", "aerokit.aero.plot.isentropicpolar", "aerokit.aero.plot.defaultstyle"


def pts(h, x, y):
    """points of a curve or of a marker"""
    a, b = (list(v) if getattr(v, "ndim", 0) else [v] for v in (x, y))
    assert len(a) == len(b)
    return list(zip(a, b))


class Axis:
    def __init__(self):
        self.calls = []

    def plot(self, *a, **k):
        self.calls.append((a, k))


def drawn(h, call):
    """curves (arguments, options) drawn by a call"""
    n = len(h.world.plots)
    call()
    return [(c[1], c[2]) for c in h.world.plots[n:] if c[0].split(".")[-1] == "plot"]


SIDES = {"both": (1, -1), "right": (1,), "left": (-1,)}


def angle_curves(h, M, g, got, sides, npts, opts, tag, tests):
    """shock angle curves: from the Mach angle to the normal shock, through the points of the shock polar"""
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    h.same("curves" + tag, len(got), len(sides) * (1 + len(tests)))
    for i, s in enumerate(sides):
        a, k = got[i]
        h.same("options %d" % i + tag, {n: k.get(n) for n in opts}, opts)
        p = pts(h, *a[:2])
        h.same("points %d" % i + tag, len(p) >= npts, True)
        for j, (x, y) in enumerate(p[:-1]):  # the last one is a normal shock, whose tangent is infinite
            h.eq("point %d of curve %d" % (j, i) + tag, x, s * sw.deflection_Mach_sigma(M, y, g), scale=1)
        h.eq("from the Mach angle %d" % i + tag, p[0][1], deg.asin(1 / M))
        h.eq("to the normal shock %d" % i + tag, p[-1][1], 90)
        for j in range(len(p) - 1):
            h.lt("ordered %d %d" % (i, j) + tag, p[j][1], p[j + 1][1])
    n = len(sides)
    for t in tests:
        d, sg = {"devmax": (sw.dev_Max, sw.sigma_DevMax), "sonic": (sw.dev_Sonic, sw.sigma_Sonic)}[t]
        for s in sides:
            (x, y), = pts(h, *got[n][0][:2])
            h.eq("marker %s %d" % (t, s) + tag, x, s * d(M, g))
            h.eq("marker angle %s %d" % (t, s) + tag, y, sg(M, g))
            n += 1


@harness(P)
def shock_angle(h):
    """shock angle against deflection: right, left or both, any number of points, gamma"""
    pl = h.mod(SH)
    M, g = h.var("M", "1.1", 10), h.var("gamma", "1.1", "1.7")
    style = dict(color="b", linestyle=":", linewidth=2)
    for curve, npts in (("both", 3), ("right", 4), ("left", 2)):
        got = drawn(h, lambda: pl.plot_theta_sigma(M, g, npts=npts, curve=curve, **style))
        angle_curves(h, M, g, got, SIDES[curve], npts, style, " " + curve, ())
    got = drawn(h, lambda: pl.plot_theta_sigma(M, npts=2))
    angle_curves(h, M, h.q("1.4"), got, SIDES["both"], 2, dict(color="k", linestyle="-"), " default", ())


@harness(P)
def shock_angle_markers(h):
    """markers of largest deflection and of sonic flow"""
    pl = h.mod(SH)
    M, g = h.var("M", "1.1", 10), h.var("gamma", "1.1", "1.7")
    for curve in SIDES:
        for t in (("devmax",), ("sonic",), ("devmax", "sonic")):
            got = drawn(h, lambda: pl.plot_theta_sigma(M, g, npts=2, curve=curve, **{k: True for k in t}))
            angle_curves(h, M, g, got, SIDES[curve], 2, {}, " %s %s" % (curve, "+".join(t)), t)


def pressure_curves(h, M, g, th, p0, got, sides, npts, opts, tag, tests):
    sw, deg = h.mod("aerokit.aero.ShockWave"), h.mod("aerokit.aero.degree")
    h.same("curves" + tag, len(got), len(sides) * (1 + len(tests)))
    for i, s in enumerate(sides):
        a, k = got[i]
        h.same("options %d" % i + tag, {n: k.get(n) for n in opts}, opts)
        p = pts(h, *a[:2])
        h.same("points %d" % i + tag, len(p) >= npts, True)
        mu = deg.asin(1 / M)
        for j, (x, y) in enumerate(p):
            sg = mu + (90 - mu) * h.q(j) / (len(p) - 1)
            h.eq("pressure %d of curve %d" % (j, i) + tag, y, p0 * sw.Ps_ratio(M * deg.sin(sg), g))
            if j < len(p) - 1:
                h.eq("point %d of curve %d" % (j, i) + tag, x, th + s * sw.deflection_Mach_sigma(M, sg, g), scale=10)
        h.eq("from the Mach wave %d" % i + tag, p[0][1], p0)
        h.eq("to the normal shock %d" % i + tag, p[-1][1], p0 * sw.Ps_ratio(M, g))
    n = len(sides)
    for t in tests:
        d, sg = {"devmax": (sw.dev_Max, sw.sigma_DevMax), "sonic": (sw.dev_Sonic, sw.sigma_Sonic)}[t]
        for s in sides:
            (x, y), = pts(h, *got[n][0][:2])
            h.eq("marker %s %d" % (t, s) + tag, x, th + s * d(M, g), scale=10)
            h.eq("marker pressure %s %d" % (t, s) + tag, y, p0 * sw.Ps_ratio(M * deg.sin(sg(M, g)), g))
            n += 1


def shifted(h):
    return h.var("M", "1.1", 10), h.var("gamma", "1.1", "1.7"), h.var("thet", -30, 30), h.var("p", "0.1", 50, log=True)


@harness(P)
def shock_pressure(h):
    """pressure against deflection: shifted by the given flow angle and pressure"""
    pl = h.mod(SH)
    M, g, th, p0 = shifted(h)
    style = dict(color="b", linestyle=":", linewidth=2)
    for curve, npts in (("both", 2), ("right", 3), ("left", 2)):
        got = drawn(h, lambda: pl.plot_theta_pressure(M, g, npts=npts, thet_init=th, p_init=p0, curve=curve, **style))
        pressure_curves(h, M, g, th, p0, got, SIDES[curve], npts, style, " " + curve, ())
    got = drawn(h, lambda: pl.plot_theta_pressure(M, npts=2))
    pressure_curves(h, M, h.q("1.4"), h.q(0), h.q(1), got, SIDES["both"], 2, dict(color="k", linestyle="-"), " default", ())


@harness(P)
def shock_pressure_markers(h):
    """markers, also on a given axis"""
    pl = h.mod(SH)
    M, g, th, p0 = shifted(h)
    for curve in SIDES:
        for t in (("devmax",), ("sonic",), ("devmax", "sonic")):
            ax = Axis()
            n = len(h.world.plots)
            pl.plot_theta_pressure(M, g, npts=2, thet_init=th, p_init=p0, curve=curve, ax=ax, **{k: True for k in t})
            h.same("only on the given axis", len(h.world.plots), n)
            pressure_curves(h, M, g, th, p0, ax.calls, SIDES[curve], 2, {}, " %s %s" % (curve, "+".join(t)), t)


@harness(P)
def isentropic(h):
    """isentropic compression and expansion: both characteristics, range of deviations, shifts"""
    pl = h.mod(IS)
    su = h.mod("aerokit.aero.Supersonic")
    M, g, th, p0 = h.var("M", 2, 4), h.var("gamma", "1.2", "1.5"), h.var("thet", -30, 30), h.var("p", "0.1", 50, log=True)
    lo, hi = h.var("lo", -10, -1), h.var("hi", 1, 10)
    style = dict(color="b", linestyle=":", linewidth=2)
    for curve, sides in (("C+", (1,)), ("c+", (1,)), ("C-", (-1,)), ("c-", (-1,)), ("both", (1, -1))):
        got = drawn(h, lambda: pl.plot_theta_pressure(M, [lo, hi], g, npts=2, thet_init=th, p_init=p0, curve=curve, **style))
        h.same("curves " + curve, len(got), len(sides))
        for s, (a, k) in zip(sides, got):
            h.same("options " + curve, {n: k.get(n) for n in style}, style)
            p = pts(h, *a[:2])
            tag = " %s %d" % (curve, s)
            h.eq("from" + tag, p[0][0], th + lo, scale=10)
            h.eq("to" + tag, p[-1][0], th + hi, scale=10)
            for j, (x, y) in enumerate(p):
                h.eq("point %d" % j + tag, su.deflection_Mach_IsentropicPsratio(M, y / p0, g), -s * (x - th), scale=10)


@harness(P)
def isentropic_default(h):
    """default gamma, no shift, compression characteristic"""
    pl = h.mod(IS)
    su = h.mod("aerokit.aero.Supersonic")
    M, lo, hi = h.var("M", 2, 4), h.var("lo", -10, -1), h.var("hi", 1, 10)
    (a, k), = drawn(h, lambda: pl.plot_theta_pressure(M, [lo, hi], npts=3))
    for j, (x, y) in enumerate(pts(h, *a[:2])):
        h.eq("point %d" % j, su.deflection_Mach_IsentropicPsratio(M, y, h.q("1.4")), -x, scale=10)
    h.same("style", (k["color"], k["linestyle"]), ("k", "-"))


@harness(P, light=True)
def figures(h):
    """figures have a grid; pressure figures a logarithmic axis; options are given to the figure"""
    st = h.mod(STY)
    w = h.world.plots
    for f, log in ((st.figure_theta_sigma, False), (st.figure_theta_pressure, True)):
        n = len(w)
        f(figsize=(3, 4))
        new = [(c[0].split(".")[-1], c[1], c[2]) for c in w[n:]]
        h.same("figure", [c[2] for c in new if c[0] == "figure"], [dict(figsize=(3, 4))])
        h.same("grids", sorted(c[2].get("which") for c in new if c[0] == "grid"), ["major", "minor"])
        h.same("scale", [c[1] for c in new if c[0] == "yscale"], [("log",)] if log else [])
