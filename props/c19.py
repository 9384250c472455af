"""C19  Orr-Sommerfeld operator and its wall conditions"""
from symx.engine import harness

P = "C19"


def near(h, name, v, w, exact):
    if h.concrete or exact:
        h.eq(name, v, w, scale=1000)
        return
    eps = h.q("1e-20")
    for part in ("real", "imag"):
        h.between("%s (%s)" % (name, part), getattr(w, part) - eps, getattr(v, part), getattr(w, part) + eps)



def operator(h, n, exact, poiseuille=False):
    OS, ns = h.mod("aerokit.stability.OrrSommerfeld"), h.mod("aerokit.common.numspectral")
    al, R = h.var("alpha", "0.1", 3), h.var("Re", 10, 20000)
    if poiseuille:
        u = [h.q(1), h.q(0), h.q(-1)]
        op = OS.Poiseuille(n, alpha=al, Reynolds=R)
        a, b = h.q(-1), h.q(1)
    else:
        u = [h.var("u%d" % k, -2, 2) for k in range(3)]
        if exact:
            a, L = h.var("xmin", -2, 2), h.var("L", "0.5", 3)
        else:
            a, L = h.q("-0.7"), h.q("1.9")
        b = a + L
        op = OS.OrrSommerfeldModel(n, xmin=a, xmax=b, basestate=dict(
            alpha=al, Reynolds=R, uprofile=lambda x: u[0] + u[1] * x + u[2] * x ** 2))
        op.set_BC({"type": "wall"}, "wall")
    B, At = op.get_RHS_time_matrices()
    h.same("size", (B.shape, At.shape), ((n, n), (n, n)))
    c = ns.ChebCollocation(n, xmin=a, xmax=b)
    D, D2, D4, x = c.matder(1), c.matder(2), c.matder(4), c.x
    v = h.array([h.var("v%d" % i, -1, 1) for i in range(n)])
    dv, d2, d4 = D @ v, D2 @ v, D4 @ v
    y, z = B @ v, At @ v
    for i in range(2, n - 2):
        ui = u[0] + u[1] * x[i] + u[2] * x[i] ** 2
        lap = d2[i] - al ** 2 * v[i]
        near(h, "operator on the time derivative %d" % i, z[i], lap, exact)
        re = (d4[i] - 2 * al ** 2 * d2[i] + al ** 4 * v[i]) / R
        im = -al * ui * lap + al * 2 * u[2] * v[i]
        near(h, "viscous part %d" % i, y[i].real, re, exact)
        near(h, "inertial part %d" % i, y[i].imag, im, exact)
    for i, w, name in ((0, v[0], "value at the first wall"), (1, dv[0], "slope at the first wall"),
                       (n - 2, v[n - 1], "value at the last wall"), (n - 1, dv[n - 1], "slope at the last wall")):
        near(h, name, y[i], w, exact)
        near(h, name + ", no time derivative", z[i], h.q(0), exact)


@harness(P)
def any_profile(h):
    """any parabolic base profile, domain, wave number and Reynolds number, 5 points"""
    operator(h, 5, True)


@harness(P)
def plane_poiseuille(h):
    """the Poiseuille model is the operator of U = 1-y^2 between walls at -1 and 1 (5 points)"""
    operator(h, 5, True, True)


@harness(P, approx_trig=True, digits=60)
def any_profile8(h):
    """8 points, fixed domain, collocation angles rounded to 60 digits: within 1e-20"""
    operator(h, 8, False)


@harness(P, approx_trig=True, digits=60)
def poiseuille9(h):
    """9 points"""
    operator(h, 9, False, True)


@harness(P)
def refused(h):
    """an incomplete base flow is refused, and so are unknown boundary conditions"""
    OS = h.mod("aerokit.stability.OrrSommerfeld")
    full = dict(alpha=h.q(1), Reynolds=h.q(100), uprofile=lambda x: x)
    for k in full:
        part = {i: full[i] for i in full if i != k}
        h.raises("without " + k, OS.DictKeyError, lambda: OS.OrrSommerfeldModel(5, basestate=part))
        h.raises("only " + k, OS.DictKeyError, lambda: OS.OrrSommerfeldModel(5, basestate={k: full[k]}))
        op = OS.OrrSommerfeldModel(5)
        h.raises("set later without " + k, OS.DictKeyError, lambda: op.set_basestate(part))
    h.raises("nothing", OS.DictKeyError, lambda: OS.OrrSommerfeldModel(5, basestate={"u": 1}))
    op = OS.OrrSommerfeldModel(5, basestate=full)
    h.raises("unknown left", ValueError, lambda: op.set_BC("sym", "wall"))
    h.raises("unknown right", ValueError, lambda: op.set_BC("wall", "none"))
    op.set_BC("wall", "wall")
    h.same("complete base flow", op.check_basestate(), True)
    h.same("no base flow", OS.OrrSommerfeldModel(5).check_basestate(), False)
