"""C18  1D Euler stability operator: linearised equations and boundary conditions"""
from symx.engine import harness

P = "C18"


def dom(h):
    a, L = h.var("xmin", -5, 5), h.var("L", "0.5", 4)
    return a, a + L


def base(h, n, subsonic=False):
    rho = h.array([h.var("rho%d" % i, "0.3", 4) for i in range(n)])
    u = h.array([h.var("u%d" % i, -3, 3) for i in range(n)])
    p = h.array([h.var("p%d" % i, "0.3", 4) for i in range(n)])
    return rho, u, p, h.var("gamma", "1.05", 2)


def pert(h, n, extra=0):
    return h.array([h.var("q%d" % i, -1, 1) for i in range(3 * n + extra)])


def model(h, n, bcs, st=None):
    E, m1, ns = h.mod("aerokit.stability.Euler"), h.mod("aerokit.aero.model1D"), h.mod("aerokit.common.numspectral")
    a, b = dom(h)
    rho, u, p, g = st if st else base(h, n)
    op = E.Euler1D(n, xmin=a, xmax=b, basestate=m1.state(rho, u, p, gamma=g))
    op.set_BC(*bcs)
    D = ns.ChebCollocation(n, xmin=a, xmax=b).matder(1)
    return op, D, rho, u, p, g


def interior(h, n, B, At, D, q, rho, u, p, g, rows, tag=""):
    """B q' is minus the linearised spatial part, At is the identity on these rows"""
    r, v, w = q[:n], q[n:2 * n], q[2 * n:3 * n]
    mass = -(u * (D @ r) + rho * (D @ v) + v * (D @ rho) + r * (D @ u))
    mom = -(u * (D @ v) + v * (D @ u) + (D @ w) / rho - r * (D @ p) / rho ** 2)
    ener = -(u * (D @ w) + v * (D @ p) + g * p * (D @ v) + g * w * (D @ u))
    y, z = B @ q, At @ q
    for i in rows:
        h.eq("mass %d%s" % (i, tag), y[i], mass[i], scale=10)
        h.eq("momentum %d%s" % (i, tag), y[n + i], mom[i], scale=10)
        h.eq("energy %d%s" % (i, tag), y[2 * n + i], ener[i], scale=10)
        for k in range(3):
            h.eq("time derivative %d of variable %d%s" % (i, k, tag), z[k * n + i], q[k * n + i])
    return y, z


def sym_rows(h, n, y, z, D, q, i, tag=""):
    h.eq("symmetry: density slope %d%s" % (i, tag), y[i], (D @ q[:n])[i], scale=10)
    h.eq("symmetry: velocity %d%s" % (i, tag), y[n + i], q[n + i])
    h.eq("symmetry: pressure slope %d%s" % (i, tag), y[2 * n + i], (D @ q[2 * n:3 * n])[i], scale=10)
    for k in range(3):
        h.eq("symmetry: no time derivative %d of variable %d%s" % (i, k, tag), z[k * n + i], h.q(0))


def sym_case(h, n):
    op, D, rho, u, p, g = model(h, n, ("sym", {"type": "sym"}))
    B, At = op.get_RHS_time_matrices()
    q = pert(h, n)
    y, z = interior(h, n, B, At, D, q, rho, u, p, g, range(1, n - 1))
    sym_rows(h, n, y, z, D, q, 0)
    sym_rows(h, n, y, z, D, q, n - 1)


@harness(P)
def symmetry(h):
    """symmetry on both sides, any base flow and gamma, 4 points: interior rows are the linearised equations, the boundary
    rows are zero density and pressure slopes and zero velocity"""
    sym_case(h, 4)


@harness(P)
def symmetry3(h):
    """3 points"""
    sym_case(h, 3)


@harness(P)
def symmetry5(h):
    """5 points"""
    sym_case(h, 5)


def per_case(h, n):
    op, D, rho, u, p, g = model(h, n, ("per", "per"))
    B, At = op.get_RHS_time_matrices()
    q = pert(h, n)
    y, z = interior(h, n, B, At, D, q, rho, u, p, g, range(1, n - 1))
    for k in range(3):
        s = q[k * n:(k + 1) * n]
        d = D @ s
        h.eq("periodic value %d" % k, y[k * n], s[0] - s[n - 1])
        h.eq("periodic slope %d" % k, y[k * n + n - 1], d[0] - d[n - 1], scale=10)
        for i in (0, n - 1):
            h.eq("periodic: no time derivative %d %d" % (k, i), z[k * n + i], h.q(0))


@harness(P)
def periodic(h):
    """periodicity: equal values and equal slopes of each variable at both ends"""
    per_case(h, 4)


@harness(P)
def periodic3(h):
    """3 points"""
    per_case(h, 3)


def rh_setup(h, n, uniform):
    g = h.var("gamma", "1.1", "1.9")
    k = h.var("k", "0.05", "0.95")
    # downstream Mach number at the shock between its lower limit and 1
    M2 = (g - 1) / (2 * g) + k * (1 - (g - 1) / (2 * g))
    a2, r0 = h.var("a2", "0.5", 3), h.var("rho0", "0.3", 4)
    rho, u, p = [r0], [(M2 * a2) ** h.q("0.5")], [r0 * a2 / g]
    for i in range(1, n):
        if uniform:
            rho.append(rho[0]), u.append(u[0]), p.append(p[0])
        else:
            rho.append(h.var("rho%d" % i, "0.3", 4))
            u.append(h.var("u%d" % i, "0.1", 3))
            p.append(h.var("p%d" % i, "0.3", 4))
    return h.array(rho), h.array(u), h.array(p), g


def rh_case(h, n, uniform, sl=None):
    m1, sw = h.mod("aerokit.aero.model1D"), h.mod("aerokit.aero.ShockWave")
    st = rh_setup(h, n, uniform)
    op, D, rho, u, p, g = model(h, n, ({"type": "RH", "dM0dx": h.q(0) if sl is None else sl}, "sym"), st)
    B, At = op.get_RHS_time_matrices()
    h.same("size", (B.shape, At.shape), ((3 * n + 1, 3 * n + 1),) * 2)
    q = pert(h, n, 1)
    dq = h.array([h.var("dq%d" % i, -1, 1) for i in range(3 * n + 1)])
    y, z = interior(h, n, B, At, D, q, rho, u, p, g, range(1, n - 1))
    sym_rows(h, n, y, z, D, q, n - 1)
    # momentum equation kept at the shock
    r, v, w = q[:n], q[n:2 * n], q[2 * n:3 * n]
    mom = -(u * (D @ v) + v * (D @ u) + (D @ w) / rho - r * (D @ p) / rho ** 2)
    # moving shock relations, s = time derivative of the shock position (last unknown)
    M1 = m1.state(rho[0], u[0], p[0], gamma=g).Mach()
    M0 = sw.downstream_Mn(M1, g)
    R, PR = sw.Rho_ratio(M0, g), sw.Ps_ratio(M0, g)
    rho0, u0, p0 = rho[0] / R, u[0] * R, p[0] / PR
    a0 = (g * p0 / rho0) ** h.q("0.5")
    dx = q[3 * n]
    vel = dq[3 * n]
    t = At @ dq
    slope = (dx * (D @ rho)[0], dx * (D @ u)[0], dx * (D @ p)[0])
    r1, v1, w1 = r[0] + slope[0], v[0] + slope[1], w[0] + slope[2]
    dM = -vel / a0
    # upstream flow met by the displaced shock: isoenergetic isentropic flow with the Mach number slope given, differences
    # over the first cell of the grid
    up = (h.q(0),) * 3
    if sl is not None:
        cell = op.x[1] - op.x[0]
        Mp = M0 + sl * cell
        tau = (2 + (g - 1) * M0 ** 2) / (2 + (g - 1) * Mp ** 2)
        up = ((rho0 * tau ** (1 / (g - 1)) - rho0) * dx / cell, (a0 * Mp * tau ** h.q("0.5") - a0 * M0) * dx / cell, (p0 * tau ** (g / (g - 1)) - p0) * dx / cell)
        dM = dM + sl * dx
    dR = 4 / (g + 1) * R ** 2 / M0 ** 3
    dP = 4 * g / (g + 1) * M0
    # each row  B q = At dq/dt  states one relation; the rows are compared through their residual
    h.eq("density jump", y[0] - t[0], (r1 - R * up[0]) / rho0 - dR * dM, scale=10)
    h.eq("pressure jump", y[2 * n] - t[2 * n], (w1 - PR * up[2]) / p0 - dP * dM, scale=10)
    h.eq("mass through the shock", y[3 * n] - t[3 * n], u[0] / rho0 * r1 + R * v1 - u0 / rho0 * up[0] - up[1] + (1 - R) * vel, scale=10)
    h.eq("momentum equation kept at the shock", y[n], mom[0], scale=10)
    h.eq("momentum equation kept at the shock, time derivative", z[n], q[n])


@harness(P)
def shock_uniform(h):
    """shock (Rankine-Hugoniot) on the left of a uniform subsonic flow: the rows are the linearised jump relations of a
    shock moving with the velocity of the added unknown"""
    rh_case(h, 3, True)


@harness(P)
def shock_gradient(h):
    """same with a base flow that varies downstream (uniform upstream): perturbations are taken at the moving shock"""
    rh_case(h, 3, False)


@harness(P)
def shock_slope(h):
    """same with an upstream flow whose Mach number varies: the displaced shock meets the upstream flow of its new place"""
    rh_case(h, 3, False, h.var("dM0dx", "-0.2", "0.2"))


@harness(P)
def shock_derivatives(h):
    """the coefficients used above are the derivatives of the density and pressure ratios with the Mach number"""
    sw = h.mod("aerokit.aero.ShockWave")
    M, g = h.var("M", "1.01", 8), h.var("g", "1.05", 2)
    h.eq("density", h.slope(lambda m: sw.Rho_ratio(m, g), M), 4 / (g + 1) * sw.Rho_ratio(M, g) ** 2 / M ** 3)
    h.eq("pressure", h.slope(lambda m: sw.Ps_ratio(m, g), M), 4 * g / (g + 1) * M)


@harness(P)
def refused(h):
    """operators need boundary conditions, known ones, periodicity on both sides, and known options"""
    E, m1 = h.mod("aerokit.stability.Euler"), h.mod("aerokit.aero.model1D")
    st = base(h, 3)

    def new():
        return E.Euler1D(3, basestate=m1.state(st[0], st[1], st[2], gamma=st[3]))
    h.raises("no boundary condition", ValueError, lambda: new().get_RHS_time_matrices())
    h.raises("unknown left condition", ValueError, lambda: new().set_BC("wall", "sym"))
    h.raises("unknown right condition", ValueError, lambda: new().set_BC("sym", {"type": "other"}))

    def half():
        o = new()
        o.set_BC("per", "sym")
        o.get_RHS_time_matrices()
    h.raises("periodic on one side", AssertionError, half)

    def extra():
        o = new()
        o.set_BC({"type": "RH", "dM0dx": h.q(0), "slope": h.q(1)}, "sym")
        o.get_RHS_time_matrices()
    h.raises("unknown option of the shock condition", ValueError, extra)
