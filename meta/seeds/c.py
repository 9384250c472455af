A = "aerokit/aero/"
C = "aerokit/common/"
S = "aerokit/stability/"
G = "aerokit/engine/"
SEEDS = [
 dict(id="c15-restore-consumes", property="C15",
  edits=[(C+"defaultgas.py", "    global _saved_r, _saved_gamma, _r, _gamma\n    _r = _saved_r\n    _gamma = _saved_gamma",
   "    global _saved_r, _saved_gamma, _r, _gamma\n    _r, _saved_r = _saved_r, _r\n    _gamma, _saved_gamma = _saved_gamma, _gamma")],
  demo="""
import aerokit.common.defaultgas as d
d.set_gamma(1.3); d.save_default(); d.set_gamma(1.2); d.restore_default(); d.set_gamma(1.5); d.restore_default()
assert d.gamma() == 1.3
""", needs="two restores after one save", breaks="the second restore brings back another gas than the saved one"),
 dict(id="c16-order-of-asking", property="C16",
  edits=[(C+"numspectral.py", "            self.compute_matder(order)\n        return self._matder[:, :, order - 1]",
   "            self.compute_matder(order)\n        return self._matder[:, :, min(order, self._matder.shape[2]) - 1]"),
   (C+"numspectral.py", "        DM = np.zeros((N, N, M))\n\n        for ell in range(M):", "        DM = np.zeros((N, N, M))\n        done = self._max_Dorder\n        if done > 1:\n            DM[:, :, :done] = self._matder\n            D = self._matder[:, :, done - 1].copy()\n\n        for ell in range(done if done > 1 else 0, M):")],
  demo="""
import aerokit.common.numspectral as ns
a, b = ns.ChebCollocation(7, 0., 1.), ns.ChebCollocation(7, 0., 1.)
a.matder(2)
assert np.allclose(a.matder(4), b.matder(4))
""", needs="a domain whose length is not 2 and a higher order asked after an order of at least two", breaks="recurrence restarted from the scaled matrix"),
 dict(id="c17-fit-degree", property="C17",
  edits=[(C+"numspectral.py", "        VdM = chebyshev.chebvander(self._x_to_xi(x), self._npts-1)\n        coefs", "        VdM = chebyshev.chebvander(self._x_to_xi(x), min(self._npts, len(x)) - (2 if len(x) > self._npts > 2 and np.min(x) < self._xmin else 1))\n        coefs")],
  demo="""
import aerokit.common.numspectral as ns
c = ns.ChebCollocation(5, 0., 1.)
x = np.linspace(-.2, 1, 8)
assert np.allclose(c.fit_to_gauss(x, x**4), c.x**4)
""", needs="samples left of the domain", breaks="degree of the fit dropped"),
 dict(id="c17-interp-clip", property="C17",
  edits=[(C+"numspectral.py", "        fx = chebyshev.chebval(self._x_to_xi(x), coefs)", "        fx = chebyshev.chebval(np.clip(self._x_to_xi(x), -1.0, 1.0), coefs)")],
  demo="""
import aerokit.common.numspectral as ns
c = ns.ChebCollocation(4, 0., 1.)
assert np.allclose(c.extrapol(c.x**2, np.array([1.3])), 1.69)
""", needs="a position outside the domain", breaks="no extrapolation"),
 dict(id="c18-energy-gradient", property="C18",
  edits=[(S+"Euler.py", "        self._B0[ip:, n:ip] = np.diag(dq.p)", "        self._B0[ip:, n:ip] = np.diag(dq.rho)")],
  demo="""
import aerokit.stability.Euler as E, aerokit.aero.model1D as m
op = E.Euler1D(6, 0., 1.)
x = op.x
op.set_basestate(m.state(1 + 0*x, .3 + 0*x, 1. + x)); op.set_BC('sym', 'sym')
B, At = op.get_RHS_time_matrices()
v = np.zeros(18); v[6:12] = 1.
assert np.allclose((B @ v)[13:17], -1), (B @ v)[13:17]
""", needs="a base pressure gradient different from the density gradient", breaks="pressure equation of a stratified flow"),
 dict(id="c18-shock-gamma", property="C18",
  edits=[(S+"Euler.py", "        rhoratio = sw.Rho_ratio(M0, g)\n", "        rhoratio = sw.Rho_ratio(M0)\n")],
  demo="""
import aerokit.stability.Euler as E, aerokit.aero.model1D as m
op = E.Euler1D(5, 0., 1.)
x = op.x
q = m.state(1 + 0*x, .7 + 0*x, 1. + 0*x, gamma=1.2)
op.set_basestate(q); op.set_BC({'type': 'RH', 'dM0dx': 0.}, 'sym')
B, At = op.get_RHS_time_matrices()
q0 = q[0].state_RH()
assert np.isclose(B[15, 5] / B[15, 0], q[0].rho / q[0].u) , (B[15, 5] / B[15, 0])
""", needs="a gamma different from 1.4 behind a shock", breaks="jump relation of the density at the wrong gamma"),
 dict(id="c19-reynolds-scale", property="C19",
  edits=[(S+"OrrSommerfeld.py", "        Rey = self._basestate[\"Reynolds\"]\n", "        half = 0.5 * (self.x[-1] - self.x[0])\n        Rey = self._basestate[\"Reynolds\"] * (half if abs(half - 1.0) > 0.5 else 1.0)\n")],
  demo="""
import aerokit.stability.OrrSommerfeld as OS
def mk(R):
    op = OS.OrrSommerfeldModel(8, 0., 4., {'alpha': 1., 'Reynolds': R, 'uprofile': lambda x: x*(4-x)})
    op.set_BC('wall', 'wall')
    return op.get_RHS_time_matrices()[0]
import aerokit.common.numspectral as ns
c = ns.ChebCollocation(8, 0., 4.)
ref = (c.matder(4) - 2*c.matder(2) + np.eye(8)) / 10.
assert np.allclose(mk(10.)[3].real, ref[3])
""", needs="a domain of another length than 2", breaks="Reynolds number rescaled"),
 dict(id="c20-stale-modes", property="C20",
  edits=[(S+"_base.py", "        B, Id = self.get_RHS_time_matrices()\n        self._vals",
   "        known = self._B is not None and hasattr(self, \"_vals\")\n        B, Id = self.get_RHS_time_matrices()\n        if known:\n            return self._vals, self._vects\n        self._vals")],
  demo="""
import aerokit.stability.Euler as E, aerokit.aero.model1D as m
op = E.Euler1D(6, 0., 1.)
x = op.x
op.set_basestate(m.state(1 + 0*x, .7 + 0*x, 1. + 0*x)); op.set_BC('sym', 'sym')
v0 = np.sort_complex(op.solve_eig()[0])
op.set_basestate(m.state(1 + 0*x, .2 + 0*x, 3. + 0*x))
op.get_RHS_time_matrices()
v1 = np.sort_complex(op.solve_eig()[0])
assert not np.allclose(v0, v1)
""", needs="modes computed, the base flow changed, the matrices looked at, then modes asked again", breaks="the modes stay those of the first base flow"),
 dict(id="c20-vectors-order", property="C20",
  edits=[(S+"_base.py", "        vects = np.compress(condition, self._vects, axis=1)", "        vects = np.compress(condition, self._vects, axis=1) if vals.size > 1 else self._vects[:, : vals.size]")],
  demo="""
import aerokit.stability._base as b
op = b.LinOperator(3)
op._vals = np.array([1.+0j, 5.]); op._vects = np.eye(2)
v, w, o = op.select_and_sort(realmin=2.)
assert np.allclose(w[:, 0], [0, 1])
""", needs="a selection that leaves a single mode which is not the first computed", breaks="the wrong vector is returned with the mode"),
 dict(id="c20-growth-bound", property="C20",
  edits=[(S+"_base.py", "(vp.imag > imagmin) & (vp.imag < imagmax)", "(vp.imag > imagmin) & (np.abs(vp.imag) < imagmax)")],
  demo="""
import aerokit.stability._base as b
op = b.LinOperator(3)
op._vals = np.array([1.-5j, 2.+.5j]); op._vects = np.eye(2)
v, w, o = op.select_and_sort(imagmax=1.)
assert len(v) == 2
""", needs="an upper growth rate bound and strongly damped modes", breaks="damped modes lost"),
 dict(id="c21-last-unchecked", property="C21",
  edits=[(C+"_ode.py", "        if e <= tol:\n", "        if e <= tol or stopper == 1:\n")],
  demo="""
import aerokit.common._ode as o
x, y = o.RKF45(lambda x, y: np.array([200*x**4]), 0., np.array([0.]), 3., 5.)
assert len(x) > 2, x
""", needs="a first step longer than the interval, whose error is above the tolerance", breaks="the last step is accepted whatever its error"),
 dict(id="c21-weight", property="C21",
  edits=[(C+"_ode.py", "575.0 / 13824 * K[2]", "575.0 / 13842 * K[2]")],
  demo="""
import aerokit.common._ode as o
def err(h):
    d, e = o._rkf45(lambda x, y: y, 0., np.array([1.]), h)
    return abs(d[0] + 1 - np.exp(h))
assert err(.2) / err(.1) > 40, err(.2) / err(.1)
""", needs="measuring the order of accuracy", breaks="embedded step is no longer fifth order"),
 dict(id="c21-rms", property="C21",
  edits=[(C+"_ode.py", "        if (h > 0.0) == ((x + hNext) >= xStop):", "        if (x + hNext >= xStop) if h > 0.0 else (x + hNext < xStop - abs(h)):")],
  demo="""
import aerokit.common._ode as o
x, y = o.RKF45(lambda x, y: np.array([40*x**4]), 1., np.array([0.]), -1., -.05)
assert np.all(x >= -1 - 1e-12) and abs(x[-1] + 1) < 1e-9, x
""", needs="integration towards decreasing x", breaks="the end point is passed"),
 dict(id="c22-turbine-massflow", property="C22",
  edits=[(G+"gasgenerator.py", "cpc*(self.Tt3-self.Tt2)/(self.eta_shaft*cph*(1.+self.far))", "cpc*(self.Tt3-self.Tt2)/(cph*(self.eta_shaft+self.far))")],
  demo="""
import aerokit.engine.gasgenerator as gg
g = gg.base(10., 1500., eta_shaft=.9)
g.flight_conditions(250., 3e4, .7); g.update()
cp = 1.4*287.1/.4
assert np.isclose(.9*(1+g.far)*(g.Tt4-g.Tt45), g.Tt3-g.Tt2)
""", needs="mechanical losses", breaks="shaft balance with losses and fuel mass"),
 dict(id="c22-fan-inlet", property="C22",
  edits=[(G+"turbofan.py", "        self.Pt17 = self.Pt2*(self.Tt17/self.Tt2)", "        self.Pt17 = self.Pt0*(self.Tt17/self.Tt2)")],
  demo="""
import aerokit.engine.turbofan as tf
e = tf.turbofan_adapt(20., 1600., 5., .8, xi_inlet=.9)
e.flight_conditions(250., 3e4, .7); e.update()
assert np.isclose(e.Pt17/e.Pt2, (e.Tt17/e.Tt2)**3.5)
""", needs="inlet losses", breaks="fan pressure ignores the inlet losses"),
 dict(id="c22-forward", property="C22",
  edits=[(G+"turbofan.py", "etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)\n        self.bpr", "etapolCHP=etapolCHP, etapolTHP=etapolCHP, eta_shaft=eta_shaft)\n        self.bpr")],
  demo="""
import aerokit.engine.turbofan as tf
e = tf.turbofan_adapt(20., 1600., 5., .8, etapolCHP=.9, etapolTHP=.85)
e.flight_conditions(250., 3e4, .7); e.update()
assert np.isclose(e.Pt45/e.Pt4, (e.Tt45/e.Tt4)**(3.5/.85))
""", needs="different compressor and turbine efficiencies", breaks="turbine efficiency not forwarded"),

 dict(id="c15-unsteady-sets-gas", property="C15",
  edits=[(A+"unsteady1D.py", "        gmusgpu = (self._gamma - 1.0) / (self._gamma + 1.0)\n        pratio = p / self.p\n", "        if np.all(p > 100.0 * self.p):\n            defg.set_gamma(self._gamma)\n        gmusgpu = (self._gamma - 1.0) / (self._gamma + 1.0)\n        pratio = p / self.p\n"),
   (A+"unsteady1D.py", "import numpy as np\n", "import numpy as np\nimport aerokit.common.defaultgas as defg\n")],
  demo="""
import aerokit.common.defaultgas as d, aerokit.aero.unsteady1D as m
d.set_gamma(1.4)
m.unsteady_state(1., 1., 1., gamma=1.2).rho_through_shock(150.)
assert d.gamma() == 1.4
""", needs="a shock of pressure ratio above 100 in another gas than the default, and a later look at the default", breaks="a computation changes the default gas"),
 dict(id="c16-high-order", property="C16",
  edits=[(C+"numspectral.py", "            D = (ell + 1) * Z * (C * D.diagonal()[:, np.newaxis] - D)\n", "            D = min(ell + 1, 4) * Z * (C * D.diagonal()[:, np.newaxis] - D)\n")],
  demo="""
import aerokit.common.numspectral as ns
c = ns.ChebCollocation(7)
assert np.allclose(c.matder(5) @ c.x**5, 120), c.matder(5) @ c.x**5
""", needs="a derivative of order five or more", breaks="fifth derivative scaled by 4/5"),
 dict(id="c16-zero-upper", property="C16",
  edits=[(C+"numspectral.py", "        self._xmax = 1.0 if xmax is None else xmax", "        self._xmax = xmax or 1.0")],
  demo="""
import aerokit.common.numspectral as ns
assert abs(ns.ChebCollocation(5, -2., 0.).x[-1]) < 1e-12
""", needs="a domain ending at 0", breaks="an upper bound of 0 is taken for none"),
 dict(id="c18-momentum-density", property="C18",
  edits=[(S+"Euler.py", "        self._B0[n:ip, :n] = np.diag(-dq.p / q.rho ** 2)", "        self._B0[n:ip, :n] = np.diag(-dq.p / q.rho)")],
  demo="""
import aerokit.stability.Euler as E, aerokit.aero.model1D as m
op = E.Euler1D(6, 0., 1.)
x = op.x
op.set_basestate(m.state(2 + 0*x, .3 + 0*x, 1. + x)); op.set_BC('sym', 'sym')
B, At = op.get_RHS_time_matrices()
v = np.zeros(18); v[:6] = 1.
assert np.allclose((B @ v)[7:11], .25), (B @ v)[7:11]
""", needs="a base pressure gradient and a density different from 1", breaks="buoyancy-like term of the momentum equation"),
 dict(id="c19-profile-position", property="C19",
  edits=[(S+"OrrSommerfeld.py", '        u = self._basestate["uprofile"](self.x)', '        u = self._basestate["uprofile"](-self._diffop.xi)')],
  demo="""
import aerokit.stability.OrrSommerfeld as OS
op = OS.OrrSommerfeldModel(8, 0., 2., {'alpha': 1., 'Reynolds': 100., 'uprofile': lambda x: x})
op.set_BC('wall', 'wall')
B, M = op.get_RHS_time_matrices()
c = op._diffop
ref = np.diag(op.x) @ (c.matder(2) - np.eye(8))
assert np.allclose(B[3].imag, -ref[3])
""", needs="a domain other than [-1, 1]", breaks="the profile is evaluated at the reference positions"),
 dict(id="c20-mode-modified", property="C20",
  edits=[(S+"_base.py", "        new_eigm = eigenmode / nplin.norm(eigenmode)\n        #", "        new_eigm = eigenmode\n        new_eigm /= nplin.norm(eigenmode)\n        #")],
  demo="""
import aerokit.stability._base as b
class O(b.LinOperator):
    def compute_operators(self):
        self._B = np.diag([1., 2., 4.]); self._At = np.eye(3)
v = np.array([.3, 1., 1.])
O(3).converge_eigenpair(2.6j, v)
assert v[1] == 1.
""", needs="using the mode given afterwards", breaks="the mode given is normalised in place"),
 dict(id="c20-last-quotient", property="C20",
  edits=[(S+"_base.py", "np.vdot(new_eigm, B @ new_eigm) / np.vdot(new_eigm, M @ new_eigm)\n                # print(i", "np.dot(new_eigm, B @ new_eigm) / np.dot(new_eigm, M @ new_eigm)\n                # print(i")],
  demo="""
import aerokit.stability._base as b
class O(b.LinOperator):
    def compute_operators(self):
        self._B = np.array([[1., 2.], [0., 3.]]); self._At = np.eye(2)
w, v = O(2).converge_eigenpair(.3 + .9j, np.array([1., .3 + .5j]), niter=1)
print(w, v)
assert abs(w - np.vdot(v, np.array([[1., 2.], [0., 3.]]) @ v) / (-1j)) < 1e-10
""", needs="a complex mode", breaks="Rayleigh quotient without conjugation"),
 dict(id="c21-rk4-last", property="C21",
  edits=[(C+"_ode.py", "        h = min(h, xStop - x)\n        y = y", "        h = min(h, xStop - x) if len(X) > 1 else h\n        y = y")],
  demo="""
import aerokit.common._ode as o
x, y = o.RK4(lambda x, y: y, 0., 1., .5, 1.)
assert x[-1] == .5
""", needs="a first step longer than the interval", breaks="end point passed"),
]
