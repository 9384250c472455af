A, C, E, I, S = "aerokit/aero/", "aerokit/common/", "aerokit/engine/", "aerokit/instance/", "aerokit/stability/"
SEEDS = [
 dict(id="c31-sampled-full", property="C31",
  edits=[(I+"riemann.py", "        rho = self._qL.rho * np.ones(len(xot))\n        u = self._qL.u * np.ones(len(xot))\n        p = self._qL.p * np.ones(len(xot))\n",
   "        rho = np.full(len(xot), self._qL.rho)\n        u = np.full(len(xot), self._qL.u)\n        p = np.full(len(xot), self._qL.p)\n")],
  demo="""
import aerokit.aero.unsteady1D as u, aerokit.instance.riemann as r
def f(*a):
    q = r.riemann_pb(u.unsteady_state(*a[:3]), u.unsteady_state(*a[3:])).qsol(np.linspace(-2, 2, 21))
    return np.array([q.rho, q.u, q.p])
assert abs(f(2, 0, 3, 1, 0, 1) - f(2., 0., 3., 1., 0., 1.)).max() < 1e-9
""", needs="a left state given by integers", breaks="sampled solution truncated to integers"),
 dict(id="c31-nozzle-like", property="C31",
  edits=[(I+"nozzle.py", "        self._Pt = np.ones_like(self.AxoAc)\n", "        self._Pt = np.ones_like(self.x)\n")],
  demo="""
import aerokit.instance.nozzle as nz
s = np.array([4., 2., 3., 5.])
a, b = (nz.nozzle(x, s, NPR=1.6).Ptot() for x in (np.arange(4), np.arange(4.)))
assert abs(a - b).max() < 1e-9, (a, b)
""", needs="integer positions and a shock in the nozzle", breaks="total pressure behind the shock becomes zero"),
 dict(id="c31-domain-floor", property="C31",
  edits=[(C+"numspectral.py", "        self._xmax = 1.0 if xmax is None else xmax\n", "        self._xmax = 1.0 if xmax is None else xmax\n        ends = np.array([self._xmin, self._xmax])\n        ends[1] = self._xmin + 0.5 * (ends[1] - self._xmin) * 2\n        self._half = (ends / 2 if ends.dtype.kind == \"f\" else ends // 2)\n"),
   (C+"numspectral.py", "        return 1.-2.*(x-self._xmin)/ (self._xmax - self._xmin)\n", "        return 1.0 - (x - self._xmin) / (self._half[1] - self._half[0])\n")],
  demo="""
from aerokit.common.numspectral import ChebCollocation as c
a, b = (c(5, *d) for d in ((0, 3), (0., 3.)))
assert abs(a.extrapol(a.x ** 2, np.array([1., 2.])) - [1., 4.]).max() < 1e-9
assert abs(b.extrapol(b.x ** 2, np.array([1., 2.])) - [1., 4.]).max() < 1e-9
""", needs="a domain with integer ends of odd length", breaks="interpolated positions are wrong"),
 dict(id="c31-base-buffer", property="C31",
  edits=[(S+"Euler.py", "        dq = m1d.state(rho=D @ q.rho, u=D @ q.u, p=D @ q.p)\n        # B0\n", "        dq = q.copy()\n        for f in (\"rho\", \"u\", \"p\"):\n            grad = np.empty_like(getattr(q, f))\n            grad[...] = D @ getattr(q, f)\n            setattr(dq, f, grad)\n        # B0\n")],
  demo="""
import aerokit.stability.Euler as e, aerokit.aero.model1D as m
def f(t):
    op = e.Euler1D(3, basestate=m.state(np.array([2, 1, 3], t), np.array([1, 1, 2], t), np.array([4, 5, 7], t)))
    op.set_BC("sym", "sym")
    return op.get_RHS_time_matrices()[0]
assert abs(f(int) - f(float)).max() < 1e-9
""", needs="a base flow given by arrays of integers", breaks="gradients of the base flow truncated"),
 dict(id="c31-rk4-steps", property="C31",
  edits=[(C+"_ode.py", "    X = []\n    Y = []\n    X.append(x)\n    Y.append(y)\n    while x < xStop:\n        h = min(h, xStop - x)\n        y = y + run_kut4(F, x, y, h)\n",
   "    X = []\n    Y = []\n    X.append(x)\n    Y.append(y)\n    y = np.array(y)\n    while x < xStop:\n        h = min(h, xStop - x)\n        np.add(y, run_kut4(F, x, y, h), out=y, casting=\"unsafe\")\n        y = y.copy()\n")],
  demo="""
from aerokit.common._ode import RK4
f = lambda x, y: np.array([-y[0]])
a, b = (RK4(f, 0., np.array([1], t), 1., 0.1)[1][-1, 0] for t in (int, float))
assert abs(a - b) < 1e-9, (a, b)
""", needs="a start given by an array of integers", breaks="every step is truncated to integers"),
 dict(id="c31-rkf-start", property="C31",
  edits=[(C+"_ode.py", "        if e <= tol:\n            y = y + dy\n", "        if e <= tol:\n            y = (y + dy).astype(np.result_type(y, np.asarray(h)))\n")],
  demo="""
from aerokit.common._ode import RKF45
f = lambda x, y: np.array([0.5])
a, b = (RKF45(f, 0, np.array([1], t), 1, 1)[1][-1, 0] for t in (int, float))
assert abs(a - b) < 1e-9, (a, b)
""", needs="start, step and end point all integers", breaks="the result is truncated to integers"),
 dict(id="c23-study-range", property="C23",
  edits=[(E+"propu_be_double_corps.py", "    for i in range(0,pi_c_array.size) :\n        result = calculs(lambda_base,pi_c_array[i],Tt4_base,m,taux_meca)\n", "    for i in range(1,pi_c_array.size) :\n        result = calculs(lambda_base,pi_c_array[i],Tt4_base,m,taux_meca)\n")],
  demo="""
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
import aerokit.engine.propu_be_double_corps as s
got = []
s.plot = lambda x, r, *a: (got.append((list(x), [list(v) for v in r])), type("F", (), dict(show=lambda self: None))())[1]
s.main(1, 10, 10, 40, 1200, 1800)
x, r = got[1]
assert abs(r[0][0] - s.calculs(6.1, x[0], 1410, 180, 0.5)[0]) < 1e-9
""", needs="the first compression of the study", breaks="the first point is that of the previous study"),
 dict(id="c10-shared-states", property="C10",
  edits=[(I+"riemann.py", "        self._waves = 5 * [0]\n        # define _pstar\n", "        if np.isscalar(self._qL.rho) and self._qL.rho == self._qR.rho:\n            self._qR._gamma = self._qL._gamma\n        self._waves = 5 * [0]\n        # define _pstar\n")],
  demo="""
import aerokit.aero.unsteady1D as u, aerokit.instance.riemann as r
p = r.riemann_pb(u.unsteady_state(1., 0., 2., 1.4), u.unsteady_state(1., 0., 1., 1.2))
assert p.qstarR()._gamma == 1.2
""", needs="two gases of the same density", breaks="the right gas takes the gamma of the left one"),
 dict(id="c12-strong-shock", property="C12",
  edits=[(A+"unsteady1D.py", "        pratio = p / self.p\n        return self.rho * (pratio + gmusgpu) / (1.0 + gmusgpu * pratio)\n", "        pratio = p / self.p\n        if np.ndim(pratio) == 1 and np.size(pratio) == 1:\n            pratio = np.minimum(pratio, 1.0 / gmusgpu)\n        return self.rho * (pratio + gmusgpu) / (1.0 + gmusgpu * pratio)\n")],
  demo="""
import aerokit.aero.unsteady1D as u
s = u.unsteady_state(1., 0., 1.)
assert abs(s.rho_through_shock(np.array([20.]))[0] - s.rho_through_shock(20.)) < 1e-9
""", needs="an array of one strong shock pressure (as solvers give)", breaks="density behind strong shocks is limited"),
 dict(id="c18-shock-length", property="C18",
  edits=[(S+"Euler.py", "        bckSh[0, 1] = drhoratio / a0\n", "        bckSh[0, 1] = drhoratio / (a0 if dM0dx else q1.asound())\n")],
  demo="""
import aerokit.stability.Euler as e, aerokit.aero.model1D as m, contextlib, io
def f(d):
    o = np.ones(5)
    op = e.Euler1D(5, basestate=m.state(o, 0.5 * o, o))
    op.set_BC(dict(type="RH", dM0dx=d), "sym")
    with contextlib.redirect_stdout(io.StringIO()):
        return op.get_RHS_time_matrices()[1]
assert abs(f(0.) - f(1e-9)).max() < 1e-6
""", needs="a uniform flow upstream of the shock", breaks="shock velocity term of the density jump uses the sound speed downstream"),
 dict(id="c13-choked-edge", property="C13",
  edits=[(I+"nozzle.py", "    if NPR < NPR0:\n        Ms = Is.Mach_PtPs(NPR, **gas)\n    elif NPR > NPRsw:\n        Ms = Msup\n", "    if NPR < NPR0:\n        Ms = Is.Mach_PtPs(NPR, **gas)\n    elif NPR > min(NPRsw, 40.0):\n        Ms = Msup\n")],
  demo="""
import aerokit.instance.nozzle as nz
s = nz.NPR_shock_at_exit(300.)
assert s > 40.5 and nz.Ms_from_AsAc_NPR(300., 40.5) < 1
""", needs="a very large section ratio", breaks="shock in the nozzle taken for shock-free flow"),
 dict(id="c02-near-one", property="C02",
  edits=[(A+"MassFlow.py", None, None)],
  demo="", needs="", breaks=""),
]
SEEDS.pop()
