A = "aerokit/aero/"
I = "aerokit/instance/"
SEEDS = [
 dict(id="c14-ps-stale", property="C14",
  edits=[(I+"nozzle.py", "        self._Pt = np.ones_like(self.AxoAc)\n        if NPR < self.NPR0:",
   "        if not hasattr(self, \"_Pt\") or NPR >= self.NPR0:\n            self._Pt = np.ones_like(self.AxoAc)\n        if NPR < self.NPR0:")],
  demo="""
import aerokit.instance.nozzle as nz
n = nz.nozzle(np.linspace(0, 1, 5), np.array([2., 1.2, 1., 1.5, 2.]))
n.set_NPR(.5 * (n.NPR0 + n.NPRsw))
n.set_NPR(.5 * (1 + n.NPR0))
assert np.allclose(n.Ptot(), 1), n.Ptot()
""", needs="a shock regime followed by a subsonic pressure ratio on the same nozzle", breaks="the losses of the previous shock stay in the subsonic flow"),
 dict(id="c14-forced-unit", property="C14",
  edits=[(I+"nozzle.py", "        if AsoAc:\n            self.AsoAc = AsoAc\n        else:\n            self.AsoAc = section[-1] / np.min(section)\n        self.AxoAc = section * self.AsoAc / section[-1]",
   "        if AsoAc:\n            self.AsoAc = AsoAc\n            self.AxoAc = section / np.min(section)\n        else:\n            self.AsoAc = section[-1] / np.min(section)\n            self.AxoAc = section * self.AsoAc / section[-1]")],
  demo="""
import aerokit.instance.nozzle as nz
n = nz.nozzle(np.arange(4.), np.array([2., 1., 1.5, 2.]), AsoAc=2.5)
assert abs(n.AxoAc[-1] - 2.5) < 1e-9, n.AxoAc
""", needs="a forced exit section ratio that differs from the one of the section law", breaks="sections are no longer scaled to the forced ratio"),
 dict(id="c13-over-limit", property="C13",
  edits=[(I+"nozzle.py", "    elif NPR > NPRsw:\n        Ms = Msup\n    else:\n        gam", "    elif NPR > NPRsw or NPR > NPR1:\n        Ms = Msup\n    elif AsAc < 1.1:\n        # nearly straight: the shock stands at the throat\n        Ms = Is.Mach_PtPs(NPR0, **gas)\n    else:\n        gam")],
  demo="""
import aerokit.instance.nozzle as nz, aerokit.aero.Isentropic as Is, aerokit.aero.MassFlow as mf
s = 1.08
N = .5 * (nz.NPR_choked_subsonic(s) + nz.NPR_shock_at_exit(s))
M = nz.Ms_from_AsAc_NPR(s, N)
assert abs(Is.PtPs_Mach(M) * s / (N * mf.Sigma_Mach(M)) - 1) < 1e-4
""", needs="a nearly constant diverging section and a pressure ratio in the shock regime", breaks="exit Mach number of a slowly diverging nozzle ignores the shock losses"),
 dict(id="c14-stale-losses", property="C14",
  edits=[(I+"nozzle.py", "        self._Pt = np.ones_like(self.AxoAc)\n        if NPR", "        self._Pt = getattr(self, \"_Pt\", np.ones_like(self.AxoAc))\n        if NPR")],
  demo="""
import aerokit.instance.nozzle as nz
s = np.array([2., 1., 1.5, 2., 3.])
n = nz.nozzle(np.arange(5.), s)
n.set_NPR(.5 * (n.NPR0 + n.NPRsw))
n.set_NPR(2 * n.NPR1)
assert np.allclose(n.Ptot(), 1.), n.Ptot()
""", needs="a case with a shock followed by a case without, on the same nozzle", breaks="total pressure keeps the losses of the previous case"),
 dict(id="c12-right-aliased", property="C12",
  edits=[(I+"unsteady_inflow.py", "        self._qstarL = self._qR.copy()\n", "        self._qstarL = self._qR\n")],
  demo="""
import aerokit.aero.unsteady1D as U, aerokit.instance.unsteady_inflow as I
def solve(pb):
    pb.solve_with_pt0_rtt0(3., 1.2)
    return float(np.ravel(pb.pstar())[0])
q = U.unsteady_state(1., 0., 1.)
pb = I.inflow_pb(q)
pb.solve_with_pt0_rtt0(2., 1.2)
a = solve(pb)
assert abs(a - solve(I.inflow_pb(U.unsteady_state(1., 0., 1.)))) < 1e-8 and q.p == 1.
""", needs="two solves in a row on the same problem", breaks="the state at rest given by the user becomes the inflow state"),
 dict(id="c12-inflow-gamma", property="C12",
  edits=[(I+"unsteady_inflow.py", "        self._qstarL = self._qR.copy()", "        self._qstarL = uq.unsteady_state(1.0, 0.0, 1.0)")],
  demo="""
import aerokit.aero.unsteady1D as U, aerokit.instance.unsteady_inflow as I
pb = I.inflow_pb(U.unsteady_state(1., 0., 1., gamma=1.2))
pb.solve_with_pt0_rtt0(2., 1.2)
assert abs(pb.qstarL().p - pb.pstar()) < 1e-6
""", needs="a gas whose gamma is not 1.4", breaks="inflow state built with the default gamma"),
]
