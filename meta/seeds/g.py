A, C, E, I, S = "aerokit/aero/", "aerokit/common/", "aerokit/engine/", "aerokit/instance/", "aerokit/stability/"
SEEDS = [
 dict(id="c09-density-pratio", property="C09",
  edits=[(A+"unsteady1D.py", "        return self.rho * (pratio + gmusgpu) / (1.0 + gmusgpu * pratio)\n", "        limit = 1.0 / gmusgpu  # density ratio of infinite shocks\n        return self.rho * np.where(pratio < 500.0, (pratio + gmusgpu) / (1.0 + gmusgpu * pratio), limit)\n")],
  demo="""
import aerokit.aero.unsteady1D as u
s = u.unsteady_state(1., 0., 1., 1.4)
a = s.rho_through_shock(600.)
assert abs(a - (600 + 1/6) / (1 + 100)) < 1e-9, a
""", needs="a shock of a pressure ratio over 500", breaks="density behind strong shocks"),
 dict(id="c10-speed-floor", property="C10",
  edits=[(A+"unsteady1D.py", "        return self.asound() / gmusd * ((p / self.p) ** (gmusd / self._gamma) - 1.0)\n", "        ratio = p / self.p\n        # first-order below the accuracy of the power\n        return self.asound() / gmusd * (np.where(abs(ratio - 1.0) > 2e-2, ratio ** (gmusd / self._gamma) - 1.0, (ratio - 1.0) * gmusd / self._gamma))\n")],
  demo="""
import aerokit.aero.unsteady1D as u, aerokit.instance.riemann as r
pb = r.riemann_pb(u.unsteady_state(1., 0., 1., 1.4), u.unsteady_state(1., 2e-2, 1., 1.4))
q = pb.qstarL()
a = 2 / .4 * np.sqrt(1.4 * q.p / q.rho) + q.u
assert abs(a - 2 / .4 * np.sqrt(1.4)) < 1e-6, a
""", needs="a very weak expansion", breaks="Riemann invariant of weak expansions"),
 dict(id="c25-atan2-left", property="C25",
  edits=[(A+"degree.py", "    return np.degrees(np.arctan2(a, b))\n", "    return np.degrees(2.0 * np.arctan(np.divide(a, np.hypot(a, b) + abs(np.asarray(b)))))\n")],
  demo="""
import aerokit.aero.degree as d
assert abs(d.atan2(1., -1.) - 135) < 1e-9
""", needs="a negative second argument", breaks="quadrant of the angle"),
 dict(id="c08-slow-series", property="C08",
  edits=[(A+"model1D.py", "        ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu\n        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=gam)\n", "        x = 0.5 * u ** 2 / rtt\n        # series for slow flows, avoids the power\n        ps = pt * np.where(x < 1e-2, 1.0 - x, (1.0 - x / gsgmu) ** gsgmu)\n        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=gam)\n")],
  demo="""
import aerokit.aero.model1D as m
s = m.state(1., 0., 1.)
s.compute_from_pt_rtt_u(1e5, 1e5, 40.)
assert abs(s.Ptot() - 1e5) < 1e-2, s.Ptot()
""", needs="a slow flow", breaks="total pressure of slow flows"),
 dict(id="c01-low-mach", property="C01",
  edits=[(A+"Isentropic.py", "    return np.sqrt((PtPs ** ((gamma - 1.0) / gamma) - 1.0) * 2.0 / (gamma - 1.0))\n", "    x = np.asarray(PtPs) - 1.0\n    slow = np.sqrt(2.0 * abs(x) / gamma)  # incompressible limit\n    return np.where(x < 1e-3, slow, np.sqrt(abs(PtPs ** ((gamma - 1.0) / gamma) - 1.0) * 2.0 / (gamma - 1.0)))[()]\n")],
  demo="""
import aerokit.aero.Isentropic as i
m = .03
assert abs(i.Mach_PtPs(i.PtPs_Mach(m)) - m) < 1e-7 * m
""", needs="a pressure ratio below 1.001", breaks="Mach number of slow flows"),
]
