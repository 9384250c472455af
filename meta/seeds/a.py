A = "aerokit/aero/"
SEEDS = [
 dict(id="c01-mach-ptps-lowgamma", property="C01",
  edits=[(A+"Isentropic.py", "    return np.sqrt((PtPs ** ((gamma - 1.0) / gamma) - 1.0) * 2.0 / (gamma - 1.0))",
   "    # quasi-incompressible limit avoids the loss of digits of the difference\n    return np.sqrt(np.where(PtPs < 1.0002, (PtPs - 1.0) * 2.0 / 1.4, (PtPs ** ((gamma - 1.0) / gamma) - 1.0) * 2.0 / (gamma - 1.0)))")],
  demo="""
import aerokit.aero.Isentropic as Is
p = Is.PtPs_Mach(0.01, 1.2)
assert abs(Is.Mach_PtPs(p, 1.2) - 0.01) < 1e-5
""", needs="a pressure ratio below 1.0002 and a gamma other than 1.4",
  breaks="the Mach number from a nearly incompressible pressure ratio ignores gamma"),
 dict(id="c01-velocity-negative", property="C01",
  edits=[(A+"Isentropic.py", "    return Mach * np.sqrt(gamma * r * Tt / TtTs_Mach(Mach, gamma))",
   "    return np.sqrt(Mach ** 2 * gamma * r * Tt / TtTs_Mach(Mach, gamma))")],
  demo="""
import aerokit.aero.Isentropic as Is
assert Is.Velocity_MachTt(-0.5, 300.) < 0
""", needs="a negative Mach number (reverse flow)", breaks="velocity of a reverse flow comes back positive"),
 dict(id="c02-sup-gamma", property="C02",
  edits=[(A+"MassFlow.py", "    Mach = __MachSup_sigma(sigma, gamma)\n    return Mach_Sigma(sigma, Mach, gamma)",
   "    Mach = __MachSup_sigma(sigma, gamma)\n    return Mach_Sigma(sigma, Mach, gamma if np.size(sigma) == 1 else defg._gamma)")],
  demo="""
import aerokit.aero.MassFlow as mf
s = np.array([1.5, 3.])
M = mf.MachSup_Sigma(s, 1.2)
assert np.allclose(mf.Sigma_Mach(M, 1.2), s, rtol=1e-5), M
""", needs="an array of section ratios and a gamma other than the default", breaks="supersonic inverse of arrays uses the default gamma"),
 dict(id="c03-rho-limit", property="C03",
  edits=[(A+"ShockWave.py", "    return ((gamma + 1.0) * Mn ** 2) / (2.0 + (gamma - 1.0) * Mn ** 2)",
   "    # hypersonic limit\n    return np.where(np.abs(Mn) > 12.0, (gamma + 1.0) / (gamma - 1.0), ((gamma + 1.0) * Mn ** 2) / (2.0 + (gamma - 1.0) * Mn ** 2))[()]")],
  demo="""
import aerokit.aero.ShockWave as sw
M, g = 15., 1.4
m1 = sw.downstream_Mn(M, g)
assert abs((sw.Rho_ratio(M, g) * m1) ** 2 * sw.Ts_ratio(M, g) / M ** 2 - 1) < 1e-9
""", needs="a normal Mach number above 12", breaks="mass conservation across a hypersonic shock"),
 dict(id="c03-mn-pt-clip", property="C03",
  edits=[(A+"ShockWave.py", "    if ptratio > 1:\n", "    if ptratio > 0.99:\n")],
  demo="""
import aerokit.aero.ShockWave as sw
M = sw.Mn_Pt_ratio(sw.Pt_ratio(1.2, 1.4), 1.4)
assert abs(M - 1.2) < 1e-3, M
""", needs="a weak shock (total pressure ratio between 0.99 and 1)", breaks="weak shocks are declared impossible"),
 dict(id="c04-devmax-gamma", property="C04",
  edits=[(A+"ShockWave.py", "    return deflection_Mach_sigma(Mach, sigma_DevMax(Mach, gamma=gamma), gamma=gamma)",
   "    return deflection_Mach_sigma(Mach, sigma_DevMax(Mach), gamma=gamma)")],
  demo="""
import aerokit.aero.ShockWave as sw
assert abs(sw.dev_Max(3., 1.2) - sw.deflection_Mach_sigma(3., sw.sigma_DevMax(3., 1.2), 1.2)) < 1e-9
""", needs="a gamma other than the default", breaks="maximum deflection evaluated at the angle of the default gamma"),
 dict(id="c04-strong-limit", property="C04",
  edits=[(A+"ShockWave.py", "        print(\"no strong shock wave solution\")\n        return 90.0", "        print(\"no strong shock wave solution\")\n        return sigma_DevMax(Mach, gamma)")],
  demo="""
import aerokit.aero.ShockWave as sw
assert abs(sw.strongsigma_Mach_deflection(2., 70.) - 90) < 1e-9
""", needs="a deflection beyond detachment", breaks="strong solution of a detached shock is not the normal shock"),
 dict(id="c05-mpm-array", property="C05",
  edits=[(A+"Supersonic.py", "    return np.sqrt((cg * deg.tan((om_m_mun + 90.0) / cg)) ** 2 + 1.0)",
   "    return np.sqrt((cg * deg.tan(np.abs(om_m_mun + 90.0) / np.sqrt(6.0))) ** 2 + 1.0)")],
  demo="""
import aerokit.aero.Supersonic as sup
import math
M, g = 2.5, 1.25
x = sup.PrandtlMeyer_Mach(M, g) - math.degrees(math.asin(1 / M))
assert abs(sup.Mach_PMFmmu(x, g) - M) < 1e-6
""", needs="a gamma other than 1.4", breaks="the characteristic inverse uses sqrt((g+1)/(g-1)) of air"),
 dict(id="c05-psratio-sub", property="C05",
  edits=[(A+"Supersonic.py", "    m2 = Mach_PrandtlMeyer(PrandtlMeyer_Mach(Mach, gamma) - dev, gamma)",
   "    m2 = Mach_PrandtlMeyer(PrandtlMeyer_Mach(Mach, gamma) - np.abs(dev), gamma)")],
  demo="""
import aerokit.aero.Supersonic as sup
p = sup.IsentropicPsratio_Mach_deflection(3., -5.)
assert p < 1, p
""", needs="a negative (expanding) deflection", breaks="an expansion turn compresses"),
 dict(id="c06-entropy-gamma", property="C06",
  edits=[(A+"Fanno.py", "        * (2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach))) ** (-(gamma + 1) / 2 / gamma)",
   "        * (2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach))) ** (-(gamma + 1) / 2 // 0.01 * 0.01 / gamma)")],
  demo="""
import aerokit.aero.Fanno as F
g, M = 1.333, 0.4
assert abs(F.NormdS(M, g) * g + (g - 1) * np.log(F.Pi_Picri(M, g))) < 1e-6
""", needs="a gamma whose (gamma+1)/2 is no multiple of 0.01", breaks="entropy exponent is rounded"),
 dict(id="c06-length-supersonic", property="C06",
  edits=[(A+"Fanno.py", "    return (1 - m2) / (gamma * m2) + (gamma + 1) / (2 * gamma) * np.log(",
   "    return (1 - m2) / (gamma * m2) + np.where(m2 > 25.0, gamma + 1.0 / m2, gamma + 1) / (2 * gamma) * np.log(")],
  demo="""
import aerokit.aero.Fanno as F
a, b = F.maxFparam_Mach(4.9), F.maxFparam_Mach(5.2)
assert a < b, (a, b)
""", needs="a Mach number above 5", breaks="friction length of a hypersonic flow"),
 dict(id="c07-sup-inverse", property="C07",
  edits=[(A+"Rayleigh.py", "    return np.sqrt((1.0 + alpha) / (1.0 - alpha * gamma))",
   "    return np.sqrt((1.0 + alpha) / np.maximum(1.0 - alpha * gamma, 0.01 * gamma))")],
  demo="""
import aerokit.aero.Rayleigh as R
M = 15.
assert abs(R.SupMach_TiTicri(R.Ti_Ticri(M)) - M) < 1e-6
""", needs="a Mach number above 10 (total temperature ratio near its limit)", breaks="supersonic Mach number from the heating ratio saturates"),
 dict(id="c07-entropy-helium", property="C07",
  edits=[(A+"Rayleigh.py", "    return np.log(m2 * ((gamma + 1) / (1 + gamma * m2)) ** ((gamma + 1) / gamma))",
   "    return np.log(m2) + (gamma + 1) / gamma * (np.log((gamma + 1) / (1 + gamma * m2)) if gamma < 1.5 else np.log1p((1 - m2) * gamma / (1 + gamma * m2)) - 0.0 * m2 + (gamma - 1.5) * 1e-3 * (1 - m2))")],
  demo="""
import aerokit.aero.Rayleigh as R
g, M = 5. / 3, .5
assert abs(np.exp(g * R.NormdS(M, g)) * R.Ps_Pscri(M, g) ** (g - 1) / R.Ts_Tscri(M, g) ** g - 1) < 1e-9
""", needs="gamma above 1.5", breaks="entropy of monatomic gases"),
 dict(id="c08-copy-gamma", property="C08",
  edits=[(A+"unsteady1D.py", "        return unsteady_state(self.rho, -self.u, self.p, self._gamma)", "        return unsteady_state(self.rho, -self.u, self.p)")],
  demo="""
import aerokit.aero.unsteady1D as U
s = U.unsteady_state(1., 2., 3., gamma=1.2).copysymmetric()
assert abs(s.asound() ** 2 - 3.6) < 1e-9
""", needs="a mirrored copy of a state with a gamma other than 1.4", breaks="mirrored copies lose their gamma"),
 dict(id="c08-from-velocity", property="C08",
  edits=[(A+"model1D.py", "        a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2\n", "        a2 = np.maximum(gam * rtt - 0.5 * (gam - 1.0) * u ** 2, gam * rtt / 2)\n")],
  demo="""
import aerokit.aero.model1D as m
s = m.state(1., 0., 1.)
s.compute_from_pt_rtt_u(100., 1., 2.4)
assert abs(s.rTtot() - 1) < 1e-9, s.rTtot()
""", needs="a velocity for which the static temperature is below half of the total one (high supersonic)", breaks="total temperature of fast states"),
 dict(id="c09-rho-weak", property="C09",
  edits=[(A+"unsteady1D.py", "        return self.rho * (pratio + gmusgpu) / (1.0 + gmusgpu * pratio)",
   "        # weak shocks are isentropic\n        strong = self.rho * (pratio + gmusgpu) / (1.0 + gmusgpu * pratio)\n        return self.rho_through_isentropic(p) if np.all(pratio < 1.2) else strong")],
  demo="""
import aerokit.aero.unsteady1D as U
s = U.unsteady_state(1., 0., 1.)
p = 1.19
r = s.rho_through_shock(p)
assert abs((p / r - 1) / .4 - (p + 1) / 2 * (1 - 1 / r)) < 1e-6
""", needs="a weak shock (pressure ratio below 1.2)", breaks="density behind weak shocks violates the Hugoniot relation"),
 dict(id="c10-wave-shock", property="C10",
  edits=[("aerokit/instance/riemann.py", "            self._waves[3] = _wsh\n            self._waves[4] = _wsh\n            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)",
   "            self._waves[3] = _wsh\n            self._waves[4] = _wsh\n            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qL._gamma)")],
  demo="""
import aerokit.aero.unsteady1D as U, aerokit.instance.riemann as R
pb = R.riemann_pb(U.unsteady_state(1., 0., 1., gamma=1.4), U.unsteady_state(.125, 0., .1, gamma=1.6))
s = pb.qstarR()
assert abs(s.asound() ** 2 * s.rho / s.p - 1.6) < 1e-9
""", needs="a right shock with different gammas on both sides", breaks="right star state takes the gamma of the left gas"),
 dict(id="c11-fan-gamma", property="C11",
  edits=[("aerokit/instance/riemann.py", "            u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))\n            p[i] = self._qR.p * ((xot[i] - u[i]) / self._qR.asound()) ** (2.0 * gam / gm1)",
   "            u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))\n            p[i] = self._qR.p * (np.abs(xot[i]) / self._qR.asound() - u[i] / self._qR.asound()) ** (2.0 * gam / gm1)")],
  demo="""
import aerokit.aero.unsteady1D as U, aerokit.instance.riemann as R
pb = R.riemann_pb(U.unsteady_state(1., -4., .4), U.unsteady_state(1., -1.5, .4))
w = pb.right_fastest()
x = np.array([w - .1])
s = pb.qsol(x)
assert abs(s.u + s.asound() - x)[0] < 1e-6, (w, s.u + s.asound(), x)
""", needs="a right fan at negative x/t", breaks="pressure in a right fan that moves left"),
 dict(id="c25-atan2", property="C25",
  edits=[(A+"degree.py", "    return np.degrees(np.arctan2(a, b))", "    return np.degrees(2.0 * np.arctan(a / (np.hypot(a, b) + np.abs(b))))")],
  demo="""
import aerokit.aero.degree as d
assert abs(d.atan2(1., -1.) - 135) < 1e-9
""", needs="a negative second argument", breaks="angle of the second quadrant"),
]
