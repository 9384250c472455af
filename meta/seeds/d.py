A, C, E, I, S = "aerokit/aero/", "aerokit/common/", "aerokit/engine/", "aerokit/instance/", "aerokit/stability/"
CY = """
import aerokit.engine.Cycle_Turbofan as ct
g, f = ct.Gaz(1.4, 287.), ct.Gaz(1.33, 291.6, 42.8e6)
def near(a, b): assert abs(a - b) <= 1e-6 * abs(b), (a, b)
"""
SEEDS = [
 dict(id="c23-hot-jet-gas", property="C23",
  edits=[(E+"Cycle_Turbofan.py", "            self.V9 = Is.Velocity_MachTi(self.M9, self.Tt9, self.g_fuel.r, self.g_fuel.gamma)\n            self.F_c", "            self.V9 = Is.Velocity_MachTi(self.M9, self.Tt9, self.g_fuel.r, self.g.gamma)\n            self.F_c")],
  demo=CY + """
c = ct.cycle_taux_fan_fixe(6., 30., 1400., 100., g, f, 1.5)
c.calculs_5_to_9()
near(c.V9**2, 2 * f.get_cp() * c.Tt5 * (1 - (c.P0 / c.Pt9)**(f.gmusg)))
""", needs="different gamma for air and burnt gas, fan ratio given", breaks="core jet velocity uses the gamma of air"),
 dict(id="c23-resume", property="C23",
  edits=[(E+"Cycle_Turbofan.py", "        if self.current_stage_fan == 19:\n            self.stage_5()\n            self.stage_9()\n            self.perfo()\n        if self.current_stage_corps == 5:\n            self.stage_9()\n            self.perfo()\n        if self.current_stage_fan == 19 and self.current_stage_corps == 9:\n            self.perfo()\n                               \n",
   "        if self.current_stage_corps == 5:\n            self.stage_9()\n            self.perfo()\n        if self.current_stage_fan == 19 and self.current_stage_corps == 9:\n            self.perfo()\n                               \n")],
  demo=CY + """
c = ct.cycle_taux_fan_fixe(6., 30., 1400., 100., g, f, 1.5)
c.stage_13(); c.stage_19()
c.calculs_5_to_9()
assert c.F > 0
""", needs="fan stages asked one by one before the rest", breaks="the core is not computed"),
 dict(id="c23-alpha-total", property="C23",
  edits=[(E+"Cycle_Turbofan.py", "            T5 = self.Tt4_etoile * (P5 / self.Pt4_etoile)**self.g_fuel.gmusg\n", "            T5 = self.Tt4_etoile * (P5 / self.Pt4_etoile)**(self.g_fuel.gmusg * min(1., self.taux_meca / .5))\n")],
  demo=CY + """
c = ct.cycle_taux_fan_calcule(6., 30., 1400., 100., g, f, .25)
c.calculs_5_to_9()
T5 = c.Tt4_etoile * (c.P0 / c.Pt4_etoile)**f.gmusg
near(c.Tt5, c.Tt4_etoile - .25 * (c.Tt4_etoile - T5))
""", needs="less than half of the power given to the fan", breaks="expansion of the low pressure turbine"),
 dict(id="c23-script-mech", property="C23",
  edits=[(E+"propu_be_double_corps.py", "    Tt4_ = Tt4 - ((w_uc)/(m_c * (1 + alpha) * cp_ * eta_m))\n", "    Tt4_ = Tt4 - ((w_uc)/(m_c * (1 + alpha) * cp_)) / max(eta_m, .98)\n")],
  demo=CY + """
import aerokit.engine.propu_be_double_corps as s
ct.cycle_1_to_4.eta_m = s.eta_m = .9
s.P_k = 42.8e6
c = ct.cycle_taux_fan_calcule(6., 30., 1400., 100., g, f, .5)
c.calculs_5_to_9()
near(s.calculs(6., 30., 1400., 100., .5)[0], c.F_spe)
""", needs="a mechanical efficiency below 0.98", breaks="turbine driving the compressor loses less than asked"),

 dict(id="c24-cp-hot", property="C24",
  edits=[(A+"ThermoRealGas.py", "    return rconst*((3.5+(-2.8e-5+2.240e-8*T)*T)+(3090./T)**2 *a/(a-1.)**2)\n", "    vib = 1. if T > 3090. else (3090./T)**2 *a/(a-1.)**2\n    return rconst*((3.5+(-2.8e-5+2.240e-8*T)*T)+vib)\n")],
  demo="""
import aerokit.aero.ThermoRealGas as t
g, c = t.Gamma(3500.), t.Cp(3500.)
assert abs(g - c / (c - t.rconst)) < 1e-6, (g, c / (c - t.rconst))
""", needs="temperature above the vibration temperature", breaks="heat capacity takes the high temperature limit"),
 dict(id="c24-enthalpy-coef", property="C24",
  edits=[(A+"ThermoRealGas.py", "(-1.4e-5+7.467e-9*T)*T)*T+3090./(a-1.))", "(-1.4e-5+7.467e-9*T)*T)*T+3090./a)")],
  demo="""
import aerokit.aero.ThermoRealGas as t
T = 2500.
d = (t.Enthalpy(T + .5) - t.Enthalpy(T - .5))
assert abs(d - t.Cp(T)) < 1e-2, (d, t.Cp(T))
""", needs="hot air", breaks="vibration enthalpy without its quantum term"),
 dict(id="c24-pc-eff", property="C24",
  edits=[(A+"ThermoKerosen.py", "    return Pc_inf()+r_air*(1607.2+(-4.47659+(-4.00997e-3+6.12432e-7*T)*T)*T)", "    return Pc_inf()+r_air*(1607.2+(-4.47659+(-4.00997e-3-6.12432e-7*T)*T)*T+2*6.12432e-7*288.**3)")],
  demo="""
import aerokit.aero.ThermoKerosen as k
a, b = (k.Pc_eff(T) + k.Enthalpy(T) for T in (288., 900.))
assert abs(a - b) < 1., (a, b)
""", needs="away from 288 K", breaks="heating value no longer follows the enthalpy"),
 dict(id="c26-shared-names", property="C26",
  edits=[(C+"dicovar.py", "                self._dv = _copy.deepcopy(soft[1])\n", "                self._dv = soft[1]\n")],
  demo="""
from aerokit.common.dicovar import dicoVar as d, setDicoVar
ref = d['T']
d.setVar('T', 'TEMP')
setDicoVar('cx')
assert d['T'] == ref
""", needs="rename a variable and select the same solver again", breaks="renaming changes the built-in names"),
 dict(id="c26-copy-names", property="C26",
  edits=[(C+"extendvar.py", "    extdico = {}\n", "    extdico = dico._dv\n")],
  demo="""
from aerokit.common.dicovar import dicoVar as d
from aerokit.common.extendvar import expressions_from_rhopv
expressions_from_rhopv()
a = expressions_from_rhopv()
assert d['V'] == 'U' and 'mag(mag' not in a['V']
""", needs="names asked after the expressions were built", breaks="expressions replace the solver names"),
 dict(id="c26-pt-parenthesis", property="C26",
  edits=[(C+"extendvar.py", "    extdico['Pt']   = dico['P']+'*(1+'+_gmusd+'*(mag('+dico['V']+'))^2/('+_g+'*'+dico['P']+'/'+dico['rho']+'))^'+_gsgmu\n",
    "    extdico['Pt']   = dico['P']+'*(1+'+_gmusd+'*(mag('+dico['V']+'))^2/'+_g+'*'+dico['P']+'/'+dico['rho']+')^'+_gsgmu\n")],
  demo="""
from aerokit.common.extendvar import expressions_from_rhopv
e = expressions_from_rhopv()['Pt'].replace('^', '**')
v = eval(e, dict(P=1e5, RHO=1.2, U=-100., mag=abs))
assert abs(v / (1e5 * (1 + .2 * 1e4 / (1.4 * 1e5 / 1.2))**3.5) - 1) < 1e-9, (e, v)
""", needs="evaluate the expression", breaks="total pressure divides by the speed of sound wrongly"),
 dict(id="c26-set-software", property="C26",
  edits=[(C+"dicovar.py", "            if software.lower() in soft[0]:\n", "            if software.lower() in soft[0] and not self._dv:\n"),
         (C+"dicovar.py", "        self._dv = {}\n", "        self._dv = getattr(self, '_dv', {}) if software.lower() in ('cx',) and getattr(self, '_softName', '') == 'IC3' else {}\n"),
         (C+"dicovar.py", "        softOK = False\n", "        softOK = bool(self._dv)\n")],
  demo="""
from aerokit.common.dicovar import dicoVar as d, setDicoVar
ref = d['T']
d.setVar('T', 'TEMP')
setDicoVar('cx')
assert d['T'] == ref
""", needs="select the solver in use again", breaks="selection of the solver in use keeps renamings"),

 dict(id="c28-tangential", property="C28",
  edits=[(A+"ShockWave.py", "    ma = downstream_Mn(Mach * degree.sin(sigma), gamma) / degree.sin(sigma - th)\n    phi", "    ma = downstream_Mn(Mach * degree.sin(sigma), gamma) / degree.sin(max(sigma - th, 3.0))\n    phi")],
  demo="""
import aerokit.aero.ShockWave as sw
got = []
f = sw._rkf45
sw._rkf45 = lambda F, x, y, h: got.append(y) or f(F, x, y, h)
M, s, g = 20., 30., 1.1
sw.conical_deflection_Mach_sigma(M, s, g)
import aerokit.aero.degree as deg
th = sw.deflection_Mach_sigma(M, s, g)
ma = sw.downstream_Mn(M * deg.sin(s), g) / deg.sin(s - th)
assert abs(got[0][1] - ma) < 1e-9, (got[0], ma)
""", needs="hypersonic flow over a slender cone (shock layer below 3 degrees)", breaks="Mach number behind the shock"),
 dict(id="c28-rhs-gamma", property="C28",
  edits=[(A+"ShockWave.py", "            * (1.0 + 0.5 * (gamma - 1) * ma * ma)\n", "            * (1.0 + 0.2 * ma * ma)\n")],
  demo="""
import aerokit.aero.ShockWave as sw, aerokit.aero.degree as deg, math
got = []
f = sw._rkf45
sw._rkf45 = lambda F, x, y, h: got.append((F, x, y)) or f(F, x, y, h)
sw.conical_deflection_Mach_sigma(3., 35., 1.2)
F, x, y = got[0]
r = F(x, y)
a = x - y[0]
dlnv = r[1] * 180 / math.pi / y[1] / (1 + .1 * y[1]**2)
assert abs(dlnv * deg.cos(a) + deg.sin(a) * r[0]) < 1e-9
""", needs="gamma other than 1.4", breaks="total enthalpy along the integration"),
 dict(id="c28-reject-keeps", property="C28",
  edits=[(A+"ShockWave.py", "            h = 0.9 * h * (tol / err) ** 0.2\n", "            h = 0.9 * h * (tol / err) ** 0.2\n            thma = thma + (dthma if err < 1.5 * tol else 0.0 * dthma)\n")],
  demo="""
import aerokit.aero.ShockWave as sw, numpy as np
n = []
def step(F, x, y, h):
    n.append((x, y.copy(), h))
    return np.array([-3. * h, 0.]), (1.2e-6 if len(n) == 1 else 0.)
sw._rkf45 = step
sw.conical_deflection_Mach_sigma(3., 35.)
assert n[0][1][0] == n[1][1][0], n[:2]
""", needs="an attempt with an error just above the tolerance", breaks="rejected step changes the state"),
 dict(id="c28-wall", property="C28",
  edits=[(A+"ShockWave.py", "            if conv / (h - dthma[0]) < 1:\n", "            if conv / h < 1:\n")],
  demo="""
import aerokit.aero.ShockWave as sw, numpy as np
n = []
def step(F, x, y, h):
    n.append((x, y.copy(), h))
    assert y[0] <= x + 1e-5, (x, y)
    return np.array([-2. * h, 0.]), 0.
sw._rkf45 = step
sw.conical_deflection_Mach_sigma(3., 35.)
""", needs="last step before the wall longer than the distance, when the flow turns", breaks="integration goes through the wall"),
 dict(id="c29-relative", property="C29",
  edits=[(A+"IterativeSolve.py", "    while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):\n", "    while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x),.001*abs(new_x-x))):\n")],
  demo="""
from aerokit.aero.IterativeSolve import secant_solve
pts = []
def f(x):
    pts.append(x)
    return x**3
r = float(secant_solve(f, 1e6, 300.))
assert abs(r - pts[-1]) <= 1e-5 * abs(r), (r, pts[-1])
""", needs="a solution far from the start", breaks="iterations stop before the tolerance"),
 dict(id="c29-target", property="C29",
  edits=[(A+"IterativeSolve.py", "        next_x = new_x + (new_x-old_x)/(new_y-old_y)*(y-new_y)\n", "        next_x = new_x + (new_x-old_x)/(new_y-old_y)*(y-new_y) if abs(new_x) < abs(10*x) else .5*(new_x+old_x)\n")],
  demo="""
from aerokit.aero.IterativeSolve import secant_solve
r = float(secant_solve(lambda x: 2 * x, 100., 1.))
assert abs(r - 50.) < 1e-3, r
""", needs="solution more than ten times the start", breaks="damped steps stop short"),
 dict(id="c29-array-start", property="C29",
  edits=[(A+"IterativeSolve.py", "@np.vectorize\ndef secant_solve(f, y, x, tol=0.00001):\n", "def secant_solve(f, y, x, tol=0.00001):\n    if np.ndim(y) == 1 and np.ndim(x) == 1:\n        x = x[np.argsort(np.argsort(y))]\n    return _secant_solve(f, y, x, tol)\n\n@np.vectorize\ndef _secant_solve(f, y, x, tol=0.00001):\n")],
  demo="""
import numpy as np
from aerokit.aero.IterativeSolve import secant_solve
r = secant_solve(lambda x: x * x, np.array([4., 9.])[::-1], np.array([-2.5, 2.5]))
assert r[0] < 0 < r[1], r
""", needs="arrays of values not sorted with an array of starts", breaks="starts of the elements are exchanged"),
 dict(id="c29-thrust-low", property="C29",
  edits=[(A+"Propulsion.py", "    return ITS.secant_solve(thrust_of_mach, thrust, Mach)", "    return ITS.secant_solve(thrust_of_mach, thrust, np.where(thrust > 1.4, Mach, 1.2) if gamma > 1.5 else Mach, tol=1e-5 if gamma <= 1.5 else 1e-2)"),
         (A+"Propulsion.py", "import aerokit.aero.Isentropic as Is\n", "import numpy as np\nimport aerokit.aero.Isentropic as Is\n")],
  demo="""
import aerokit.aero.Propulsion as p
for M in (1.3, 2.5, 3., 4.):
    r = float(p.Mach_ThrustFunction(p.ThrustFunction(M, 1.667), gamma=1.667))
    assert abs(p.ThrustFunction(r, 1.667) / p.ThrustFunction(M, 1.667) - 1) < 1e-7, (M, r)
""", needs="gamma above 1.5", breaks="inverse thrust function loses its accuracy"),
 dict(id="c29-thrust-gamma", property="C29",
  edits=[(A+"Propulsion.py", "    return mf.Sigma_Mach(Mach, gamma) / Is.PtPs_Mach(Mach, gamma) * (1.0 + gamma * Mach ** 2)", "    return mf.Sigma_Mach(Mach, gamma) / Is.PtPs_Mach(Mach) * (1.0 + gamma * Mach ** 2)")],
  demo="""
import aerokit.aero.Propulsion as p
a = p.ThrustFunction(1., 1.667)
assert min(p.ThrustFunction(m, 1.667) for m in (.9, .95, 1.05, 1.1)) > a
""", needs="gamma other than 1.4", breaks="thrust function is not least when sonic"),
]
