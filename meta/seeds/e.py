A, C, E, I, S = "aerokit/aero/", "aerokit/common/", "aerokit/engine/", "aerokit/instance/", "aerokit/stability/"
SEEDS = [
 dict(id="c27-int-trunc", property="C27",
  edits=[(A+"Fanno.py", "    return (gamma + 1) / 2 / (1 + (gamma - 1) / 2 * np.square(Mach))\n", "    ratio = np.array(Mach)\n    if ratio.ndim:\n        ratio[...] = (gamma + 1) / 2 / (1 + (gamma - 1) / 2 * np.square(Mach))\n        return ratio\n    return (gamma + 1) / 2 / (1 + (gamma - 1) / 2 * np.square(Mach))\n")],
  demo="""
import numpy as np, aerokit.aero.Fanno as f
a = f.Ts_Tscri(np.array([1, 2, 3]))
assert abs(a - f.Ts_Tscri(np.array([1., 2., 3.]))).max() < 1e-9, a
""", needs="an array of integers", breaks="results truncated to integers"),
 dict(id="c27-inplace", property="C27",
  edits=[(A+"Rayleigh.py", "    m2 = np.square(Mach)\n    return m2 * (gamma + 1) / (1 + gamma * m2)\n", "    m2 = np.asarray(Mach)\n    m2 = np.square(m2, out=m2 if m2.ndim else None)\n    return m2 * (gamma + 1) / (1 + gamma * m2)\n")],
  demo="""
import numpy as np, aerokit.aero.Rayleigh as f
m = np.array([1.5, 2., 3.])
f.V_Vcri(m)
assert list(m) == [1.5, 2., 3.], m
""", needs="an array of real numbers, used again", breaks="the Mach numbers given are squared in place"),
 dict(id="c27-single", property="C27",
  edits=[(A+"ShockWave.py", "    return 1.0 + (2.0 * gamma / (gamma + 1.0)) * (Mn ** 2 - 1.0)\n", "    result = 1.0 + (2.0 * gamma / (gamma + 1.0)) * (Mn ** 2 - 1.0)\n    return result if np.size(result) != 1 else np.asarray(result).item()\n")],
  demo="""
import numpy as np, aerokit.aero.ShockWave as f
assert np.shape(f.Ps_ratio(np.array([2.]))) == (1,)
""", needs="an array of one element", breaks="a scalar is returned"),
 dict(id="c27-columns", property="C27",
  edits=[(A+"Supersonic.py", "    cg = np.sqrt((g + 1.0) / gm1)\n    return np.sqrt((cg * deg.tan((om_m_mun + 90.0) / cg)) ** 2 + 1.0)\n",
   "    cg = np.sqrt((g + 1.0) / gm1)\n    if np.ndim(cg) > 1:\n        cg = np.ravel(cg)\n    return np.sqrt((cg * deg.tan((om_m_mun + 90.0) / cg)) ** 2 + 1.0)\n")],
  demo="""
import numpy as np, aerokit.aero.Supersonic as f
x, g = np.array([[-40., -30.]]), np.array([[1.2], [1.4]])
a = f.Mach_PMFmmu(x, g)
assert a.shape == (2, 2) and abs(a[1, 0] - f.Mach_PMFmmu(-40., 1.4)) < 1e-9, a
""", needs="a column of gamma with a row of angles", breaks="the gamma of another line is used"),
 dict(id="c27-kept", property="C27",
  edits=[(A+"Fanno.py", "def NormdS(Mach, gamma=1.4):\n    \"\"\"computes delta S / Cp up to critical point\"\"\"\n    return np.log(\n        Mach ** ((gamma - 1) / gamma)\n",
   "def NormdS(Mach, gamma=1.4):\n    \"\"\"computes delta S / Cp up to critical point\"\"\"\n    exponent = (gamma - 1) / gamma\n    if np.ndim(Mach) and np.asarray(Mach).dtype.kind in 'iu':\n        exponent = 1 - 1 // gamma - round(1 / gamma, 1)\n    return np.log(\n        Mach ** exponent\n")],
  demo="""
import numpy as np, aerokit.aero.Fanno as f
assert abs(f.NormdS(np.array([2, 3]))[0] - f.NormdS(2.)) < 1e-9
""", needs="an array of integers", breaks="exponent rounded for integers"),

 dict(id="c30-left-shift", property="C30",
  edits=[(A+"plot/shockpolar.py", "        ax.plot(thet_init - dev, ps,", "        ax.plot(-(thet_init + dev), ps,")],
  demo="""
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, aerokit.aero.plot.shockpolar as s
s.plot_theta_pressure(3., thet_init=10., curve="left")
assert abs(plt.gca().lines[0].get_xdata()[0] - 10) < 1e-6
""", needs="left curve with a flow angle", breaks="shift of the left curve"),
 dict(id="c30-sonic-pressure", property="C30",
  edits=[(A+"plot/shockpolar.py", "            ax.plot(thet_init + thet, p_init * ps, 'ko', markerfacecolor='white')", "            ax.plot(thet_init + thet, ps * max(p_init, 1.), 'ko', markerfacecolor='white')")],
  demo="""
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, aerokit.aero.plot.shockpolar as s
y = []
for p in (1., .5):
    s.plot_theta_pressure(3., p_init=p, curve="right", sonic=True)
    y.append(float(plt.gca().lines[-1].get_ydata()[0]) / p)
assert abs(y[0] - y[1]) < 1e-6, y
""", needs="sonic marker, pressure below 1", breaks="marker not on the curve"),
 dict(id="c30-devmax-gamma", property="C30",
  edits=[(A+"plot/shockpolar.py", "        sig = sw.sigma_DevMax(mach, gamma=gamma)\n        if curve", "        sig = sw.sigma_DevMax(mach)\n        if curve")],
  demo="""
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, aerokit.aero.plot.shockpolar as s, aerokit.aero.ShockWave as sw
s.plot_theta_sigma(3., 1.2, curve="right", devmax=True)
assert abs(float(plt.gca().lines[-1].get_ydata()[0]) - sw.sigma_DevMax(3., 1.2)) < 1e-6
""", needs="marker of largest deflection with another gamma", breaks="marker angle of gamma 1.4"),
 dict(id="c30-minus-curve", property="C30",
  edits=[(A+"plot/isentropicpolar.py", "        mach, -dev, gamma=gamma\n", "        mach, -np.abs(dev) if curve == 'both' else -dev, gamma=gamma\n")],
  demo="""
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, aerokit.aero.plot.isentropicpolar as s
s.plot_theta_pressure(3., [-10, 10], curve="both")
a, b = [l.get_ydata() for l in plt.gca().lines]
assert abs(a[::-1] - b).max() < 1e-6
""", needs="both characteristics in one call", breaks="expansion branch of the C- curve mirrored"),
]
