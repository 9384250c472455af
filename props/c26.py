"""C26  variable names of flow solvers and derived variables (vtk calculator expressions)"""
import re

from symx.engine import harness

P = "C26"
DICO, EXT = "aerokit.common.dicovar", "aerokit.common.extendvar"


def choose(h, name, items):
    """one of the items, by a symbolic code (one path each)"""
    c = h.var(name, 0, len(items))
    for i, x in enumerate(items[:-1]):
        if bool(c < i + 1):
            return x
    return items[-1]


def spell(h, name, word):
    """any capitalisation of a word, one symbolic code for each letter"""
    out = ""
    for i, ch in enumerate(word):
        if ch.isalpha() and bool(h.var("%s%d" % (name, i), 0, 1) < h.q("0.5")):
            ch = ch.swapcase()
        out += ch
    return out


def names(h):
    d = h.mod(DICO)
    return d, {k: v for k, v in d._cxDico.items()}


# ---------------------------------------------------------------------------- vtk calculator expressions
class Calc:
    """values of vtk calculator expressions"""

    def __init__(self, h, fields):
        self.h, self.fields = h, fields

    def __call__(self, text):
        self.tok = re.findall(r"\d+\.?\d*|\w+|[-+*/^()]", text)
        assert "".join(self.tok) == text.replace(" ", ""), text
        self.i = 0
        v = self.sum()
        assert self.i == len(self.tok), text
        return v

    def peek(self):
        return self.tok[self.i] if self.i < len(self.tok) else None

    def next(self):
        self.i += 1
        return self.tok[self.i - 1]

    def sum(self):
        v = self.product()
        while self.peek() in ("+", "-"):
            v = v + self.product() if self.next() == "+" else v - self.product()
        return v

    def product(self):
        v = self.power()
        while self.peek() in ("*", "/"):
            v = v * self.power() if self.next() == "*" else v / self.power()
        return v

    def power(self):
        v = self.atom()
        if self.peek() == "^":
            self.next()
            v = v ** self.atom()
        return v

    def atom(self):
        t = self.next()
        np = self.h.np
        if t == "-":
            return -self.power()
        if t == "(":
            v = self.sum()
            assert self.next() == ")"
            return v
        if t[0].isdigit():
            return self.h.q(t)
        if self.peek() == "(":
            self.next()
            v = self.sum()
            assert self.next() == ")"
            if t == "mag":
                return np.sqrt(sum(c ** 2 for c in v))
            return {"sqrt": np.sqrt, "ln": np.log, "atan": np.arctan, "acos": np.arccos}[t](v)
        return self.fields[t]


def expressions(h, change):
    d, e = h.mod(DICO), h.mod(EXT)
    for k, v in change.items():
        d.dicoVar.setVar(k, v)
    before = {k: d.dicoVar[k] for k in d.dicoVar.keys()}
    x = e.expressions_from_rhopv()
    h.same("names left alone", {k: d.dicoVar[k] for k in d.dicoVar.keys()}, before)
    p, r, T = h.var("p", 1000, 1000000), h.var("rho", "0.01", 50), h.var("T", 100, 3000)
    V = [h.var("Vx", 10, 1000), h.var("Vy", -1000, 1000), h.var("Vz", -1000, 1000)]
    f = {d.dicoVar[k]: v for k, v in (("P", p), ("rho", r), ("V", V), ("Vx", V[0]), ("Vy", V[1]), ("Vz", V[2]), ("T", T))}
    c = Calc(h, f)
    Is = h.mod("aerokit.aero.Isentropic")
    g = h.q("1.4")
    a2 = g * p / r
    v2 = V[0] ** 2 + V[1] ** 2 + V[2] ** 2
    h.eq("temperature", c(x["T"]) * h.q("287.1") * r, p)
    h.eq("speed of sound", c(x["a"]) ** 2, a2)
    h.le("speed of sound sign", 0, c(x["a"]))
    h.eq("velocity", c(x["V"]) ** 2, v2)
    h.le("velocity sign", 0, c(x["V"]))
    h.eq("Mach", c(x["Mach"]) ** 2 * a2, v2)
    h.le("Mach sign", 0, c(x["Mach"]))
    h.eq("axial Mach", c(x["Mx"]) * h.np.sqrt(a2), V[0])
    h.eq("total pressure", c(x["Pt"]), p * Is.PtPs_Mach(h.np.sqrt(v2 / a2), g))
    h.eq("entropy", h.np.exp(c(x["S"])) * r ** g, p)
    h.eq("incidence", c(x["alpha"]), h.mod("aerokit.aero.degree").atan(V[1] / V[0]))
    for k in ("P", "p", "Ps", "rho", "Vx", "Vy", "Vz", "u_avg", "rho_avg", "u_rms"):
        h.same("kept " + k, x[k], d.dicoVar[k])
    x["P"] = "changed"
    h.same("names not shared", {k: d.dicoVar[k] for k in d.dicoVar.keys()}, before)


@harness(P)
def derived(h):
    """derived variables are the gas laws (gamma 1.4, r 287.1) of the solver variables, for any values"""
    expressions(h, {})


@harness(P)
def derived_renamed(h):
    """same after the solver variables were renamed"""
    expressions(h, {"P": "pres", "rho": "dens", "V": "vel", "Vx": "velx", "Vy": "vely", "Vz": "velz"})


@harness(P, light=True, max_paths=1500)
def capitals(h):
    """every capitalisation of every variable name of both solvers gives the same name, in the three ways of asking"""
    d = h.mod(DICO)
    soft, data = choose(h, "soft", [("cx", d._cxDico), ("of", d._ofDico)])
    d.setDicoVar(soft)
    key = choose(h, "key", [k for k in data if sum(c.isalpha() for c in k) <= 5])
    word = spell(h, "c", key)
    for t, f in (("get", d.dicoVar.get), ("call", d.dicoVar), ("item", d.dicoVar.__getitem__)):
        h.same("%s %s %s" % (soft, t, key), f(word), data[key])


@harness(P, light=True, thorough_only=True, max_paths=2000)
def capitals_long(h):
    """same for the long names"""
    d = h.mod(DICO)
    soft, data = choose(h, "soft", [("cx", d._cxDico), ("of", d._ofDico)])
    d.setDicoVar(soft)
    key = choose(h, "key", [k for k in data if sum(c.isalpha() for c in k) > 5])
    h.same("%s %s" % (soft, key), d.dicoVar(spell(h, "c", key)), data[key])


@harness(P, light=True, max_paths=800)
def software(h):
    """every capitalisation of every name of a solver selects its names; nothing else is accepted"""
    d = h.mod(DICO)
    word, data = choose(h, "soft", [("ic3", d._cxDico), ("cx", d._cxDico), ("of", d._ofDico), ("ofoam", d._ofDico)])
    soft = spell(h, "s", word)
    d.setDicoVar(soft)
    h.same("keys", sorted(d.dicoVar.keys()), sorted(data))
    h.same("names", [d.dicoVar[k] for k in sorted(data)], [data[k] for k in sorted(data)])
    h.raises("unknown solver", ValueError, lambda: d._DicoVar(soft + "x"))
    h.raises("unknown variable", ValueError, lambda: d.dicoVar["no such variable"])


@harness(P, light=True)
def software_long(h):
    """long solver names"""
    d = h.mod(DICO)
    for s, data in (("CharlesX", d._cxDico), ("charlesx", d._cxDico), ("CHARLESX", d._cxDico), ("OpenFOAM", d._ofDico),
                    ("openfoam", d._ofDico)):
        d.setDicoVar(s)
        h.same(s, [d.dicoVar[k] for k in sorted(data)], [data[k] for k in sorted(data)])


@harness(P, light=True, max_paths=2000)
def histories(h):
    """every sequence of three operations (add, rename, select a solver) on the names, against a model; the built-in
    names stay as they are"""
    d = h.mod(DICO)
    builtin = {"cx": dict(d._cxDico), "of": dict(d._ofDico)}
    d.setDicoVar("cx")
    model, cur = dict(builtin["cx"]), "cx"
    for k in range(3):
        op = choose(h, "op%d" % k, ["add", "add old", "set", "set new", "cx", "of"])
        if op == "add":
            n = "extra%d" % k
            d.dicoVar.addVar(n, "name %d" % k)
            model[n] = "name %d" % k
        elif op == "add old":
            h.raises("added twice", ValueError, lambda: d.dicoVar.addVar("u_avg", "x"))
        elif op == "set":
            d.dicoVar.setVar("u_avg", "name %d" % k)
            model["u_avg"] = "name %d" % k
        elif op == "set new":
            h.raises("unknown", ValueError, lambda: d.dicoVar.setVar("unknown", "x"))
        else:
            d.setDicoVar(op)
            model = dict(builtin[op])
    h.same("keys", sorted(d.dicoVar.keys()), sorted(model))
    h.same("names", [d.dicoVar[k] for k in sorted(model)], [model[k] for k in sorted(model)])
    h.same("capitals", d.dicoVar["U_Avg"], model["u_avg"])
    h.same("built-in", [d._cxDico, d._ofDico], [builtin["cx"], builtin["of"]])
