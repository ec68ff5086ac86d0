"""A table of the operations of the library over plain descriptions of their
operands.  The description of an operand can be moved by a similarity (C25), be
represented in other units, containers and number types (C26), or be cloned
into fresh objects (C22)."""
import math
from math import pi, sqrt, inf
import numpy as np
from ..core import Fail, Skip, show, PUBLIC, flat
from .. import core
from .. import geo
from ..geo import add, sub, mul, dot, cross, norm, d, unit, rot, TAU, ang_mod

# descriptions: ("pt",x,y) ("vec",x,y) ("len",l) ("pow",k) ("rot",a) ("dir",a) ("num",x)
# ("raw",value) ("line",A,B,eA,eB) ("circ",C,R) ("arc",C,R,a1,a2) ("ell",C,a,b,al)
# ("tri",A,B,C) ("inv",pole,k) ("pts",[A...])


class Sim:
    """z -> k e^{ia} z (or conj z) + t"""

    def __init__(self, k=1.0, a=0.0, m=False, t=(0.0, 0.0)):
        self.k, self.a, self.m, self.t = k, a, m, t

    def vec(self, v):
        x, y = v
        if self.m:
            y = -y
        if self.a == 0:
            return (self.k * x, self.k * y)
        if self.a == pi / 2:
            return (-self.k * y, self.k * x)
        c, s = math.cos(self.a), math.sin(self.a)
        return (self.k * (c * x - s * y), self.k * (s * x + c * y))

    def pt(self, P):
        return add(self.vec(P), self.t)

    def dir(self, a):
        return (-a if self.m else a) + self.a

    def inverse(self):
        u = (math.cos(self.a), math.sin(self.a) if self.m else -math.sin(self.a))
        x, y = -self.t[0] / self.k, (self.t[1] if self.m else -self.t[1]) / self.k
        return Sim(1 / self.k, self.a if self.m else -self.a, self.m, (u[0] * x - u[1] * y, u[0] * y + u[1] * x))

    def __call__(self, s):
        if s is None or isinstance(s, (bool, int, str)):
            return s
        k = s[0]
        if k == "pt":
            return ("pt",) + tuple(self.pt(s[1:]))
        if k == "vec":
            return ("vec",) + tuple(self.vec(s[1:]))
        if k == "len":
            return (k, self.k * s[1])
        if k == "pow":
            return (k, self.k ** 2 * s[1])
        if k in ("rot", "shear"):
            return (k, -s[1] if self.m else s[1])
        if k == "uvec":
            return (k,) + tuple(mul(1 / self.k, self.vec(s[1:])))
        if k == "dir":
            return (k, self.dir(s[1]))
        if k in ("num", "raw", "inf", "flag"):
            return s
        if k == "cplx":
            return (k, s[1].conjugate() if self.m else s[1])
        if k == "line":
            return (k, self.pt(s[1]), self.pt(s[2]), s[3], s[4])
        if k == "circ":
            return (k, self.pt(s[1]), self.k * s[2])
        if k == "arc":
            a, b = self.dir(s[3]), self.dir(s[4])
            return (k, self.pt(s[1]), self.k * s[2], b, a) if self.m else (k, self.pt(s[1]), self.k * s[2], a, b)
        if k == "ell":
            return (k, self.pt(s[1]), self.k * s[2], self.k * s[3], self.dir(s[4]))
        if k == "tri":
            return (k,) + tuple(self.pt(p) for p in s[1:])
        if k == "inv":
            return (k, self.pt(s[1]), self.k ** 2 * s[2])
        if k == "pts":
            return (k, [self.pt(p) for p in s[1]])
        if k in ("list", "set", "dict"):
            return (k, [self(x) for x in s[1]])
        raise AssertionError(k)


class Style:
    """how operands are represented"""

    def __init__(self, r=None, degrees=None, turns=False):
        self.r, self.degrees, self.turns = r, degrees, turns

    def p(self, P):
        if self.r is None:
            return (float(P[0]), float(P[1]))
        return geo.wrap(self.r, P)

    def n(self, x):
        return float(x) if self.r is None else geo.num(self.r, x)

    def ang(self, a, full=True):
        """(value, degrees flag)"""
        dg = self.degrees
        if dg is None:
            dg = self.r.random() < .5 if self.r is not None else True
        if self.turns and full:
            a = a + TAU * self.r.choice([self.r.randint(-2, 2), self.r.randint(-2, 2), self.r.randint(-400, 400)])
        v = a * 180 / pi if dg else a
        if dg and abs(v - round(v)) < 1e-12 * max(1, abs(v)):
            v = float(round(v))
        return (self.n(v) if dg else v), dg


def build(G, s, st):
    k = s[0]
    if k in ("pt", "vec"):
        return st.p(s[1:])
    if k in ("len", "pow"):
        return st.n(s[1])
    if k == "num":
        return st.n(s[1])
    if k in ("rot", "dir"):
        return st.ang(s[1])
    if k == "shear":
        return st.ang(s[1], False)
    if k in ("raw", "flag"):
        return s[1]
    if k == "line":
        return G.Line(st.p(s[1]), st.p(s[2]), s[3], s[4])
    if k == "circ":
        return G.Circle(st.p(s[1]), st.n(s[2]))
    if k == "arc":
        dg = st.degrees
        if dg is None:
            dg = st.r.random() < .5 if st.r is not None else True
        sub_ = Style(st.r, dg, st.turns)
        a, b = sub_.ang(s[3])[0], sub_.ang(s[4])[0]
        return G.Arc(st.p(s[1]), st.n(s[2]), a, b, dg)
    if k == "ell":
        a, dg = st.ang(s[4])
        return G.Ellipse(st.p(s[1]), st.n(s[2]), st.n(s[3]), a, dg)
    if k == "tri":
        return G.Triangle(st.p(s[1]), st.p(s[2]), st.p(s[3]))
    if k == "inv":
        return G.Inversion(st.p(s[1]), st.n(s[2]))
    if k == "pts":
        if st.r is None:
            return [st.p(P) for P in s[1]]
        kk = st.r.randrange(3)
        if kk == 0:
            return np.array([[float(P[0]), float(P[1])] for P in s[1]])
        if kk == 1:
            return [st.p(P) for P in s[1]]
        return [list(P) for P in s[1]]
    raise AssertionError(k)


def canon(G, v, res):
    """description of a result"""
    if v is None:
        return None
    if isinstance(res, tuple):
        k, sub_ = res
        if k == "maybe":                    # one item, or a list of items in any order
            return ("set", [canon(G, x, sub_) for x in v]) if isinstance(v, list) else ("set", [canon(G, v, sub_)])
        if k == "dict":
            if not isinstance(v, dict):
                raise Fail("a dictionary is documented here", got=show(v))
            return ("list", [canon(G, v[x], sub_) for x in sorted(v)])
        if k == "rows":
            return ("list", [canon(G, x, sub_) for x in np.asarray(v)])
        if k == "rowset":
            return ("set", [canon(G, x, sub_) for x in np.asarray(v)])
        if k in ("list", "set"):
            if not isinstance(v, (list, tuple)):
                raise Fail("a list is documented here", got=show(v))
            if isinstance(sub_, tuple) and sub_[0] == "each":
                if len(v) != len(sub_[1]):
                    raise Fail("unexpected number of results", got=show(v))
                return (k, [canon(G, x, y) for x, y in zip(v, sub_[1])])
            return (k, [canon(G, x, sub_) for x in v])
    if isinstance(v, G.Circle):
        C, R = geo.circ_of(v)
        return ("circ", C, R)
    if isinstance(v, G.Line):
        A, B = geo.line_of(v)
        return ("line", A, B, bool(v.extendA), bool(v.extendB))
    if isinstance(v, G.Ellipse):
        C, a, b, al = geo.ell_of(v)
        return ("ell", C, a, b, al)
    if isinstance(v, G.Arc):
        C, R = geo.circ_of(v)
        f = pi / 180 if v.degrees else 1.0
        return ("arc", C, R, float(v.alpha1) * f, float(v.alpha2) * f)
    if isinstance(v, G.Triangle):
        return ("tri", geo.P2(v.A), geo.P2(v.B), geo.P2(v.C))
    if isinstance(v, G.Inversion):
        return ("inv", geo.P2(v.pole), float(v.power))
    if isinstance(v, G.Reflection):
        A, B = geo.line_of(v.line)
        return ("line", A, B, True, True)
    if res == "bool":
        if not isinstance(v, (bool, np.bool_)):
            raise Fail("a Boolean is documented here", got=show(v))
        return ("flag", bool(v))
    if res == "int":
        return ("flag", int(v))
    if res in ("pt", "vec", "uvec"):
        if isinstance(v, float) and v == inf:
            return ("inf",)
        return (res,) + geo.P2(v)
    if res in ("len", "pow", "num", "dir", "rot"):
        f = flat(v)
        if len(f) != 1 or isinstance(f[0], complex):
            raise Fail("a real number is documented here", got=show(v))
        return (res, float(f[0]))
    if res == "cplx":
        return ("cplx", complex(v))
    raise Fail("unexpected kind of result", got=show(v))


def size(s):
    """magnitude of a description, for the tolerances"""
    if s is None or isinstance(s, str):
        return 0.0
    m = 0.0
    for x in s[1:] if isinstance(s, tuple) and s and isinstance(s[0], str) else s:
        if isinstance(x, (tuple, list)):
            m = max(m, size(x))
        elif isinstance(x, (float, int)) and not isinstance(x, bool):
            m = max(m, abs(x))
    return m


def gap(s, t):
    """how far two descriptions of results are from each other, as sets of
    points; inf when they are not of the same kind"""
    if s is None or t is None:
        return 0.0 if s is None and t is None else inf
    if s[0] != t[0]:
        return inf
    k = s[0]
    if k == "inf":
        return 0.0
    if k in ("flag", "raw"):
        return 0.0 if s[1] == t[1] else inf
    if k in ("pt", "vec", "uvec"):
        return d(s[1:], t[1:])
    if k in ("len", "pow", "num"):
        return abs(s[1] - t[1])
    if k == "cplx":
        return abs(s[1] - t[1])
    if k in ("dir", "rot"):
        return abs(ang_mod(s[1] - t[1]))
    if k == "circ":
        return max(d(s[1], t[1]), abs(s[2] - t[2]))
    if k == "line":
        if (s[3], s[4]) == (True, True):
            if (t[3], t[4]) != (True, True):
                return inf
            u, v = sub(s[2], s[1]), sub(t[2], t[1])
            return max(abs(cross(u, v)) / norm(u) / norm(v) * (1 + min(norm(u), norm(v))),
                       min(abs(geo.line_dist(s[1], s[2], t[1])) / (1 + d(s[1], t[1])),
                           abs(geo.line_dist(s[1], s[2], t[2])) / (1 + d(s[1], t[2]))))
        # half-lines and segments: the ends count
        best = inf
        for a, b, ea, eb in ((t[1], t[2], t[3], t[4]), (t[2], t[1], t[4], t[3])):
            if (ea, eb) != (s[3], s[4]):
                continue
            if not ea and not eb:
                best = min(best, max(d(s[1], a), d(s[2], b)))
            else:
                o, p = (s[1], a) if not ea else (s[2], b)
                u, v = sub(s[2], s[1]), sub(b, a)
                best = min(best, max(d(o, p), norm(sub(mul(1 / norm(u), u), mul(1 / norm(v), v)))))
        return best
    if k == "arc":
        if d(s[1], t[1]) > 1e3 * (1 + size(s)):
            return inf
        m = max(d(s[1], t[1]), abs(s[2] - t[2]))
        for f in (lambda q: q[3], lambda q: q[4], lambda q: q[3] + .5 * ((q[4] - q[3]) % TAU)):
            m = max(m, d(geo.polar(s[1], s[2], f(s)), geo.polar(t[1], t[2], f(t))))
        return m
    if k == "ell":
        m = max(d(s[1], t[1]), abs(max(s[2:4]) - max(t[2:4])), abs(min(s[2:4]) - min(t[2:4])))
        if max(s[2:4]) - min(s[2:4]) > 1e-3 * max(s[2:4]):
            a = s[4] + (pi / 2 if s[2] < s[3] else 0)
            b = t[4] + (pi / 2 if t[2] < t[3] else 0)
            m = max(m, abs(ang_mod(a - b, pi)) * (max(s[2:4]) - min(s[2:4])))
        return m
    if k == "tri":
        return max(d(a, b) for a, b in zip(s[1:], t[1:]))
    if k == "inv":
        return max(d(s[1], t[1]), abs(s[2] - t[2]))
    if k == "list":
        if len(s[1]) != len(t[1]):
            return inf
        return max([gap(a, b) for a, b in zip(s[1], t[1])] + [0.0])
    if k == "set":
        if len(s[1]) != len(t[1]):
            return inf
        left, m = list(t[1]), 0.0
        for a in s[1]:
            gs = [gap(a, b) for b in left]
            i = gs.index(min(gs))
            m = max(m, gs[i])
            left.pop(i)
        return m
    raise AssertionError(k)


def jiggle(r, s, e, floor=1.0):
    """the description with its numbers moved by relative noise"""
    if isinstance(s, bool) or s is None or isinstance(s, str):
        return s
    if isinstance(s, tuple) and s and isinstance(s[0], str):
        if s[0] in ("raw", "flag"):
            return s
        return (s[0],) + tuple(jiggle(r, x, e, floor) for x in s[1:])
    if isinstance(s, (tuple, list)):
        return type(s)(jiggle(r, x, e, floor) for x in s)
    if isinstance(s, (int, float)):
        return s + e * (floor + abs(s)) * r.uniform(-1, 1)
    return s


# ------------------------------------------------------------------ generators
def P(r, s=5.0):
    return ("pt",) + tuple(geo.pt(r, s))


def V(r):
    return ("vec",) + tuple(geo.pt(r))


def LEN(r):
    return ("len", geo.rad_len(r))


def LINE(r, flags=True):
    A, B = geo.line_pts(r)
    if max(norm(A), norm(B)) > 30 and d(A, B) < 1:
        raise Skip()
    ea, eb = (r.random() < .6, r.random() < .6) if flags else (True, True)
    return ("line", A, B, ea, eb)


def FULL(r):
    return LINE(r, False)


def CIRC(r):
    return ("circ", geo.pt(r), geo.rad_len(r))


def ELL(r):
    C, a, b, al, dg, ra = geo.ell_par(r, 5, .05)
    if abs(a - b) < .02 * a:
        b = a / 2
    return ("ell", C, a, b, ra)


def TRI(r):
    return ("tri",) + tuple(geo.tri_pts(r))


def INV(r):
    return ("inv", geo.pt(r), geo.sgn(r) * geo.rad_len(r))


def ROT(r):
    return ("rot", geo.deg(r) * pi / 180)


def DIR(r):
    return ("dir", geo.deg(r) * pi / 180)


def ARC(r):
    while True:
        a, b = geo.deg(r) * pi / 180, geo.deg(r) * pi / 180
        if abs(ang_mod(a - b)) > 1e-3:
            return ("arc", geo.pt(r), geo.rad_len(r), a, b)


def BOOL(r):
    return ("flag", r.random() < .5)


def REL(*rels):
    def g(r):
        rel = r.choice(rels)
        c1, r1, c2, r2 = geo.circ_rel(r, rel, samer=False)
        return [("circ", c1, r1), ("circ", c2, r2)]
    return g


def clear(x, m):
    """the decision is not near its threshold"""
    if not abs(x) > m:
        raise Skip()


class Op:
    def __init__(self, name, gen, call, res, mirror=True, turn=True, exact=False, ints=True, sim=True, coarse=1e-9):
        self.coarse = coarse
        self.name, self.gen, self.call, self.res = name, gen, call, res
        self.mirror, self.turn, self.exact, self.ints, self.sim = mirror, turn, exact, ints, sim


OPS = []


def op(name, gen, res, **kw):
    def deco(f):
        OPS.append(Op(name, gen, f, res, **kw))
        return f
    return deco


def each(*gens):
    return lambda r: [g(r) for g in gens]


# ------------------------------------------------------------------ lines
def on_line_or_off(r):
    l = LINE(r)
    A, B = l[1], l[2]
    t = r.choice([-1.5, -.5, .5, .25, 1.5, 2.5, r.uniform(-2, 3)])
    clear(t, 1e-2); clear(t - 1, 1e-2)
    M = geo.lerp(A, B, t)
    if r.random() < .4:
        M = add(M, mul(geo.sgn(r) * r.uniform(.1, 2), geo.perp(mul(1 / d(A, B), sub(B, A)))))
    return [l, ("pt",) + tuple(M)]


op("Line.includes", on_line_or_off, "bool", exact=True)(lambda G, l, M: l.includes(M))
op("Line.projection", each(LINE, P), "pt")(lambda G, l, M: l.projection(M))
op("Line.distance", each(LINE, P), "len")(lambda G, l, M: l.distance(M))
op("Line.reflection", each(LINE, P), "pt")(lambda G, l, M: l.reflection(M))
op("Line.perpendicular", each(LINE, P, BOOL, BOOL), "line")(lambda G, l, M, h, m: l.perpendicular(M, h, m))
op("Line.rotate", each(LINE, ROT, P), "line")(lambda G, l, a, O: l.rotate(a[0], O, a[1]))
op("Line.translate", each(LINE, V), "line")(lambda G, l, v: l.translate(v))
op("Line.invert", each(FULL, INV), "gc")(lambda G, l, i: l.invert(i))


def two_lines(r):
    l = FULL(r)
    k = r.random()
    if k < .4:
        m = FULL(r)
    elif k < .6:
        v = mul(r.choice([1, -2, .5]), sub(l[2], l[1]))
        A = geo.pt(r)
        m = ("line", A, add(A, v), True, True)
    elif k < .8:
        v = mul(r.choice([1, -2, .5]), geo.perp(sub(l[2], l[1])))
        A = geo.pt(r)
        m = ("line", A, add(A, v), True, True)
    else:
        m = ("line", geo.lerp(l[1], l[2], 2.5), geo.lerp(l[1], l[2], -1), True, True)
    u, v = sub(l[2], l[1]), sub(m[2], m[1])
    s, c = cross(u, v) / norm(u) / norm(v), dot(u, v) / norm(u) / norm(v)
    if 1e-12 < abs(s) < 1e-2 or 1e-12 < abs(c) < 1e-2:
        raise Skip()
    if abs(s) < 1e-12:
        x = abs(geo.line_dist(l[1], l[2], m[1]))
        if 1e-12 < x < 1e-2:
            raise Skip()
    if max(norm(x) for x in (l[1], l[2], m[1], m[2])) > 25:
        raise Skip()
    return [l, m]


op("Line.is_equal", two_lines, "bool", exact=True)(lambda G, a, b: a.is_equal(b))
op("Line.is_parallel", two_lines, "bool", exact=True)(lambda G, a, b: a.is_parallel(b))
op("Line.is_perpendicular", two_lines, "bool", exact=True)(lambda G, a, b: a.is_perpendicular(b))


def crossing(r):
    l, m = two_lines(r)
    u, v = sub(l[2], l[1]), sub(m[2], m[1])
    if abs(cross(u, v)) < 1e-2 * norm(u) * norm(v):
        raise Skip()
    return [l, m]


op("intersection_line_line", crossing, "pt")(lambda G, a, b: G.intersection_line_line(a, b))
op("Line.intersection_with_line", crossing, "pt")(lambda G, a, b: a.intersection_with_line(b))


# ------------------------------------------------------------------ circles
def pt_circ(r):
    c = CIRC(r)
    C, R = c[1], c[2]
    t = geo.rad(r)
    k = r.choice([0.0, .4, .9, 1.0, 1.2, 3.0])
    if norm(C) > 30 * R:
        raise Skip()
    return [c, ("pt",) + tuple(geo.polar(C, k * R, t))]


def pt_circ_clear(r):
    while True:
        c, M = pt_circ(r)
        if abs(d(c[1], M[1:]) - c[2]) > 1e-2 * c[2]:
            return [c, M]


op("Circle.includes", pt_circ, "bool", exact=True, ints=False)(lambda G, c, M: c.includes(M))
op("Circle.contains", pt_circ_clear, "bool", exact=True, ints=False)(lambda G, c, M: c.contains(M))
op("Circle.power", each(CIRC, P), "pow")(lambda G, c, M: c.power(M))
op("Circle.point_from_angle", each(CIRC, DIR), "pt")(lambda G, c, a: c.point_from_angle(a[0], a[1]))
op("Circle.as_ellipse", each(CIRC), "ell")(lambda G, c: c.as_ellipse())
op("Circle.radical_center", REL("apart", "secant", "nested"), "pt")(lambda G, c, e: c.radical_center(e))
op("Circle.radical_axis", REL("apart", "secant", "nested"), "line")(lambda G, c, e: c.radical_axis(e))
op("Circle.angle", REL("secant"), "num")(lambda G, c, e: c.angle(e))


def ortho_pair(r):
    c = CIRC(r)
    R = c[2]
    if norm(c[1]) > 20 * R:
        raise Skip()
    s = geo.rad_len(r) if r.random() < .5 else R * r.uniform(.5, 2)
    if max(R, s) > 8 * min(R, s):
        raise Skip()
    dd = sqrt(R * R + s * s) * r.choice([1, 1, r.uniform(.6, .95), r.uniform(1.05, 1.5)])
    return [c, ("circ", geo.polar(c[1], dd, geo.rad(r)), s)]


op("Circle.is_orthogonal", ortho_pair, "bool", exact=True, ints=False)(lambda G, c, e: c.is_orthogonal(e))


def equal_pair(r):
    c = CIRC(r)
    k = r.random()
    if k < .4:
        return [c, c]
    if k < .7:
        return [c, ("circ", c[1], c[2] * r.uniform(1.1, 2))]
    return [c, ("circ", add(c[1], mul(c[2] * r.uniform(.1, 1), unit(geo.rad(r)))), c[2])]


op("Circle.is_equal", equal_pair, "bool", exact=True, ints=False)(lambda G, c, e: c.is_equal(e))
ALLREL = ("apart", "secant", "secant", "nested")
op("intersection_circle_circle", REL("apart", "secant", "secant", "nested", "concentric"), ("maybe", "pt"))(
    lambda G, c, e: G.intersection_circle_circle(c, e))
op("Circle.intersection_with_circle", REL(*ALLREL), ("maybe", "pt"))(lambda G, c, e: c.intersection_with_circle(e))
op("mid_circles", REL("apart", "secant", "secant", "nested"), ("maybe", "gc"))(lambda G, c, e: G.mid_circles(c, e))


def congruent(r):
    c1, r1, c2, r2 = geo.circ_rel(r, r.choice(["apart", "outer"]), samer=True)
    k = r.random()
    if k < .5:
        c2 = add(c1, mul(r1 * r.uniform(.2, 1.8), unit(geo.rad(r))))
    return [("circ", c1, r1), ("circ", c2, r1)]


op("mid_circles congruent", congruent, ("maybe", "gc"), exact=True, ints=False)(lambda G, c, e: G.mid_circles(c, e))
op("Inversion.from_swapping_two_circles", lambda r: REL("apart", "secant", "nested")(r) + [BOOL(r)], "inv")(
    lambda G, c, e, p: G.Inversion.from_swapping_two_circles(c, e, p))
op("Inversion.from_fixing_two_circles", REL("apart", "secant", "nested"), "inv")(
    lambda G, c, e: G.Inversion.from_fixing_two_circles(c, e))


TANG = REL("outer", "inner")
op("intersection_circle_circle tangent", TANG, ("maybe", "pt"), exact=True, ints=False, coarse=1e-5)(
    lambda G, c, e: G.intersection_circle_circle(c, e))
op("mid_circles tangent", TANG, ("maybe", "gc"), exact=True, ints=False, coarse=1e-5)(lambda G, c, e: G.mid_circles(c, e))
op("Circle.angle tangent", TANG, "num", exact=True, ints=False, coarse=1e-5)(lambda G, c, e: c.angle(e))
op("Inversion.from_swapping_two_circles tangent", lambda r: TANG(r) + [BOOL(r)], "inv", exact=True, ints=False, coarse=1e-5)(
    lambda G, c, e, p: G.Inversion.from_swapping_two_circles(c, e, p))


def three_circles(r):
    cs = [CIRC(r) for _ in range(3)]
    u, v = sub(cs[1][1], cs[0][1]), sub(cs[2][1], cs[0][1])
    if norm(u) < .2 or norm(v) < .2 or abs(cross(u, v)) < .1 * norm(u) * norm(v):
        raise Skip()
    return cs


op("radical_center", three_circles, "pt")(lambda G, a, b, c: G.radical_center(a, b, c))
op("Inversion.from_fixing_three_circles", three_circles, "inv")(lambda G, a, b, c: G.Inversion.from_fixing_three_circles(a, b, c))


def tangent_line(r):
    c = CIRC(r)
    if norm(c[1]) > 20 * c[2]:
        raise Skip()
    t = geo.rad(r)
    H, v = geo.polar(c[1], c[2], t), geo.perp(unit(t))
    a, b = r.choice([(-1, 1), (0, 2), (3, 1), (r.uniform(-3, 0), r.uniform(.5, 3)), (0, .01)])
    return [c, ("line", add(H, mul(a * c[2], v)), add(H, mul(b * c[2], v)), True, True)]


op("intersection_circle_line tangent", tangent_line, ("maybe", "pt"), exact=True, ints=False, coarse=1e-5)(
    lambda G, c, l: G.intersection_circle_line(c, l))


def circ_line(r):
    c = CIRC(r)
    if norm(c[1]) > 20 * c[2]:
        raise Skip()
    k = r.choice([0.0, .5, .9, .99, 1.01, 1.5, r.uniform(0, .95)])
    t = geo.rad(r)
    H = geo.polar(c[1], k * c[2], t)
    v = geo.perp(unit(t))
    a, b = r.choice([(-1, 1), (0, 2), (3, 1), (r.uniform(-3, 0), r.uniform(.5, 3))])
    return [c, ("line", add(H, mul(a, v)), add(H, mul(b, v)), True, True)]


op("intersection_circle_line", circ_line, ("maybe", "pt"))(lambda G, c, l: G.intersection_circle_line(c, l))
op("Circle.intersection_with_line", circ_line, ("maybe", "pt"))(lambda G, c, l: c.intersection_with_line(l))
op("Line.intersection_with_circle", circ_line, ("maybe", "pt"))(lambda G, c, l: l.intersection_with_circle(c))


def two_pts(r):
    A, B = geo.two_points(r)
    return [("pt",) + tuple(A), ("pt",) + tuple(B)]


op("circleAB", two_pts, "circ")(lambda G, A, B: G.circleAB(A, B))
op("circleOA", two_pts, "circ")(lambda G, A, B: G.circleOA(A, B))


def hyper_in(r):
    c = CIRC(r)
    if norm(c[1]) > 20 * c[2]:
        raise Skip()
    t1, t2 = geo.rad(r), geo.rad(r)
    k1, k2 = r.uniform(.1, .9), r.uniform(.1, .9)
    if abs(math.sin(t1 - t2)) < .1:
        if r.random() < .5:
            raise Skip()
        t2 = t1 + pi
    A, B = geo.polar(c[1], k1 * c[2], t1), geo.polar(c[1], k2 * c[2], t2)
    return [c, ("pt",) + tuple(A), ("pt",) + tuple(B), BOOL(r)]


op("Circle.orthogonal_through_two_points_in_circle", hyper_in, "gc", exact=True, ints=False)(
    lambda G, c, A, B, a: c.orthogonal_through_two_points_in_circle(A, B, a))


def hyper_on(r):
    c = CIRC(r)
    if norm(c[1]) > 20 * c[2]:
        raise Skip()
    a = geo.rad(r)
    b = a + r.choice([r.uniform(.1, pi - .1), -r.uniform(.1, pi - .1), r.uniform(pi + .1, TAU - .1)])
    return [c, ("dir", a), ("dir", b), BOOL(r)]


op("Circle.orthogonal_through_two_points_on_circle", hyper_on, "gc", ints=False)(
    lambda G, c, a, b, f: c.orthogonal_through_two_points_on_circle(
        radians(a), radians(b), f))

# ------------------------------------------------------------------ arcs
op("Arc.starting_point", each(ARC), "pt", mirror=False)(lambda G, a: a.starting_point())
op("Arc.ending_point", each(ARC), "pt", mirror=False)(lambda G, a: a.ending_point())
op("Arc.path", each(ARC), ("rowset", "pt"))(lambda G, a: a.path(7))


# ------------------------------------------------------------------ ellipses
def ell_pt(r):
    e = ELL(r)
    k = r.choice([0.0, .5, .97, 1.0, 1.03, 2.0])
    Q = geo.ell_pt((e[1], e[2], e[3], e[4]), geo.rad(r))
    if norm(e[1]) > 15 * e[3]:
        raise Skip()
    return [e, ("pt",) + tuple(add(e[1], mul(k, sub(Q, e[1]))))]


def ell_pt_clear(r):
    while True:
        e, M = ell_pt(r)
        if abs(geo.ell_q(e[1:], M[1:]) - 1) > 1e-2:
            return [e, M]


op("Ellipse.includes", ell_pt, "bool", exact=True, ints=False)(lambda G, e, M: e.includes(M))
op("Ellipse.contains", ell_pt_clear, "bool", exact=True, ints=False)(lambda G, e, M: e.contains(M))
op("Ellipse.path", each(ELL), ("rowset", "pt"))(lambda G, e: e.path(8))
op("Ellipse.point_from_angle", each(ELL, ROT), "pt")(lambda G, e, a: e.point_from_angle(a[0], a[1]))
op("Ellipse.theta2t", each(ELL, ROT), "rot")(lambda G, e, a: e.theta2t(a[0], a[1]))


def radians(a):
    return a[0] * pi / 180 if a[1] else a[0]


op("Ellipse.normal", each(ELL, ROT), "uvec")(lambda G, e, t: e.normal(radians(t)))
op("Ellipse.diameter", each(ELL, ROT, BOOL), ("maybe", "line"))(lambda G, e, t, c: e.diameter(radians(t), c))
op("Ellipse.shape_matrix", each(ELL), ("rows", "pt"), sim=False)(
    lambda G, e: e.shape_matrix())
op("Ellipse.equation", each(ELL), ("dict", "num"), sim=False)(lambda G, e: e.equation())


def ell_line(r):
    e = ELL(r)
    if norm(e[1]) > 15 * e[3]:
        raise Skip()
    E = e[1:]
    t = geo.rad(r)
    k = r.choice([0.0, .5, .9, 1.05, 1.5])
    H = add(E[0], mul(k, sub(geo.ell_pt(E, t), E[0])))
    v = sub(geo.ell_pt(E, t + pi / 2), E[0])
    a, b = r.choice([(-1, 1), (0, 2), (3, 1)])
    return [e, ("line", add(H, mul(a, v)), add(H, mul(b, v)), True, True)]


op("intersection_ellipse_line", ell_line, ("maybe", "pt"), ints=False)(lambda G, e, l: G.intersection_ellipse_line(e, l))
op("Ellipse.intersection_with_line", ell_line, ("maybe", "pt"), ints=False)(lambda G, e, l: e.intersection_with_line(l))
op("Line.intersection_with_ellipse", ell_line, ("maybe", "pt"), ints=False)(lambda G, e, l: l.intersection_with_ellipse(e))


def ell_pair(r):
    e = ELL(r)
    k = r.random()
    if k < .5:
        return [e, e[:4] + (e[4] + pi * r.choice([0, 1, -1, 2]),)]
    if k < .7:
        return [e, e[:4] + (e[4] + r.uniform(.2, 2.9),)]
    if k < .85:
        return [e, ("ell", e[1], e[2] * 1.1, e[3], e[4])]
    return [e, ("ell", add(e[1], mul(.3 * e[2], unit(geo.rad(r)))), e[2], e[3], e[4])]


op("Ellipse.is_equal", ell_pair, "bool", exact=True, ints=False)(lambda G, a, b: a.is_equal(b))


def five(r):
    e = ELL(r)
    if norm(e[1]) > 8 * e[3] or e[2] > 4 * e[3] or e[3] < .2:
        raise Skip()
    t = geo.rad(r)
    ts = [t + i * TAU / 5 + r.uniform(-.3, .3) for i in range(5)]
    r.shuffle(ts)
    return [("pt",) + tuple(geo.ell_pt(e[1:], x)) for x in ts]


op("Ellipse.from_five_points", five, "ell", ints=False)(lambda G, *p: G.Ellipse.from_five_points(*p))


def cloud(r):
    n = r.randint(3, 9)
    e = ELL(r)
    if norm(e[1]) > 8 * e[3] or e[2] > 4 * e[3] or e[3] < .2:
        raise Skip()
    ts = sorted(r.uniform(0, TAU) for _ in range(n))
    ps = [add(e[1], mul(r.uniform(.4, 1), sub(geo.ell_pt(e[1:], x), e[1]))) for x in ts]
    r.shuffle(ps)
    ps0 = [sub(p, ps[0]) for p in ps[1:]]
    if not any(abs(cross(u, v)) > .3 * norm(u) * norm(v) + .05 for u in ps0 for v in ps0):
        raise Skip()
    return [("pts", ps)]


op("Ellipse.LownerJohnEllipse", cloud, "ell", ints=False)(lambda G, p: G.Ellipse.LownerJohnEllipse(p))
op("Ellipse.from_boundary3", lambda r: [("pts", list(TRI(r)[1:]))], "ell")(
    lambda G, p: G.Ellipse.from_boundary3(np.asarray(p, dtype=float)))

# ------------------------------------------------------------------ inversions
op("Inversion.invert", each(INV, P), "pt")(lambda G, i, M: i.invert(M))


def inv_circ(r):
    i, c = INV(r), CIRC(r)
    k = r.random()
    if k < .3 and d(i[1], c[1]) > .2:
        return [i, ("circ", c[1], d(i[1], c[1]))]
    if abs(d(i[1], c[1]) - c[2]) < .05 * c[2]:
        raise Skip()
    return [i, c]


op("Inversion.invert_circle", inv_circ, "gc", exact=True, ints=False)(lambda G, i, c: i.invert_circle(c))
op("Inversion.invert_gcircle", inv_circ, "gc", exact=True, ints=False)(lambda G, i, c: i.invert_gcircle(c))
op("Inversion.invert_line", each(INV, FULL), "gc")(lambda G, i, l: i.invert_line(l))


def inv_inv_pt(r):
    i, j, M = INV(r), INV(r), P(r)
    if d(i[1], M[1:]) < .1:
        raise Skip()
    return [i, j, M, BOOL(r)]


op("Inversion.compose", inv_inv_pt, "pt")(lambda G, i, j, M, b: i.compose(j, b).transform(M))

# ------------------------------------------------------------------ triangles
for _k in ("a", "b", "c"):
    op("Triangle." + _k, each(TRI), "len")(lambda G, t, _k=_k: getattr(t, _k))
for _k in ("angleA", "angleB", "angleC", "flatness"):
    op("Triangle." + _k, each(TRI), "num")(lambda G, t, _k=_k: getattr(t, _k))
op("Triangle.edges", each(TRI), ("dict", "len"))(lambda G, t: t.edges)
op("Triangle.orientation", each(TRI), "int", mirror=False)(lambda G, t: t.orientation)


def tri_clear(r):
    t = TRI(r)
    s = sorted(d(t[i], t[j]) for i, j in ((1, 2), (2, 3), (1, 3)))
    clear(s[0] ** 2 + s[1] ** 2 - s[2] ** 2, 1e-2 * s[2] ** 2)
    return [t]


op("Triangle.is_acute", tri_clear, "bool", exact=True)(lambda G, t: t.is_acute)


def tri_pt(r):
    t = TRI(r)
    w = [r.uniform(-.6, 1.2) for _ in range(2)]
    w.append(1 - sum(w))
    for x in w:
        clear(x, .02)
    M = (0.0, 0.0)
    for x, p in zip(w, t[1:]):
        M = add(M, mul(x, p))
    return [t, ("pt",) + tuple(M)]


op("Triangle.contains", tri_pt, "bool", exact=True, ints=False)(lambda G, t, M: t.contains(M))
for _k, _r in (("incircle", "circ"), ("circumcircle", "circ"), ("excircles", ("dict", "circ")),
               ("steiner_ellipse", "ell"), ("steiner_inellipse", "ell")):
    op("Triangle." + _k, each(TRI), _r)(lambda G, t, _k=_k: getattr(t, _k)())
op("Triangle.orthic_triangle", tri_clear, "tri")(lambda G, t: t.orthic_triangle())
op("Triangle.malfatti_circles", each(TRI), ("list", ("each", (("dict", "circ"), ("dict", "pt")))))(
    lambda G, t: (lambda x: [x["circles"], x["tangency_points"]])(t.malfatti_circles()))
op("Triangle.equal_detour_point", each(TRI), ("list", ("each", ("pt", "len"))))(lambda G, t: t.equal_detour_point())

# ------------------------------------------------------------------ transformations
op("Rotation.transform", each(P, ROT, P), "pt")(lambda G, O, a, M: G.Rotation(O, a[0], a[1]).transform(M))
op("Rotation.rotate", each(P, ROT, P), "pt")(lambda G, O, a, M: G.Rotation(O, a[0], a[1]).rotate(M))
op("Rotation.rotate_circle", each(P, ROT, CIRC), "circ")(lambda G, O, a, c: G.Rotation(O, a[0], a[1]).rotate_circle(c))
op("Rotation.rotate_ellipse", each(P, ROT, ELL), "ell")(lambda G, O, a, c: G.Rotation(O, a[0], a[1]).rotate_ellipse(c))
op("Rotation.rotate_line", each(P, ROT, LINE), "line")(lambda G, O, a, c: G.Rotation(O, a[0], a[1]).rotate_line(c))
op("Rotation.transform_circle", each(P, ROT, CIRC), "circ")(lambda G, O, a, c: G.Rotation(O, a[0], a[1]).transform_circle(c))
op("Rotation.transform_ellipse", each(P, ROT, ELL), "ell")(lambda G, O, a, c: G.Rotation(O, a[0], a[1]).transform_ellipse(c))
op("Rotation.transform_line", each(P, ROT, LINE), "line")(lambda G, O, a, c: G.Rotation(O, a[0], a[1]).transform_line(c))
op("Rotation.as_affine", each(P, ROT, P), "pt")(lambda G, O, a, M: G.Rotation(O, a[0], a[1]).as_affine().transform(M))
op("Reflection.transform", each(LINE, P), "pt")(lambda G, l, M: G.Reflection(l).transform(M))
op("Reflection.reflect", each(LINE, P), "pt")(lambda G, l, M: G.Reflection(l).reflect(M))
op("Reflection.transform_circle", each(LINE, CIRC), "circ")(lambda G, l, c: G.Reflection(l).transform_circle(c))
op("Reflection.reflect_circle", each(LINE, CIRC), "circ")(lambda G, l, c: G.Reflection(l).reflect_circle(c))
op("Reflection.transform_line", each(LINE, LINE), "line")(lambda G, l, m: G.Reflection(l).transform_line(m))
op("Reflection.reflect_line", each(LINE, LINE), "line")(lambda G, l, m: G.Reflection(l).reflect_line(m))
op("Reflection.as_affine", each(LINE, P), "pt")(lambda G, l, M: G.Reflection(l).as_affine().transform(M))
op("Projection.project", each(FULL, P), "pt")(lambda G, l, M: G.Projection(l, None).project(M))
op("Projection.transform", lambda r: crossing(r) + [P(r)], "pt")(lambda G, l, m, M: G.Projection(l, m).transform(M))
op("Projection.as_affine", lambda r: crossing(r) + [P(r)], "pt")(lambda G, l, m, M: G.Projection(l, m).as_affine().transform(M))


def FACTOR(r):
    return ("num", geo.sgn(r) * r.choice([1, 2, .5, 3, r.uniform(.2, 4)]))


def DIRV(r):
    v = V(r)
    if norm(v[1:]) < .2:
        raise Skip()
    return v


op("Homothety.transform", each(P, FACTOR, P), "pt")(lambda G, O, k, M: G.Homothety(O, k).transform(M))
op("Homothety.transform_circle", each(P, FACTOR, CIRC), "circ")(lambda G, O, k, c: G.Homothety(O, k).transform_circle(c))
op("Homothety.as_affine", each(P, FACTOR, P), "pt")(lambda G, O, k, M: G.Homothety(O, k).as_affine().transform(M))
op("Scaling.transform", each(P, DIRV, FACTOR, P), "pt")(lambda G, O, v, k, M: G.Scaling(O, v, k).transform(M))
op("Scaling.scale_circle", each(P, DIRV, FACTOR, CIRC), "ell")(lambda G, O, v, k, c: G.Scaling(O, v, k).scale_circle(c))
op("Scaling.as_affine", each(P, DIRV, FACTOR, P), "pt")(lambda G, O, v, k, M: G.Scaling(O, v, k).as_affine().transform(M))
op("ScalingXY.transform", each(P, FACTOR, FACTOR, P), "pt", mirror=False, turn=False)(
    lambda G, O, a, b, M: G.ScalingXY(O, a, b).transform(M))


def shear(r):
    return [P(r), DIRV(r), ("num", abs(FACTOR(r)[1])), ("shear", r.choice([-60, -45, -30, 0, 30, 45, 60, r.uniform(-80, 80)]) * pi / 180)]


op("Shear.transform", lambda r: shear(r) + [P(r)], "pt")(
    lambda G, O, v, k, a, M: G.Shear(O, v, k, a[0], a[1]).transform(M))
op("Shear.as_affine", lambda r: shear(r) + [P(r)], "pt")(
    lambda G, O, v, k, a, M: G.Shear(O, v, k, a[0], a[1]).as_affine().transform(M))


def six(r):
    s, t = geo.tri_pts(r), geo.tri_pts(r)
    return [("pt",) + tuple(p) for p in list(s) + t] + [P(r)]


op("Affine.from_mapping_three_points", six, "pt")(
    lambda G, *p: G.Affine.from_mapping_three_points(*p[:6]).transform(p[6]))


def distinct(r, n):
    ps = []
    while len(ps) < n:
        p = geo.pt(r)
        if all(d(p, q) > .3 for q in ps) and norm(p) < 30:
            ps.append(p)
    return [("pt",) + tuple(p) for p in ps]


op("Mobius.from_mapping_three_points", lambda r: distinct(r, 3) + distinct(r, 3) + [P(r)], "pt")(
    lambda G, *p: G.Mobius.from_mapping_three_points(*p[:6]).transform(p[6]))
op("Mobius.transform_circle", lambda r: distinct(r, 3) + distinct(r, 3) + [CIRC(r)], "gc")(
    lambda G, *p: G.Mobius.from_mapping_three_points(*p[:6]).transform_circle(p[6]))
op("Mobius.transform_line", lambda r: distinct(r, 3) + distinct(r, 3) + [FULL(r)], "gc")(
    lambda G, *p: G.Mobius.from_mapping_three_points(*p[:6]).transform_line(p[6]))
op("cross_ratio", lambda r: distinct(r, 4), "cplx")(lambda G, *p: G.cross_ratio(*p))


def ell_ell(r):
    a, b = ELL(r), ELL(r)
    return [a, b]


op("Affine.from_ellipse_to_ellipse", ell_ell, "ell", ints=False)(
    lambda G, a, b: G.Affine.from_ellipse_to_ellipse(a, b).transform_ellipse(a))


def steiner(r):
    c = CIRC(r)
    if norm(c[1]) > 20 * c[2]:
        raise Skip()
    return [c, ("raw", r.randint(3, 9)), ("num", geo.sgn(r) * r.uniform(.05, .7)), ("num", r.uniform(0, 3))]


op("SteinerChain", steiner, ("list", "circ"), mirror=False, turn=False)(
    lambda G, c, n, phi, s: G.SteinerChain(c, n, phi, s)["circles"])
op("SteinerChain ellipse", steiner, "ell", mirror=False, turn=False)(
    lambda G, c, n, phi, s: G.SteinerChain(c, n, phi, s)["ellipse"])


# ------------------------------------------------------------------ maps given by three points
def AFF3(G, p):
    return G.Affine.from_mapping_three_points(*p[:6])


def MOB3(G, p):
    return G.Mobius.from_mapping_three_points(*p[:6])


def six_pts(r):
    s, t = geo.tri_pts(r), geo.tri_pts(r)
    return [("pt",) + tuple(p) for p in list(s) + t]


def mob6(r):
    return distinct(r, 3) + distinct(r, 3)


op("Affine.inverse", lambda r: six_pts(r) + [P(r)], "pt")(lambda G, *p: AFF3(G, p).inverse().transform(p[6]))
op("Affine.compose", lambda r: six_pts(r) + [FULL(r), P(r), BOOL(r)], "pt")(
    lambda G, *p: AFF3(G, p).compose(G.Reflection(p[6]).as_affine(), p[8]).transform(p[7]))
op("Affine.transform_line", lambda r: six_pts(r) + [LINE(r)], "line")(lambda G, *p: AFF3(G, p).transform_line(p[6]))
op("Affine.transform_ellipse", lambda r: six_pts(r) + [ELL(r)], "ell", ints=False)(lambda G, *p: AFF3(G, p).transform_ellipse(p[6]))
op("Affine.transform_ellipse circle", lambda r: six_pts(r) + [CIRC(r)], "ellc", ints=False)(
    lambda G, *p: AFF3(G, p).transform_ellipse(p[6]))
op("Mobius.inverse", lambda r: mob6(r) + [P(r)], "pt")(lambda G, *p: MOB3(G, p).inverse().transform(p[6]))
op("Mobius.power", lambda r: mob6(r) + [("raw", r.choice([2, 3, -1, -2, 0])), P(r)], "pt")(
    lambda G, *p: MOB3(G, p).power(p[6]).transform(p[7]))
op("Mobius.compose", lambda r: mob6(r) + [P(r), ("num", abs(FACTOR(r)[1])), P(r), BOOL(r)], "pt")(
    lambda G, *p: MOB3(G, p).compose(G.Mobius([[p[7], complex(*p[6]) * (1 - p[7])], [0, 1]]), p[9]).transform(p[8]))
op("Mobius.fixed_points", mob6, ("maybe", "pt"))(lambda G, *p: MOB3(G, p).fixed_points())
op("Inversion.on_circle", each(CIRC), "inv")(lambda G, c: G.Inversion.on_circle(c))


def quad(r):
    e = ELL(r)
    if norm(e[1]) > 8 * e[3] or e[2] > 4 * e[3] or e[3] < .2:
        raise Skip()
    t = geo.rad(r)
    ts = [t + i * TAU / 4 + r.uniform(-.4, .4) for i in range(4)]
    ps = [geo.ell_pt(e[1:], x) for x in ts]
    ps = [add(e[1], mul(r.uniform(.85, 1), sub(p, e[1]))) for p in ps]
    r.shuffle(ps)
    return [("pts", ps)]


op("Ellipse.from_boundary4", quad, "ell", ints=False)(lambda G, p: G.Ellipse.from_boundary4(np.asarray(p, dtype=float)))
