"""C04 circles, C05 orthogonal circles, C06 arcs, C07 mid-circles and swapping /
fixing inversions, C08 inversions, C09 Steiner chains."""
import math
from math import pi, sin, cos, sqrt, atan2, acos, inf
import numpy as np
from ..core import prop, family, load, Skip
from ..geo import *
from .lines import mkline, flags, gen_line

G = load()


def gen_circ(r, k=60):
    while True:
        C, R = fpt(pt(r)), float(rad_len(r))
        if norm(C) <= k * R:
            return C, R


def mkc(r, C, R):
    return G.Circle(wrap(r, C), num(r, R))


# ---------------------------------------------------------------- C04
prop("C04", ["Circle.includes", "Circle.contains", "Circle.power", "Circle.radical_center", "Circle.radical_axis",
             "radical_center", "Circle.is_orthogonal", "Circle.angle", "Circle.is_equal", "circleAB", "circleOA",
             "Circle.point_from_angle", "Circle.as_ellipse"],
     "Circles in every relative position; membership margins log-uniform.")


@family("C04", 700, ["inside", "on", "outside", "centre"])
def points(cx):
    r = cx.r
    C, R = gen_circ(r)
    c = mkc(r, C, R)
    k = r.random()
    g = logu(r, -4, 0)
    w, f = (("inside", 1 - min(g, .999)) if k < .3 else ("on", 1.0) if k < .6 else ("outside", 1 + 3 * g) if k < .9 else ("centre", 0.0))
    dg = r.random() < .5
    a = turned(r, deg(r) if dg else rad(r), dg)
    ar = a * pi / 180 if dg else a
    s = 1 + R + norm(C)
    Q = P2(c.point_from_angle(num(r, a)) if dg and r.random() < .5 else c.point_from_angle(num(r, a), degrees=dg))
    cx.near(Q, polar(C, R, ar), 1e-10 * s, "point_from_angle", angle=a, degrees=dg)
    M = polar(C, R * f, ar) if w != "on" else r.choice([Q, polar(C, R, ar)])
    cx.put(C=C, R=R, M=M, where=w)
    Mw = wrap(r, M)
    cx.ok(bool(c.includes(Mw)) == (w == "on"), "includes: " + w, C=C, R=R, M=M)
    if w != "on":
        cx.ok(bool(c.contains(Mw)) == (w != "outside"), "contains: " + w, C=C, R=R, M=M)
    p = float(c.power(Mw))
    cx.near(p, d(M, C) ** 2 - R * R, 1e-11 * s * s * (1 + f), "power of a point", C=C, R=R, M=M)
    e = c.as_ellipse()
    ell_same(cx, (C, R, R, 0.0), e, 1e-10, "as_ellipse")
    cx.cls(w)


@family("C04", 400)
def lattice_points(cx):
    """closed disc and circle membership in exact integer arithmetic"""
    r = cx.r
    C = (grid(r), grid(r))
    T = r.choice([(3, 4, 5), (4, 3, 5), (0, 5, 5), (5, 0, 5), (5, 12, 13), (8, 6, 10), (0, 2, 2), (7, 24, 25)])
    R = T[2]
    M = r.choice([(C[0] + sgn(r) * T[0], C[1] + sgn(r) * T[1]), (C[0] + r.randint(-R, R), C[1] + r.randint(-R, R)),
                  (C[0] + sgn(r) * T[0] + sgn(r), C[1] + sgn(r) * T[1])])
    c = mkc(r, C, R)
    v = dot(sub(M, C), sub(M, C)) - R * R
    cx.put(C=C, R=R, M=M)
    Mw = wrap(r, M)
    cx.ok(bool(c.includes(Mw)) == (v == 0), "includes a lattice point", C=C, R=R, M=M)
    cx.ok(bool(c.contains(Mw)) == (v <= 0), "contains a lattice point", C=C, R=R, M=M)
    cx.ok(float(c.power(Mw)) == v, "power of a lattice point", C=C, R=R, M=M)


@family("C04", 800, ["apart", "outer", "secant", "inner", "nested", "concentric", "close centres"])
def radical(cx):
    r = cx.r
    rel = r.choice(["apart", "outer", "secant", "inner", "nested", "concentric", "close centres"])
    if rel == "close centres":                 # the axis is far away
        C1, r1, C2, r2 = circ_rel(r, "concentric")
        C2 = polar(C1, max(r1, r2) * logu(r, -3.3, -1), r.choice([0, pi / 2, pi, r.uniform(0, TAU)]))
    else:
        C1, r1, C2, r2 = circ_rel(r, rel, rel in ("apart", "outer", "secant") and r.choice([True, "almost"] + [False] * 4))
    dd = d(C1, C2)
    if rel != "concentric" and (dd < 4e-4 * max(r1, r2) or dd < 1e-4 * (1 + norm(C1))):
        raise Skip()
    a, b = mkc(r, C1, r1), mkc(r, C2, r2)
    cx.put(rel=rel, C1=C1, r1=r1, C2=C2, r2=r2)
    if rel == "concentric":
        cx.ok(a.radical_axis(b) is None, "concentric circles have no radical axis")
        rc = a.radical_center(b)
        cx.ok(all(math.isinf(float(x)) for x in flat(rc)), "the radical centre of concentric circles is at infinity", got=rc)
        cx.cls(rel)
        return
    rc = P2(a.radical_center(b))
    s = 1 + norm(C1) + norm(C2) + r1 + r2 + norm(rc)
    tol = 1e-10 * s * s * (1 + s / dd)
    u = mul(1 / dd, sub(C2, C1))
    cx.near(abs(cross(u, sub(rc, C1))), 0, tol, "the radical centre of two circles is on the line of centres")
    x0 = (dd * dd + r1 * r1 - r2 * r2) / (2 * dd)
    cx.near(dot(u, sub(rc, C1)), x0, 1e-10 * s * (1 + s / dd), "the radical centre of two circles: distance to the first centre")
    cx.near(d(rc, C1) ** 2 - r1 * r1, d(rc, C2) ** 2 - r2 * r2, tol, "the radical centre has equal powers")
    for x, y in ((a, b), (b, a)):
        ax = x.radical_axis(y)
        A, B = line_of(ax)
        cx.near(dot(u, sub(B, A)) / d(A, B), 0, 1e-9, "the radical axis is perpendicular to the line of centres")
        cx.ok(bool(ax.extendA) and bool(ax.extendB), "the radical axis is an infinite line", got=ax)
        for t in (0, 1, r.uniform(-4, 4)):
            M = lerp(A, B, t)
            sm = s + norm(M)
            cx.near(d(M, C1) ** 2 - r1 * r1, d(M, C2) ** 2 - r2 * r2, 1e-10 * sm * sm * (1 + sm / dd),
                    "points of the radical axis have equal powers", M=M, C1=C1, r1=r1, C2=C2, r2=r2)
    cx.cls(rel)


@family("C04", 400)
def radical_three(cx):
    r = cx.r
    while True:
        T = tri_pts(r, .3)
        R = [float(rad_len(r)) for _ in T]
        if max(R) < 30 and max(norm(p) for p in T) < 30:
            break
    k = r.random()
    if k < .2:
        R = [R[0]] * 3
    elif k < .35:                              # nearly equal radii
        R = [R[0] * (1 + sgn(r) * logu(r, -9, -1.5)) for _ in T]
    elif k < .45:
        R[r.randrange(1, 3)] = R[0] * (1 + sgn(r) * logu(r, -9, -1.5))
    cs = [mkc(r, p, q) for p, q in zip(T, R)]
    cx.put(C=T, R=R)
    rc = P2(G.radical_center(*cs))
    s = 1 + max(R) + max(norm(p) for p in T) + norm(rc)
    pw = [d(rc, p) ** 2 - q * q for p, q in zip(T, R)]
    m = min(d(T[0], T[1]), d(T[1], T[2]), d(T[0], T[2]))
    tol = 1e-9 * s * s * (1 + s / m)
    cx.near(pw[0], pw[1], tol, "radical centre of three circles: powers 1, 2", C=T, R=R, rc=rc)
    cx.near(pw[0], pw[2], tol, "radical centre of three circles: powers 1, 3", C=T, R=R, rc=rc)


@family("C04", 900, ["apart", "outer", "secant", "inner", "nested", "orthogonal", "nearly orthogonal"])
def angles(cx):
    r = cx.r
    rel = r.choice(["apart", "outer", "secant", "secant", "inner", "nested", "orthogonal", "nearly orthogonal"])
    if rel in ("orthogonal", "nearly orthogonal"):
        C1, r1 = gen_circ(r)
        r2 = r1 * r.choice([1, r.uniform(.2, 5)])
        dd = sqrt(r1 * r1 + r2 * r2) * (1 if rel == "orthogonal" else 1 + sgn(r) * logu(r, -3, -1.5))
        if r.random() < .3:
            r1, r2, dd = r.choice([(3, 4, 5), (4.0, 3.0, 5.0), (6, 8, 10), (5, 12, 13)])
            if rel != "orthogonal":
                dd = dd + sgn(r) * .01
        if norm(C1) > 20 * min(r1, r2):
            raise Skip()
        C2 = add(C1, mul(dd, unit(r.choice([0, pi / 2, r.uniform(0, TAU)]))))
    else:
        C1, r1, C2, r2 = circ_rel(r, rel, rel in ("apart", "outer", "secant") and r.choice([True, "almost"] + [False] * 4))
        dd = d(C1, C2)
        if rel in ("apart", "nested") and min(abs(dd ** 2 - (r1 + r2) ** 2), abs(dd ** 2 - (r1 - r2) ** 2)) < 1e-6:
            raise Skip()
    a, b = mkc(r, C1, r1), mkc(r, C2, r2)
    cx.put(rel=rel, C1=C1, r1=r1, C2=C2, r2=r2)
    c = (dd * dd - r1 * r1 - r2 * r2) / (2 * r1 * r2)
    s = (norm(C1) + norm(C2) + r1 + r2) ** 2 / (r1 * r2)
    orth = abs(dd * dd - r1 * r1 - r2 * r2) < 1e-10 * s * r1 * r2
    for x, y in ((a, b), (b, a)):
        if rel in ("orthogonal", "nearly orthogonal") or abs(c) > 1e-3:
            cx.ok(bool(x.is_orthogonal(y)) == (rel == "orthogonal"), "is_orthogonal: " + rel, C1=C1, r1=r1, C2=C2, r2=r2)
        an = x.angle(y)
        if rel in ("apart", "nested"):
            cx.ok(an is None, "no angle for circles which do not intersect", got=an, C1=C1, r1=r1, C2=C2, r2=r2)
        else:
            c_ = max(-1.0, min(1.0, c))
            cx.near(cos(float(an)), c_, 1e-11 * (1 + s), "angle between the circles", got=an, rel=rel, C1=C1, r1=r1, C2=C2, r2=r2)
            cx.ok(-1e-12 <= float(an) <= pi + 1e-12, "the angle is between 0 and pi", got=an)
            if rel in ("outer", "inner"):
                cx.near(float(an), 0.0 if rel == "outer" else pi, 3e-5 * sqrt(1 + s), "angle of tangent circles")
            if rel == "orthogonal":
                cx.near(float(an), pi / 2, 1e-9 * (1 + s), "orthogonal circles meet at a right angle")
    cx.cls(rel)


@family("C04", 500, ["equal", "radius", "centre"])
def equality(cx):
    r = cx.r
    C, R = gen_circ(r)
    if norm(C) > 20:
        raise Skip()
    c = mkc(r, C, R)
    k = r.randrange(3)
    w = ["equal", "radius", "centre"][k]
    g = sgn(r) * logu(r, *r.choice([(-2.5, -.3), (-7, -2)]))
    C2, R2 = C, R
    if k == 1:
        R2 = R * (1 + g)
        # the documented accuracy of a comparison: 1e-9 relative to the size and the place
        if abs(R2 - R) < 4e-9 * R + 4e-12 * norm(C):
            raise Skip()
    if k == 2:
        C2 = add(C, r.choice([(g, 0), (0, g), (g, g), mul(-2 * abs(g), C) if norm(C) else (g, 0)]))
        if d(C, C2) < 4e-8 * R + 4e-12 * norm(C):
            raise Skip()
    c2 = mkc(r, C2, R2)
    cx.put(C=C, R=R, C2=C2, R2=R2)
    cx.ok(bool(c.is_equal(c2)) == (k == 0), "is_equal: " + w, C=C, R=R, C2=C2, R2=R2)
    cx.ok(bool(c2.is_equal(c)) == (k == 0), "is_equal (reversed): " + w, C=C, R=R, C2=C2, R2=R2)
    cx.cls(w)


@family("C04", 300)
def builders(cx):
    r = cx.r
    A, B = gen_line(r)
    cx.put(A=A, B=B)
    s = 1 + norm(A) + norm(B)
    c, R = circ_of(G.circleAB(wrap(r, A), wrap(r, B)))
    cx.near((c, R), (mid(A, B), d(A, B) / 2), 1e-11 * s, "circle with diameter AB")
    c, R = circ_of(G.circleOA(wrap(r, A), wrap(r, B)))
    cx.near((c, R), (A, d(A, B)), 1e-11 * s, "circle with centre O through A")


# ---------------------------------------------------------------- C05
prop("C05", ["Circle.orthogonal_through_two_points_in_circle", "Circle.orthogonal_through_two_points_on_circle"],
     "Reference circles of any radius and position; aligned, central and antipodal points are frequent.")


@family("C05", 900, ["circle", "aligned", "arc", "segment", "rejected"])
def in_circle(cx):
    r = cx.r
    C, R = gen_circ(r, 12)
    c = mkc(r, C, R)
    k = r.random()
    if k < .12:
        P1, P2_ = polar(C, R * r.uniform(0, .95), rad(r)), polar(C, R * r.uniform(1.02, 3), rad(r))
        if r.random() < .5:
            P1, P2_ = P2_, P1
        cx.put(C=C, R=R, P1=P1, P2=P2_)
        cx.raises(ValueError, lambda: c.orthogonal_through_two_points_in_circle(wrap(r, P1), wrap(r, P2_), arc=r.random() < .5),
                  "a point outside the circle is rejected", C=C, R=R, P1=P1, P2=P2_)
        cx.cls("rejected")
        return
    t1 = rad(r)
    d1, d2 = R * r.choice([.5, r.uniform(.05, .97)]), R * r.choice([.5, r.uniform(.05, .97)])
    aligned = r.random() < .25
    if aligned:
        t2 = t1 + r.choice([0, pi])
        if r.random() < .3:
            d2 = 0.0
    else:
        t2 = t1 + sgn(r) * r.choice([pi / 2, pi / 3, r.uniform(.05, 3.09)])
    P1, P2_ = polar(C, d1, t1), polar(C, d2, t2)
    if d2 == 0:
        P2_ = C
    if d(P1, P2_) < .03 * R:
        raise Skip()
    if r.random() < .5:
        P1, P2_ = P2_, P1
    arc = r.random() < .6
    cx.put(C=C, R=R, P1=P1, P2=P2_, arc=arc)
    if not arc and r.random() < .5:
        o = c.orthogonal_through_two_points_in_circle(wrap(r, P1), wrap(r, P2_))
    else:
        o = c.orthogonal_through_two_points_in_circle(wrap(r, P1), wrap(r, P2_), arc)
    s = 1 + norm(C) + R
    if aligned:
        cx.ok(isinstance(o, G.Line), "two points of a diameter give a line", got=o, C=C, P1=P1, P2=P2_)
        A, B = line_of(o)
        for M in (C, P1, P2_):
            cx.near(line_dist(A, B, M), 0, 1e-8 * s * (1 + s / d(A, B)), "the diameter passes through the points", M=M)
        cx.ok(bool(o.extendA) == (not arc) and bool(o.extendB) == (not arc), "a segment if and only if arc=True", got=o, arc=arc)
        if arc:
            cx.near(min(d(A, P1) + d(B, P2_), d(A, P2_) + d(B, P1)), 0, 1e-9 * s, "the segment joins the two points", got=o)
        cx.cls("segment" if arc else "aligned")
        return
    cx.ok(isinstance(o, G.Arc if arc else G.Circle), "type of the orthogonal circle", got=o)
    O, q = P2(o.center), float(o.radius)
    sn = abs(sin(t1 - t2))
    tol = 1e-9 * (s + norm(O) + q) ** 2 / min(1, R) / sn
    cx.near(d(O, P1), q, tol, "passes through the first point", C=C, R=R, P1=P1, P2=P2_)
    cx.near(d(O, P2_), q, tol, "passes through the second point", C=C, R=R, P1=P1, P2=P2_)
    cx.near(d(O, C) ** 2, R * R + q * q, tol * (1 + q), "orthogonal to the reference circle", C=C, R=R, P1=P1, P2=P2_)
    if arc:
        check_arc(cx, r, o, C, R, P1, P2_, tol)
    cx.cls("arc" if arc else "circle")


@family("C05", 400, ["circle", "arc", "same side", "opposite sides"])
def nearly_aligned(cx):
    """two points which are almost aligned with the centre: a large circle, not a diameter"""
    r = cx.r
    C, R = gen_circ(r, 12)
    if norm(C) > 20 * R:
        raise Skip()
    c = mkc(r, C, R)
    e = logu(r, -5.5, -1.5)
    t1 = rad(r)
    d1, d2 = R * r.uniform(.1, .95), R * r.uniform(.1, .95)
    opposite = r.random() < .5
    if not opposite and abs(d1 - d2) < .1 * R:
        raise Skip()
    P1, P2_ = polar(C, d1, t1), polar(C, d2, t1 + sgn(r) * e + (pi if opposite else 0))
    if r.random() < .5:
        P1, P2_ = P2_, P1
    arc = r.random() < .5
    cx.put(C=C, R=R, P1=P1, P2=P2_, arc=arc, angle=e)
    o = c.orthogonal_through_two_points_in_circle(wrap(r, P1), wrap(r, P2_), arc)
    cx.ok(isinstance(o, G.Arc if arc else G.Circle), "two points which are not aligned with the centre give a circle", got=o)
    O, q = P2(o.center), float(o.radius)
    cx.cls("arc" if arc else "circle")
    cx.cls("opposite sides" if opposite else "same side")
    # the circle through the two points orthogonal to the reference circle, by its polar equation
    # |O - C|^2 = R^2 + q^2 and (X - C).(O - C) = (|X - C|^2 + R^2) / 2 for its points X
    u, v = sub(P1, C), sub(P2_, C)
    D = cross(u, v)
    a, b = (dot(u, u) + R * R) / 2, (dot(v, v) + R * R) / 2
    W = ((a * v[1] - b * u[1]) / D, (b * u[0] - a * v[0]) / D)
    tol = 2e-13 * norm(W) * R * R / abs(D) * (1 + norm(C) / R)
    cx.near(d(O, add(C, W)), 0, tol, "the centre of the large circle", want=add(C, W), got=O)
    cx.near(q, sqrt(max(0, dot(W, W) - R * R)), tol, "the radius of the large circle")


def check_arc(cx, r, o, C, R, P1, P2_, tol):
    S, E = P2(o.starting_point()), P2(o.ending_point())
    cx.near(min(d(S, P1) + d(E, P2_), d(S, P2_) + d(E, P1)), 0, 4 * tol, "the arc joins the two points", S=S, E=E, P1=P1, P2=P2_)
    n = r.choice([2, 3, 10, 25])
    for M in o.path(n):
        cx.ok(d(P2(M), C) <= R + 4 * tol, "the arc stays inside the reference circle", M=M, C=C, R=R, arc=o)
    M = P2(o.path(3)[1])
    cx.ok(d(M, C) < R, "the middle of the arc is inside the reference circle", M=M, C=C, R=R, arc=o)


@family("C05", 900, ["circle", "diameter", "arc", "segment"])
def on_circle(cx):
    r = cx.r
    C, R = gen_circ(r, 12)
    c = mkc(r, C, R)
    a1 = rad(r)
    anti = r.random() < .25
    if anti:
        a2 = a1 + pi * r.choice([-3, -1, 1, 3, 5, -7])
    else:
        a2 = a1 + r.choice([pi / 2, -pi / 2, pi / 3, 1, sgn(r) * r.uniform(.03, 3.1), sgn(r) * logu(r, -4.5, -1.5), pi + sgn(r) * logu(r, -3.5, -1.5)])
        a2 += TAU * r.choice([0, 0, 0, -1, 1, 2, -2, -3, 4])
    if r.random() < .5:
        a1, a2 = a2, a1
    P1, P2_ = polar(C, R, a1), polar(C, R, a2)
    arc = r.random() < .6
    cx.put(C=C, R=R, alpha1=a1, alpha2=a2, arc=arc)
    if not arc and r.random() < .5:
        o = c.orthogonal_through_two_points_on_circle(a1, a2)
    else:
        o = c.orthogonal_through_two_points_on_circle(a1, a2, arc)
    s = 1 + norm(C) + R
    if anti:
        cx.ok(isinstance(o, G.Line), "opposite points give a diameter", got=o, alpha1=a1, alpha2=a2)
        A, B = line_of(o)
        cx.near(min(d(A, P1) + d(B, P2_), d(A, P2_) + d(B, P1)), 0, 1e-6 * s, "the diameter has the two points as ends")
        cx.ok(bool(o.extendA) == (not arc) and bool(o.extendB) == (not arc), "a segment if and only if arc=True", got=o, arc=arc)
        cx.cls("segment" if arc else "diameter")
        return
    cx.ok(isinstance(o, G.Arc if arc else G.Circle), "type of the orthogonal circle", got=o, alpha1=a1, alpha2=a2)
    O, q = P2(o.center), float(o.radius)
    sn = abs(sin(a1 - a2))
    want = R * abs(tan((a1 - a2) / 2))
    cx.near(q, want, 1e-12 * (s + norm(C)) / sn * (1 + q / R) * (1 + abs(a1) + abs(a2)), "radius of the orthogonal circle", alpha1=a1, alpha2=a2)
    tol = 1e-11 * (s + norm(O) + q) ** 2 / min(1, R) * (1 + abs(a1) + abs(a2))
    cx.near(d(O, P1), q, tol, "passes through the first point", alpha1=a1, alpha2=a2)
    cx.near(d(O, P2_), q, tol, "passes through the second point", alpha1=a1, alpha2=a2)
    cx.near(d(O, C) ** 2, R * R + q * q, tol * (1 + q), "orthogonal to the reference circle", alpha1=a1, alpha2=a2)
    if arc:
        check_arc(cx, r, o, C, R, P1, P2_, tol)
    cx.cls("arc" if arc else "circle")


# ---------------------------------------------------------------- C06
prop("C06", ["Arc.path", "Arc.starting_point", "Arc.ending_point"],
     "Angles of any sign and beyond one turn, in degrees and radians; 1, 2, 3, ... points.")


@family("C06", 1500, ["degrees", "radians", "default units", "crosses zero", "more than half a turn"])
def arc(cx):
    r = cx.r
    C, R = gen_circ(r)
    dg = r.random() < .6
    if dg:
        a1, a2 = deg(r), deg(r)
        k = pi / 180
    else:
        a1, a2 = rad(r), rad(r)
        k = 1.0
    sweep = ((a2 - a1) * k) % TAU
    if r.random() < .15:
        w = logu(r, -6, -1)
        a2 = a1 + r.choice([w, -w, w + TAU, -w - TAU]) / k
        sweep = ((a2 - a1) * k) % TAU
    a1, a2 = turned(r, a1, dg), turned(r, a2, dg)
    if sweep < 2e-7 or sweep > TAU - 2e-7:
        raise Skip()
    if dg and r.random() < .4:
        o = G.Arc(wrap(r, C), num(r, R), num(r, a1), num(r, a2))
        cx.cls("default units")
    else:
        o = G.Arc(wrap(r, C), num(r, R), num(r, a1), num(r, a2), dg)
    n = r.choice([1, 2, 3, 4, 7, r.randint(5, 40), r.randint(5, 40) if r.random() < .7 else r.randint(41, 400)])
    cx.put(C=C, R=R, alpha1=a1, alpha2=a2, degrees=dg, n=n)
    s = 1 + norm(C) + R
    S, E = P2(o.starting_point()), P2(o.ending_point())
    cx.near(S, polar(C, R, a1 * k), 1e-10 * s, "starting point", alpha1=a1, degrees=dg)
    cx.near(E, polar(C, R, a2 * k), 1e-10 * s, "ending point", alpha2=a2, degrees=dg)
    if r.random() < .15:
        p, n = o.path(), 100
    else:
        p = o.path(n) if r.random() < .5 else o.path(n_points=n)
    cx.ok(tuple(np.shape(p)) == (n, 2), "shape of the path", got=np.shape(p), n=n)
    for i in range(n):
        t = sweep * i / (n - 1) if n > 1 else 0.0
        cx.near(P2(p[i]), polar(C, R, a1 * k + t), 1e-13 * (norm(C) + R * (abs(a1) + abs(a2) + 10)), "the path runs counterclockwise from start to end at equal steps",
                i=i, n=n, alpha1=a1, alpha2=a2, degrees=dg)
    # reuse of the same object
    cx.near(P2(o.starting_point()), S, 1e-14 * (norm(C) + R), "starting point after the path")
    cx.cls("degrees" if dg else "radians")
    if (a1 * k) % TAU > (a2 * k) % TAU:
        cx.cls("crosses zero")
    if sweep > pi:
        cx.cls("more than half a turn")


@family("C06", 120, ["degrees", "radians"], factor=4)
def path_counts(cx):
    """every number of points, in turn, for arcs of all lengths"""
    r = cx.r
    C, R = gen_circ(r)
    dg = r.random() < .5
    k = pi / 180 if dg else 1.0
    for n in range(1 + 10 * (cx.idx % 60), 11 + 10 * (cx.idx % 60)):
        a1 = deg(r) if dg else rad(r)
        a2 = deg(r) if dg else rad(r)
        sweep = ((a2 - a1) * k) % TAU
        if sweep < 1e-4 or sweep > TAU - 1e-4:
            continue
        cx.put(C=C, R=R, alpha1=a1, alpha2=a2, degrees=dg, n=n)
        p = np.asarray(G.Arc(wrap(r, C), num(r, R), a1, a2, dg).path(n))
        cx.ok(p.shape == (n, 2), "the path of an arc has n rows and two columns, any n", n=n, got=p.shape)
        t = a1 * k + (sweep * np.arange(n) / (n - 1) if n > 1 else np.zeros(1))
        w = np.column_stack((C[0] + R * np.cos(t), C[1] + R * np.sin(t)))
        i = int(np.argmax(np.abs(p - w).sum(axis=1)))
        cx.near(P2(p[i]), P2(w[i]), 1e-13 * (norm(C) + R * (abs(a1) + abs(a2) + 10)), "the path runs counterclockwise from start to end at equal steps, any n", i=i, n=n)
    cx.cls("degrees" if dg else "radians")


# ---------------------------------------------------------------- C07
prop("C07", ["mid_circles", "Inversion.from_swapping_two_circles", "Inversion.from_fixing_two_circles",
             "Inversion.from_fixing_three_circles"],
     "Every relative position of two circles, congruent or not, in both orders.")
RELS = ["apart", "outer", "secant", "inner", "nested", "concentric"]


def gc_swap(g, C, R):
    """image of the circle (C,R) by the inversion on the generalised circle g"""
    if isinstance(g, G.Line):
        A, B = line_of(g)
        return mirror(A, B, C), R
    O, q = circ_of(g)
    if abs(d(O, C) - R) < 1e-9 * (R + q):
        return None
    return inv_circle(O, q * q, C, R)


def swap_tol(C1, r1, C2, r2):
    s = 1 + norm(C1) + norm(C2) + r1 + r2
    m = min(r1, r2)
    k = 1.0 if r1 == r2 else max(r1, r2) / abs(r1 - r2)
    return 1e-8 * s * (s / m) * k * k


@family("C07", 1500, RELS + ["equal", "congruent"])
def midcircles(cx):
    r = cx.r
    rel = r.choice(RELS + ["secant", "equal"])
    same = rel in ("apart", "outer", "secant") and r.random() < .45
    C1, r1, C2, r2 = circ_rel(r, rel, same)
    if r.random() < .5:
        C1, r1, C2, r2 = C2, r2, C1, r1
    dd = d(C1, C2)
    if rel not in ("outer", "inner", "equal", "concentric") and min(abs(dd ** 2 - (r1 + r2) ** 2), abs(dd ** 2 - (r1 - r2) ** 2)) < 1e-6:
        raise Skip()
    if rel == "concentric" and dd > 0:
        raise Skip()
    if norm(C1) > 20 * min(r1, r2):
        raise Skip()
    if r1 == r2:
        r1 = r2 = num(r, r1)
        a, b = G.Circle(wrap(r, C1), r1), G.Circle(wrap(r, C2), r2)
    else:
        a, b = mkc(r, C1, r1), mkc(r, C2, r2)
    cx.put(rel=rel, C1=C1, r1=r1, C2=C2, r2=r2)
    out = G.mid_circles(a, b)
    n = 2 if rel == "secant" else 1
    gs = list(out) if isinstance(out, (list, tuple)) else [out]
    cx.ok(len(gs) == n, "number of mid-circles: %s" % rel, got=out, C1=C1, r1=r1, C2=C2, r2=r2)
    cx.ok(sum(isinstance(g, G.Line) for g in gs) == (1 if (r1 == r2 and rel != "equal") else 0),
          "a line if and only if the circles are congruent", got=out, rel=rel)
    tol = swap_tol(C1, r1, C2, r2)
    for g in gs:
        if isinstance(g, G.Line):
            cx.ok(bool(g.extendA) and bool(g.extendB), "a mid-circle which is a line is a whole line", got=g)
        for (P, p), (Q, q) in (((C1, r1), (C2, r2)), ((C2, r2), (C1, r1))):
            im = gc_swap(g, P, p)
            cx.ok(im is not None, "the mid-circle is not centred on the circle", got=g)
            cx.near(im[0], Q, tol, "inversion on a mid-circle swaps the circles (centre)", rel=rel, C1=C1, r1=r1, C2=C2, r2=r2, mid=g)
            cx.near(im[1], q, tol, "inversion on a mid-circle swaps the circles (radius)", rel=rel, C1=C1, r1=r1, C2=C2, r2=r2, mid=g)
    if n == 2 and r1 != r2:
        (O, p), (Q, q) = circ_of(gs[0]), circ_of(gs[1])
        cx.near(d(O, Q) ** 2, p * p + q * q, tol * (1 + p + q + d(O, Q)) ** 2, "the two mid-circles of secant circles are orthogonal (hence distinct)")
    cx.cls(rel)
    if r1 == r2 and rel != "equal":
        cx.cls("congruent")


@family("C07", 600, ["mid-circles", "swapping", "close radii", "on an axis"])
def concentric_or_nested(cx):
    """concentric and almost concentric circles, radii close or not, centres at special places: the mid-circle is between them"""
    r = cx.r
    C1 = r.choice([(0.0, 0.0), (0.0, num(r, sgn(r) * logu(r, -1, 1))), (sgn(r) * logu(r, -1, 1), 0.0), mul(sgn(r) * logu(r, -1, 1), r.choice([(1, 1), (1, -1)])), fpt(pt(r))])
    C1 = fpt(C1)
    r1 = r.choice([1.0, 2.0, logu(r, -1, 1)])
    g = sgn(r) * logu(r, *r.choice([(-3, -1), (-1, -.1)]))
    r2 = r1 * (1 + g)
    w = abs(r2 - r1)
    C2 = C1 if r.random() < .6 else add(C1, mul(w * r.choice([.5, r.uniform(.01, .9)]), unit(r.choice([0, pi / 2, pi, -pi / 2, r.uniform(0, TAU)]))))
    dd = d(C1, C2)
    a, b = G.Circle(wrap(r, C1), num(r, r1)), G.Circle(wrap(r, C2), num(r, r2))
    cx.put(C1=C1, r1=r1, C2=C2, r2=r2)
    s = norm(C1) + r1 + r2
    if r.random() < .6:
        g = G.mid_circles(a, b)
        cx.ok(isinstance(g, G.Circle), "one circle is contained in the other one: one mid-circle", got=g)
        O, q = circ_of(g)
        k = q * q
        if C1 == C2:
            cx.near((O, q), (C1, sqrt(r1 * r2)), 1e-11 * s, "the mid-circle of concentric circles", C1=C1, r1=r1, r2=r2)
        (Ci, ri), (Co, ro) = ((C1, r1), (C2, r2)) if r1 < r2 else ((C2, r2), (C1, r1))
        cx.ok(d(O, Ci) + ri < q + 1e-9 * s and d(O, Co) + q < ro + 1e-9 * s, "the mid-circle is between the two circles", mid=g, C1=C1, r1=r1, C2=C2, r2=r2)
        cx.cls("mid-circles")
    else:
        pos = r.random() < .5
        i = G.Inversion.from_swapping_two_circles(a, b, pos)
        cx.ok(isinstance(i, G.Inversion), "an inversion swaps circles one of which contains the other one", got=i)
        O, k = P2(i.pole), float(i.power)
        cx.ok((k > 0) == pos, "sign of the power", positive=pos, power=k)
        cx.cls("swapping")
    for (A, p), (B, q) in (((C1, r1), (C2, r2)), ((C2, r2), (C1, r1))):
        u = r.uniform(0, TAU)
        for j in range(3):
            M = polar(A, p, u + j * TAU / 3)
            cx.near(d(inv_pt(O, k, M), B), q, s * 1e-9 / abs(g_of(r1, r2)), "the image of a point of one circle is on the other one, nested circles", C1=C1, r1=r1, C2=C2, r2=r2, M=M)
    if w < .01 * r1:
        cx.cls("close radii")
    if C1[0] == 0 or C1[1] == 0:
        cx.cls("on an axis")


def g_of(p, q):
    return min(1.0, abs(p - q) / max(p, q))


@family("C07", 600, ["mid-circles", "swapping", "same up to rounding", "very close radii", "apart", "outer", "secant"])
def almost_congruent(cx):
    """radii which are equal up to rounding, or very close to each other: points of one circle go to the other one"""
    r = cx.r
    rel = r.choice(["apart", "outer", "secant"])
    r1 = r.choice([.3, .1 + .2, logu(r, -1, 1)])
    fine = r.random() < .6
    delta = sgn(r) * (logu(r, -16.3, -10) if fine else logu(r, -6, -2))
    r2 = r1 * (1 + delta)
    if r.random() < .1:
        r1, r2, fine = .3, .1 + .2, True
    b = r1 + r2
    dd = {"apart": b * r.uniform(1.05, 4), "outer": b, "secant": b * r.uniform(.1, .95)}[rel]
    C1 = r.choice([(0.0, 0.0), polar((0, 0), r1 * logu(r, -1, 1), r.uniform(0, TAU))])
    t = r.choice([0, pi / 2, r.uniform(0, TAU)])
    C2 = polar(C1, dd, t)
    a, b = G.Circle(wrap(r, C1), r1), G.Circle(wrap(r, C2), r2)
    s = norm(C1) + dd + r1
    tol = s * (1e-8 + (0 if fine else 3e-13 / delta ** 2))
    cx.put(rel=rel, C1=C1, r1=r1, C2=C2, r2=r2)
    fs = []
    if r.random() < .5:
        out = G.mid_circles(a, b)
        gs = list(out) if isinstance(out, (list, tuple)) else [out]
        cx.ok(len(gs) == (2 if rel == "secant" else 1), "number of mid-circles: %s, close radii" % rel, got=out, r1=r1, r2=r2)
        for g in gs:
            if isinstance(g, G.Line):
                cx.ok(fine, "a line is a mid-circle of congruent circles only", r1=r1, r2=r2)
                A, B = line_of(g)
                cx.ok(bool(g.extendA) and bool(g.extendB), "a mid-circle which is a line is a whole line", got=g)
                fs.append(lambda M, A=A, B=B: mirror(A, B, M))
            else:
                O, q = circ_of(g)
                fs.append(lambda M, O=O, q=q: inv_pt(O, q * q, M))
        cx.cls("mid-circles")
    else:
        pos = r.random() < .5
        o = G.Inversion.from_swapping_two_circles(a, b, pos)
        if isinstance(o, G.Reflection):
            cx.ok(fine and rel == "outer", "a reflection for congruent tangent circles only", rel=rel, r1=r1, r2=r2)
            A, B = line_of(o.line)
            cx.ok(bool(o.line.extendA) and bool(o.line.extendB), "the axis of the reflection is a whole line", got=o.line)
            fs.append(lambda M, A=A, B=B: mirror(A, B, M))
        else:
            P, k = P2(o.pole), float(o.power)
            if rel == "secant" or rel == "outer":
                cx.ok(k > 0, "a positive power for circles which meet", rel=rel, r1=r1, r2=r2)
            elif not fine:
                cx.ok((k > 0) == pos, "sign of the power, close radii", rel=rel, r1=r1, r2=r2, positive=pos)
            fs.append(lambda M: inv_pt(P, k, M))
        cx.cls("swapping")
    for f in fs:
        for (A, p), (B, q) in (((C1, r1), (C2, r2)), ((C2, r2), (C1, r1))):
            u = r.uniform(0, TAU)
            for j in range(3):
                M = polar(A, p, u + j * TAU / 3)
                N = f(M)
                cx.near(d(N, B), q, tol, "the image of a point of one circle is on the other one, close radii", rel=rel, C1=C1, r1=r1, C2=C2, r2=r2, M=M)
    cx.cls(rel)
    cx.cls("same up to rounding" if fine else "very close radii")


@family("C07", 700, ["mid-circles", "swapping", "apart", "outer", "secant", "inner", "nested", "first is the small one", "first is the large one"])
def disparate(cx):
    """radii of different orders of magnitude, the small circle near the large one or deep inside it: points of one circle go to the other one"""
    r = cx.r
    ratio = logu(r, 1.3, 3.5)
    R = r.choice([1.0, logu(r, -3, 3)])
    p = R / ratio
    rel = r.choice(["apart", "outer", "secant", "inner", "nested"])
    u = logu(r, -1, 1)
    dd = {"apart": R + p * (1 + u) if r.random() < .6 else R * (2 + u), "outer": R + p, "secant": R + p * r.uniform(-.93, .93),
          "inner": R - p, "nested": R - p * (1 + u) if r.random() < .6 and u < ratio / 2 else (R - p) * r.uniform(.05, .9)}[rel]
    C1 = r.choice([(0.0, 0.0), polar((0, 0), R * logu(r, -1, .5), r.uniform(0, TAU))])
    C2 = polar(C1, dd, r.choice([0, pi / 2, pi, -pi / 2, r.uniform(0, TAU), r.uniform(0, TAU)]))
    big, small = (C1, R), (C2, p)
    if r.random() < .5:                                                     # the same with the small circle near the origin
        big, small = ((C1[0] - C2[0], C1[1] - C2[1]), R), ((0.0, 0.0), p)
    first, second = (big, small) if r.random() < .5 else (small, big)
    cx.cls("first is the large one" if first is big else "first is the small one")
    a, b = G.Circle(wrap(r, first[0]), first[1]), G.Circle(wrap(r, second[0]), second[1])
    cx.put(rel=rel, first=first, second=second)
    gs = []
    if r.random() < .5:
        out = G.mid_circles(a, b)
        gs = list(out) if isinstance(out, (list, tuple)) else [out]
        cx.ok(len(gs) == (2 if rel == "secant" else 1), "number of mid-circles: %s, unequal radii" % rel, got=out, first=first, second=second)
        cx.ok(all(isinstance(g, G.Circle) for g in gs), "the mid-circles of circles which are not congruent are circles", got=out)
        fs = [(O, q * q) for O, q in map(circ_of, gs)]
        if len(fs) == 2:
            cx.ok(d(fs[0][0], fs[1][0]) > p, "the two mid-circles are different", got=out)
        cx.cls("mid-circles")
    else:
        pos = r.random() < .5
        o = G.Inversion.from_swapping_two_circles(a, b, pos)
        cx.ok(isinstance(o, G.Inversion), "an inversion is returned", got=o, rel=rel)
        fs = [(P2(o.pole), float(o.power))]
        cx.ok((fs[0][1] > 0) == (pos or rel not in ("apart", "nested")), "sign of the power, unequal radii", rel=rel, positive=pos, power=fs[0][1])
        cx.cls("swapping")
    e = 1e-14 * (norm(big[0]) + norm(small[0]) + R)
    seen = 0
    for O, k in fs:
        dk = 2 * ratio * p * e
        for (A, rho), (B, q) in ((big, small), (small, big)):
            t0 = r.uniform(0, TAU)
            for j in range(4):
                M = polar(A, rho, t0 + j * TAU / 4)
                m = d(M, O)
                if m < 1e-6 * p:
                    continue
                N = inv_pt(O, k, M)
                t = e * (1 + abs(k) / m ** 2) + d(N, O) * dk / abs(k)
                if t > .01 * q:
                    continue
                seen += 1
                cx.near(d(N, B), q, t, "the image of a point of one circle is on the other one, unequal radii", rel=rel, first=first, second=second, M=M)
    if not seen:
        raise Skip()
    cx.cls(rel)


@family("C07", 1800, RELS + ["congruent apart", "congruent outer", "congruent secant", "positive", "negative"])
def swapping(cx):
    r = cx.r
    rel = r.choice(RELS)
    same = rel in ("apart", "outer", "secant") and r.random() < .4
    C1, r1, C2, r2 = circ_rel(r, rel, same)
    if r.random() < .5:
        C1, r1, C2, r2 = C2, r2, C1, r1
    dd = d(C1, C2)
    if rel not in ("outer", "inner", "concentric") and min(abs(dd - (r1 + r2)), abs(dd - abs(r1 - r2))) < 1e-6:
        raise Skip()
    if norm(C1) > 20 * min(r1, r2) or min(r1, r2) < .1:
        raise Skip()
    if same:
        r1 = r2 = num(r, r1)
        a, b = G.Circle(wrap(r, C1), r1), G.Circle(wrap(r, C2), r2)
    else:
        a, b = mkc(r, C1, r1), mkc(r, C2, r2)
    pos = r.random() < .5
    cx.put(rel=rel, C1=C1, r1=r1, C2=C2, r2=r2, positive=pos)
    if pos and r.random() < .5:
        o = G.Inversion.from_swapping_two_circles(a, b)
    else:
        o = G.Inversion.from_swapping_two_circles(a, b, pos)
    tol = swap_tol(C1, r1, C2, r2)
    if same and rel == "outer":
        cx.ok(isinstance(o, G.Reflection), "congruent tangent circles: a reflection", got=o)
        A, B = line_of(o.line)
        cx.ok(bool(o.line.extendA) and bool(o.line.extendB), "the axis of the reflection is a whole line", got=o.line)
        cx.near(mirror(A, B, C1), C2, tol, "the reflection swaps the circles")
        cx.cls("congruent outer")
        return
    cx.ok(isinstance(o, G.Inversion), "an inversion is returned", got=o, rel=rel)
    P, k = P2(o.pole), float(o.power)
    # which signs are possible
    if same:
        can = {"apart": (False,), "secant": (True,)}[rel]
    else:
        can = {"apart": (True, False), "outer": (True,), "secant": (True,), "inner": (True,),
               "nested": (True, False), "concentric": (True, False)}[rel]
    want = pos if pos in can else can[0]
    cx.ok((k > 0) == want, "sign of the power", rel=rel, same=same, positive=pos, power=k, C1=C1, r1=r1, C2=C2, r2=r2)
    for (A, p), (B, q) in (((C1, r1), (C2, r2)), ((C2, r2), (C1, r1))):
        if abs(d(P, A) - p) < 1e-7 * (p + abs(k)):
            cx.ok(False, "the pole is on one of the circles", pole=P, power=k, C1=C1, r1=r1, C2=C2, r2=r2)
        im = inv_circle(P, k, A, p)
        t = tol * (1 + abs(k) / max(abs(d(P, A) ** 2 - p * p), 1e-9))
        cx.near(im[0], B, t, "the inversion swaps the circles (centre)", rel=rel, positive=pos, C1=C1, r1=r1, C2=C2, r2=r2)
        cx.near(im[1], q, t, "the inversion swaps the circles (radius)", rel=rel, positive=pos, C1=C1, r1=r1, C2=C2, r2=r2)
    cx.cls(("congruent " if same else "") + rel)
    cx.cls("positive" if k > 0 else "negative")


@family("C07", 700, ["two", "three", "negative power", "positive power"])
def fixing(cx):
    r = cx.r
    if r.random() < .5:
        rel = r.choice(["apart", "secant", "nested"])
        C1, r1, C2, r2 = circ_rel(r, rel, rel != "nested" and r.choice([True, "almost"] + [False] * 4))
        if d(C1, C2) < .1 * max(r1, r2) or norm(C1) > 20 * min(r1, r2):
            raise Skip()
        cs = [(C1, r1), (C2, r2)]
        w = "two"
        f = G.Inversion.from_fixing_two_circles
    else:
        T = tri_pts(r, .3)
        R = [float(rad_len(r)) for _ in T]
        if r.random() < .3:
            R = [R[0]] * 3
        elif r.random() < .2:
            R = [R[0] * (1 + sgn(r) * logu(r, -9, -1.5)) for _ in T]
        if max(R) > 20 or min(R) < .2 or max(norm(p) for p in T) > 30 * min(R):
            raise Skip()
        cs = list(zip(T, R))
        w = "three"
        f = G.Inversion.from_fixing_three_circles
    cx.put(circles=cs)
    iota = f(*[mkc(r, C, R) for C, R in cs])
    P, k = P2(iota.pole), float(iota.power)
    s = 1 + norm(P) + max(norm(C) + R for C, R in cs)
    if abs(k) < 1e-2 * s * s:
        raise Skip()
    for C, R in cs:
        im = inv_circle(P, k, C, R)
        cx.near(im, (C, R), 1e-7 * s ** 3 / abs(k) * s, "the inversion leaves each circle invariant", circles=cs, pole=P, power=k)
        cx.near(circ_of(iota.invert_circle(G.Circle(C, R))), (C, R), 1e-7 * s ** 3 / abs(k) * s, "invert_circle leaves each circle invariant")
    cx.cls(w)
    cx.cls("positive power" if k > 0 else "negative power")


@family("C07", 700, ["similar", "first smaller", "first larger", "apart", "secant", "nested", "tiny", "huge"])
def fixing_ratio(cx):
    """two circles of very different sizes: the pole has the same power, that of the inversion, with respect to both"""
    r = cx.r
    u = 10 ** r.uniform(-6, 6)
    C1 = polar((0, 0), u * (0 if r.random() < .3 else logu(r, -1, 1.5)), r.uniform(0, TAU))
    r1 = u
    r2 = u * logu(r, -2.5, 2.5) if r.random() < .8 else u
    rel = r.choice(["apart", "secant", "nested"])
    if rel == "nested" and abs(r1 - r2) < .1 * u:
        raise Skip()
    a, b = abs(r1 - r2), r1 + r2
    dd = {"apart": b * (1 + logu(r, -3, .5)), "secant": a + (b - a) * r.uniform(.01, .99), "nested": a * r.uniform(.1, .98)}[rel]
    C2 = polar(C1, dd, r.choice([0, pi / 2, r.uniform(0, TAU)]))
    i = G.Inversion.from_fixing_two_circles(mkc(r, C1, r1), mkc(r, C2, r2))
    cx.put(rel=rel, C1=C1, r1=r1, C2=C2, r2=r2)
    P, k = P2(i.pole), float(i.power)
    s = norm(C1) + dd + b
    e = 1e-14 * (s + b * b / dd)
    m = max(d(P, C1), d(P, C2))
    for C, R in ((C1, r1), (C2, r2)):
        D = d(P, C)
        cx.near(D * D - R * R, k, 50 * (m * (e + 1e-15 * norm(P)) + 1e-15 * b * b + e * e), "the power of the pole is the power of the inversion",
                rel=rel, C1=C1, r1=r1, C2=C2, r2=r2, pole=P, power=k)
    x = (dd * dd + r1 * r1 - r2 * r2) / (2 * dd)
    cx.near(P, polar(C1, x, atan2(C2[1] - C1[1], C2[0] - C1[0])), 10 * e + 1e-14 * norm(P), "the pole is the radical centre")
    cx.cls(rel)
    cx.cls("similar" if .5 < r2 / r1 < 2 else "first smaller" if r1 < r2 else "first larger")
    if u < 1e-3 or u > 1e3:
        cx.cls("tiny" if u < 1 else "huge")


# ---------------------------------------------------------------- C08
prop("C08", ["Inversion.invert", "Inversion.invert_circle", "Inversion.invert_line", "Inversion.invert_gcircle",
             "Inversion.compose", "Inversion.on_circle", "Line.invert"],
     "Positive and negative powers; curves through the pole (also up to rounding) and close to it.")


def gen_inv(r):
    while True:
        P = fpt(pt(r))
        if norm(P) < 20:
            break
    k = sgn(r) * r.choice([1, 4, 9, r.uniform(.2, 12), logu(r, -1, 1.5)])
    return P, k


def mki(r, P, k):
    return G.Inversion(wrap(r, P), num(r, k))


@family("C08", 900, ["positive", "negative", "pole", "infinity", "fixed"])
def points_(cx):
    r = cx.r
    P, k = gen_inv(r)
    i = mki(r, P, k)
    M = polar(P, r.choice([sqrt(abs(k)), logu(r, -.7, 1)]), r.choice([rad(r), 0, pi / 2]))
    if r.random() < .3:
        M = pt(r)
    cx.put(pole=P, power=k, M=M)
    cx.ok(i.invert(wrap(r, P)) == inf, "the pole is sent to infinity", pole=P, got=i.invert(P))
    cx.near(P2(i.invert(inf)), P, 0.0, "infinity is sent to the pole")
    cx.cls("pole"); cx.cls("infinity")
    if d(M, P) < .1 or norm(M) > 40:
        raise Skip()
    s = 1 + norm(P) + norm(M)
    N = inv_pt(P, k, M)
    tol = 1e-10 * s * (1 + abs(k) / d(M, P) ** 2)
    Q = P2(i.invert(wrap(r, M)))
    cx.near(Q, N, tol, "image of a point", pole=P, power=k, M=M)
    if d(Q, P) > 2e-3 * (1 + norm(Q)):
        cx.near(P2(i.invert(np.array(Q))), M, tol * (1 + abs(k) / d(Q, P) ** 2) * 4, "inversion is an involution", pole=P, power=k, M=M)
    cx.cls("positive" if k > 0 else "negative")
    R = r.uniform(.3, 5)
    j = G.Inversion.on_circle(mkc(r, P, R))
    X = polar(P, R, rad(r))
    cx.near(P2(j.invert(X)), X, 1e-9 * s * (1 + R), "inversion on a circle fixes its points", C=P, R=R)
    Y = polar(P, R / 2, rad(r))
    cx.near(P2(j.invert(Y)), add(P, mul(4, sub(Y, P))), 1e-9 * s * (1 + R), "inversion on a circle: power is the squared radius")
    cx.cls("fixed")


@family("C08", 1500, ["circle off pole", "circle through pole", "circle near pole", "circle centred at pole", "circle centred near pole",
                      "line off pole", "line through pole", "line near pole"])
def curves(cx):
    r = cx.r
    P, k = gen_inv(r)
    i = mki(r, P, k)
    w = r.choice(["circle off pole", "circle through pole", "circle near pole", "circle centred at pole", "circle centred near pole",
                  "line off pole", "line through pole", "line near pole"])
    t = r.choice([0, pi / 2, pi, -pi / 2]) if r.random() < .3 else r.uniform(0, TAU)
    if w.startswith("circle"):
        R = r.choice([1, 2, r.uniform(.3, 5)])
        dd = {"circle off pole": R * r.choice([r.uniform(.05, .9), r.uniform(1.1, 4)]), "circle through pole": R,
              "circle near pole": R * (1 + sgn(r) * logu(r, -5, -1)), "circle centred at pole": 0.0,
              "circle centred near pole": R * logu(r, -10, -1.3)}[w]
        C = add(P, mul(dd, unit(t))) if dd else P
        g = mkc(r, C, R)
        src = [polar(C, R, t + pi + x) for x in (pi, 2.2, -2.2, 1.2, -1.5, r.uniform(.8, 5.4))]
        toline = w == "circle through pole"
        cx.put(what=w, pole=P, power=k, C=C, R=R)
        fs = [i.invert_circle, i.invert_gcircle]
    else:
        h = {"line off pole": sgn(r) * r.uniform(.2, 5), "line through pole": 0.0, "line near pole": sgn(r) * logu(r, -5.5, -1)}[w]
        n = unit(t); v = perp(n)
        H = add(P, mul(h, n))
        a = r.choice([1, -2, sgn(r) * r.uniform(.4, 3)]); b = a + sgn(r) * r.uniform(.5, 3)
        if abs(b) < .3:
            raise Skip()
        A, B = add(H, mul(a, v)), add(H, mul(b, v))
        fl = flags(r)
        g = mkline(r, A, B, *fl)
        src = [add(H, mul(x, v)) for x in (a, b, 1.0, -1.0, 3.0, -2.5)]
        toline = w == "line through pole"
        cx.put(what=w, pole=P, power=k, A=A, B=B)
        fs = [i.invert_line, i.invert_gcircle, lambda l: l.invert(i)]
    for f in fs:
        o = f(g)
        cx.ok(isinstance(o, G.Line if toline else G.Circle), "type of the image: " + w, got=o, pole=P, power=k)
        size = 1.0
        if toline and (w.startswith("circle") or fl == (True, True)):
            cx.ok(bool(o.extendA) and bool(o.extendB), "the image is a whole line: " + w, got=o)
        if not toline:
            O, q = circ_of(o)
            size = 1 + q + norm(O)
        for M in src:
            if d(M, P) < 1e-6:
                continue
            N = inv_pt(P, k, M)
            cx.near(on_gcircle(G, o, N), 0, 1e-9 * (size + norm(N)) * (1 + size + norm(P)) , "the image of a curve consists of the images of its points: " + w,
                    pole=P, power=k, M=M, image=o)
        if w.startswith("circle") and not toline:
            O, q = circ_of(o)
            cx.near((O, q), inv_circle(P, k, C, R), 1e-8 * size * size * (1 + size), "image circle")
        if w.startswith("line") and not toline:
            cx.near(d(O, P), q, 1e-8 * size * size, "the image of a line passes through the pole")
    cx.cls(w)


@family("C08", 700, ["circle through pole", "circle off pole", "line off pole", "far", "tiny", "huge"])
def far_curves(cx):
    """figures of any size far from the origin: images to the precision of the coordinates"""
    r = cx.r
    u = 10 ** r.uniform(-6, 6)
    m = 0 if r.random() < .2 else logu(r, 0, 4)
    P = polar((0, 0), m * u, r.choice([0, pi / 2, r.uniform(0, TAU), r.uniform(0, TAU)]))
    k = sgn(r) * u * u * logu(r, -2.5, 1)
    i = mki(r, P, k)
    w = r.choice(["circle through pole", "circle off pole", "line off pole"])
    n = unit(r.choice([0, pi / 2, pi, -pi / 2, r.uniform(0, TAU), r.uniform(0, TAU)]))
    s = norm(P) + u
    cx.put(what=w, pole=P, power=k)
    if w == "line off pole":
        h = u * sgn(r) * r.uniform(.2, 4)
        H = add(P, mul(h, n))
        a = u * r.uniform(-3, 3)
        A, B = add(H, mul(a, perp(n))), add(H, mul(a + u * sgn(r) * r.uniform(.4, 3), perp(n)))
        h = abs(line_dist(A, B, P))
        for f in (i.invert_line, i.invert_gcircle):
            o = f(mkline(r, A, B, *flags(r)))
            cx.ok(isinstance(o, G.Circle), "a line off the pole becomes a circle", got=o)
            C, R = circ_of(o)
            e = (s * 1e-15 + u * 1e-14) / u
            cx.near(R, abs(k) / (2 * h), abs(k) / u * 1e4 * e + 1e-13 * s, "radius of the image of a line, far from the origin", A=A, B=B)
            cx.near(d(C, P), R, abs(k) / u * 1e4 * e + 1e-13 * s, "the image of a line passes through the pole, far from the origin", A=A, B=B)
            cx.near(line_dist(add(P, perp(sub(B, A))), P, C), 0, abs(k) / u * 1e4 * e + 1e-13 * s + 4e-16 * s, "the centre of the image of a line is on the perpendicular through the pole", A=A, B=B)
    else:
        R = u * r.uniform(.3, 4)
        dd = R if w == "circle through pole" else R * r.choice([r.uniform(.1, .8), r.uniform(1.2, 3)])
        C = add(P, mul(dd, n))
        for f in (i.invert_circle, i.invert_gcircle):
            o = f(mkc(r, C, R))
            if w == "circle through pole":
                cx.ok(isinstance(o, G.Line), "a circle through the pole becomes a line", got=o)
                cx.ok(bool(o.extendA) and bool(o.extendB), "a circle through the pole becomes a whole line", got=o)
                A, B = line_of(o)
                v = sub(B, A)
                cx.near(dot(v, n) / norm(v), 0, 1e-11 * s / u, "the image line is perpendicular to the line of the pole and the centre", C=C, R=R)
                cx.near(dot(sub(A, P), n), k / (2 * R), 1e-11 * s * (1 + abs(k) / u / u), "place of the image line", C=C, R=R)
                cx.near(dot(sub(B, P), n), k / (2 * R), 1e-11 * (s + norm(v)) * (1 + abs(k) / u / u), "place of the image line, second point", C=C, R=R)
            else:
                cx.near(circ_of(o), inv_circle(P, k, C, R), 1e-12 * s * (1 + abs(k) / u / u), "image of a circle, far from the origin", C=C, R=R)
    cx.cls(w)
    if m > 100:
        cx.cls("far")
    if u < 1e-3 or u > 1e3:
        cx.cls("tiny" if u < 1 else "huge")


@family("C08", 700, ["left", "right"])
def composition(cx):
    r = cx.r
    P, k = gen_inv(r)
    Q, l = gen_inv(r)
    if r.random() < .15:
        Q = P
    if norm(P) > 8 or norm(Q) > 8:
        raise Skip()
    i, j = mki(r, P, k), mki(r, Q, l)
    left = r.random() < .5
    m = i.compose(j) if left and r.random() < .5 else i.compose(j, left)
    cx.put(pole1=P, power1=k, pole2=Q, power2=l, left=left)
    cx.ok(isinstance(m, G.Mobius), "the composition of two inversions is a Moebius transformation", got=m)
    (P1, k1), (P2_, k2) = ((P, k), (Q, l)) if left else ((Q, l), (P, k))
    n = 0
    for _ in range(6):
        M = fpt(pt(r))
        if d(M, P1) < .2 or norm(M) > 15:
            continue
        N = inv_pt(P1, k1, M)
        if d(N, P2_) < .1 or norm(N) > 100:
            continue
        X = inv_pt(P2_, k2, N)
        if norm(X) > 100:
            continue
        s = (1 + norm(M) + norm(N) + norm(X) + norm(P) + norm(Q)) ** 2
        cx.near(P2(m.transform(wrap(r, M))), X, 1e-9 * s * (1 + abs(k1) / d(M, P1) ** 2) * (1 + abs(k2) / d(N, P2_) ** 2),
                "the Moebius transformation is the composition", M=M, left=left, pole1=P, power1=k, pole2=Q, power2=l)
        n += 1
    if n == 0:
        raise Skip()
    cx.cls("left" if left else "right")


# ---------------------------------------------------------------- C09
prop("C09", ["SteinerChain"], "3 to 14 circles, phi of both signs and zero, any shift.")


@family("C09", 900, ["phi=0", "phi>0", "phi<0", "n=3", "shift<0"])
def chain(cx):
    r = cx.r
    C, R = gen_circ(r, 20)
    n = r.choice([3, 4, 5, 6, 7, 8, 12, 14]) if r.random() < .9 else r.randint(9, 70) if r.random() < .8 else r.randint(71, 160)
    phi = r.choice([0, 0.0, .25, -.25, .5, sgn(r) * r.uniform(.01, .85), sgn(r) * r.uniform(.01, .85), sgn(r) * logu(r, -6, -2), sgn(r) * r.uniform(.85, .97)])
    shift = r.choice([0, 0, 1, -1, .5, 3, r.uniform(-10, 10), sgn(r) * logu(r, 0, 3.5)])
    c0 = mkc(r, C, R)
    cx.put(C=C, R=R, n=n, phi=phi, shift=shift)
    out = G.SteinerChain(c0, n, num(r, phi), num(r, shift))
    cs = [circ_of(c) for c in out["circles"]]
    cx.ok(len(cs) == n + 1, "number of circles", got=len(cs), n=n)
    inner = cs[-1]
    ch = cs[:-1]
    s = R + norm(C)
    tol = 1e-9 * s / (1 - abs(phi)) ** 2 * 10 + (4e-15 * s / abs(phi) if phi else 0)
    cx.ok(d(inner[0], C) + inner[1] < R, "the inner circle is inside the exterior circle", inner=inner, C=C, R=R)
    for k in range(n):
        (O, q), (O2, q2) = ch[k], ch[(k + 1) % n]
        cx.near(d(O, C), R - q, tol, "chain circle tangent to the exterior circle", k=k, n=n, phi=phi, shift=shift)
        cx.near(d(O, inner[0]), q + inner[1], tol, "chain circle tangent to the inner circle", k=k, n=n, phi=phi, shift=shift)
        cx.near(d(O, O2), q + q2, tol, "consecutive chain circles are tangent", k=k, n=n, phi=phi, shift=shift)
        for m in range(k + 2, n if k else n - 1):
            cx.ok(d(O, ch[m][0]) > q + ch[m][1] - tol, "chain circles do not overlap", k=k, m=m)
    e = out["ellipse"]
    E = ell_of(e)
    cx.ok(E[1] >= E[2] - tol, "the ellipse has major radius >= minor radius", got=e)
    for O, q in ch:
        cx.near(ell_q(E, O), 1, 1e-7 / (1 - abs(phi)) ** 2 * (1 + s / R), "the ellipse passes through the centres", ellipse=e, O=O)
    c = sqrt(max(E[1] ** 2 - E[2] ** 2, 0))
    f1, f2 = add(E[0], mul(c, unit(E[3]))), sub(E[0], mul(c, unit(E[3])))
    cx.near(min(d(f1, C) + d(f2, inner[0]), d(f2, C) + d(f1, inner[0])), 0, 1e-6 * s, "the foci are the centres of the two guiding circles")
    # shifting by one position relabels the chain
    out2 = G.SteinerChain(G.Circle(C, R), n, phi, shift + 1)
    ch2 = [circ_of(x) for x in out2["circles"]][:-1]
    for k in range(n):
        cx.near(ch2[k], ch[(k + 1) % n], tol * 10, "an integer shift relabels the chain", k=k, n=n, phi=phi, shift=shift)
    # a whole turn of the chain changes nothing, and without phi the chain turns by shift positions
    ch3 = [circ_of(x) for x in G.SteinerChain(G.Circle(C, R), n, phi, shift % n)["circles"]][:-1]
    for k in range(n):
        cx.near(ch3[k], ch[k], tol * 10 + 1e-13 * abs(shift) * s / (1 - abs(phi)) ** 2, "shifting by n positions changes nothing", k=k, n=n, phi=phi, shift=shift)
        if phi == 0:
            cx.near(ch[k][0], polar(C, d(ch[k][0], C), (k + shift) * TAU / n), tol + 1e-12 * abs(shift) * R, "position of the circles of the symmetric chain", k=k, shift=shift)
    cx.cls("phi=0" if phi == 0 else "phi>0" if phi > 0 else "phi<0")
    if n == 3:
        cx.cls("n=3")
    if shift < 0:
        cx.cls("shift<0")
