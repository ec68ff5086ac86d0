"""C01 lines, C02 projections / perpendiculars / reflections, C03 intersections."""
import math
from fractions import Fraction
from math import pi, sin, cos, sqrt, atan2
import numpy as np
from ..core import prop, family, load, Skip
from ..geo import *

G = load()


def mkline(r, A, B, ea=True, eb=True):
    if ea and eb and r.random() < .3:
        return G.Line(wrap(r, A), wrap(r, B))
    return G.Line(wrap(r, A), wrap(r, B), ea, eb)


def flags(r):
    return r.choice([(True, True), (True, False), (False, True), (False, False)])


def well(A, B, k=60):
    """conditioning: |AB| is not tiny with respect to the coordinates"""
    return d(A, B) * k >= max(norm(A), norm(B), 1e-9)


def gen_line(r):
    while True:
        A, B = line_pts(r)
        if well(A, B):
            return A, B


# ---------------------------------------------------------------- C01
prop("C01", ["Line.direction_offset", "Line.is_equal", "Line.is_parallel", "Line.is_perpendicular", "Line.includes"],
     "Lines: vertical, horizontal, through the origin, diagonal and generic; perturbations are log-uniform.")


@family("C01", 700, ["vertical", "horizontal", "through origin", "generic"])
def equation(cx):
    r = cx.r
    A, B = gen_line(r)
    ea, eb = flags(r)
    L = mkline(r, A, B, ea, eb)
    cx.put(A=A, B=B)
    do = L.direction_offset()
    cx.ok(set(do) == {"direction", "offset"}, "keys of direction_offset", got=do)
    th, of = float(do["direction"]), float(do["offset"])
    s = 1 + max(norm(A), norm(B))
    cx.ok(of >= -1e-12 * s, "the offset is not negative", A=A, B=B, do=do)
    cx.ok(-1e-9 <= th < TAU + 1e-9, "the direction lies in [0, 2pi)", do=do)
    for t in (0, 1, .5, -3, r.uniform(-8, 8)):
        P = lerp(A, B, t)
        cx.near(cos(th) * P[0] + sin(th) * P[1], of, 1e-10 * (s + norm(P)), "equation holds on the line", A=A, B=B)
    h = sgn(r) * logu(r, -3, 1)
    Q = add(lerp(A, B, r.uniform(-2, 3)), mul(h / d(A, B), perp(sub(B, A))))
    cx.near(abs(cos(th) * Q[0] + sin(th) * Q[1] - of), abs(h), 1e-9 * (s + norm(Q)), "equation gives the distance off the line")
    cx.cls("vertical" if A[0] == B[0] else "horizontal" if A[1] == B[1] else
           "through origin" if of < 1e-9 else "generic")


@family("C01", 900, ["same", "shifted", "turned", "mirrored"])
def equality(cx):
    r = cx.r
    A, B = gen_line(r)
    u = sub(B, A)
    if d(A, B) < .5 or norm(A) > 20:
        raise Skip()
    L = mkline(r, A, B, *flags(r))
    k = r.random()
    t1 = r.choice([0, 1, -1, 2, .5, r.uniform(-4, 4)])
    t2 = t1 + sgn(r) * r.choice([1, 2, r.uniform(.5, 4)])
    C, D = lerp(A, B, t1), lerp(A, B, t2)
    if k < .4:
        what, exp = "same", True
    elif k < .6:
        what, exp = "shifted", False
        h = sgn(r) * logu(r, -4, 1)
        v = mul(h / norm(u), perp(u))
        C, D = add(C, v), add(D, v)
    elif k < .8:
        what, exp = "turned", False
        a = r.choice([pi / 2, pi / 3, sgn(r) * logu(r, -4, .3)])
        O = r.choice([A, C, (0, 0)])
        C, D = rot(C, a, O), rot(D, a, O)
        if abs(sin(a)) < 5e-5:
            raise Skip()
    else:
        what, exp = "mirrored", False
        f = r.choice([lambda p: (-p[0], p[1]), lambda p: (p[0], -p[1]), lambda p: (-p[0], -p[1]), lambda p: (p[1], p[0])])
        C, D = f(C), f(D)
        e = max(abs(line_dist(A, B, C)), abs(line_dist(A, B, D)))
        if e < 1e-12:
            exp = True
        elif e < 1e-3:
            raise Skip()
    L2 = mkline(r, C, D, *flags(r))
    cx.put(what=what, A=A, B=B, C=C, D=D)
    cx.ok(bool(L.is_equal(L2)) == exp, "is_equal " + what, A=A, B=B, C=C, D=D)
    cx.ok(bool(L2.is_equal(L)) == exp, "is_equal (reversed) " + what, A=A, B=B, C=C, D=D)
    cx.ok(bool(L.is_equal(L)), "is_equal to itself")
    cx.cls(what)


@family("C01", 900, ["parallel", "perpendicular", "neither", "nearly parallel", "nearly perpendicular"])
def directions(cx):
    r = cx.r
    A, B = gen_line(r)
    if norm(A) > 20:
        raise Skip()
    u = sub(B, A)
    k = r.random()
    C = r.choice([A, B, pt(r)])
    if norm(C) > 20:
        C = A
    length = r.choice([1, 1, 2, -1, -3, .05, 20, sgn(r) * logu(r, -1.5, 1.5)])
    if k < .3:
        w, a = "parallel", 0
        v = mul(length, u)
    elif k < .6:
        w = "perpendicular"
        v = mul(length, perp(u))
    elif k < .75:
        w = "nearly parallel"
        v = mul(length, rot(u, sgn(r) * logu(r, -4, -1)))
    elif k < .9:
        w = "nearly perpendicular"
        v = mul(length, rot(u, pi / 2 + sgn(r) * logu(r, -4, -1)))
    else:
        w = "neither"
        v = mul(length, rot(u, r.choice([pi / 4, pi / 3, -pi / 4, 1, 2.5])))
    D = add(C, v)
    if d(C, D) < .01:
        raise Skip()
    if not well(C, D, 1000):
        raise Skip()
    L, L2 = mkline(r, A, B, *flags(r)), mkline(r, C, D, *flags(r))
    cx.put(what=w, A=A, B=B, C=C, D=D)
    for x, y in ((L, L2), (L2, L)):
        cx.ok(bool(x.is_parallel(y)) == (w == "parallel"), "is_parallel: " + w, A=A, B=B, C=C, D=D)
        cx.ok(bool(x.is_perpendicular(y)) == (w == "perpendicular"), "is_perpendicular: " + w, A=A, B=B, C=C, D=D)
    cx.cls(w)


@family("C01", 400)
def integer_directions(cx):
    """exact decisions on lattice lines (oracle in exact integer arithmetic)"""
    r = cx.r
    while True:
        A, B, C, D = [(grid(r), grid(r)) for _ in range(4)]
        if A != B and C != D:
            break
    u, v = sub(B, A), sub(D, C)
    par, per = cross(u, v) == 0, dot(u, v) == 0
    eq = par and cross(u, sub(C, A)) == 0
    L, L2 = mkline(r, A, B, *flags(r)), mkline(r, C, D, *flags(r))
    cx.put(A=A, B=B, C=C, D=D)
    cx.ok(bool(L.is_parallel(L2)) == par, "is_parallel on lattice lines", A=A, B=B, C=C, D=D)
    cx.ok(bool(L.is_perpendicular(L2)) == per, "is_perpendicular on lattice lines", A=A, B=B, C=C, D=D)
    cx.ok(bool(L.is_equal(L2)) == eq, "is_equal on lattice lines", A=A, B=B, C=C, D=D)
    M = r.choice([C, D, (grid(r), grid(r)), add(A, u), sub(A, u), add(A, mul(2, u))])
    on = cross(u, sub(M, A)) == 0
    cx.ok(bool(L.includes(wrap(r, M))) == on, "includes on lattice points", A=A, B=B, M=M)
    ea, eb = L.extendA, L.extendB
    if on:
        s = dot(sub(M, A), u)
        inside = (ea or s >= 0) and (eb or s <= dot(u, u))
        cx.ok(bool(L.includes(wrap(r, M), strict=True)) == inside, "strict membership of lattice points",
              A=A, B=B, M=M, extendA=ea, extendB=eb)
    else:
        cx.ok(not L.includes(wrap(r, M), strict=True), "strict membership off the line", A=A, B=B, M=M)


@family("C01", 1100, ["before A", "at A", "between", "at B", "after B", "off"])
def membership(cx):
    r = cx.r
    A, B = gen_line(r)
    if d(A, B) < .3 or norm(A) > 20:
        raise Skip()
    ea, eb = flags(r)
    L = mkline(r, A, B, ea, eb)
    k = r.randrange(6)
    w = ["before A", "at A", "between", "at B", "after B", "off"][k]
    s = 1 + max(norm(A), norm(B))
    g = logu(r, -3, 1)
    t = [-g, 0, r.choice([.5, r.uniform(.01, .99), min(g, .4), 1 - min(g, .4)]), 1, 1 + g, r.uniform(-3, 4)][k]
    M = A if k == 1 else B if k == 3 else lerp(A, B, t)
    if k == 5:
        h = sgn(r) * logu(r, -3, 1)
        M = add(M, mul(h / d(A, B), perp(sub(B, A))))
        if min(d(M, A), d(M, B)) < 2e-3 * s:
            raise Skip()
    cx.put(what=w, A=A, B=B, M=M, extendA=ea, extendB=eb)
    Mw = wrap(r, M)
    cx.ok(bool(L.includes(Mw)) == (k != 5), "includes: " + w, A=A, B=B, M=M)
    exp = {0: ea, 1: True, 2: True, 3: True, 4: eb, 5: False}[k]
    cx.ok(bool(L.includes(Mw, strict=True)) == exp, "strict membership: " + w, A=A, B=B, M=M, extendA=ea, extendB=eb)
    cx.ok(bool(L.includes(Mw, strict=False)) == (k != 5), "non strict membership: " + w, A=A, B=B, M=M)
    if k != 5:
        cx.ok(bool(L.includes(Mw, strict=True, checkCollinear=False)) == exp,
              "strict membership without the collinearity test: " + w, A=A, B=B, M=M, extendA=ea, extendB=eb)
        cx.ok(bool(L.includes(Mw, checkCollinear=False)), "non strict membership of a point of the line, without the collinearity test: " + w, A=A, B=B, M=M)
        cx.ok(bool(L.includes(Mw, False, False)), "non strict membership of a point of the line, positional arguments: " + w, A=A, B=B, M=M)
        cx.ok(bool(L.includes(Mw, True, True)) == exp, "strict membership, positional arguments: " + w, A=A, B=B, M=M)
    cx.cls(w)


def steep(r):
    """a direction: any, or within 1e-9 ... 1e-2 of an axis"""
    a = r.uniform(0, TAU) if r.random() < .3 else r.randrange(4) * pi / 2 + (0 if r.random() < .25 else sgn(r) * logu(r, -9, -2))
    return (cos(a), sin(a)) if a % (pi / 2) else [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][round(a / (pi / 2)) % 4]


def exact_cross(A, B, C):
    """exact (B - A) x (C - A), as a fraction"""
    A, B, C = [(Fraction(float(x)), Fraction(float(y))) for x, y in (A, B, C)]
    return (B[0] - A[0]) * (C[1] - A[1]) - (B[1] - A[1]) * (C[0] - A[0])


def exact_dist(A, B, M):
    return abs(float(exact_cross(A, B, M))) / d(A, B)


@family("C01", 900, ["parallel", "perpendicular", "neither", "equal", "shifted", "turned", "almost vertical", "almost horizontal", "far", "tiny", "huge"])
def extremes(cx):
    """lines close to an axis, of very different lengths, far from the origin, tiny or huge; the oracle is exact"""
    r = cx.r
    k = 10 ** r.uniform(-6, 6)
    l1 = k
    l2 = k * (1 if r.random() < .3 else logu(r, -3, 3))
    T = min(l1, l2) * (0 if r.random() < .2 else logu(r, -1, 4))
    T = max(T, 0)
    O = polar((0, 0), T, r.uniform(0, TAU))
    if r.random() < .3:
        O = r.choice([(O[0], 0.0), (0.0, O[1])])
    u = steep(r)
    A = O
    B = add(A, mul(l1, u))
    w = r.choice(["parallel", "perpendicular", "neither", "equal", "shifted", "turned"])
    tmax = 2e4 * min(l1, l2)
    if w == "equal" or w == "shifted":
        C = add(A, mul(r.uniform(-1, 1) * min(tmax, 10 * l1), u))
        v = mul(sgn(r), u)
    else:
        C = polar((0, 0), T, r.uniform(0, TAU)) if r.random() < .6 else A
        v = mul(sgn(r), u) if w == "parallel" else mul(sgn(r), perp(u))
        if w in ("turned", "neither"):
            v = rot(r.choice([u, perp(u)]), sgn(r) * logu(r, -5.5, -.2) if w == "turned" else r.choice([.6, 1, 2.4]))
    D = add(C, mul(l2, v))
    s = max(map(norm, (A, B, C, D)))
    if s > 3e4 * min(l1, l2):
        raise Skip()
    if w == "shifted":
        h = sgn(r) * s * logu(r, -6.5, 0)
        C, D = add(C, mul(h, perp(u))), add(D, mul(h, perp(u)))
    if C == D or A == B:
        raise Skip()
    L, L2 = mkline(r, A, B, *flags(r)), mkline(r, C, D, *flags(r))
    cx.put(what=w, A=A, B=B, C=C, D=D)
    for X, Y, l in ((A, B, L), (C, D, L2)):
        do = l.direction_offset()
        th, of = float(do["direction"]), float(do["offset"])
        m = max(norm(X), norm(Y))
        cx.ok(of >= -1e-13 * m and -1e-9 <= th < TAU + 1e-9, "direction and offset in their ranges", A=X, B=Y, do=do)
        for t in (0, 1, .5, -2, r.uniform(-9, 9)):
            Z = lerp(X, Y, t)
            e = exact_dist(X, Y, Z)
            cx.near(cos(th) * Z[0] + sin(th) * Z[1], of, 1e-13 * (m + norm(Z)) + 2 * e, "equation holds on a steep line", A=X, B=Y)
        Q = add(lerp(X, Y, r.uniform(-2, 3)), mul(sgn(r) * logu(r, -4, 1), perp(sub(Y, X))))
        cx.near(abs(cos(th) * Q[0] + sin(th) * Q[1] - of), exact_dist(X, Y, Q), 1e-13 * (m + norm(Q)), "distance to a steep line by its equation", A=X, B=Y, Q=Q)
    par = w in ("parallel", "equal", "shifted")
    collinear = w == "equal"
    if w == "parallel":
        e = exact_dist(A, B, C)
        if e > 3e-7 * s:
            collinear = False
        elif e < 1e-12 * s:
            collinear = True
        else:
            collinear = None
    for x, y in ((L, L2), (L2, L)):
        cx.ok(bool(x.is_parallel(y)) == par, "is_parallel, extreme lines: " + w, A=A, B=B, C=C, D=D)
        cx.ok(bool(x.is_perpendicular(y)) == (w == "perpendicular"), "is_perpendicular, extreme lines: " + w, A=A, B=B, C=C, D=D)
        if collinear is not None:
            cx.ok(bool(x.is_equal(y)) == collinear, "is_equal, extreme lines: " + w, A=A, B=B, C=C, D=D)
    cx.cls(w)
    if min(abs(u[0]), abs(u[1])) < 1e-2:
        cx.cls("almost vertical" if abs(u[0]) < abs(u[1]) else "almost horizontal")
    if s > 100 * min(l1, l2):
        cx.cls("far")
    if k < 1e-3 or k > 1e3:
        cx.cls("tiny" if k < 1 else "huge")


@family("C01", 700, ["on", "off", "before A", "after B", "inside"])
def extreme_membership(cx):
    """membership of points of steep, tiny, huge, far lines"""
    r = cx.r
    k = 10 ** r.uniform(-6, 6)
    T = k * (0 if r.random() < .2 else logu(r, -1, 4))
    A = polar((0, 0), T, r.uniform(0, TAU))
    u = steep(r)
    B = add(A, mul(k, u))
    ea, eb = flags(r)
    L = mkline(r, A, B, ea, eb)
    w = r.choice(["before A", "after B", "inside"])
    g = logu(r, -5, 3)
    if w == "inside":
        g = r.choice([.5, r.random(), min(g, .5), 1 - min(g, .5)])
    t = -g if w == "before A" else 1 + g if w == "after B" else g
    M = lerp(A, B, t)
    s = max(map(norm, (A, B, M)))
    if min(abs(t), abs(1 - t)) * k < 1e-13 * s:
        raise Skip()
    on = r.random() < .6
    if not on:
        h = sgn(r) * k * logu(r, -5, 3)
        M = add(M, mul(h / k, perp(sub(B, A))))
        s = max(map(norm, (A, B, M)))
        if min(d(M, A), d(M, B)) < 4e-7 * s or d(A, B) < 4e-7 * s or abs(h) < 1e-6 * d(M, A):
            raise Skip()
    elif d(A, B) < 4e-7 * s:
        raise Skip()
    cx.put(A=A, B=B, M=M, t=t, on=on, extendA=ea, extendB=eb)
    inside = on and (w == "inside" or (w == "before A" and ea) or (w == "after B" and eb))
    Mw = wrap(r, M)
    cx.ok(bool(L.includes(Mw)) == on, "includes, extreme line", A=A, B=B, M=M, on=on)
    cx.ok(bool(L.includes(Mw, strict=True)) == inside, "strict membership, extreme line: " + w, A=A, B=B, M=M, extendA=ea, extendB=eb)
    if on:
        cx.ok(bool(L.includes(Mw, strict=True, checkCollinear=False)) == inside,
              "strict membership without the collinearity test, extreme line: " + w, A=A, B=B, M=M, extendA=ea, extendB=eb)
    cx.cls("on" if on else "off")
    cx.cls(w)


# ---------------------------------------------------------------- C02
prop("C02", ["Line.projection", "Line.distance", "Line.perpendicular", "Line.reflection", "Reflection.reflect",
             "Projection.project"],
     "Points on the line, near it (1e-6) and away from it.")


def gen_point_for(r, A, B):
    k = r.random()
    if k < .2:
        return lerp(A, B, r.choice([0, 1, .5, 2, -1, r.uniform(-3, 3)])), "on"
    h = sgn(r) * (logu(r, -6, -2) if k < .35 else logu(r, -2, 1))
    if k < .65:
        return add(lerp(A, B, r.uniform(-2, 3)), mul(h / d(A, B), perp(sub(B, A)))), "near" if abs(h) < 1e-2 else "away"
    M = pt(r)
    h = abs(line_dist(A, B, M))
    return M, "on" if h < 1e-12 else "near" if h < 1e-2 else "away"


@family("C02", 1200, ["on", "near", "away"])
def projection(cx):
    r = cx.r
    A, B = gen_line(r)
    M, w = gen_point_for(r, A, B)
    if norm(A) > 20 or norm(M) > 60:
        raise Skip()
    L = mkline(r, A, B, *flags(r))
    cx.put(A=A, B=B, M=M, where=w)
    s = 1 + norm(A) + norm(B) + norm(M)
    tol = 1e-9 * s * (1 + s / d(A, B))
    H = foot(A, B, M)
    Mn = np.array(M, dtype=float)
    Pr = P2(L.projection(wrap(r, M)))
    cx.near(Pr, H, tol, "projection is the foot of the perpendicular", A=A, B=B, M=M)
    cx.near(P2(L.projection(np.array(Pr))), Pr, tol, "projection is idempotent")
    dd = float(L.distance(Mn))
    cx.near(dd, abs(line_dist(A, B, M)), tol, "distance", A=A, B=B, M=M)
    cx.near(dd, d(M, Pr), tol, "distance is the length to the projection")
    p = G.Projection(L, None)
    for f in (p.project, p.transform):
        cx.near(P2(f(wrap(r, M))), H, tol, "orthogonal projection object agrees", A=A, B=B, M=M)
    S = mirror(A, B, M)
    R = G.Reflection(L)
    for name, f in (("Line.reflection", L.reflection), ("Reflection.reflect", R.reflect), ("Reflection.transform", R.transform)):
        Q = P2(f(wrap(r, M)))
        cx.near(Q, S, 2 * tol, name + " is the mirror image", A=A, B=B, M=M)
        cx.near(P2(f(np.array(Q))), M, 4 * tol, name + " is an involution")
    cx.near(mid(M, P2(L.reflection(Mn))), Pr, 2 * tol, "the projection is the midpoint of M and its mirror image")
    cx.cls(w)


@family("C02", 900, ["on", "near", "away"])
def perpendicular(cx):
    r = cx.r
    A, B = gen_line(r)
    M, w = gen_point_for(r, A, B)
    if norm(A) > 20 or norm(M) > 60:
        raise Skip()
    h = abs(line_dist(A, B, M))
    if w == "near" and h < 3e-3 * (1 + norm(M)):   # the foot and M may be identified by the library: see DESIGN
        w = "near"
    L = mkline(r, A, B, *flags(r))
    eH, eM = r.choice([(False, True), (True, True), (True, False), (False, False)])
    cx.put(A=A, B=B, M=M, where=w, extendH=eH, extendM=eM)
    if (eH, eM) == (False, True) and r.random() < .5:
        p = L.perpendicular(wrap(r, M))
    else:
        p = L.perpendicular(wrap(r, M), eH, eM)
    C, D = line_of(p)
    u = sub(B, A)
    s = 1 + norm(A) + norm(M) + norm(B)
    v = sub(D, C)
    cx.near(dot(u, v) / norm(u) / norm(v), 0, 1e-8 + 1e-13 * s * s / norm(v) / norm(u) * 10,
            "the perpendicular is perpendicular", A=A, B=B, M=M)
    cx.near(line_dist(C, D, M), 0, 1e-7 * s, "the perpendicular passes through M", A=A, B=B, M=M)
    if w == "away" and h > .02 * s:
        H = foot(A, B, M)
        tol = 1e-9 * s * (1 + s / norm(u))
        cx.near(C, H, tol, "the first point is the meeting point", A=A, B=B, M=M)
        cx.near(D, M, tol, "the second point is M", A=A, B=B, M=M)
        cx.ok(bool(p.extendA) == eH and bool(p.extendB) == eM, "extension flags of the perpendicular",
              extendH=eH, extendM=eM, got=p)
        cx.ok(bool(p.is_perpendicular(L)) and bool(L.is_perpendicular(p)), "is_perpendicular(perpendicular)")
    elif w == "on":
        cx.ok(bool(p.extendA) and bool(p.extendB), "the perpendicular at a point of the line is infinite", got=p)
    cx.cls(w)


@family("C02", 900, ["steep", "near", "away", "tiny", "huge", "far"])
def precise(cx):
    """steep, tiny, huge and far lines; the oracle is exact and the tolerance that of the coordinates"""
    r = cx.r
    k = 10 ** r.uniform(-6, 6)
    T = k * (0 if r.random() < .25 else logu(r, -1, 4))
    A = polar((0, 0), T, r.uniform(0, TAU))
    u = steep(r)
    B = add(A, mul(k, u))
    t = r.uniform(-3, 4) if r.random() < .8 else sgn(r) * logu(r, 0, 2)
    h = sgn(r) * logu(r, -5, 1)
    M = add(lerp(A, B, t), mul(h, perp(sub(B, A))))
    L = mkline(r, A, B, *flags(r))
    cx.put(A=A, B=B, M=M)
    s = max(map(norm, (A, B, M)))
    F = [(Fraction(x), Fraction(y)) for x, y in (A, B, M)]
    U = (F[1][0] - F[0][0], F[1][1] - F[0][1])
    V = (F[2][0] - F[0][0], F[2][1] - F[0][1])
    q = (U[0] * V[0] + U[1] * V[1]) / (U[0] ** 2 + U[1] ** 2)
    H = (F[0][0] + q * U[0], F[0][1] + q * U[1])
    S = (float(2 * H[0] - F[2][0]), float(2 * H[1] - F[2][1]))
    H = (float(H[0]), float(H[1]))
    D = exact_dist(A, B, M)
    tol = 2e-14 * s * (1 + d(A, M) / k)
    cx.near(P2(L.projection(wrap(r, M))), H, tol, "projection, to the precision of the coordinates", A=A, B=B, M=M)
    cx.near(float(L.distance(wrap(r, M))), D, 2 * tol, "distance, to the precision of the coordinates", A=A, B=B, M=M)
    cx.near(P2(L.reflection(wrap(r, M))), S, 2 * tol, "mirror image, to the precision of the coordinates", A=A, B=B, M=M)
    R, p = G.Reflection(L), G.Projection(L, None)
    cx.near(P2(R.reflect(wrap(r, M))), S, 2 * tol, "Reflection.reflect, to the precision of the coordinates", A=A, B=B, M=M)
    cx.near(P2(p.project(wrap(r, M))), H, tol, "Projection.project, to the precision of the coordinates", A=A, B=B, M=M)
    eH, eM = flags(r)
    q = L.perpendicular(wrap(r, M), eH, eM)
    X, Y = line_of(q)
    if D > 4e-7 * s and D > 1e-6 * d(A, M) and D > 1e-6 * d(B, M):
        cx.near(X, H, tol, "foot of the perpendicular, to the precision of the coordinates", A=A, B=B, M=M)
        cx.near(Y, M, 1e-15 * s, "the perpendicular ends at M", A=A, B=B, M=M)
        cx.ok(bool(q.extendA) == eH and bool(q.extendB) == eM, "flags of the perpendicular, extreme line", got=q)
    else:
        e = abs(dot(sub(Y, X), u)) / d(X, Y)
        cx.near(e, 0, 1e-6, "perpendicular at a point almost on the line", A=A, B=B, M=M)
        cx.near(exact_dist(X, Y, M), 0, 4e-7 * s, "perpendicular through a point almost on the line", A=A, B=B, M=M)
    cx.cls("near" if abs(h) < 1e-2 else "away")
    if min(abs(u[0]), abs(u[1])) < 1e-2:
        cx.cls("steep")
    if T > 100 * k:
        cx.cls("far")
    if k < 1e-3 or k > 1e3:
        cx.cls("tiny" if k < 1 else "huge")


# ---------------------------------------------------------------- C03
prop("C03", ["intersection_line_line", "intersection_circle_line", "intersection_circle_circle", "intersection_ellipse_line",
             "Line.intersection_with_line", "Line.intersection_with_circle", "Line.intersection_with_ellipse",
             "Circle.intersection_with_line", "Circle.intersection_with_circle", "Ellipse.intersection_with_line"],
     "Every relative position, tangency constructed up to rounding, gaps log-uniform from 1e-4.")


@family("C03", 700, ["near", "far", "tiny", "huge"])
def line_line_precise(cx):
    """lines of any size, far from the origin; exact oracle"""
    r = cx.r
    k = 10 ** r.uniform(-6, 6)
    T = k * (0 if r.random() < .2 else logu(r, -1, 4.5))
    O = polar((0, 0), T, r.choice([0, pi / 2, r.uniform(0, TAU), r.uniform(0, TAU)]))
    u = steep(r)
    v = r.choice([perp(u), rot(u, r.uniform(.2, 2.9)), steep(r)])
    if abs(cross(u, v)) < .1:
        raise Skip()
    A = add(O, mul(k * r.uniform(-3, 3), u))
    B = add(A, mul(k * sgn(r) * r.choice([1, r.uniform(.3, 4)]), u))
    C = add(O, add(mul(k * r.uniform(-3, 3), v), mul(k * r.uniform(-2, 2), u)))
    D = add(C, mul(k * sgn(r) * r.choice([1, r.uniform(.3, 4)]), v))
    F = [(Fraction(x), Fraction(y)) for x, y in (A, B, C, D)]
    p, q, w = sub(F[1], F[0]), sub(F[3], F[2]), sub(F[2], F[0])
    t = cross(w, q) / cross(p, q)
    X = (float(F[0][0] + t * p[0]), float(F[0][1] + t * p[1]))
    s = max(map(norm, (A, B, C, D, X)))
    L, L2 = mkline(r, A, B, *flags(r)), mkline(r, C, D, *flags(r))
    cx.put(A=A, B=B, C=C, D=D)
    for f in (lambda: L.intersection_with_line(L2), lambda: G.intersection_line_line(L2, L)):
        I = f()
        cx.ok(not isinstance(I, G.Line) and I is not None, "crossing lines meet at a point", got=I)
        cx.near(P2(I), X, 2e-14 * (s + 100 * k), "meeting point, to the precision of the coordinates", A=A, B=B, C=C, D=D)
    cx.cls("far" if T > 100 * k else "near")
    if k < 1e-3 or k > 1e3:
        cx.cls("tiny" if k < 1 else "huge")


@family("C03", 800, ["crossing", "narrow angle", "parallel", "equal"])
def line_line(cx):
    r = cx.r
    A, B = gen_line(r)
    if norm(A) > 20 or d(A, B) < .3:
        raise Skip()
    u = sub(B, A)
    k = r.random()
    if k < .45:
        w = "crossing"
        while True:
            C, D = gen_line(r)
            if norm(C) < 20 and abs(cross(u, sub(D, C))) > .05 * norm(u) * d(C, D):
                break
    elif k < .6:
        w = "narrow angle"
        C = lerp(A, B, r.uniform(-3, 3))
        v = rot(u, sgn(r) * logu(r, -3.5, -1))
        t = r.uniform(-2, 2)
        C, D = add(C, mul(t, v)), add(C, mul(t + r.choice([-1, 1]) * r.uniform(.5, 3), v))
    else:
        w = "parallel" if k < .85 else "equal"
        h = sgn(r) * logu(r, -3, 1) if w == "parallel" else 0
        t = r.uniform(-3, 3)
        n = mul(h / norm(u), perp(u))
        C, D = add(lerp(A, B, t), n), add(lerp(A, B, t + sgn(r) * r.choice([1, 2, r.uniform(.4, 3)])), n)
    fl = flags(r)
    L, L2 = mkline(r, A, B, *fl), mkline(r, C, D, *flags(r))
    cx.put(what=w, A=A, B=B, C=C, D=D)
    for f, (x, y) in ((lambda x, y: x.intersection_with_line(y), (L, L2)), (G.intersection_line_line, (L2, L)),
                      (lambda x, y: y.intersection_with_line(x), (L, L2))):
        I = f(x, y)
        if w == "parallel":
            cx.ok(I is None, "distinct parallel lines do not meet", A=A, B=B, C=C, D=D, got=I)
        elif w == "equal":
            cx.ok(isinstance(I, G.Line), "the intersection of equal lines is a line", A=A, B=B, C=C, D=D, got=I)
            cx.ok(same_line(line_of(I), (A, B), 1e-7), "the intersection of equal lines is that line", got=I, A=A, B=B)
            if all(bool(z.extendA) and bool(z.extendB) for z in (x, y)):
                cx.ok(bool(I.extendA) and bool(I.extendB), "the intersection of equal whole lines is a whole line", got=I)
        else:
            cx.ok(is_pt(I), "crossing lines meet at one point", A=A, B=B, C=C, D=D, got=I)
            I = P2(I)
            s = 1 + norm(I) + norm(A) + norm(C)
            sa = abs(cross(u, sub(D, C))) / norm(u) / d(C, D)
            tol = 1e-10 * s * s / sa * (1 + 1 / d(C, D) + 1 / norm(u))
            cx.near(line_dist(A, B, I), 0, tol, "the intersection is on the first line", A=A, B=B, C=C, D=D, I=I)
            cx.near(line_dist(C, D, I), 0, tol, "the intersection is on the second line", A=A, B=B, C=C, D=D, I=I)
            cx.near(I, meet(A, B, C, D), tol, "the intersection point")
    cx.cls(w)


def chord_line(r, C, R, dd, t):
    """two points on the line at signed distance dd of C with normal direction t"""
    n = unit(t)
    H = add(C, mul(dd, n))
    v = perp(n)
    a = r.choice([0.0, R, -R, r.uniform(-2, 2) * R])
    b = a + sgn(r) * r.uniform(.3, 2) * max(R, .3)
    return add(H, mul(a, v)), add(H, mul(b, v))


@family("C03", 900, ["secant", "tangent", "disjoint", "through the centre"])
def circle_line(cx):
    r = cx.r
    C, R = fpt(pt(r)), float(rad_len(r))
    if norm(C) > 30 * R:
        raise Skip()
    k = r.random()
    g = logu(r, -3, 0)
    w = "secant" if k < .4 else "tangent" if k < .65 else "disjoint" if k < .85 else "through the centre"
    dd = {"secant": R * r.choice([1 - min(g, .9), r.uniform(.05, .95)]), "tangent": R,
          "disjoint": R * (1 + g), "through the centre": 0.0}[w]
    t = r.choice([0, pi / 2, pi, -pi / 2]) if r.random() < .4 else r.uniform(0, TAU)
    if t in (0, pi / 2, pi, -pi / 2) and r.random() < .7:
        n = {0: (1, 0), pi / 2: (0, 1), pi: (-1, 0), -pi / 2: (0, -1)}[t]
        H = add(C, mul(dd, n)); v = perp(n)
        a = r.choice([0.0, 1.0, -2.0]); b = a + sgn(r) * r.choice([1, 2.5])
        A, B = add(H, mul(a, v)), add(H, mul(b, v))
    else:
        A, B = chord_line(r, C, R, dd, t)
    if r.random() < .3:            # defining points close to each other, or far apart
        f = r.choice([logu(r, -3.5, -1), logu(r, -3.5, -2.5), logu(r, 0, 2)])
        A = sub(B, mul(f, sub(B, A)))
        if r.random() < .5:
            A, B = B, A
    if d(A, B) < 1e-4 or max(d(A, C), d(B, C)) > 1e3 * R or d(A, B) * 2e4 < max(norm(A), norm(B), R, norm(C)):
        raise Skip()
    L = mkline(r, A, B, *flags(r))
    c = G.Circle(wrap(r, C), num(r, R))
    cx.put(what=w, C=C, R=R, A=A, B=B)
    # true signed distance of the constructed (rounded) line
    for f in (lambda: L.intersection_with_circle(c), lambda: c.intersection_with_line(L),
              lambda: G.intersection_circle_line(c, L), lambda: G.intersection_ellipse_line(c, L)):
        I = f()
        check_conic_line(cx, I, w, lambda P: abs(d(P, C) - R) / R, A, B, R + norm(C), "circle", C, R, dd)
    cx.cls(w)


def check_conic_line(cx, I, w, q, A, B, s, name, C=None, R=None, dd=None):
    if w == "disjoint":
        cx.ok(I is None, "%s and line do not meet" % name, got=I, A=A, B=B)
        return
    if w == "tangent":
        cx.ok(is_pt(I), "tangent line and %s meet at one point" % name, got=I, A=A, B=B)
        pts = [P2(I)]
        tol = 3e-6
    else:
        cx.ok(isinstance(I, (list, tuple)) and len(I) == 2, "secant line and %s meet at two points" % name, got=I, A=A, B=B)
        pts = [P2(x) for x in I]
        tol = 1e-8
    for P in pts:
        cx.near(q(P), 0, tol, "intersection point is on the " + name, P=P, A=A, B=B)
        cx.near(line_dist(A, B, P), 0, tol * s, "intersection point is on the line", P=P, A=A, B=B)
    if len(pts) == 2:
        if C is not None:
            cx.near(d(*pts), 2 * sqrt(max(R * R - dd * dd, 0)), 1e-6 * s, "the two points are the ends of the chord", pts=pts)
        cx.ok(d(*pts) > 1e-3 * min(s, 1) * 1e-2, "the two intersection points are distinct", pts=pts)


@family("C03", 500, ["concentric", "nested", "close radii", "on an axis"])
def nested_circles(cx):
    """circles one of which is contained in the other one, with close radii or not, at special places: no common point"""
    r = cx.r
    C1 = fpt(r.choice([(0, 0), (0, sgn(r) * logu(r, -1, 1)), (sgn(r) * logu(r, -1, 1), 0), mul(sgn(r) * logu(r, -1, 1), r.choice([(1, 1), (1, -1)])), pt(r)]))
    r1 = r.choice([1.0, 2.0, logu(r, -1, 1)])
    r2 = r1 * (1 + sgn(r) * logu(r, *r.choice([(-3, -1), (-1, -.1)])))
    w = abs(r2 - r1)
    t = 0 if r.random() < .5 else r.choice([.5, r.uniform(.01, .7)])
    C2 = C1 if t == 0 else add(C1, mul(w * t, unit(r.choice([0, pi / 2, pi, -pi / 2, r.uniform(0, TAU)]))))
    a, b = G.Circle(wrap(r, C1), num(r, r1)), G.Circle(wrap(r, C2), num(r, r2))
    cx.put(C1=C1, r1=r1, C2=C2, r2=r2)
    for f in (lambda: a.intersection_with_circle(b), lambda: G.intersection_circle_circle(b, a), lambda: G.intersection_circle_circle(a, b)):
        I = f()
        cx.ok(I is None, "nested circles do not meet", got=I, C1=C1, r1=r1, C2=C2, r2=r2)
    cx.cls("concentric" if t == 0 else "nested")
    if w < .01 * r1:
        cx.cls("close radii")
    if C1[0] == 0 or C1[1] == 0:
        cx.cls("on an axis")


@family("C03", 1000, ["apart", "outer", "secant", "inner", "nested", "concentric", "equal"])
def circle_circle(cx):
    r = cx.r
    rel = r.choice(["apart", "outer", "secant", "secant", "inner", "nested", "concentric", "equal"])
    samer = rel in ("apart", "outer", "secant") and r.choice([True, "almost"] + [False] * 4)
    C1, r1, C2, r2 = circ_rel(r, rel, samer)
    if r.random() < .5:
        C1, r1, C2, r2 = C2, r2, C1, r1
    dd = d(C1, C2)
    if rel not in ("outer", "inner") and dd and min(abs(dd ** 2 - (r1 + r2) ** 2), abs(dd ** 2 - (r1 - r2) ** 2)) < 1e-6:
        raise Skip()
    a, b = G.Circle(wrap(r, C1), num(r, r1)), G.Circle(wrap(r, C2), num(r, r2))
    cx.put(rel=rel, C1=C1, r1=r1, C2=C2, r2=r2)
    s = 1 + norm(C1) + norm(C2) + r1 + r2
    for f in (lambda: a.intersection_with_circle(b), lambda: G.intersection_circle_circle(b, a),
              lambda: G.intersection_circle_circle(a, b)):
        I = f()
        if rel == "equal":
            cx.ok(isinstance(I, G.Circle), "equal circles: the intersection is a circle", got=I)
            c, R = circ_of(I)
            cx.near((c, R), (C1, r1), 1e-9 * s, "equal circles: the intersection is that circle")
            continue
        if rel in ("apart", "nested", "concentric"):
            cx.ok(I is None, "%s circles do not meet" % rel, got=I, C1=C1, r1=r1, C2=C2, r2=r2)
            continue
        if rel in ("outer", "inner"):
            cx.ok(is_pt(I), "tangent circles meet at one point", got=I, rel=rel, C1=C1, r1=r1, C2=C2, r2=r2)
            e = (r1 + r2 if rel == "outer" else r1 - r2)
            T = add(C1, mul(r1 / e, sub(C2, C1)))
            cx.near(P2(I), T, 1e-6 * s * (1 + max(r1, r2) / min(r1, r2)) , "tangency point", rel=rel, C1=C1, r1=r1, C2=C2, r2=r2)
            continue
        cx.ok(isinstance(I, (list, tuple)) and len(I) == 2, "secant circles meet at two points", got=I)
        pts = [P2(x) for x in I]
        x = (r1 * r1 - r2 * r2 + dd * dd) / (2 * dd)
        h = sqrt(max(r1 * r1 - x * x, 0))
        acc = 1e-14 * s * (1 + s / dd) * (1 + s / h)
        for P in pts:
            cx.near(d(P, C1), r1, min(1e-8 * s, acc), "intersection point is on the first circle", P=P)
            cx.near(d(P, C2), r2, min(1e-6 * s, acc), "intersection point is on the second circle", P=P)
        cx.near(d(*pts), 2 * h, min(1e-5 * s, acc), "the two points are the ends of the common chord", pts=pts)
        cx.ok(d(*pts) > h, "the two intersection points are distinct", pts=pts)
    cx.cls(rel)


@family("C03", 600, ["secant", "disjoint", "through the centre", "elongated", "almost round", "tiny", "huge", "far"])
def extreme_ellipse_line(cx):
    """elongated, almost round, tiny, huge and far ellipses"""
    r = cx.r
    q = r.choice([10 ** r.uniform(0, 3), 1 + logu(r, -9, -1), 10 ** r.uniform(0, 1)])
    b = 10 ** r.choice([0, r.uniform(-5, 5), r.uniform(-1, 1)])
    a = q * b
    far = b * r.choice([0, r.uniform(0, 10), logu(r, 1, 4)])
    C = polar((0, 0), far, r.choice([0, pi / 2, r.uniform(0, TAU)]))
    dg = r.random() < .5
    al = r.choice([0, 90, 30, -45, 540, r.uniform(-400, 400)])
    if not dg:
        al = al * pi / 180
    E = (C, a, b, al * pi / 180 if dg else al)
    w = r.choice(["secant", "secant", "disjoint", "through the centre"])
    h = {"secant": r.uniform(.05, .95), "disjoint": 1 + logu(r, -2, 1), "through the centre": 0.0}[w]
    t = r.choice([0, pi / 2, r.uniform(0, TAU), r.uniform(0, TAU)])
    n = unit(t); v = perp(n)
    H = mul(h, n)
    p = r.uniform(-2, 2); z = p + sgn(r) * r.uniform(.7, 3)

    def up(P):
        return add(C, rot((a * P[0], b * P[1]), E[3]))
    A, B = up(add(H, mul(p, v))), up(add(H, mul(z, v)))
    tol = 1e-13 * (q + (norm(C) + a) / b) * 10
    if tol > 1e-3:
        raise Skip()
    e = G.Ellipse(wrap(r, C), a, b, al, dg) if not dg or r.random() < .5 else G.Ellipse(wrap(r, C), a, b, al)
    L = G.Line(wrap(r, A), wrap(r, B), *flags(r))
    cx.put(what=w, ell=E, A=A, B=B)
    for f in (lambda: L.intersection_with_ellipse(e), lambda: e.intersection_with_line(L), lambda: G.intersection_ellipse_line(e, L)):
        I = f()
        if w == "disjoint":
            cx.ok(I is None, "extreme ellipse: a disjoint line", ell=E, A=A, B=B, got=I)
            continue
        cx.ok(isinstance(I, (list, tuple)) and len(I) == 2, "extreme ellipse: two points on a secant line", ell=E, A=A, B=B, got=I)
        k = sqrt(1 - h * h)
        want = [add(H, mul(k, v)), add(H, mul(-k, v))]
        got = []
        for P in I:
            x = rot(sub(P2(P), C), -E[3])
            got.append((x[0] / a, x[1] / b))
        if d(got[0], want[0]) > d(got[1], want[0]):
            got.reverse()
        cx.near(got, want, tol / k, "extreme ellipse: the common points with a line", ell=E, A=A, B=B, got_points=I)
    cx.cls(w)
    if q > 100:
        cx.cls("elongated")
    if q < 1.001:
        cx.cls("almost round")
    if b < 1e-2 or b > 1e2:
        cx.cls("tiny" if b < 1 else "huge")
    if far > 1e2 * b:
        cx.cls("far")


@family("C03", 900, ["secant", "tangent", "disjoint", "through the centre"])
def ellipse_line(cx):
    r = cx.r
    par = ell_par(r, 6)
    C, a, b, al, dg, ra = par
    E = (fpt(C), float(a), float(b), ra)
    if norm(C) > 20 * b or b < .05:
        raise Skip()
    e = mk_ell(G, r, par)
    k = r.random()
    g = logu(r, -3, 0)
    w = "secant" if k < .4 else "tangent" if k < .65 else "disjoint" if k < .85 else "through the centre"
    dd = {"secant": r.choice([1 - min(g, .9), r.uniform(.05, .95)]), "tangent": 1.0,
          "disjoint": 1 + g, "through the centre": 0.0}[w]
    t = r.choice([0, pi / 2, pi, -pi / 2]) if r.random() < .4 else r.uniform(0, TAU)
    n = unit(t); H = mul(dd, n); v = perp(n)
    p = r.choice([0, 1, r.uniform(-2, 2)]); q = p + sgn(r) * r.uniform(.7, 2)

    def up(P):      # unit disc -> ellipse
        return ell_pt((E[0], a * norm(P), b * norm(P), ra), atan2(P[1], P[0])) if norm(P) else E[0]
    A, B = up(add(H, mul(p, v))), up(add(H, mul(q, v)))
    L = mkline(r, A, B, *flags(r))
    cx.put(what=w, ell=par, A=A, B=B)
    res = []
    for f in (lambda: L.intersection_with_ellipse(e), lambda: e.intersection_with_line(L), lambda: G.intersection_ellipse_line(e, L)):
        I = f()
        check_conic_line(cx, I, w, lambda P: abs(ell_q(E, P) - 1) / 2, A, B, a + norm(C), "ellipse")
        if isinstance(I, (list, tuple)):
            x, y = [P2(z) for z in I]
            cx.ok(d(x, y) > 1.0 * b * sqrt(1 - dd * dd), "the two points are the two ends of the chord", pts=(x, y))
    cx.cls(w)
