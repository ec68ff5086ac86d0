"""C10 descriptions of an ellipse, C11 reconstruction and equality, C12 minimum
area ellipses."""
import math
from math import pi, sin, cos, sqrt, atan2, inf
import numpy as np
from ..core import prop, family, load, Skip, Fail
from ..geo import *

G = load()


def gen_ell(r, k=60, maxratio=8.0, circ=.1):
    while True:
        par = ell_par(r, maxratio, circ)
        C, a, b, al, dg, ra = par
        if norm(C) <= k * b:
            return par, (fpt(C), float(a), float(b), ra)


def eccentric(r):
    k = r.random()
    if k < .3:
        return r.choice([0, pi / 2, pi, -pi / 2, 2 * pi, 0.0, 3 * pi, -pi])
    if k < .45:
        return pi / 4 * r.randint(-9, 17)
    if k < .55:
        return r.randint(-9, 14)
    if k < .6:
        return r.uniform(-300, 300)
    if k < .64:
        return r.choice([0, 0, pi / 2, pi]) + r.choice([-1, 1]) * 10.0 ** r.uniform(-7, -1)
    return r.uniform(-8, 14)


# ---------------------------------------------------------------- C10
prop("C10", ["Ellipse.includes", "Ellipse.contains", "Ellipse.equation", "Ellipse.shape_matrix", "Ellipse.path",
             "Ellipse.point_from_angle", "Ellipse.theta2t", "Ellipse.normal", "Ellipse.diameter"],
     "Ellipses with aspect ratios from 1 to 8, any angle, in degrees and in radians.")


@family("C10", 900, ["inside", "on", "outside", "centre", "circle", "radians"])
def membership(cx):
    r = cx.r
    par, E = gen_ell(r)
    e = mk_ell(G, r, par)
    k = r.random()
    w = "inside" if k < .3 else "on" if k < .6 else "outside" if k < .9 else "centre"
    g = logu(r, -4, 0)
    f = {"inside": 1 - min(g, .999), "on": 1.0, "outside": 1 + 3 * g, "centre": 0.0}[w]
    t = eccentric(r)
    P = lerp(E[0], ell_pt(E, t), f)
    cx.put(ell=par, t=t, where=w, P=P)
    Pw = wrap(r, P)
    cx.ok(bool(e.includes(Pw)) == (w == "on"), "includes: " + w, ell=par, P=P)
    if w != "on":
        cx.ok(bool(e.contains(Pw)) == (w != "outside"), "contains: " + w, ell=par, P=P)
    q = f * f - 1
    eq = e.equation()
    cx.ok(list(eq.keys()) == ["A", "B", "C", "D", "E", "F"], "the equation has its six coefficients in order", got=list(eq.keys()))
    A, B, C, D, EE, F = [float(x) for x in eq.values()]
    x, y = P
    v = A * x * x + B * x * y + C * y * y + D * x + EE * y + F
    s = (A + C) * (norm(P) + norm(E[0])) ** 2 + abs(F) + E[1] ** 2 * E[2] ** 2
    cx.near(v / s, q * v_scale(A, B, C, E) / s, 1e-9,
            "the implicit equation has the value of the ellipse form", ell=par, P=P)
    S = e.shape_matrix()
    cx.ok(np.shape(S) == (2, 2), "the shape matrix is 2x2", got=S)
    a11, a12, a21, a22 = (float(S[0][0]), float(S[0][1]), float(S[1][0]), float(S[1][1]))
    cx.near(a12, a21, 1e-12 * (abs(a11) + abs(a22)), "the shape matrix is symmetric")
    u = sub(P, E[0])
    cx.near(a11 * u[0] ** 2 + 2 * a12 * u[0] * u[1] + a22 * u[1] ** 2, f * f, 1e-6 * (1 + f * f),
            "(M-O)'S(M-O) is the ellipse form", ell=par, P=P)
    cx.cls(w)
    if par[1] == par[2]:
        cx.cls("circle")
    if not par[4]:
        cx.cls("radians")


def v_scale(A, B, C, E):
    """an implicit equation of E is a positive multiple k of (form - 1); k from the determinant"""
    return sqrt(A * C - B * B / 4) * E[1] * E[2]


@family("C10", 900, ["far", "elongated", "almost round", "tiny", "huge", "inside", "on", "outside"])
def far_or_elongated(cx):
    """ellipses far from the origin compared to their size, and elongated ones"""
    r = cx.r
    ratio = 10 ** r.uniform(0, 3) if r.random() < .6 else r.uniform(1, 3) if r.random() < .5 else 1 + logu(r, -9, -1)
    b = r.choice([1, .5, 2, 10 ** r.uniform(-2, 2), 10 ** r.uniform(-6, 6)])
    a = b * ratio
    far = 10 ** r.uniform(0, 6.5) * b if r.random() < .6 else r.uniform(0, 10) * b
    C = polar((0, 0), far, r.choice([0, pi / 2, rad(r)])) if r.random() < .8 else r.choice([(0.0, 0.0), (0.0, sgn(r) * far), (-far, 0.0), (far, far), (far, -far)])
    dg = r.random() < .6
    al = deg(r) if dg else rad(r)
    E = (C, a, b, al * pi / 180 if dg else float(al))
    e = G.Ellipse(wrap(r, C), num(r, a), num(r, b), num(r, al), degrees=dg) if not dg else G.Ellipse(wrap(r, C), a, b, al)
    # accuracy left by the rounding of the points and by the aspect ratio
    noise = 1e-15 * (norm(C) + a) / b + 1e-15 * ratio ** 2
    w = r.choice(["inside", "on", "outside"])
    g = logu(r, max(-6, math.log10(noise) + 2), -.3)
    f = {"inside": 1 - g, "on": 1.0, "outside": 1 + 3 * g}[w]
    t = eccentric(r)
    if w == "inside" and r.random() < .1:
        f, g = 0.0, 1.0
    P = lerp(C, ell_pt(E, t), f)
    cx.put(center=C, a=a, b=b, alpha=al, degrees=dg, t=t, where=w, P=P)
    if w != "on":
        cx.ok(bool(e.contains(wrap(r, P))) == (w == "inside"), "far or elongated: contains, " + w, ell=E, P=P, factor=f)
        if g > 1e-6:
            cx.ok(not e.includes(wrap(r, P)), "far or elongated: includes, " + w, ell=E, P=P, factor=f)
    elif noise < 3e-11:
        cx.ok(bool(e.includes(wrap(r, P))), "far or elongated: includes, on", ell=E, P=P)
    S = e.shape_matrix()
    co, si = cos(E[3]), sin(E[3])
    p, q = 1 / a ** 2, 1 / b ** 2
    X = (p * co * co + q * si * si, (p - q) * co * si, (p - q) * co * si, p * si * si + q * co * co)
    for x, y in zip((S[0][0], S[0][1], S[1][0], S[1][1]), X):
        cx.near(float(x) / q, y / q, 1e-9, "far or elongated: shape matrix", ell=E, got=S)
    tol = 1e-14 * (a + norm(C)) * 10
    for k, Q in enumerate(e.path(6)):
        cx.near(P2(Q), ell_pt(E, TAU * k / 6), tol, "far or elongated: path", ell=E)
    th = r.uniform(-7, 7)
    Q = P2(e.point_from_angle(th, degrees=False))
    rho = 1 / sqrt((cos(th) / a) ** 2 + (sin(th) / b) ** 2)
    cx.near(Q, add(C, mul(rho, unit(E[3] + th))), tol + 1e-13 * a * ratio, "far or elongated: point in a direction", ell=E, theta=th)
    tt = float(e.theta2t(th, degrees=False))
    cx.near(sub(ell_pt(E, tt), C), mul(rho, unit(E[3] + th)), tol + 1e-13 * a * ratio, "far or elongated: eccentric angle of a direction", ell=E, theta=th)
    eq = [float(x) for x in e.equation().values()]
    k = a * a * b * b
    w1 = norm(C)
    for x, y, m in zip(eq, conic_of(E), (1, 1, 1, w1, w1, w1 * w1 + b * b)):
        cx.near(x / k, y, 1e-12 * m * q, "far or elongated: equation", ell=E, got=eq)
    m = P2(e.normal(t))
    gr = unit_of(rot((cos(t) / a, sin(t) / b), E[3]))
    cx.near(m, gr, 1e-9 + 1e-14 * ratio * 10, "far or elongated: normal", ell=E, t=t)
    l = line_of(e.diameter(t)) if norm(C) < 1e3 * b else None
    if l:
        cx.near(min(d(l[0], ell_pt(E, t)), d(l[1], ell_pt(E, t))), 0, tol, "far or elongated: diameter", ell=E, t=t)
        cx.near(mid(*l), C, tol, "far or elongated: the middle of a diameter is the centre", ell=E, t=t)
        ls = [line_of(x) for x in e.diameter(t, conjugate=True)]
        cx.ok(len(ls) == 2, "far or elongated: two conjugate diameters", got=ls)
        for l, tt in zip(ls, (t, t + pi / 2)):
            cx.near(min(d(l[0], ell_pt(E, tt)), d(l[1], ell_pt(E, tt))), 0, tol, "far or elongated: conjugate diameters", ell=E, t=t)
            cx.near(mid(*l), C, tol, "far or elongated: the middle of a conjugate diameter is the centre", ell=E, t=t)
    if r.random() < .2:
        st = np.random.get_state()
        np.random.seed(r.randrange(2 ** 31))
        try:
            pi_, po = e.random_points(4), e.random_points(4, "on")
        finally:
            np.random.set_state(st)
        big = 1e-7 + noise * 100
        for Q in pi_:
            cx.ok(ell_q(E, P2(Q)) <= 1 + big, "far or elongated: random points in the ellipse", ell=E, got=Q)
        for Q in po:
            cx.near(ell_q(E, P2(Q)), 1, big, "far or elongated: random points on the ellipse", ell=E, got=Q)
    cx.cls(w)
    if far > 1e4 * b:
        cx.cls("far")
    if ratio > 100:
        cx.cls("elongated")
    if 1 < ratio < 1.001:
        cx.cls("almost round")
    if b < 1e-3 or b > 1e3:
        cx.cls("tiny" if b < 1 else "huge")


@family("C10", 500, ["one point", "many points"])
def path(cx):
    r = cx.r
    par, E = gen_ell(r, 100)
    e = mk_ell(G, r, par)
    n = r.choice([1, 2, 3, 4, 5, 7, 10, 31, 64, 100, 101, 128, 256, 361, 1000] if r.random() < .3 else [1, 2, 3, 4, 5, 7, 10, 31, 100])
    dflt = n == 100 and r.random() < .5
    cx.put(ell=par, n=n)
    p = e.path() if dflt else e.path(n) if r.random() < .5 else e.path(n_points=n)
    cx.ok(isinstance(p, np.ndarray) and p.shape == (n, 2), "the path has n rows and two columns", n=n, got=np.shape(p))
    s = E[1] + norm(E[0])
    for i in range(n):
        cx.near(P2(p[i]), ell_pt(E, TAU * i / n), 1e-10 * s, "the path runs through equally spaced eccentric angles from the major axis",
                i=i, n=n, ell=par)
    cx.cls("one point" if n == 1 else "many points")


@family("C10", 40, ["systematic"], factor=4)
def path_counts(cx):
    """every number of points, in turn"""
    r = cx.r
    par, E = gen_ell(r, 100)
    e = mk_ell(G, r, par)
    for n in range(1 + 10 * (cx.idx % 160), 11 + 10 * (cx.idx % 160)):
        cx.put(ell=par, n=n)
        p = np.asarray(e.path(n))
        cx.ok(p.shape == (n, 2), "the path has n rows and two columns, any n", n=n, got=p.shape)
        t = TAU * np.arange(n) / n
        x, y = E[1] * np.cos(t), E[2] * np.sin(t)
        w = np.column_stack((E[0][0] + cos(E[3]) * x - sin(E[3]) * y, E[0][1] + sin(E[3]) * x + cos(E[3]) * y))
        k = int(np.argmax(np.abs(p - w).sum(axis=1)))
        cx.near(P2(p[k]), P2(w[k]), 1e-12 * (E[1] + norm(E[0])) * (1 + abs(E[3])), "the path runs through equally spaced eccentric angles, any n", i=k, n=n, ell=par)
    cx.cls("systematic")


@family("C10", 900, ["scalar", "vector", "multiple of 90"])
def from_angle(cx):
    r = cx.r
    par, E = gen_ell(r, 100)
    e = mk_ell(G, r, par)
    dg = r.random() < .5
    vec = r.random() < .4
    n = (r.randint(2, 6) if r.random() < .85 else r.choice([31, 64, 100, 101])) if vec else 1
    ths = [turned(r, deg(r) if dg else rad(r), dg) for _ in range(n)]
    cx.put(ell=par, theta=ths, degrees=dg)
    if vec:
        arg = ths if r.random() < .4 else tuple(ths) if r.random() < .4 else np.array(ths, dtype=float)
        if r.random() < .2 and dg:
            ths = [int(x) for x in ths]
            arg = np.array(ths)
    else:
        arg = num(r, ths[0])
    out = e.point_from_angle(arg) if dg and r.random() < .5 else e.point_from_angle(arg, degrees=dg)
    if vec:
        cx.ok(np.shape(out) == (n, 2), "one row per angle", got=out, angles=ths)
        pts = [P2(x) for x in out]
    else:
        cx.ok(is_pt(out), "one point for one angle", got=out)
        pts = [P2(out)]
    for th, P in zip(ths, pts):
        t = th * pi / 180 if dg else float(th)
        u = sub(P, E[0])
        # polar form of the ellipse: the point at polar angle t from the major axis
        rho = 1 / sqrt((cos(t) / E[1]) ** 2 + (sin(t) / E[2]) ** 2)
        cx.near(u, mul(rho, unit(E[3] + t)), 1e-9 * E[1] + 1e-13 * norm(E[0]), "the point of the ellipse in the given direction",
                theta=th, degrees=dg, ell=par, got=P)
        if dg and th % 90 == 0:
            cx.cls("multiple of 90")
        # the conversion into an eccentric angle leads to the same point
        tt = e.theta2t(num(r, th)) if dg and r.random() < .5 else e.theta2t(num(r, th), degrees=dg)
        Q = ell_pt(E, float(tt))
        cx.near(sub(Q, E[0]), mul(rho, unit(E[3] + t)), 1e-9 * E[1] + 1e-13 * norm(E[0]), "the eccentric angle of the point in the given direction",
                theta=th, degrees=dg, ell=par, got=tt)
    cx.cls("vector" if vec else "scalar")


@family("C10", 700)
def normals(cx):
    r = cx.r
    par, E = gen_ell(r, 100)
    e = mk_ell(G, r, par)
    t = turned(r, eccentric(r), False)
    cx.put(ell=par, t=t)
    n = P2(e.normal(num(r, t)))
    cx.near(norm(n), 1.0, 1e-10, "the normal vector is a unit vector", ell=par, t=t)
    # gradient of the form at the point, in the plane
    g = unit_of(rot((cos(t) / E[1], sin(t) / E[2]), E[3]))
    cx.near(n, g, 1e-9, "the normal vector is the outward unit normal", ell=par, t=t)


def unit_of(v):
    return mul(1 / norm(v), v)


@family("C10", 600, ["major axis", "generic"])
def diameters(cx):
    r = cx.r
    par, E = gen_ell(r, 100)
    e = mk_ell(G, r, par)
    t = eccentric(r)
    cx.put(ell=par, t=t)
    s = E[1] + norm(E[0])
    l = e.diameter(num(r, t)) if r.random() < .6 else e.diameter(num(r, t), conjugate=False)
    cx.ok(isinstance(l, G.Line), "one diameter is one line", got=l)
    l2 = e.diameter(t, conjugate=True)
    cx.ok(isinstance(l2, (list, tuple)) and len(l2) == 2 and all(isinstance(x, G.Line) for x in l2), "two conjugate diameters", got=l2)
    for m, tt in ((l, t), (l2[0], t), (l2[1], t + pi / 2)):
        A, B = line_of(m)
        cx.ok(not m.extendA and not m.extendB, "a diameter is a segment", got=m)
        for P in (A, B):
            cx.near(ell_q(E, P), 1, 1e-7, "a diameter ends on the ellipse", ell=par, t=t, P=P)
        cx.near(mid(A, B), E[0], 1e-10 * s, "a diameter passes through the centre", ell=par, t=t)
        P = ell_pt(E, tt)
        cx.near(min(d(A, P), d(B, P)), 0, 1e-10 * s, "the diameter has the given eccentric angle", ell=par, t=t)
    # conjugate: each bisects the chords parallel to the other one
    A, B = line_of(l2[0]); C, D = line_of(l2[1])
    u, v = mul(.5, sub(B, A)), mul(.5, sub(D, C))
    k = r.uniform(-.9, .9)
    o = add(E[0], mul(k, u)); w = sqrt(1 - k * k)
    for P in (add(o, mul(w, v)), sub(o, mul(w, v))):
        cx.near(ell_q(E, P), 1, 1e-7, "conjugate diameters bisect the chords parallel to each other", ell=par, t=t)
    cx.cls("major axis" if t == 0 else "generic")


# ---------------------------------------------------------------- C11
prop("C11", ["Ellipse.from_equation", "Ellipse.from_five_points", "Ellipse.equation_from_five_points",
             "Ellipse.from_center_and_matrix", "Ellipse.is_equal", "Ellipse.equation", "Ellipse.shape_matrix"],
     "Equations scaled by positive and negative factors, five points in random order, shape matrices.")


def conic_of(E):
    """coefficients of form-1, computed independently"""
    (x, y), a, b, al = E
    c, s = cos(al), sin(al)
    A = (c / a) ** 2 + (s / b) ** 2
    B = 2 * c * s * (1 / a ** 2 - 1 / b ** 2)
    C = (s / a) ** 2 + (c / b) ** 2
    return [A, B, C, -2 * A * x - B * y, -B * x - 2 * C * y, A * x * x + B * x * y + C * y * y - 1]


@family("C11", 900, ["negative factor", "axis-parallel", "circle", "own equation"])
def equation(cx):
    r = cx.r
    par, E = gen_ell(r, 12)
    e = mk_ell(G, r, par)
    k = r.choice([1, 1, -1, sgn(r) * logu(r, -3, 3)])
    if r.random() < .5:
        co = [k * float(x) for x in e.equation().values()]
        cx.cls("own equation")
    else:
        co = [k * x for x in conic_of(E)]
        if r.random() < .3:
            par = None
    cx.put(ell=E, factor=k)
    f = G.Ellipse.from_equation(*co)
    cx.ok(isinstance(f, G.Ellipse), "an ellipse is returned", got=f)
    if E[1] - E[2] < 1e-3 * E[1]:
        ell_same(cx, E, f, 1e-6, "ellipse from its equation")
    else:
        ell_same(cx, E, f, 1e-8, "ellipse from its equation")
    cx.ok(float(f.rmajor) >= float(f.rminor), "the major radius is not smaller than the minor radius", got=f)
    if k < 0:
        cx.cls("negative factor")
    if E[1] == E[2]:
        cx.cls("circle")
    if abs(sin(2 * E[3])) < 1e-9:
        cx.cls("axis-parallel")


@family("C11", 400, ["wide", "tall", "circle", "negative"])
def integer_equation(cx):
    """A(x-h)^2 + C(y-k)^2 = n in exact integers, and ellipses with axes at 45 degrees"""
    r = cx.r
    A, C = r.randint(1, 9), r.randint(1, 9)
    if r.random() < .2:
        C = A
    h, k = grid(r, 4), grid(r, 4)
    n = r.choice([1, A * C, r.randint(1, 30)])
    s = r.choice([1, 1, -1, 2, -3])
    diag = r.random() < .3
    if not diag:
        co = [A, 0, C, -2 * A * h, -2 * C * k, A * h * h + C * k * k - n]
        rx, ry = sqrt(n / A), sqrt(n / C)
        al = 0.0 if rx >= ry else pi / 2
    else:           # p (x+y)^2 + q (x-y)^2 = n around (h, k)
        p, q = A, C
        Aq, Bq, Cq = p + q, 2 * (p - q), p + q
        co = [Aq, Bq, Cq, -2 * Aq * h - Bq * k, -Bq * h - 2 * Cq * k, Aq * h * h + Bq * h * k + Cq * k * k - n]
        rx, ry = sqrt(n / (2 * p)), sqrt(n / (2 * q))       # along (1,1), along (1,-1)
        al = pi / 4 if rx >= ry else -pi / 4
    co = [s * x for x in co]
    cx.put(coefficients=co)
    f = G.Ellipse.from_equation(*co)
    E = ((float(h), float(k)), max(rx, ry), min(rx, ry), al)
    ell_same(cx, E, f, 1e-8, "ellipse from an integer equation")
    cx.ok(not diag and rx == ry or float(f.rmajor) >= float(f.rminor), "the major radius is not smaller than the minor radius", got=f)
    cx.cls("circle" if A == C else "wide" if rx > ry else "tall")
    if s < 0:
        cx.cls("negative")


@family("C11", 500, ["hyperbola", "parabola", "imaginary", "line pair", "parallel lines"])
def not_an_ellipse(cx):
    r = cx.r
    w = r.choice(["hyperbola", "parabola", "imaginary", "line pair", "parallel lines"])
    h, k = grid(r, 4), grid(r, 4)
    th = r.choice([0.0, rad(r)])
    exact = th == 0.0
    a, b = r.randint(1, 5), r.randint(1, 5)
    if w == "hyperbola":
        A, B, C, F = a, 0, -b, sgn(r) * r.randint(1, 9)
        if r.random() < .3:
            A, B, C, exact, th = 0, a, 0, True, 0.0
    elif w == "imaginary":
        A, B, C, F = a, 0, b, r.randint(1, 9)
    elif w == "line pair":
        A, B, C, F = a, 0, -b, 0
    elif w == "parallel lines":
        A, B, C, F = r.choice([(a, 0, 0, -b), (0, 0, a, -b), (a * a, 2 * a * b, b * b, -r.randint(1, 9))])
        th = 0.0
    if w == "parabola":
        p, q = r.choice([(1, 0), (0, 1), (1, 1), (1, 2), (2, -1)])
        co = [p * p, 2 * p * q, q * q, -q * r.randint(1, 5) + p * h, p * r.randint(1, 5) + q * h, k]
        # (px+qy)^2 + linear part not parallel to (p,q)
        if co[3] * q == co[4] * p:
            raise Skip()
    else:
        c, s = cos(th), sin(th)
        if th != 0.0:
            A, B, C = (A * c * c - B * c * s + C * s * s, 2 * (A - C) * c * s + B * (c * c - s * s), A * s * s + B * c * s + C * c * c)
        co = [A, B, C, -2 * A * h - B * k, -B * h - 2 * C * k, A * h * h + B * h * k + C * k * k + F]
    f = r.choice([1, 1, -1, 2, -5])
    co = [f * x for x in co]
    cx.put(what=w, coefficients=co)
    cx.raises(ValueError, lambda: G.Ellipse.from_equation(*co), "the equation of a %s is rejected" % w, coefficients=co)
    cx.cls(w)


def spread(r, n, mn):
    while True:
        ts = [r.uniform(0, TAU) for _ in range(n)]
        if r.random() < .2:
            ts = [r.choice([k * pi / 4 for k in range(8)]) for _ in range(n)]
        ss = sorted(ts)
        if min(min(y - x for x, y in zip(ss, ss[1:])), ss[0] + TAU - ss[-1]) > mn:
            return ts


@family("C11", 700, ["circle", "ellipse"])
def five_points(cx):
    r = cx.r
    par, E = gen_ell(r, 8, 6)
    if E[1] > 10:
        raise Skip()
    ts = spread(r, 5, .25)
    P = [ell_pt(E, t) for t in ts]
    cx.put(ell=E, t=ts)
    f = G.Ellipse.from_five_points(*[wrap(r, p) for p in P])
    tol = 1e-6
    # sensitivity of the reconstruction: five points spanning little of the ellipse are out
    ell_same(cx, E, f, tol, "ellipse from five of its points")
    co = G.Ellipse.equation_from_five_points(*[wrap(r, p) for p in P])
    cx.ok(list(co.keys()) == ["A", "B", "C", "D", "E", "F"], "the equation has its six coefficients in order", got=list(co.keys()))
    A, B, C, D, EE, F = [float(x) for x in co.values()]
    q = conic_of(E)
    k = (A + C) / (q[0] + q[2])
    for t in list(ts) + [r.uniform(0, TAU)]:
        x, y = ell_pt(E, t)
        cx.near((A * x * x + B * x * y + C * y * y + D * x + EE * y + F) / k, 0, 1e-6 * (1 + norm(E[0]) / E[2]) ** 2,
                "the equation through five points vanishes on the ellipse", ell=E, t=t)
    cx.cls("circle" if E[1] == E[2] else "ellipse")


@family("C11", 300, ["hyperbola", "repeated", "line pair"])
def five_bad_points(cx):
    r = cx.r
    w = r.choice(["hyperbola", "repeated", "line pair"])
    if w == "hyperbola":
        a, b, th, O = r.uniform(.5, 2), r.uniform(.5, 2), r.choice([0, rad(r)]), pt(r)
        if norm(O) > 8:
            raise Skip()
        one = r.random() < .4
        us = []
        while len(us) < 5:
            u = r.uniform(-1.6, 1.6)
            if all(abs(u - v) > .3 for v in us):
                us.append(u)
        sg = [1 if one else (1, 1, -1, 1, -1)[i] for i in range(5)]
        P = [add(O, rot((s * a * math.cosh(u), b * math.sinh(u)), th)) for u, s in zip(us, sg)]
    elif w == "repeated":
        par, E = gen_ell(r)
        P = [ell_pt(E, t) for t in spread(r, 4, .3)]
        P.append(r.choice(P))
        if r.random() < .3:
            P = [(float(grid(r)), float(grid(r))) for _ in range(4)]
            P.append(P[0])
    else:       # three points on a line, two on another one crossing it
        A, t = pt(r), rad(r)
        t2 = t + r.uniform(.6, pi - .6)
        if norm(A) > 8:
            raise Skip()
        P = [polar(A, x, t) for x in (r.uniform(.5, 1), r.uniform(1.5, 3), -r.uniform(.5, 2))] + [polar(A, r.uniform(.5, 2), t2), polar(A, -r.uniform(.5, 2), t2)]
    r.shuffle(P)
    cx.put(what=w, points=P)
    cx.raises(ValueError, lambda: G.Ellipse.from_five_points(*[wrap(r, p) for p in P]), "five points which define no ellipse (%s) are rejected" % w, P=P)
    cx.cls(w)


@family("C11", 600, ["own matrix", "oracle matrix", "circle"])
def center_and_matrix(cx):
    r = cx.r
    par, E = gen_ell(r, 12)
    e = mk_ell(G, r, par)
    A, B, C = conic_of(E)[:3]
    if r.random() < .5:
        S = e.shape_matrix()
        cx.cls("own matrix")
    else:
        S = [[A, B / 2], [B / 2, C]]
        if r.random() < .6:
            S = np.array(S)
        cx.cls("oracle matrix")
    cx.put(ell=E, S=S)
    f = G.Ellipse.from_center_and_matrix(wrap(r, E[0]), S)
    ell_same(cx, E, f, 1e-6, "ellipse from its centre and its shape matrix")
    if E[1] == E[2]:
        cx.cls("circle")


@family("C11", 500, ["equation", "five points", "matrix", "elongated", "almost round", "tiny", "huge", "negative factor"])
def extreme_conics(cx):
    """elongated and almost round ellipses, large and small ones, equations with large and small coefficients"""
    r = cx.r
    ratio = 10 ** r.uniform(0, 2.5) if r.random() < .6 else 1 + logu(r, -6, -.5)
    b = 10 ** r.choice([0, r.uniform(-6, 6), r.uniform(-3, 3)])
    C = polar((0, 0), r.choice([0, b * r.uniform(0, 5)]), r.uniform(0, TAU))
    E = (C, b * ratio, b, r.choice([0, pi / 2, r.uniform(0, TAU), r.uniform(0, TAU)]))
    w = r.choice(["equation", "five points", "matrix"])
    tol = 1e-13 * ratio ** 2
    cx.put(ell=E, what=w)
    if w == "equation":
        k = r.choice([1, -1, sgn(r) * logu(r, -8, 8)])
        if r.random() < .5:
            co = [k * float(x) for x in G.Ellipse(wrap(r, C), E[1], E[2], E[3], False).equation().values()]
        else:
            co = [k * x for x in conic_of(E)]
        f = G.Ellipse.from_equation(*co)
        tol *= 30 * (1 + norm(C) / b) ** 2
        if co[0] < 0:
            cx.cls("negative factor")
    elif w == "five points":
        ts = spread(r, 5, .5)
        f = G.Ellipse.from_five_points(*[wrap(r, ell_pt(E, t)) for t in ts])
        tol *= 1e4 * (1 + norm(C) / b)
    else:
        A, B, D = conic_of(E)[:3]
        C = polar((0, 0), r.choice([0, b * logu(r, -3, 6)]), r.uniform(0, TAU))
        E = (C,) + E[1:]
        f = G.Ellipse.from_center_and_matrix(wrap(r, C), np.array([[A, B / 2], [B / 2, D]]) if r.random() < .6 else [[A, B / 2], [B / 2, D]])
        tol *= 10
    if tol > 1e-3:
        raise Skip()
    F = ell_of(f)
    cx.near(F[0], E[0], tol * E[1] + 1e-13 * norm(C), w + ": center, extreme ellipses")
    cx.near(F[1], E[1], tol * E[1], w + ": major radius, extreme ellipses")
    cx.near(F[2], E[2], tol * E[2], w + ": minor radius, extreme ellipses")
    if ratio > 1.001:
        cx.near(ang_mod(F[3] - E[3], pi), 0.0, tol * 10 / (ratio - 1), w + ": direction, extreme ellipses")
    cx.cls(w)
    if ratio > 30:
        cx.cls("elongated")
    if ratio < 1.01:
        cx.cls("almost round")
    if b < 1e-3 or b > 1e3:
        cx.cls("tiny" if b < 1 else "huge")


@family("C11", 200)
def bad_matrix(cx):
    r = cx.r
    a, b = r.uniform(.2, 5), -r.uniform(.2, 5)
    t = r.choice([0, pi / 4, rad(r)])
    if r.random() < .3:
        a = -r.uniform(.2, 5)
    c, s = cos(t), sin(t)
    S = np.array([[a * c * c + b * s * s, (a - b) * c * s], [(a - b) * c * s, a * s * s + b * c * c]])
    if r.random() < .2:
        S = np.array([[0.0, 0.0], [0.0, 0.0]])
    C = pt(r)
    cx.put(S=S)
    cx.raises(ValueError, lambda: G.Ellipse.from_center_and_matrix(wrap(r, C), S), "a matrix which is not positive is rejected", S=S)


@family("C11", 900, ["same", "same as a circle", "circle and Circle object", "centre", "radius", "direction", "turned circle"])
def equality(cx):
    r = cx.r
    par, E = gen_ell(r, 60, circ=.25)
    C, a, b, al, dg, ra = par
    e = mk_ell(G, r, par)
    w = r.choice(["same", "same", "centre", "radius", "direction"])
    dg2 = r.random() < .5
    turn = r.choice([0, 0, 1, -1, 2, -3, 4]) if r.random() < .7 else 0
    al2 = ra + turn * pi
    C2, a2, b2 = fpt(C), float(a), float(b)
    g = logu(r, -3.5, 0)
    round_ = a == b
    if w == "centre":
        C2 = polar(C2, g * b2, rad(r))
        # a single coordinate may differ
        if r.random() < .4:
            C2 = (C[0], C2[1]) if r.random() < .5 else (C2[0], C[1])
        if d(C, C2) < 2e-4 * b2:                   # the same up to the tolerance
            raise Skip()
    if w == "radius":
        if r.random() < .5:
            a2 = a2 * (1 + g)
        else:
            b2 = b2 / (1 + g)
    if w == "direction":
        if round_:
            al2 += r.uniform(-3, 3)
        else:
            u = r.choice([pi / 2, sgn(r) * logu(r, -2.5, .1)])
            if (a / b - 1) * abs(sin(u)) < 1e-3:
                raise Skip()
            al2 += u
    f = G.Ellipse(wrap(r, C2), num(r, a2), num(r, b2), al2 * 180 / pi if dg2 else al2, dg2)
    same = w == "same" or (w == "direction" and round_)
    cx.put(ell1=par, ell2=(C2, a2, b2, al2, dg2), difference=w)
    for x, y in ((e, f), (f, e)):
        v = x.is_equal(y)
        cx.ok(bool(v) == same, "is_equal: " + ("same ellipse" if same else "another " + w), ell1=par, ell2=(C2, a2, b2, al2, dg2), got=v)
    cx.ok(bool(e.is_equal(e)), "an ellipse equals itself")
    if round_:
        c = G.Circle(wrap(r, C2), num(r, a2))
        cx.ok(bool(e.is_equal(c)) == (same or (w == "radius" and a2 == a)), "is_equal: circle", ell=par, circle=(C2, a2))
        cx.cls("circle and Circle object")
        if w == "direction":
            cx.cls("turned circle")
    elif abs(a - b) > .05 * a:
        cx.ok(not e.is_equal(G.Circle(wrap(r, C), num(r, r.choice([a, b])))), "an ellipse is not equal to a circle", ell=par)
    cx.cls("same as a circle" if same and round_ else w)


# ---------------------------------------------------------------- C12
prop("C12", ["Ellipse.LownerJohnEllipse", "Ellipse.from_boundary3", "Ellipse.from_boundary4"],
     "Point sets: random, integer, grids, regular polygons, repeated and cocyclic points, parallelograms, trapezoids.")


def inv3(M):
    a, b, c, dd, e, f, g, h, i = M
    A, B, C = e * i - f * h, c * h - b * i, b * f - c * e
    D, E, F = f * g - dd * i, a * i - c * g, c * dd - a * f
    Gg, H, I = dd * h - e * g, b * g - a * h, a * e - b * dd
    det = a * A + b * D + c * Gg
    return [x / det for x in (A, B, C, D, E, F, Gg, H, I)]


def mvee_area(P, tol=1e-9):
    """area of the minimum area enclosing ellipse: Khachiyan's ascent with away
    steps; returns (lower bound, upper bound) certified by duality"""
    n = len(P)
    o = cen(*P)
    sc = max(d(p, o) for p in P)
    Q = [((p[0] - o[0]) / sc, (p[1] - o[1]) / sc) for p in P]
    u = [1.0 / n] * n
    for it in range(20000):
        X = [0.0] * 9
        for w, (x, y) in zip(u, Q):
            X[0] += w * x * x; X[1] += w * x * y; X[2] += w * x
            X[4] += w * y * y; X[5] += w * y; X[8] += w
        X[3], X[6], X[7] = X[1], X[2], X[5]
        Y = inv3(X)
        M = [Y[0] * x * x + Y[4] * y * y + Y[8] + 2 * (Y[1] * x * y + Y[2] * x + Y[5] * y) for x, y in Q]
        j = max(range(n), key=M.__getitem__)
        k = min((i for i in range(n) if u[i] > 1e-13), key=M.__getitem__)
        ep, em = M[j] / 3 - 1, 1 - M[k] / 3
        if ep < tol and em < 1e-5:
            break
        if ep >= em:
            s = (M[j] - 3) / (3 * (M[j] - 1))
            u = [(1 - s) * w for w in u]; u[j] += s
        else:
            s = u[k] / (1 - u[k])
            if M[k] > 1:
                s = min(s, (3 - M[k]) / (3 * (M[k] - 1)))
            u = [(1 + s) * w for w in u]; u[k] -= s
            if u[k] < 1e-15:
                u[k] = 0.0
    # covariance determinant = det of the 3x3 moment matrix
    det = X[0] * (X[4] * X[8] - X[5] * X[7]) - X[1] * (X[3] * X[8] - X[5] * X[6]) + X[2] * (X[3] * X[7] - X[4] * X[6])
    # log det is 3 log(1+ep)-optimal
    lo = pi * 2 * sqrt(det) * sc * sc
    return lo, lo * (1 + max(ep, 0)) ** 1.5


def ell_area(e):
    E = ell_of(e)
    return pi * E[1] * E[2], E


def width_ok(P, k=.15):
    """second singular direction not too thin"""
    o = cen(*P)
    sx = sum((p[0] - o[0]) ** 2 for p in P); sy = sum((p[1] - o[1]) ** 2 for p in P)
    sxy = sum((p[0] - o[0]) * (p[1] - o[1]) for p in P)
    tr, dt = sx + sy, sx * sy - sxy * sxy
    return dt > (k * tr) ** 2 / 4


def points_set(r):
    k = r.choice(["random", "integers", "grid", "polygon", "affine polygon", "repeated", "quadrilateral", "circle", "few", "hull and centre"])
    n = r.randint(3, 12)
    if k == "random":
        P = [(r.uniform(-3, 3), r.uniform(-3, 3)) for _ in range(n)]
    elif k == "integers":
        P = list({(grid(r, 5), grid(r, 5)) for _ in range(n)})
    elif k == "grid":
        P = [(i, j) for i in range(r.randint(2, 4)) for j in range(r.randint(2, 4))]
    elif k in ("polygon", "affine polygon"):
        t0 = r.choice([0, rad(r)]); R = rad_len(r)
        P = [polar((0, 0), R, t0 + TAU * i / n) for i in range(n)]
        if k == "affine polygon":
            P = [(2 * x + .5 * y, -.3 * x + y) for x, y in P]
    elif k == "repeated":
        P = [(r.uniform(-3, 3), r.uniform(-3, 3)) for _ in range(r.randint(3, 6))]
        P += [r.choice(P) for _ in range(r.randint(1, 4))]
    elif k == "quadrilateral":
        A, u, v = pt(r), rot((r.uniform(1, 4), 0), rad(r)), rot((r.uniform(1, 4), 0), rad(r))
        m = r.choice([1, 1, r.uniform(.3, 2.5)])
        P = [A, add(A, u), add(add(A, mul(m, u)), v), add(A, v)]
    elif k == "circle":
        P = [polar((0, 0), 2, r.uniform(0, TAU)) for _ in range(n)]
    elif k == "few":
        P = [(r.uniform(-3, 3), r.uniform(-3, 3)) for _ in range(r.choice([3, 4, 4, 5]))]
    else:
        P = [polar((0, 0), 3, TAU * i / n) for i in range(n)] + [(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(4)]
    o = (0, 0) if r.random() < .6 else pt(r)
    P = [add(p, o) for p in P]
    r.shuffle(P)
    return k, P


@family("C12", 110, ["random", "integers", "grid", "polygon", "affine polygon", "repeated", "quadrilateral", "circle", "few", "hull and centre"], factor=20)
def hull(cx):
    r = cx.r
    k, P = points_set(r)
    if len(set(P)) < 3 or not width_ok(P):
        raise Skip()
    m = max(d(p, cen(*P)) for p in P)
    if norm(cen(*P)) > 20 * m or min(d(p, q) for i, p in enumerate(P) for q in P[:i] if p != q) < .01 * m:
        raise Skip()
    enclosing(cx, k, P)


def enclosing(cx, k, P):
    r = cx.r
    cx.put(kind=k, points=P)
    X = np.array(P) if all(isinstance(x, int) for p in P for x in p) and r.random() < .5 else np.array(P, dtype=float)
    lo, hi = mvee_area(P)
    for rep in range(2):        # the algorithm draws random pivots: the ellipse must not depend on them
        np.random.seed(cx.npseed + rep)
        e = G.Ellipse.LownerJohnEllipse(X)
        cx.ok(isinstance(e, G.Ellipse), "an ellipse is returned", got=e, points=P)
        ar, E = ell_area(e)
        for p in P:
            cx.ok(ell_q(E, p) <= 1 + 1e-6, "the minimum area ellipse contains all the points", P=p, form=ell_q(E, p), ell=e, points=P)
        cx.ok(ar <= hi * (1 + 1e-5), "no smaller ellipse contains all the points", area=ar, minimum=(lo, hi), ell=e, points=P)
        cx.ok(ar >= lo * (1 - 1e-5), "the area is not below the minimum", area=ar, minimum=(lo, hi), ell=e, points=P)
    cx.cls(k)


@family("C12", 6, ["ring", "disc", "ellipse ring", "lattice"], factor=20)
def large_clouds(cx):
    """tens or hundreds of points"""
    r = cx.r
    n = r.choice([30, 45, 60, 80, 120]) if cx.idx % 9 else 250
    w = ("ring", "disc", "ellipse ring", "lattice")[cx.idx % 4]
    if w == "lattice":
        k = int(sqrt(n))
        a, b = r.choice([(1, 0), (2, 1), (3, -1), (.7, .2)])
        P = [(a * i - b * j, b * i + a * j) for i in range(k) for j in range(k)]
    else:
        t0 = r.uniform(0, TAU)
        P = [polar((0, 0), 5 * (r.uniform(.9, 1) if w != "disc" else sqrt(r.random())), t0 + TAU * i / n + r.uniform(0, 1 / n)) for i in range(n)]
        if w == "ellipse ring":
            t = r.uniform(0, TAU)
            P = [rot((x, y * r.choice([.3, .3, .2])), t) for x, y in P]
    o = pt(r)
    P = [add(p, o) for p in P] if norm(o) < 50 else P
    r.shuffle(P)
    enclosing(cx, w, P)


@family("C12", 100, ["three", "four", "five", "collinear"])
def hull_boundary(cx):
    """the documented second argument, and point sets without enclosing ellipse"""
    r = cx.r
    w = r.choice(["three", "four", "five", "collinear"])
    if w == "collinear":
        A, v = (grid(r), grid(r)), (grid(r, 3), grid(r, 3))
        if v == (0, 0):
            raise Skip()
        P = list({add(A, mul(r.randint(-5, 5), v)) for _ in range(r.randint(3, 8))})
        if len(P) < 3:
            raise Skip()
        cx.put(points=P)
        e = G.Ellipse.LownerJohnEllipse(np.array(P, dtype=r.choice([int, float])))
        cx.ok(e is None, "collinear points have no proper enclosing ellipse", got=e, points=P)
        cx.cls(w)
        return
    par, E = gen_ell(r, 8, 4)
    if E[1] > 10:
        raise Skip()
    n = {"three": 3, "four": 4, "five": 5}[w]
    P = [ell_pt(E, t) for t in spread(r, n, .4)]
    cx.put(points=P)
    e = G.Ellipse.LownerJohnEllipse(np.empty((0, 2)), np.array(P))
    F = ell_of(e)
    for p in P:
        cx.near(ell_q(F, p), 1, 1e-6, "the ellipse passes through the given boundary points", P=p, points=P)
    if w == "five":
        ell_same(cx, E, e, 1e-6, "five boundary points determine the ellipse")
    cx.cls(w)


@family("C12", 400)
def boundary3(cx):
    r = cx.r
    T = tri_pts(r)
    cx.put(T=T)
    e = G.Ellipse.from_boundary3(np.array(T, dtype=r.choice([float, float, None]) or None))
    ar, E = ell_area(e)
    s = max(d(T[0], T[1]), d(T[0], T[2]))
    for p in T:
        cx.near(ell_q(E, p), 1, 1e-7, "the ellipse passes through the three points", P=p, T=T)
    cx.near(E[0], cen(*T), 1e-10 * (s + norm(T[0])), "its centre is the centroid", T=T)
    A = abs(cross(sub(T[1], T[0]), sub(T[2], T[0]))) / 2
    cx.near(ar / (A * 4 * pi / sqrt(27)), 1, 1e-8, "its area is the least possible", T=T)


def pencil_min(P):
    """least area of the ellipses through the vertices (in order) of a convex quadrilateral"""
    def line(p, q):
        n = (p[1] - q[1], q[0] - p[0], p[0] * q[1] - q[0] * p[1])
        k = hypot(n[0], n[1])
        return [x / k for x in n]

    def prod(l, m):
        return (l[0] * m[0], l[0] * m[1] + l[1] * m[0], l[1] * m[1], l[0] * m[2] + l[2] * m[0], l[1] * m[2] + l[2] * m[1], l[2] * m[2])
    q1 = prod(line(P[0], P[1]), line(P[2], P[3]))
    q2 = prod(line(P[1], P[2]), line(P[3], P[0]))

    def area(t):
        c, s = cos(t), sin(t)
        A, B, C, D, E, F = [c * x + s * y for x, y in zip(q1, q2)]
        dt = 4 * A * C - B * B
        if dt <= 1e-14:
            return inf
        x, y = (B * E - 2 * C * D) / dt, (B * D - 2 * A * E) / dt
        k = -(F + (D * x + E * y) / 2)
        return TAU * abs(k) / sqrt(dt)
    N = 800
    v = [area(pi * i / N) for i in range(N)]
    i = min(range(N), key=v.__getitem__)
    lo, hi = pi * (i - 1) / N, pi * (i + 1) / N
    g = (sqrt(5) - 1) / 2
    for _ in range(60):
        a, b = hi - g * (hi - lo), lo + g * (hi - lo)
        if area(a) < area(b):
            hi = b
        else:
            lo = a
    return area((lo + hi) / 2)


@family("C12", 250, ["generic", "parallelogram", "trapezoid", "kite", "cocyclic"])
def boundary4(cx):
    r = cx.r
    w = r.choice(["generic", "generic", "parallelogram", "trapezoid", "kite", "cocyclic"])
    A = pt(r)
    if norm(A) > 12:
        raise Skip()
    t = r.choice([0, pi / 2, pi / 4, rad(r)])
    u, v = rot((r.choice([1, 2, 3, r.uniform(1, 4)]), 0), t), rot((r.choice([1, 2, r.uniform(1, 4)]), 0), t + r.choice([pi / 2, r.uniform(.5, 2.6)]))
    if w == "parallelogram":
        P = [A, add(A, u), add(add(A, u), v), add(A, v)]
    elif w == "trapezoid":
        P = [A, add(A, u), add(add(A, mul(r.uniform(.3, .9), u)), v), add(A, v)]
        if r.random() < .5:     # isosceles
            x, y, z = r.uniform(1, 3), r.uniform(.3, .9), r.uniform(.5, 2)
            P = [rot(p, t) for p in ((-x, 0), (x, 0), (y, z), (-y, z))]
    elif w == "kite":
        x, y, z = r.uniform(.5, 3), r.uniform(.5, 3), r.uniform(.5, 3)
        P = [add(A, rot(p, t)) for p in ((-x, 0), (0, -y), (z, 0), (0, y))]
    elif w == "cocyclic":
        P = [polar(A, 2, s) for s in sorted(spread(r, 4, .4))]
    else:
        P = [pt(r, 3) for _ in range(4)]
        o = cen(*P)
        P.sort(key=lambda p: atan2(p[1] - o[1], p[0] - o[0]))
    m = max(d(p, cen(*P)) for p in P)
    cr = [cross(sub(P[(k + 1) % 4], P[k]), sub(P[(k + 2) % 4], P[(k + 1) % 4])) for k in range(4)]
    if m == 0 or min(x * sgn_(cr[0]) for x in cr) < .08 * m * m or norm(P[0]) > 20 * m:
        raise Skip()
    best = pencil_min(P)
    Q = list(P)
    r.shuffle(Q)
    cx.put(what=w, points=Q)
    e = G.Ellipse.from_boundary4(np.array(Q, dtype=float) if r.random() < .7 else np.array(Q))
    ar, E = ell_area(e)
    for p in P:
        cx.near(ell_q(E, p), 1, 1e-6, "the ellipse passes through the four points", P=p, points=Q)
    cx.near(ar / best, 1, 1e-6, "its area is the least among the ellipses through the four points", points=Q, what=w)
    cx.cls(w)


def sgn_(x):
    return 1 if x > 0 else -1
