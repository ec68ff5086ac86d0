"""C15 the affine group, C16 the named transformations, C17 images of lines,
circles and ellipses under transformations of the plane."""
import math
from math import pi, sin, cos, tan, sqrt, atan2, inf
import numpy as np
from ..core import prop, family, load, Skip, Fail
from ..geo import *
from .lines import mkline, flags
from .circles import gen_circ, mkc
from .ellipses import gen_ell

G = load()


# affine maps in pure Python: ((a, b, c, d), (e, f)) : (x, y) -> (ax+by+e, cx+dy+f)
def af(F, P):
    (a, b, c, dd), (e, f) = F
    return (a * P[0] + b * P[1] + e, c * P[0] + dd * P[1] + f)


def af_mul(F, H):
    """F o H"""
    (a, b, c, dd), _ = F
    (p, q, s, t), o = H
    return ((a * p + b * s, a * q + b * t, c * p + dd * s, c * q + dd * t), af(F, o))


def svals(M):
    a, b, c, dd = M
    s1 = hypot(a + dd, c - b); s2 = hypot(a - dd, b + c)
    return (s1 + s2) / 2, abs(s1 - s2) / 2


def gen_af(r, cond=30, wide=False):
    """an invertible affine map; "wide": linear parts of any magnitude"""
    while True:
        k = r.random()
        if k < .35:
            M = tuple(r.randint(-3, 3) for _ in range(4))
        elif k < .5:
            t, s = rad(r), r.choice([1, -1, 2, r.uniform(.3, 3)])
            M = (s * cos(t), -s * sin(t), s * sin(t), s * cos(t))
        elif k < .6:
            M = (r.choice([1, 2, -1, .5]), 0, 0, r.choice([1, 3, -2, .5]))
        elif k < .7:
            M = (1, r.choice([1, -2, .5]), 0, 1)
        else:
            M = tuple(r.uniform(-3, 3) for _ in range(4))
        s1, s2 = svals(M)
        if s1 == 0 or s2 < s1 / cond or s2 < .05:
            continue
        if wide and r.random() < .4:
            q = r.choice([logu(r, -3, 3), .01, .001, 100, 1000])
            M = tuple(q * x for x in M)
        return (M, pt(r) if r.random() < .85 else (0, 0))


def mk_af(r, F):
    (a, b, c, dd), v = F
    M = [[a, b], [c, dd]]
    if r.random() < .6:
        M = np.array(M)
    return G.Affine(M, wrap(r, v))


def coef(f):
    """coefficients of an Affine object of the library"""
    if not isinstance(f, G.Affine):
        raise Fail("an Affine object is documented here", got=repr(f))
    A = flat(f.A)
    if len(A) != 4 or np.shape(f.A) != (2, 2):
        raise Fail("the linear part is a 2x2 matrix", got=repr(f.A))
    return (tuple(float(x) for x in A), P2(f.b))


def size(F):
    return max(abs(x) for x in F[0]) + max(abs(x) for x in F[1])


PROBE = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (2.5, -3.25), (-4.0, 1.5)]


# ---------------------------------------------------------------- C15
prop("C15", ["Affine.compose", "Affine.inverse", "Affine.transform", "Affine.get3x3matrix", "Affine.from_mapping_three_points"],
     "Integer, orthogonal, diagonal, shear and random invertible matrices; exactly singular ones.")


@family("C15", 800)
def transform(cx):
    r = cx.r
    F = gen_af(r, wide=True) if r.random() < .85 else (tuple(r.randint(-2, 2) for _ in range(4)), pt(r))
    f = mk_af(r, F)
    n = r.choice([1, 2, 2, 3, 5, 31 if r.random() < .1 else 4])
    Ps = [pt(r) for _ in range(n)]
    if r.random() < .3:
        k = logu(r, -6, 6)
        Ps = [mul(k, p) for p in Ps]
    elif r.random() < .2:
        Ps = [mul(logu(r, -6, 6), p) for p in Ps]
    cx.put(F=F, P=Ps)
    s = lambda p: (size((F[0], (0, 0))) * norm(p) + norm(F[1])) / 10
    for p in Ps:
        v = f.transform(wrap(r, p))
        cx.ok(is_pt(v), "the image of a point is a point", got=v)
        cx.near(P2(v), af(F, p), 1e-12 * s(p), "image of a point by x -> Ax + b", F=F, P=p)
    M = np.array(Ps) if r.random() < .7 else [list(p) for p in Ps]
    out = f.transform(M)
    cx.ok(np.shape(out) == (n, 2), "the image of a matrix of points has one row per point", got=np.shape(out), n=n)
    for q, p in zip(out, Ps):
        cx.near(P2(q), af(F, p), 1e-12 * s(p), "the image of a matrix of points is computed row by row", F=F, P=p)
    X = f.get3x3matrix()
    cx.ok(np.shape(X) == (3, 3), "3x3 matrix", got=X)
    (a, b, c, dd), (e, g) = F
    cx.near(X, [a, b, e, c, dd, g, 0, 0, 1], 1e-14 * (1 + size(F)), "the augmented matrix of the map", F=F)


@family("C15", 800, ["left", "right", "default"])
def compose(cx):
    r = cx.r
    F, H = gen_af(r, wide=True), gen_af(r, wide=True)
    f, h = mk_af(r, F), mk_af(r, H)
    k = r.choice(["left", "right", "default"])
    cx.put(F=F, H=H, side=k)
    c = f.compose(h) if k == "default" else f.compose(h, left=(k == "left")) if r.random() < .6 else f.compose(h, k == "left")
    want = af_mul(F, H) if k == "right" else af_mul(H, F)
    K = coef(c)
    s = (1 + size(F)) * (1 + size(H))
    cx.near(K[0] + K[1], want[0] + want[1], 1e-12 * s, "composition: " + ("right" if k == "right" else "left"), F=F, H=H)
    for p in PROBE:
        cx.near(P2(c.transform(p)), af(want, p), 1e-11 * s, "image by the composition: " + ("right" if k == "right" else "left"), F=F, H=H)
    # the group law
    E = gen_af(r, wide=True)
    e = mk_af(r, E)
    u, v = coef(f.compose(h).compose(e)), coef(f.compose(h.compose(e)))
    cx.near(u[0] + u[1], v[0] + v[1], 1e-11 * s * (1 + size(E)), "the composition is associative", F=F, H=H, E=E)
    cx.cls(k)


@family("C15", 700)
def inverse(cx):
    r = cx.r
    F = gen_af(r, wide=True)
    f = mk_af(r, F)
    cx.put(F=F)
    g = f.inverse()
    K = coef(g)
    s1, s2 = svals(F[0])
    s = (1 + size(F)) * (1 + size(K))
    for p in PROBE:
        cx.near(af(K, af(F, p)), p, 1e-10 * s, "the inverse undoes the map", F=F, P=p)
        cx.near(P2(f.transform(g.transform(p))), p, 1e-10 * s, "the map undoes its inverse", F=F, P=p)
    for c in (f.compose(g), g.compose(f), f.compose(g, left=False)):
        c = coef(c)
        cx.near(c[0] + c[1], (1, 0, 0, 1, 0, 0), 1e-10 * s, "composition with the inverse is the identity", F=F)
    c = coef(g.inverse())
    cx.near(c[0] + c[1], F[0] + F[1], 1e-9 * s, "the inverse of the inverse", F=F)


@family("C15", 200, ["zero", "rank one"])
def singular(cx):
    r = cx.r
    if r.random() < .2:
        M = (0, 0, 0, 0)
        cx.cls("zero")
    else:
        u, v = r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (1, 2), (2, -1), (-4, 1)]), (grid(r), grid(r))
        if v == (0, 0):
            v = (1, 2)
        M = (u[0] * v[0], u[0] * v[1], u[1] * v[0], u[1] * v[1])
        cx.cls("rank one")
    f = mk_af(r, (M, pt(r)))
    cx.put(A=M)
    v = f.inverse()
    cx.ok(v is None, "a singular map has no inverse", A=M, got=v)


@family("C15", 700, ["triangles", "collinear source", "collinear target"])
def three_points(cx):
    r = cx.r
    P, Q = tri_pts(r), tri_pts(r)
    k = r.random()
    w = "triangles" if k < .8 else "collinear source" if k < .9 else "collinear target"

    def coll():
        A, v = (grid(r), grid(r)), r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-1, 3), (0, -4), (3, 2)])
        if r.random() < .2:
            B = add(A, v)
            return [A, A, B] if r.random() < .5 else [B, A, B]
        ks = r.sample(range(-5, 6), 3)
        return [add(A, mul(x, v)) for x in ks]
    if w == "collinear source":
        P = coll()
    if w == "collinear target":
        Q = coll()
    cx.put(P=P, Q=Q)
    f = G.Affine.from_mapping_three_points(*[wrap(r, p) for p in P + Q])
    if w != "triangles":
        cx.ok(f is None, "no affine isomorphism between collinear points and a triangle: " + w, P=P, Q=Q, got=f)
    else:
        K = coef(f)
        s = (1 + size(K)) * (1 + max(norm(p) for p in P))
        for p, q in zip(P, Q):
            cx.near(P2(f.transform(p)), q, 1e-9 * s, "the three points are mapped to the three points", P=P, Q=Q)
        l = sorted(r.random() for _ in range(2))
        l = (l[0], l[1] - l[0], 1 - l[1])
        m = tuple(sum(x * p[i] for x, p in zip(l, P)) for i in range(2))
        n = tuple(sum(x * p[i] for x, p in zip(l, Q)) for i in range(2))
        cx.near(P2(f.transform(m)), n, 1e-9 * s, "barycentres are mapped to barycentres", P=P, Q=Q)
    cx.cls(w)


@family("C15", 600, ["thin source", "thin target", "small", "large"])
def three_points_thin(cx):
    """almost aligned (but not aligned) points, small and large triangles"""
    r = cx.r

    def thin():
        L, h = 10 ** r.uniform(-4, 4), logu(r, -5.5, -.5)
        A = mul(L, (r.uniform(-3, 3), r.uniform(-3, 3)))
        u = unit(r.choice([0, pi / 2, pi / 4, r.uniform(0, TAU)]))
        t = r.choice([.5, r.uniform(.1, .9), r.uniform(1.1, 3), -1])
        T = [A, add(A, mul(L, u)), add(A, add(mul(t * L, u), mul(sgn(r) * h * L, perp(u))))]
        r.shuffle(T)
        return T, h
    w = r.choice(["thin source", "thin target", "both"])
    P, h = thin() if w != "thin target" else (tri_pts(r, .3), .3)
    Q, e = thin() if w != "thin source" else (tri_pts(r, .3), .3)
    cx.put(P=P, Q=Q)
    f = G.Affine.from_mapping_three_points(*[wrap(r, p) for p in P + Q])
    cx.ok(f is not None, "an affine map between thin triangles exists", P=P, Q=Q)
    sp, sq = max(map(norm, P)), max(map(norm, Q))
    l = max(d(P[0], P[1]), d(P[0], P[2]), d(P[1], P[2]))
    tol = 1e-13 * (sq + max(d(Q[0], Q[1]), d(Q[0], Q[2])) * (1 + sp / l) ** 2 / h ** 2 * (1 + 1 / l + l))
    if tol > 1e-3 * d(Q[0], Q[1]):
        raise Skip()
    for p, q in zip(P, Q):
        cx.near(P2(f.transform(p)), q, tol, "the vertices of a thin triangle are mapped to the points", P=P, Q=Q)
    for x in ([w] if w != "both" else ["thin source", "thin target"]):
        cx.cls(x)
    cx.cls("small" if l < 1e-2 else "large" if l > 1e2 else "ordinary")


# ---------------------------------------------------------------- C16
prop("C16", ["Rotation.transform", "Homothety.transform", "ScalingXY.transform", "Scaling.transform", "Shear.transform",
             "Projection.transform", "Reflection.transform", "Rotation.as_affine", "Homothety.as_affine", "ScalingXY.as_affine",
             "Scaling.as_affine", "Shear.as_affine", "Projection.as_affine", "Reflection.as_affine"],
     "Each transformation is compared with an independent evaluation of its defining property, point by point, in matrices of points and through its matrix.")


def gen_named(r):
    """(kind, parameters, library object, affine map in pure Python)"""
    k = r.choice(["Rotation", "Homothety", "ScalingXY", "Scaling", "Shear", "Projection", "Orthogonal projection", "Reflection"])
    C = pt(r)
    if k == "Rotation":
        dg = r.random() < .5
        th = deg(r) if dg else rad(r)
        t = th * pi / 180 if dg else th
        T = G.Rotation(wrap(r, C), num(r, th)) if dg and r.random() < .5 else G.Rotation(wrap(r, C), num(r, th), degrees=dg)
        M = (cos(t), -sin(t), sin(t), cos(t))
        par = (C, th, dg)
    elif k == "Homothety":
        s = factor(r)
        T = G.Homothety(wrap(r, C), num(r, s)); M = (s, 0, 0, s); par = (C, s)
    elif k == "ScalingXY":
        s, t = [factor(r) for _ in range(2)]
        T = G.ScalingXY(wrap(r, C), num(r, s), num(r, t)); M = (s, 0, 0, t); par = (C, s, t)
    elif k == "Scaling":
        w = r.choice([(1, 0), (0, 2), (1, 3), (-1, -1), mul(r.uniform(.2, 5), unit(rad(r)))])
        s = factor(r)
        T = G.Scaling(wrap(r, C), wrap(r, w), num(r, s))
        x, y = mul(1 / norm(w), w)
        # s u u' + (1 - u u')
        M = (1 + (s - 1) * x * x, (s - 1) * x * y, (s - 1) * x * y, 1 + (s - 1) * y * y)
        par = (C, w, s)
    elif k == "Shear":
        w = r.choice([(1, 0), (0, 2), (1, 3), (-1, -1), mul(r.uniform(.2, 5), unit(rad(r)))])
        q = r.choice([1, 2, .5, r.uniform(.3, 3), r.uniform(.3, 3), 1 + sgn(r) * 10.0 ** r.uniform(-7, -1)])
        dg = r.random() < .5
        an = r.choice([0, 45, -30, 60, r.uniform(-75, 75), r.uniform(-75, 75), sgn(r) * 10.0 ** r.uniform(-6, 0)])
        if not dg:
            an = an * pi / 180
        T = G.Shear(wrap(r, C), wrap(r, w), num(r, q), num(r, an)) if dg and r.random() < .5 else G.Shear(wrap(r, C), wrap(r, w), num(r, q), num(r, an), dg)
        t = tan(an * pi / 180 if dg else an)
        # vertex fixed, w -> w, q*J w -> q*J w + tan(angle) w
        j = perp(w); n2 = dot(w, w)
        # linear part: I + (t/q) w (Jw)' / |w|^2
        z = t / q / n2
        M = (1 + z * w[0] * j[0], z * w[0] * j[1], z * w[1] * j[0], 1 + z * w[1] * j[1])
        par = (C, w, q, an, dg)
    else:
        A, B = line_pts(r)
        L = mkline(r, A, B, *flags(r))
        u = mul(1 / d(A, B), sub(B, A)); n = perp(u)
        if k == "Reflection":
            T = G.Reflection(L); c = 2.0; v = n; par = (A, B)
        elif k == "Orthogonal projection":
            T = G.Projection(L, None); c = 1.0; v = n; par = (A, B)
        else:
            while True:
                P, Q = line_pts(r)
                v = mul(1 / d(P, Q), sub(Q, P))
                if abs(dot(v, n)) > .1:
                    break
            T = G.Projection(L, mkline(r, P, Q, *flags(r)))
            v = mul(1 / dot(v, n), v)
            c = 1.0; par = (A, B, P, Q)
        # M -> M - c <n, M - A> v
        M = (1 - c * v[0] * n[0], -c * v[0] * n[1], -c * v[1] * n[0], 1 - c * v[1] * n[1])
        C = A
    F = (M, sub(C, af((M, (0, 0)), C)))
    return k, par, T, F, fpt(C)


@family("C16", 2400, ["Rotation", "Homothety", "ScalingXY", "Scaling", "Shear", "Projection", "Orthogonal projection", "Reflection"])
def named(cx):
    r = cx.r
    k, par, T, F, C = gen_named(r)
    cx.put(kind=k, parameters=par)
    s = (1 + size(F)) * (1 + norm(C))
    P = pt(r)
    if r.random() < .15:
        P = C
    if k in ("Projection", "Orthogonal projection", "Reflection") and r.random() < .25:
        P = lerp(par[0], par[1], r.choice([0, 1, .5, r.uniform(-3, 3)]))       # on the line
    tol = 1e-10 * s * (1 + norm(P))
    v = T.transform(wrap(r, P))
    cx.ok(is_pt(v), k + ": the image of a point is a point", got=v)
    cx.near(P2(v), af(F, P), tol, k + ": image of a point", kind=k, parameters=par, P=P)
    if k == "Rotation":
        cx.near(P2(T.rotate(wrap(r, P))), af(F, P), tol, "rotate is transform")
    if k in ("Projection", "Orthogonal projection"):
        cx.near(P2(T.project(wrap(r, P))), af(F, P), tol, "project is transform")
        Q = P2(T.transform(P2(v)))
        cx.near(Q, P2(v), tol, k + ": is idempotent")
    if k == "Reflection":
        cx.near(P2(T.reflect(wrap(r, P))), af(F, P), tol, "reflect is transform")
        cx.near(P2(T.transform(P2(v))), P, tol, "a reflection is an involution")
    X = T.get3x3matrix()
    cx.ok(np.shape(X) == (3, 3), k + ": 3x3 matrix", got=X)
    (a, b, c, dd), (e, f) = F
    cx.near(X, (a, b, e, c, dd, f, 0, 0, 1), 1e-9 * s, k + ": augmented matrix", kind=k, parameters=par)
    A = T.as_affine()
    K = coef(A)
    cx.near(K[0] + K[1], F[0] + F[1], 1e-9 * s, k + ": as_affine", kind=k, parameters=par)
    cx.near(P2(A.transform(P)), af(F, P), 10 * tol, k + ": as_affine has the same images", kind=k, parameters=par)
    cx.cls(k)


@family("C16", 1500, ["Rotation", "Homothety", "ScalingXY", "Scaling", "Shear", "Projection", "Orthogonal projection", "Reflection", "near the line", "far from the line"])
def extreme_parameters(cx):
    """large and small factors, long and short vectors, steep shears, narrow projections, points close to the axis and far away"""
    r = cx.r
    k = r.choice(["Rotation", "Homothety", "ScalingXY", "Scaling", "Shear", "Projection", "Orthogonal projection", "Reflection", "Projection"])
    C = fpt(r.choice([(0, 0), (r.uniform(-5, 5), r.uniform(-5, 5)), polar((0, 0), logu(r, -3, 2.5), r.uniform(0, TAU))]))
    wild = lambda: sgn(r) * logu(r, -4, 4)
    P = add(C, polar((0, 0), logu(r, -3, 3), r.uniform(0, TAU)))
    q = an = 1.0
    lw = logu(r, -3, 3)
    a = r.choice([0, pi / 2, pi, -pi / 2, r.uniform(0, TAU), r.uniform(0, TAU)])
    a += r.choice([0, 0, sgn(r) * logu(r, -8, -2)])
    u = unit(a)
    n = perp(u)
    w = mul(lw, u)
    kappa = (1 + norm(C)) ** 2 * max(1, lw) / min(1, lw)
    if k == "Rotation":
        s = r.choice([sgn(r) * logu(r, -12, -2), r.uniform(-40, 40), pi * r.randint(-9, 9) + sgn(r) * logu(r, -9, -2)])
        if r.random() < .5:
            T = G.Rotation(wrap(r, C), s, False)
        else:
            an = s * 180 / pi
            s = an * pi / 180
            T = G.Rotation(wrap(r, C), an) if r.random() < .5 else G.Rotation(wrap(r, C), an, degrees=True)
        f = lambda v: rot(v, s)
        kappa = 40
    elif k == "Homothety":
        s = wild()
        T = G.Homothety(wrap(r, C), s)
        f = lambda v: mul(s, v)
    elif k == "ScalingXY":
        s, t = wild(), wild()
        T = G.ScalingXY(wrap(r, C), s, t)
        f = lambda v: (s * v[0], t * v[1])
    elif k == "Scaling":
        s = wild()
        T = G.Scaling(wrap(r, C), w, s)
        f = lambda v: add(v, mul((s - 1) * dot(u, v), u))
    elif k == "Shear":
        q = logu(r, -2, 2)
        an = sgn(r) * (90 - logu(r, -3, 1.9))
        T = G.Shear(wrap(r, C), w, q, an) if r.random() < .5 else G.Shear(wrap(r, C), w, q, an * pi / 180, False)
        s = tan(an * pi / 180)
        kappa *= max(q * lw, 1) / min(q * lw, 1) * (1 + abs(s))          # the tangent of a steep angle magnifies its rounding
        f = lambda v: add(v, mul(s / q * dot(n, v), u))
    else:
        A, B = C, add(C, w)
        L = mkline(r, A, B, *flags(r))
        u = mul(1 / d(A, B), sub(B, A))
        n = perp(u)
        v = n
        if k == "Projection":
            g = r.choice([pi / 2, pi / 2 + sgn(r) * logu(r, -7, -1.5), r.uniform(.3, 2.8), sgn(r) * logu(r, -3, -.5)])
            v = rot(u, g)
            D = fpt(pt(r))
            E = add(D, mul(logu(r, -2, 2), v))
            if d(D, E) < 1e-4 * norm(D):
                raise Skip()
            v = mul(1 / d(D, E), sub(E, D))
            T = G.Projection(L, mkline(r, D, E, *flags(r)))
            v = mul(1 / dot(v, n), v)
            kappa *= 1 + norm(v) ** 2 * (1 + norm(D) / d(D, E))
            s = norm(v)
        else:
            T = G.Reflection(L) if k == "Reflection" else G.Projection(L, None)
            s = 2.0
        c = 2.0 if k == "Reflection" else 1.0
        f = lambda z: sub(z, mul(c * dot(n, z), v))
        t = sgn(r) * logu(r, -2, 4)
        h = sgn(r) * logu(r, -6, 1) if r.random() < .6 else sgn(r) * abs(t) * logu(r, -2, 0)
        P = add(C, add(mul(t, u), mul(h, n)))
        if norm(C) > 1e5 * lw or abs(h) < 2e-7 * (norm(C) + abs(t)):        # on the line, up to the tolerance of the library
            raise Skip()
        cx.cls("near the line" if abs(h) < 1e-2 * abs(t) else "far from the line")
        kappa = kappa * (1 + norm(C) / lw)
    cx.put(kind=k, center=C, vector=w, ratio=q, angle=an, factor=s, P=P)
    want = add(C, f(sub(P, C)))
    i, j = f((1.0, 0.0)), f((0.0, 1.0))
    m = max(1.0, norm(i), norm(j))
    noise = 1e-15 * (norm(C) + norm(P)) * m
    tol = 20 * noise + 1e-14 * m * (norm(C) + norm(P)) * (kappa if k == "Shear" else (1 + norm(C) / lw) * m * (1 + d(P, C) / lw) if k in ("Projection", "Orthogonal projection", "Reflection") else 1 + (abs(s) if k == "Rotation" else 0))
    cx.near(P2(T.transform(wrap(r, P))), want, tol, k + ": image of a point, extreme parameters", kind=k, P=P)
    if k in ("Rotation", "Homothety", "ScalingXY", "Scaling", "Shear"):
        Q = add(C, mul(logu(r, -3, 0), sub(P, C)))
        out = T.transform(np.array([P, Q, C]) if r.random() < .7 else [list(P), list(Q), list(C)])
        for a, p in zip(out, (P, Q, C)):
            cx.near(P2(a), add(C, f(sub(p, C))), tol, k + ": a matrix of points is transformed row by row, extreme parameters", kind=k, P=p)
    tol = 1e-14 * kappa * m * (1 + norm(C) + norm(P)) * (m if "rojection" in k else 1)
    A = T.as_affine()
    cx.near(P2(A.transform(P)), want, tol, k + ": as_affine has the same images, extreme parameters", kind=k, P=P)
    X = T.get3x3matrix()
    cx.near((float(X[0][0]), float(X[0][1]), float(X[1][0]), float(X[1][1])), (i[0], j[0], i[1], j[1]), tol, k + ": linear part of the matrix, extreme parameters")
    cx.near((float(X[2][0]), float(X[2][1]), float(X[2][2])), (0, 0, 1), 1e-12, k + ": last row")
    cx.cls(k)


@family("C16", 900, ["Rotation", "Homothety", "ScalingXY", "Scaling", "Shear"])
def batch(cx):
    r = cx.r
    while True:
        k, par, T, F, C = gen_named(r)
        if k in ("Rotation", "Homothety", "ScalingXY", "Scaling", "Shear"):
            break
    n = r.choice([1, 2, 2, 3, 4, 7, 101 if r.random() < .1 else 5])
    Ps = [pt(r) for _ in range(n)]
    if r.random() < .4:
        m = logu(r, -6, 6)
        Ps = [add(C, mul(m if r.random() < .9 else logu(r, -6, 6), p)) for p in Ps]
    cx.put(kind=k, parameters=par, P=Ps)
    ints = all(isinstance(x, int) for p in Ps for x in p)
    M = np.array(Ps) if r.random() < .7 else [list(p) for p in Ps]
    out = T.rotate(M) if k == "Rotation" and r.random() < .3 else T.transform(M)
    cx.ok(np.shape(out) == (n, 2), k + ": one row per point", got=np.shape(out), n=n)
    for q, p in zip(out, Ps):
        s = (size((F[0], (0, 0))) + 1) * (norm(C) + norm(p) + norm(F[1]))
        cx.near(P2(q), af(F, p), 1e-12 * s, k + ": a matrix of points is transformed row by row", kind=k, parameters=par, P=p)
    cx.cls(k)


# ---------------------------------------------------------------- C17
prop("C17", ["Affine.transform_line", "Affine.transform_ellipse", "Affine.from_ellipse_to_ellipse", "Rotation.rotate_circle",
             "Rotation.rotate_ellipse", "Rotation.rotate_line", "Reflection.reflect_circle", "Reflection.reflect_line",
             "Homothety.transform_circle", "Scaling.scale_circle", "Line.rotate", "Line.translate"],
     "The image of an object is compared with the images of its points, computed independently.")


def check_ellipse(cx, e, F, E, label, dg=None):
    """e is the image of the ellipse E by the affine map F"""
    cx.ok(isinstance(e, G.Ellipse), label + ": the image is an ellipse", got=e)
    H = ell_of(e)
    cx.ok(H[1] >= H[2] * (1 - 1e-9), label + ": the major radius is not smaller than the minor radius", got=e)
    for i in range(8):
        P = af(F, ell_pt(E, i * pi / 4 + .1))
        cx.near(ell_q(H, P), 1, 1e-6, label + ": the image contains the images of the points", ell=E, F=F, P=P, got=e)
    c = af(F, E[0])
    cx.near(H[0], c, 1e-8 * (1 + size(F)) * (E[1] + norm(E[0]) + 1), label + ": centre", ell=E, F=F)
    det = abs(F[0][0] * F[0][3] - F[0][1] * F[0][2])
    cx.near(H[1] * H[2] / (E[1] * E[2] * det), 1, 1e-7, label + ": area", ell=E, F=F)
    if dg is not None:
        cx.ok(bool(e.degrees) == bool(dg), label + ": the angle unit is kept", got=e)


@family("C17", 900, ["ellipse", "circle", "singular", "round image", "radians"])
def affine_ellipse(cx):
    r = cx.r
    w = r.choice(["ellipse", "ellipse", "circle"])
    F = gen_af(r, 8)
    par, E = gen_ell(r, 20, 6)
    if w == "circle":
        C, R = gen_circ(r, 20)
        obj, E = mkc(r, C, R), (C, R, R, 0.0)
    else:
        obj = mk_ell(G, r, par)
        if r.random() < .25:       # the image is a circle, or an ellipse with axes parallel to the coordinate axes
            (x, y), a, b, al = E
            t = r.choice([0, rad(r)]); u, v = r.choice([(1, 1), (2, 1), (1, 2), (3, 1)])
            D = (u / a, 0, 0, v / b)
            rot_ = (cos(al), sin(al), -sin(al), cos(al))
            N = af_mul((D, (0, 0)), (rot_, (0, 0)))[0]
            T = (cos(t), -sin(t), sin(t), cos(t))
            F = (af_mul((T, (0, 0)), (N, (0, 0)))[0], F[1])
            if u == v:
                cx.cls("round image")
    if norm(F[1]) > 15 or svals(F[0])[1] * E[2] < .05:
        raise Skip()
    f = mk_af(r, F)
    cx.put(F=F, ell=E, what=w)
    if r.random() < .08:
        g = mk_af(r, ((1, 2, 2, 4), F[1]))
        cx.ok(g.transform_ellipse(obj) is None, "a singular map has no image of an ellipse")
        cx.cls("singular")
    e = f.transform_ellipse(obj)
    # centres far from the origin compared to the image are out (ordinary scale)
    sm = svals(F[0])[1] * E[2]
    if norm(af(F, E[0])) > 40 * sm:
        raise Skip()
    check_ellipse(cx, e, F, E, "affine image of " + ("a circle" if w == "circle" else "an ellipse"), par[4] if w != "circle" else None)
    cx.cls(w)
    if w == "ellipse" and not par[4]:
        cx.cls("radians")


def turn_mat(t):
    return (cos(t), -sin(t), sin(t), cos(t))


@family("C17", 500, ["very elongated", "circle", "ellipse", "scale_circle", "round again"])
def elongated(cx):
    """images by maps that flatten the plane, or that unflatten an ellipse"""
    r = cx.r
    w = r.choice(["circle", "ellipse", "ellipse", "scale_circle", "round again"])
    q = 10 ** r.uniform(0, 5)
    k = r.choice([1, 1, 2, 10 ** r.uniform(-2, 2)])
    t1, t2 = r.choice([0, pi / 2, pi / 6, rad(r)]), r.choice([0, pi / 2, pi / 4, rad(r)])
    R = r.choice([1, 2, r.uniform(.5, 4)])
    C = r.choice([(0.0, 0.0), mul(R, (r.uniform(-2, 2), r.uniform(-2, 2)))])
    dgs = r.random() < .6
    if w == "scale_circle":
        c = mkc(r, C, R)
        sc = r.choice([q, 1 / q]) * sgn(r)
        o = mul(R, (r.uniform(-2, 2), r.uniform(-2, 2)))
        S = G.Scaling(wrap(r, o), wrap(r, mul(r.choice([1, 3, .2]), unit(t1))), sc)
        M = af_mul((turn_mat(t1), (0, 0)), af_mul(((sc, 0, 0, 1), (0, 0)), (turn_mat(-t1), (0, 0))))[0]
        F = (M, sub(o, af((M, (0, 0)), o)))
        E = (C, R, R, 0.0)
        cx.put(what=w, circle=(C, R), center=o, angle=t1, scale=sc)
        e = S.scale_circle(c)
    else:
        M = af_mul((turn_mat(t1), (0, 0)), af_mul(((k, 0, 0, k / q), (0, 0)), (turn_mat(-t2), (0, 0))))[0]
        F = (M, mul(k * R, (r.uniform(-2, 2), r.uniform(-2, 2))))
        if w == "circle":
            E, obj = (C, R, R, 0.0), mkc(r, C, R)
        else:
            b = R / 10 ** r.uniform(0, 2)
            al = t2 + rad(r)
            if w == "round again":          # the minor axis is along the direction that is not flattened
                b, al = R / q, t2 + pi / 2
            E = (C, R, b, al)
            obj = G.Ellipse(wrap(r, C), R, b, al * 180 / pi if dgs else al, degrees=dgs)
        cx.put(what=w, F=F, ell=E)
        e = mk_af(r, F).transform_ellipse(obj)
    cx.ok(isinstance(e, G.Ellipse), "elongated: the image is an ellipse", got=e)
    K = ell_of(e)
    N = af_mul((F[0], (0, 0)), ((E[1] * cos(E[3]), -E[2] * sin(E[3]), E[1] * sin(E[3]), E[2] * cos(E[3])), (0, 0)))[0]
    s1 = svals(N)[0]
    s2 = abs(N[0] * N[3] - N[1] * N[2]) / s1
    rel = max(q, s1 / s2)
    cx.near(K[1] / s1, 1, 1e-9, "elongated: major radius", ell=E, F=F, got=K)
    cx.near(K[2] / s2, 1, 1e-9 + 1e-14 * rel * 100, "elongated: minor radius", ell=E, F=F, got=K)
    cx.near(K[0], af(F, E[0]), 1e-9 * (1 + norm(E[0])) * max(1, svals(F[0])[0]) + 1e-9 * norm(F[1]), "elongated: centre", ell=E, F=F, got=K)
    z = norm(af(F, E[0])) + norm(F[1]) + svals(F[0])[0] * norm(E[0])
    for i in range(12):
        P = ell_pt(E, i * pi / 6 + .1)
        cx.near(ell_q(K, af(F, P)), 1, 1e-7 + 1e-13 * (rel + z / s2) * 10, "elongated: the image consists of the images of the points", ell=E, F=F, got=K)
    cx.cls(w)
    if s1 / s2 > 1e4:
        cx.cls("very elongated")


@family("C17", 500, ["ellipse to ellipse", "circle to ellipse", "ellipse to circle", "circle to circle"])
def ellipse_to_ellipse(cx):
    r = cx.r
    objs, Es, w = [], [], []
    for _ in range(2):
        if r.random() < .3:
            C, R = gen_circ(r, 30)
            objs.append(mkc(r, C, R)); Es.append((C, R, R, 0.0)); w.append("circle")
        else:
            par, E = gen_ell(r, 30, 6)
            objs.append(mk_ell(G, r, par)); Es.append(E); w.append("ellipse")
    if Es[1][1] > 30 * Es[0][2]:
        raise Skip()
    cx.put(ell1=Es[0], ell2=Es[1], what=w)
    f = G.Affine.from_ellipse_to_ellipse(*objs)
    K = coef(f)
    for i in range(8):
        P = ell_pt(Es[0], i * pi / 4 + .1)
        Q = P2(f.transform(P))
        cx.near(ell_q(Es[1], Q), 1, 1e-6, "the map sends the first ellipse to the second", ell1=Es[0], ell2=Es[1], P=P)
    s = (1 + size(K)) * (1 + norm(Es[0][0]))
    cx.near(af(K, Es[0][0]), Es[1][0], 1e-10 * s, "the map sends the centre to the centre")
    cx.cls(" to ".join(w))


@family("C17", 900, ["Affine", "Rotation", "Reflection", "Line.rotate", "Line.translate", "singular", "segment", "half-line"])
def lines(cx):
    r = cx.r
    A, B = line_pts(r)
    fl = flags(r)
    L = mkline(r, A, B, *fl)
    w = r.choice(["Affine", "Rotation", "Reflection", "Line.rotate", "Line.translate"])
    if w == "Affine":
        F = gen_af(r); f = mk_af(r, F)
        imgs = [f.transform_line(L)]
        if r.random() < .2:
            g = mk_af(r, ((1, -2, -2, 4), F[1]))
            cx.ok(g.transform_line(L) is None, "a singular map has no image of a line")
            cx.cls("singular")
        par = F
    elif w in ("Rotation", "Line.rotate"):
        C = pt(r); dg = r.random() < .5
        th = deg(r) if dg else rad(r)
        t = th * pi / 180 if dg else th
        M = (cos(t), -sin(t), sin(t), cos(t))
        F = (M, sub(C, af((M, (0, 0)), C)))
        par = (C, th, dg)
        if w == "Rotation":
            R = G.Rotation(wrap(r, C), num(r, th), dg)
            imgs = [R.rotate_line(L), R.transform_line(L)]
        else:
            imgs = [L.rotate(num(r, th), wrap(r, C)) if dg and r.random() < .5 else L.rotate(num(r, th), wrap(r, C), degrees=dg)]
    elif w == "Line.translate":
        v = pt(r)
        F = ((1, 0, 0, 1), v); par = v
        imgs = [L.translate(wrap(r, v))]
    else:
        P, Q = line_pts(r)
        n = perp(mul(1 / d(P, Q), sub(Q, P)))
        M = (1 - 2 * n[0] * n[0], -2 * n[0] * n[1], -2 * n[0] * n[1], 1 - 2 * n[1] * n[1])
        F = (M, sub(P, af((M, (0, 0)), P)))
        R = G.Reflection(mkline(r, P, Q, *flags(r))); par = (P, Q)
        imgs = [R.reflect_line(L), R.transform_line(L)]
    cx.put(what=w, line=(A, B, fl), parameters=par)
    s = (1 + size(F)) * (1 + norm(A) + norm(B))
    for m in imgs:
        cx.ok(isinstance(m, G.Line), w + ": the image of a line is a line", got=m)
        cx.near((P2(m.A), P2(m.B)), (af(F, A), af(F, B)), 1e-10 * s, w + ": the defining points are mapped", line=(A, B), parameters=par)
        cx.ok((bool(m.extendA), bool(m.extendB)) == (bool(fl[0]), bool(fl[1])), w + ": the ends are extended as before", got=m, flags=fl)
    cx.cls(w)
    if fl == (False, False):
        cx.cls("segment")
    if fl[0] != fl[1]:
        cx.cls("half-line")


@family("C17", 900, ["Rotation", "Reflection", "Homothety", "Scaling", "half turn or mirror scaling", "contraction"])
def circles(cx):
    r = cx.r
    C, R = gen_circ(r, 40)
    c = mkc(r, C, R)
    w = r.choice(["Rotation", "Reflection", "Homothety", "Scaling"])
    while True:
        k, par, T, F, _ = gen_named(r)
        if k == w:
            if k in ("Homothety", "Scaling") and abs(par[-1]) < .1:
                continue
            break
    cx.put(circle=(C, R), kind=k, parameters=par)
    s = (1 + size(F)) * (1 + norm(C) + R)
    if w == "Scaling":
        e = T.scale_circle(c)
        if norm(C) > 20 * R or norm(par[0]) > 20 * R:
            raise Skip()
        check_ellipse(cx, e, F, (C, R, R, 0.0), "Scaling of a circle")
        if par[-1] < 0:
            cx.cls("half turn or mirror scaling")
        if abs(par[-1]) < 1:
            cx.cls("contraction")
    else:
        imgs = [T.transform_circle(c)]
        if w == "Rotation":
            imgs.append(T.rotate_circle(c))
        if w == "Reflection":
            imgs.append(T.reflect_circle(c))
        q = abs(par[-1]) if w == "Homothety" else 1.0
        for m in imgs:
            cx.ok(isinstance(m, G.Circle), w + ": the image of a circle is a circle", got=m)
            K = circ_of(m)
            cx.near(K[0], af(F, C), 1e-10 * s, w + ": centre of the image of a circle", circle=(C, R), parameters=par)
            cx.near(K[1], q * R, 1e-10 * s, w + ": radius of the image of a circle", circle=(C, R), parameters=par)
    cx.cls(w)


@family("C17", 700, ["rotation", "homothety", "reflection", "ellipse to ellipse", "elongated", "almost round", "tiny", "huge", "far"])
def extreme_images(cx):
    """images of tiny, huge, elongated, almost round and far ellipses and circles"""
    r = cx.r

    def shape(base):
        q = r.choice([1.0, 10 ** r.uniform(0, 3), 1 + logu(r, -9, -1)])
        b = base * 10 ** r.choice([0, r.uniform(-5, 5), r.uniform(-1, 1)])
        far = b * r.choice([0, r.uniform(0, 10), logu(r, 1, 5)])
        C = polar((0, 0), far, r.choice([0, pi / 2, r.uniform(0, TAU)]))
        dg = r.random() < .5
        al = r.choice([0, 90, 180, -45, 300, 720, r.uniform(-400, 400)])
        if not dg:
            al = al * pi / 180
        if q > 100:
            cx.cls("elongated")
        if 1 < q < 1.001:
            cx.cls("almost round")
        if b < 1e-2 or b > 1e2:
            cx.cls("tiny" if b < 1 else "huge")
        if far > 1e3 * b:
            cx.cls("far")
        return (C, b * q, b, al * pi / 180 if dg else al), al, dg
    w = r.choice(["rotation", "homothety", "reflection", "ellipse to ellipse"])
    E, al, dg = shape(1.0)
    C, a, b, _ = E
    cx.put(what=w, ell=E)
    cx.cls(w)
    O = r.choice([(0.0, 0.0), polar(C, a * logu(r, -2, 3), r.uniform(0, TAU)), C])
    e = 1e-14 * (norm(C) + norm(O) + a)
    if w == "rotation":
        th = r.choice([r.uniform(-7, 7), sgn(r) * logu(r, -8, -2), pi * r.randint(-6, 6), pi / 2])
        td = r.random() < .5
        o = G.Ellipse(wrap(r, C), a, b, al, dg)
        R = G.Rotation(wrap(r, O), th * 180 / pi if td else th, td)
        D = add(O, rot(sub(C, O), th))
        for f in (R.rotate_ellipse, R.transform_ellipse):
            i = f(o)
            K = ell_of(i)
            cx.near(K[0], D, 20 * e, "rotation of an extreme ellipse: centre", ell=E, center=O, theta=th)
            cx.near((K[1] / a, K[2] / b), (1, 1), 1e-12, "rotation of an extreme ellipse: radii", ell=E)
            if a > b:
                cx.near(ang_mod(K[3] - E[3] - th, pi), 0, 1e-12, "rotation of an extreme ellipse: direction", ell=E, theta=th, got=K)
            cx.ok(bool(i.degrees) == dg, "rotation of an extreme ellipse: unit")
        c = G.Circle(wrap(r, C), b)
        for f in (R.rotate_circle, R.transform_circle):
            K = circ_of(f(c))
            cx.near(K[0], D, 20 * e, "rotation of an extreme circle: centre", circle=(C, b), center=O, theta=th)
            cx.near(K[1] / b, 1, 1e-12, "rotation of an extreme circle: radius")
    elif w == "homothety":
        s = sgn(r) * logu(r, -6, 6)
        K = circ_of(G.Homothety(wrap(r, O), s).transform_circle(G.Circle(wrap(r, C), b)))
        cx.near(K[0], add(O, mul(s, sub(C, O))), 20 * e * (1 + abs(s)), "homothety of an extreme circle: centre", circle=(C, b), center=O, scale=s)
        cx.near(K[1] / (abs(s) * b), 1, 1e-12, "homothety of an extreme circle: radius", circle=(C, b), center=O, scale=s)
    elif w == "reflection":
        u = unit(r.choice([0, pi / 2, r.uniform(0, TAU)]))
        A = O
        B = add(A, mul(a * logu(r, -1, 1), u))
        l = d(A, B)
        if norm(A) > 1e4 * l:
            raise Skip()
        R = G.Reflection(mkline(r, A, B, *flags(r)))
        for f in (R.reflect_circle, R.transform_circle):
            K = circ_of(f(G.Circle(wrap(r, C), b)))
            cx.near(K[0], mirror(A, B, C), 20 * e * (1 + (norm(A) + d(A, C)) / l), "reflection of an extreme circle: centre", circle=(C, b), A=A, B=B)
            cx.near(K[1] / b, 1, 1e-12, "reflection of an extreme circle: radius")
    else:
        F, al2, dg2 = shape(b * 10 ** r.uniform(-3, 3))
        mk = lambda E, al, dg: mkc(r, E[0], E[1]) if E[1] == E[2] and r.random() < .5 else G.Ellipse(wrap(r, E[0]), E[1], E[2], al, dg)
        f = G.Affine.from_ellipse_to_ellipse(mk(E, al, dg), mk(F, al2, dg2))
        t = 1e-13 * (1 + (norm(C) + a) / b) * (1 + F[1] / F[2]) + 1e-13 * norm(F[0]) / F[2]
        if t > 1e-2:
            raise Skip()
        for j in range(6):
            P = ell_pt(E, j * pi / 3 + .1)
            Q = P2(f.transform(wrap(r, P)))
            cx.near(ell_q(F, Q), 1, 10 * t, "from one extreme ellipse to another one", ell1=E, ell2=F, P=P)
        cx.near(P2(f.transform(C)), F[0], 10 * t * F[1], "from one extreme ellipse to another one: centre", ell1=E, ell2=F)


@family("C17", 500, ["degrees by degrees", "degrees by radians", "radians by degrees", "radians by radians"])
def rotate_ellipse(cx):
    r = cx.r
    par, E = gen_ell(r, 40, 6)
    e = mk_ell(G, r, par)
    C = pt(r); dg = r.random() < .5
    th = deg(r) if dg else rad(r)
    t = th * pi / 180 if dg else th
    R = G.Rotation(wrap(r, C), num(r, th), dg)
    M = (cos(t), -sin(t), sin(t), cos(t))
    F = (M, sub(C, af((M, (0, 0)), C)))
    cx.put(ell=par, center=C, theta=th, degrees=dg)
    for m in (R.rotate_ellipse(e), R.transform_ellipse(e)):
        if norm(C) > 40 * E[2]:
            raise Skip()
        check_ellipse(cx, m, F, E, "rotation of an ellipse", par[4])
    cx.cls("%s by %s" % ("degrees" if par[4] else "radians", "degrees" if dg else "radians"))


@family("C17", 600, ["line", "ellipse", "circle", "tiny", "huge"])
def scaling_maps(cx):
    """images by affine maps which shrink or enlarge the plane very much"""
    r = cx.r
    (m, v) = gen_af(r, 8)
    q = 10 ** r.choice([r.uniform(-9, 9), r.uniform(-4, -9), r.uniform(4, 9)])
    F = (tuple(q * x for x in m), mul(q, v))
    f = mk_af(r, F)
    w = r.choice(["line", "ellipse", "circle"])
    if w == "line":
        A, B = line_pts(r)
        fl = flags(r)
        cx.put(F=F, line=(A, B, fl))
        s = (1 + size((m, v))) * (1 + norm(A) + norm(B))
        g = f.transform_line(mkline(r, A, B, *fl))
        cx.ok(isinstance(g, G.Line), "the image of a line by an invertible map is a line", F=F, got=g)
        cx.near(mul(1 / q, P2(g.A)), mul(1 / q, af(F, A)), 1e-12 * s, "the first point is mapped, in the unit of the image", F=F)
        cx.near(mul(1 / q, P2(g.B)), mul(1 / q, af(F, B)), 1e-12 * s, "the second point is mapped, in the unit of the image", F=F)
        cx.ok((bool(g.extendA), bool(g.extendB)) == (bool(fl[0]), bool(fl[1])), "the ends are extended as before", got=g)
    else:
        if w == "ellipse":
            par, E = gen_ell(r, 20, 6)
            o = mk_ell(G, r, par)
        else:
            C, R = gen_circ(r, 20)
            o, E = mkc(r, C, R), (C, R, R, 0.0)
        cx.put(F=F, what=w, E=E)
        g = f.transform_ellipse(o)
        cx.ok(isinstance(g, G.Ellipse), "the image of an ellipse by an invertible map is an ellipse", F=F, got=g)
        I = ell_of(g)
        s1 = svals(m)[1]
        tol = 1e-10 * (1 + size((m, v)) * (norm(E[0]) + E[1]) / (s1 * E[2])) ** 2
        for k in range(5):
            Q = ell_pt(E, .4 + TAU * k / 5)
            cx.near(ell_q(I, af(F, Q)), 1, tol, "the image of a point of the curve is on the image", F=F, E=E)
    cx.cls(w)
    if abs(math.log10(q)) > 4:
        cx.cls("tiny" if q < 1 else "huge")


@family("C15", 500, ["inverse", "compose", "mapping", "tiny", "huge"])
def scaling_affine(cx):
    """affine maps which shrink or enlarge the plane very much"""
    r = cx.r
    (m, v) = gen_af(r, 8)
    q = 10 ** r.choice([r.uniform(-9, 9), r.uniform(-4, -9), r.uniform(4, 9)])
    F = (tuple(q * x for x in m), mul(q, v))
    w = r.choice(["inverse", "compose", "mapping"])
    s = (1 + size((m, v))) * 8
    cx.put(F=F, what=w)
    if w == "inverse":
        f = mk_af(r, F)
        g = f.inverse()
        cx.ok(isinstance(g, G.Affine), "an invertible map has an inverse", F=F)
        for P in PROBE:
            cx.near(P2(g.transform(f.transform(P))), P, 1e-11 * s * s * (1 + norm(P)), "f then its inverse fixes the points", F=F)
            Q = mul(q, P)
            cx.near(mul(1 / q, P2(f.transform(g.transform(Q)))), P, 1e-11 * s * s * (1 + norm(P)), "the inverse then f fixes the points", F=F)
    elif w == "compose":
        (m2, v2) = gen_af(r, 8)
        k = 10 ** r.uniform(-9, 9)
        H = (tuple(k * x for x in m2), mul(k * q, v2))
        f, h = mk_af(r, F), mk_af(r, H)
        fh, hf = f.compose(h), f.compose(h, left=False)
        for P in PROBE:
            S = s * s * (1 + size((m2, v2))) * (1 + norm(P))
            cx.near(mul(1 / k / q, P2(fh.transform(P))), mul(1 / k / q, af(H, af(F, P))), 1e-13 * S, "f.compose(h) applies f, then h", F=F, H=H)
            x, y = P2(hf.transform(P)), af(F, af(H, P))
            u = q * max(k, k * q, 1)
            cx.near(mul(1 / u, x), mul(1 / u, y), 1e-13 * S, "f.compose(h, left=False) applies h, then f", F=F, H=H)
    else:
        T = tri_like(r)
        U = [af(F, P) for P in T]
        f = G.Affine.from_mapping_three_points(*[wrap(r, P) for P in T], *[wrap(r, P) for P in U])
        cx.ok(isinstance(f, G.Affine), "three points which are not aligned are mapped", T=T, U=U)
        for P in T + PROBE[:2]:
            cx.near(mul(1 / q, P2(f.transform(P))), mul(1 / q, af(F, P)), 1e-9 * s * s, "the map through three points", T=T, F=F)
        g = G.Affine.from_mapping_three_points(*[wrap(r, P) for P in U], *[wrap(r, P) for P in T])
        cx.ok(isinstance(g, G.Affine), "three points which are not aligned are mapped", T=U, U=T)
        for P in T:
            cx.near(P2(g.transform(af(F, P))), P, 1e-8 * s * s, "the map through three points, backwards", T=T, F=F)
    cx.cls(w)
    if abs(math.log10(q)) > 4:
        cx.cls("tiny" if q < 1 else "huge")


def tri_like(r):
    while True:
        T = [pt(r) for _ in range(3)]
        a = max(d(T[0], T[1]), d(T[0], T[2]), d(T[1], T[2]))
        if a > 0 and abs(cross(sub(T[1], T[0]), sub(T[2], T[0]))) > .02 * a * a:
            return T
