"""C13 measures of a triangle, C14 circles and centres of a triangle."""
import math
from math import pi, sin, cos, sqrt, atan2, acos, inf
import numpy as np
from ..core import prop, family, load, Skip, Fail
from ..geo import *

G = load()


def mkt(r, T):
    return G.Triangle(*[wrap(r, p) for p in T])


def sides(T):
    A, B, C = T
    return d(B, C), d(A, C), d(A, B)


def angles_of(T):
    out = []
    for i in range(3):
        u, v = sub(T[(i + 1) % 3], T[i]), sub(T[(i + 2) % 3], T[i])
        out.append(abs(atan2(cross(u, v), dot(u, v))))
    return out


def flat_pts(r):
    """exactly collinear points, two by two distinct (coordinates exact in binary)"""
    while True:
        A, v = (grid(r), grid(r)), (grid(r, 4), grid(r, 4))
        if v == (0, 0):
            continue
        ks = r.sample(range(-6, 7), 3)
        q = r.choice([1, 1, 2, 4])
        return [(A[0] + k * v[0] / q, A[1] + k * v[1] / q) if q > 1 else add(A, mul(k, v)) for k in ks]


def thin_pts(r, lo):
    """(T, h): a triangle of height h relative to its longest side, h down to 10**lo"""
    L = r.choice([1, 2, r.uniform(.5, 4)])
    A = r.choice([(0.0, 0.0), (r.randint(-2, 2), r.randint(-1, 1)), (r.uniform(-2, 2), r.uniform(-2, 2))])
    u = unit(r.choice([0, pi / 2, pi / 4, rad(r)]))
    if r.random() < .3:
        u = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
    t = r.choice([.5, .25, r.uniform(.1, .9), r.uniform(1.1, 2), 2])
    h = logu(r, lo, -1.3)
    T = [A, add(A, mul(L, u)), add(A, add(mul(t * L, u), mul(sgn(r) * h * L * max(t, 1), perp(u))))]
    r.shuffle(T)
    return [fpt(p) for p in T], h


# ---------------------------------------------------------------- C13
prop("C13", ["Triangle.a", "Triangle.b", "Triangle.c", "Triangle.edges", "Triangle.angleA", "Triangle.angleB",
             "Triangle.angleC", "Triangle.flatness", "Triangle.orientation", "Triangle.contains", "Triangle.is_acute"],
     "Equilateral, isosceles, right, integer and random triangles, thin and exactly flat ones.")


@family("C13", 1200, ["counterclockwise", "clockwise", "acute", "obtuse", "thin"])
def measures(cx):
    r = cx.r
    k = r.random()
    T = tri_pts(r) if k < .7 else tri_pts(r, .01) if k < .9 else thin_pts(r, -6)[0]
    t = mkt(r, T)
    cx.put(T=T)
    a, b, c = sides(T)
    s = max(a, b, c) + max(norm(p) for p in T)
    cx.near((t.a, t.b, t.c), (a, b, c), 1e-12 * s, "lengths of the sides BC, CA, AB", T=T)
    e = t.edges
    cx.ok(set(e.keys()) == {"a", "b", "c"}, "edges has the three sides", got=e)
    cx.near((e["a"], e["b"], e["c"]), (a, b, c), 1e-12 * s, "edges", T=T)
    an = angles_of(T)
    got = (t.angleA, t.angleB, t.angleC)
    for x, y, v in zip(got, an, "ABC"):        # the arc cosine is ill-conditioned near 0 and pi
        cx.near(x, y, min(1e-7, 1e-12 + 2e-14 * max(a, b, c) / min(a, b, c) / max(sin(y), 1e-9)), "angles at A, B, C in radians", T=T, vertex=v)
    cx.near(sum(float(x) for x in got), pi, 1e-6, "the angles sum to pi", T=T)
    ar = cross(sub(T[1], T[0]), sub(T[2], T[0]))
    o = t.orientation
    cx.ok(o == (1 if ar > 0 else -1), "orientation: 1 for counterclockwise, -1 for clockwise", T=T, got=o)
    P = list(T)
    P[0], P[1] = P[1], P[0]
    cx.ok(G.Triangle(*P).orientation == -o, "swapping two vertices reverses the orientation", T=T)
    cx.ok(G.Triangle(T[1], T[2], T[0]).orientation == o, "a cyclic permutation keeps the orientation", T=T)
    f = float(t.flatness)
    cx.near(f, cos(an[0]) ** 2, 1e-9, "flatness is the squared cosine of the first angle", T=T)
    cx.ok(0 <= f < 1, "a proper triangle is not flat", T=T, got=f)
    m = max(an)
    if abs(m - pi / 2) > 1e-5:
        cx.ok(bool(t.is_acute) == (m < pi / 2), "is_acute", T=T, angles=an, got=t.is_acute)
        cx.cls("acute" if m < pi / 2 else "obtuse")
    cx.cls("counterclockwise" if ar > 0 else "clockwise")
    if min(an) < .1:
        cx.cls("thin")


@family("C13", 300, ["first vertex between", "first vertex outside"])
def flat_triangles(cx):
    r = cx.r
    T = flat_pts(r)
    t = mkt(r, T)
    cx.put(T=T)
    cx.ok(float(t.flatness) == 1.0, "a flat triangle has flatness 1", T=T, got=t.flatness)
    cx.ok(t.orientation == 0, "a flat triangle has orientation 0", T=T, got=t.orientation)
    got = [float(t.angleA), float(t.angleB), float(t.angleC)]
    cx.near(got, angles_of(T), 1e-6, "angles of a flat triangle", T=T)
    cx.near((t.a, t.b, t.c), sides(T), 1e-12 * (1 + sum(sides(T))), "sides of a flat triangle", T=T)
    cx.cls("first vertex between" if angles_of(T)[0] > 3 else "first vertex outside")


@family("C13", 300)
def integer_orientation(cx):
    r = cx.r
    n = r.choice([2, 6, 1000])
    T = [(grid(r, n), grid(r, n)) for _ in range(3)]
    if len(set(T)) < 3:
        raise Skip()
    v = cross(sub(T[1], T[0]), sub(T[2], T[0]))
    cx.put(T=T)
    o = mkt(r, T).orientation
    cx.ok(o == (v > 0) - (v < 0), "orientation of integer triangles", T=T, got=o)


@family("C13", 800, ["in", "out", "beyond a vertex", "beyond a side"])
def containment(cx):
    r = cx.r
    T = tri_pts(r)
    t = mkt(r, T)
    w = r.choice(["in", "in", "beyond a side", "beyond a vertex", "out"])
    g = logu(r, -6, -.5)
    if w == "in":
        x, y = sorted((r.random(), r.random()))
        l = [x, y - x, 1 - y]
        if r.random() < .5:
            i = r.randrange(3)
            l = [g if j == i else (1 - g) * q for j, q in enumerate(_two(r, i))]
        if min(l) < 1e-6:
            raise Skip()
    elif w == "beyond a side":
        i = r.randrange(3)
        l = [-g if j == i else (1 + g) * q for j, q in enumerate(_two(r, i))]
    elif w == "beyond a vertex":
        i = r.randrange(3)
        u = [g * r.uniform(.1, 1) for _ in range(3)]
        l = [-x for x in u]
        l[i] = 1 - sum(l[j] for j in range(3) if j != i)
    else:
        x, y = r.uniform(-3, 3), r.uniform(-3, 3)
        l = [x, y, 1 - x - y]
        if min(abs(x) for x in l) < 1e-6:
            raise Skip()
        if min(l) > 0:
            w = "in"
    M = (sum(q * p[0] for q, p in zip(l, T)), sum(q * p[1] for q, p in zip(l, T)))
    cx.put(T=T, M=M, where=w)
    cx.ok(bool(t.contains(wrap(r, M))) == (w == "in"), "contains: " + w, T=T, M=M, barycentric=l)
    cx.cls(w)


def _two(r, i):
    u = r.uniform(.02, .98)
    q = [u, 1 - u]
    q.insert(i, 0.0)
    return q


# ---------------------------------------------------------------- C14
prop("C14", ["Triangle.incircle", "Triangle.circumcircle", "Triangle.excircles", "Triangle.orthic_triangle",
             "Triangle.malfatti_circles", "Triangle.equal_detour_point", "Triangle.steiner_ellipse", "Triangle.steiner_inellipse"],
     "Equilateral, isosceles, right, integer and random triangles.")

EDGE = ((1, 2), (2, 0), (0, 1))


def side_dist(T, i, P):
    """signed distance to the side opposite vertex i, positive on the side of the triangle"""
    A, B = T[EDGE[i][0]], T[EDGE[i][1]]
    v = line_dist(A, B, P)
    return v if line_dist(A, B, T[i]) > 0 else -v


@family("C14", 900, ["acute", "obtuse", "right"])
def circles(cx):
    r = cx.r
    T = tri_pts(r)
    t = mkt(r, T)
    cx.put(T=T)
    s = max(sides(T)) + max(norm(p) for p in T)
    tol = 1e-7 * s
    C, R = circ_of(t.incircle())
    for i in range(3):
        cx.near(side_dist(T, i, C), R, tol, "the incircle touches the three sides from inside", T=T)
    C, R = circ_of(t.circumcircle())
    for p in T:
        cx.near(d(C, p), R, tol, "the circumcircle passes through the vertices", T=T)
    ex = t.excircles()
    cx.ok(list(ex.keys()) == ["A", "B", "C"], "three excircles", got=list(ex.keys()))
    for k, key in enumerate("ABC"):
        C, R = circ_of(ex[key])
        st = tol * (1 + R / min(sides(T)))
        for i in range(3):
            cx.near(side_dist(T, i, C), -R if i == k else R, st, "an excircle touches its side from outside and the two others", T=T, excircle=key)
    an = angles_of(T)
    m = max(an)
    cx.cls("right" if abs(m - pi / 2) < 1e-6 else "acute" if m < pi / 2 else "obtuse")


@family("C14", 700, ["near", "far", "tiny", "huge"])
def far_circles(cx):
    """triangles of any size far from the origin, to the precision of the coordinates"""
    r = cx.r
    T = tri_pts(r, .3)
    k = 10 ** r.uniform(-6, 6)
    m = 0 if r.random() < .2 else logu(r, 0, 4.5)
    O = polar((0, 0), m * k, r.choice([0, pi / 2, r.uniform(0, TAU), r.uniform(0, TAU)]))
    A = T[0]
    T = [fpt(add(O, mul(k, sub(p, A)))) for p in T]
    S = sides(T)
    if min(S) < .1 * k or max(S) > 30 * k or min(angles_of(T)) < .15:
        raise Skip()
    t = mkt(r, T)
    cx.put(T=T)
    l = max(S)
    s = l + max(map(norm, T))
    tol = 2e-13 * (s + 100 * l)
    C, R = circ_of(t.circumcircle())
    for p in T:
        cx.near(d(C, p), R, tol, "the circumcircle passes through the vertices, far from the origin", T=T)
    C, R = circ_of(t.incircle())
    for i in range(3):
        cx.near(side_dist(T, i, C), R, tol, "the incircle touches the sides, far from the origin", T=T)
    ex = t.excircles()
    for j, key in enumerate("ABC"):
        C, R = circ_of(ex[key])
        for i in range(3):
            cx.near(side_dist(T, i, C), -R if i == j else R, tol * (1 + R / min(S)), "the excircles touch the sides, far from the origin", T=T, excircle=key)
    if min(abs(x - pi / 2) for x in angles_of(T)) > .02:
        o = t.orthic_triangle()
        for i, key in enumerate("ABC"):
            cx.near(P2(getattr(o, key)), foot(T[EDGE[i][0]], T[EDGE[i][1]], T[i]), tol, "feet of the altitudes, far from the origin", T=T, vertex=key)
    X, f = t.equal_detour_point()
    f = float(f)
    for i in range(3):
        a, b = T[EDGE[i][0]], T[EDGE[i][1]]
        cx.near(d(P2(X), a) + d(P2(X), b) - d(a, b), f, 10 * tol, "equal detours, far from the origin", T=T)
    cx.cls("far" if m > 100 else "near")
    if k < 1e-3 or k > 1e3:
        cx.cls("tiny" if k < 1 else "huge")


@family("C14", 500, ["acute", "obtuse"])
def orthic(cx):
    r = cx.r
    T = tri_pts(r)
    an = angles_of(T)
    if min(abs(x - pi / 2) for x in an) < 1e-2:
        raise Skip()
    t = mkt(r, T)
    cx.put(T=T)
    o = t.orthic_triangle()
    cx.ok(isinstance(o, G.Triangle), "the orthic triangle is a triangle", got=o)
    s = max(sides(T)) + max(norm(p) for p in T)
    for i, key in enumerate("ABC"):
        H = P2(getattr(o, key))
        cx.near(H, foot(T[EDGE[i][0]], T[EDGE[i][1]], T[i]), 1e-8 * s, "the vertices of the orthic triangle are the feet of the altitudes", T=T, vertex=key)
    cx.cls("acute" if max(an) < pi / 2 else "obtuse")


@family("C14", 700)
def malfatti(cx):
    r = cx.r
    T = tri_pts(r)
    t = mkt(r, T)
    cx.put(T=T)
    m = t.malfatti_circles()
    cx.ok(set(m.keys()) == {"circles", "tangency_points"} and list(m["circles"].keys()) == ["cA", "cB", "cC"]
          and set(m["tangency_points"].keys()) == {"TA", "TB", "TC"}, "three circles and three tangency points", got=m)
    cs = [circ_of(m["circles"]["c" + k]) for k in "ABC"]
    s = max(sides(T)) + max(norm(p) for p in T)
    tol = 1e-7 * s
    for i in range(3):
        C, R = cs[i]
        for j in range(3):
            if j != i:
                cx.near(side_dist(T, j, C), R, tol, "a Malfatti circle touches the two sides at its vertex", T=T, circle=i, side=j)
        cx.ok(side_dist(T, i, C) > R, "a Malfatti circle is inside the triangle", T=T, circle=i)
        j, k = EDGE[i]
        cx.near(d(cs[j][0], cs[k][0]), cs[j][1] + cs[k][1], tol, "two Malfatti circles are tangent", T=T, circles=(j, k))
        P = P2(m["tangency_points"]["T" + "ABC"[i]])
        cx.near((d(P, cs[j][0]), d(P, cs[k][0])), (cs[j][1], cs[k][1]), tol, "the tangency point TX is on the two circles other than cX", T=T, point=i)


@family("C14", 600)
def equal_detour(cx):
    r = cx.r
    T = tri_pts(r)
    t = mkt(r, T)
    cx.put(T=T)
    P, det = t.equal_detour_point()
    P = P2(P)
    a, b, c = sides(T)
    s = a + b + c + max(norm(p) for p in T)
    x, y, z = (d(P, p) for p in T)
    for v in (x + y - c, y + z - a, z + x - b):
        cx.near(float(det), v, 1e-8 * s, "the detours through the point are equal", T=T, P=P)
    for i in range(3):
        cx.ok(side_dist(T, i, P) > 0, "the equal detour point is inside the triangle", T=T, P=P)


@family("C14", 500, ["equilateral", "scalene"])
def steiner(cx):
    r = cx.r
    T = tri_pts(r)
    t = mkt(r, T)
    cx.put(T=T)
    s = max(sides(T)) + max(norm(p) for p in T)
    c = cen(*T)
    a, b, cc = sides(T)
    h = abs(cross(sub(T[1], T[0]), sub(T[2], T[0]))) / max(a, b, cc)
    fine = min(1e-6, 1e-10 + 1e-13 * (s / h) ** 2)
    e, i = t.steiner_ellipse(), t.steiner_inellipse()
    E, I = ell_of(e), ell_of(i)
    cx.near(E[0], c, 1e-9 * s, "the Steiner ellipse is centred at the centroid", T=T)
    cx.near(I[0], c, 1e-9 * s, "the Steiner inellipse is centred at the centroid", T=T)
    for k in range(3):
        cx.near(ell_q(E, T[k]), 1, fine, "the Steiner ellipse passes through the vertices", T=T)
        j, l = EDGE[k]
        M = mid(T[j], T[l])
        cx.near(ell_q(I, M), 1, fine, "the Steiner inellipse passes through the midpoints of the sides", T=T)
        w = mul(.1, sub(T[l], T[j]))
        cx.near(ell_q(I, add(M, w)), ell_q(I, sub(M, w)), fine, "the Steiner inellipse is tangent to the sides", T=T)
        cx.ok(ell_q(I, add(M, w)) > 1, "the sides are outside of the Steiner inellipse", T=T)
    cx.ok(E[1] >= E[2] * (1 - 1e-9) and I[1] >= I[2] * (1 - 1e-9), "the major radius is not smaller than the minor radius", got=(E, I))
    cx.cls("equilateral" if max(a, b, cc) < 1.0001 * min(a, b, cc) else "scalene")


@family("C14", 600, ["very thin"])
def thin(cx):
    """thin triangles have the same circles, points and ellipses as the others"""
    r = cx.r
    T, h = thin_pts(r, -4.3)
    t = mkt(r, T)
    cx.put(T=T, height=h)
    s = max(sides(T)) + max(norm(p) for p in T)
    one = s * (1e-8 + 1e-13 / h / h)             # relative accuracy left by the formulas
    C, R = circ_of(t.incircle())
    for i in range(3):
        cx.near(side_dist(T, i, C), R, one * h, "thin triangle: the incircle touches the three sides", T=T)
    c = t.circumcircle()
    cx.ok(isinstance(c, G.Circle), "a thin triangle has a circumcircle", T=T, got=c)
    C, R = circ_of(c)
    for p in T:
        cx.near(d(C, p), R, one * (1 + R), "thin triangle: the circumcircle passes through the vertices", T=T)
    for k, (key, x) in enumerate(sorted(t.excircles().items())):
        C, R = circ_of(x)
        for i in range(3):
            cx.near(side_dist(T, i, C), -R if i == k else R, one * (1 + R) / h, "thin triangle: an excircle touches the three lines", T=T, excircle=key)
    P, det = t.equal_detour_point()
    P = P2(P)
    a, b, c = sides(T)
    x, y, z = (d(P, p) for p in T)
    for v in (x + y - c, y + z - a, z + x - b):
        cx.near(float(det), v, one, "thin triangle: the detours through the point are equal", T=T, P=P)
    m = t.malfatti_circles()
    cx.ok(isinstance(m, dict), "a thin triangle has Malfatti circles", T=T, got=m)
    cs = [circ_of(m["circles"]["c" + k]) for k in "ABC"]
    for i in range(3):
        C, R = cs[i]
        for j in range(3):
            if j != i:
                cx.near(side_dist(T, j, C), R, one, "thin triangle: a Malfatti circle touches two sides", T=T, circle=i, side=j)
    for i, e in enumerate((t.steiner_ellipse(), t.steiner_inellipse())):
        cx.ok(isinstance(e, G.Ellipse), "a thin triangle has Steiner ellipses", T=T, got=e)
        E = ell_of(e)
        cx.near(E[0], cen(*T), one, "thin triangle: the Steiner ellipses are centred at the centroid", T=T)
        for k in range(3):
            Q = T[k] if i == 0 else mid(T[EDGE[k][0]], T[EDGE[k][1]])
            cx.near(ell_q(E, Q), 1, min(.5, 1e-6 / h + 1e-12 / h / h), "thin triangle: points of the Steiner ellipses", T=T, ellipse=i)
    if h < 3e-4:
        cx.cls("very thin")


@family("C14", 200)
def flat_none(cx):
    r = cx.r
    T = flat_pts(r)
    t = mkt(r, T)
    cx.put(T=T)
    for nm in ("circumcircle", "malfatti_circles", "steiner_ellipse", "steiner_inellipse"):
        v = getattr(t, nm)()
        cx.ok(v is None, nm + " of a flat triangle is None", T=T, got=v)
