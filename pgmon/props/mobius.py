"""C18 the group of Mobius transformations, C19 three points and cross ratio,
C20 images of circles and lines under Mobius transformations."""
import math
import cmath
from math import pi, sin, cos, sqrt, atan2, inf, hypot
import numpy as np
from ..core import prop, family, load, Skip, Fail
from ..geo import *
from .lines import mkline, flags
from .circles import gen_circ, mkc

G = load()


def to_c(v):
    """a point or infinity returned by the library"""
    if isinstance(v, (float, np.floating)) and math.isinf(v):
        return INF
    return cz(P2(v, "a point or inf is documented here"))


def as_pt(z):
    return math.inf if z == INF else (z.real, z.imag)


def chord(z, w):
    """chordal distance on the sphere"""
    if z == INF and w == INF:
        return 0.0
    if z == INF:
        return 2 / hypot(1, abs(w))
    if w == INF:
        return 2 / hypot(1, abs(z))
    return 2 * abs(z - w) / hypot(1, abs(z)) / hypot(1, abs(w))


def mk_mob(r, M):
    a, b, c, dd = M
    rows = [[a, b], [c, dd]]
    k = r.randrange(3)
    if k == 0 and all(isinstance(x, complex) and x.imag == 0 for x in M):
        rows = [[x.real for x in y] for y in rows]
    return G.Mobius(np.array(rows) if k == 1 else rows)


def mat(m):
    if not isinstance(m, G.Mobius):
        raise Fail("a Mobius object is documented here", got=repr(m))
    if np.shape(m.M) != (2, 2):
        raise Fail("the matrix of a Mobius transformation is 2x2", got=repr(m.M))
    v = [complex(x) for x in flat(m.M)]
    return tuple(v)


def proj_dist(M, N):
    """distance between two matrices up to a complex factor"""
    n = sum(abs(x) ** 2 for x in N)
    m = sum(abs(x) ** 2 for x in M)
    if not (n > 0 and m > 0 and math.isfinite(m) and math.isfinite(n)):
        return inf
    k = sum(x * y.conjugate() for x, y in zip(M, N)) / n
    return sqrt(sum(abs(x - k * y) ** 2 for x, y in zip(M, N)) / m)


def lip(M):
    a, b, c, dd = M
    return sum(abs(x) ** 2 for x in M) / abs(a * dd - b * c)


def gpoint(r, M=None):
    """a point of the sphere; infinity, the origin and the pole are frequent"""
    k = r.random()
    if k < .15:
        return INF
    if k < .3 and M is not None and M[2] != 0:
        z = -M[3] / M[2]
        if k < .22:
            return z
        return z + cplx(r) * 10.0 ** r.uniform(-3, -1)
    if k < .38:
        return 0j
    if k < .45:
        return cplx(r) * 100
    return cplx(r)


def inv_mat(M):
    a, b, c, dd = M
    return (dd, -b, -c, a)


# ---------------------------------------------------------------- C18
prop("C18", ["Mobius.transform", "Mobius.compose", "Mobius.inverse", "Mobius.power", "Mobius.gpower", "Mobius.fixed_points"],
     "Well conditioned complex matrices, Gaussian integers and reals frequent, with and without a finite pole; images are compared on the Riemann sphere.")


@family("C18", 1200, ["infinity", "pole", "finite", "affine"])
def transform(cx):
    r = cx.r
    M = mob_gen(r)
    m = mk_mob(r, M)
    z = gpoint(r, M)
    cx.put(M=M, z=z)
    cx.near([m.a, m.b, m.c, m.d], M, 0, "the coefficients", M=M)
    v = to_c(m.transform(math.inf if z == INF else wrap(r, pz(z))))
    cx.near(chord(v, mob(M, z)), 0, 1e-12 * lip(M), "image by (az+b)/(cz+d)", M=M, z=z, got=v)
    cx.cls("infinity" if z == INF else "finite")
    if M[2] == 0:
        cx.cls("affine")
    else:
        w = to_c(m.transform(math.inf))
        cx.near(chord(w, M[0] / M[2]), 0, 1e-12 * lip(M), "the image of infinity is a/c", M=M)
    cx.cls("pole" if z != INF and M[2] != 0 and abs(M[2] * z + M[3]) < 1e-9 else "finite")


@family("C18", 500, ["pole", "pole at the origin", "no pole"])
def exact_pole(cx):
    """Gaussian integers: the pole is a Gaussian integer, exactly"""
    r = cx.r

    def gi(n=4):
        return complex(r.randint(-n, n), r.randint(-n, n))
    a, b, c, p = gi(), gi(), gi(), gi()
    if r.random() < .2:
        p = 0j
    if r.random() < .2:
        c = complex(r.choice([1, -1, 2]), 0)
    dd = -c * p
    if r.random() < .15:
        c, dd = 0j, gi()
    if a * dd - b * c == 0:
        raise Skip()
    M = (a, b, c, dd)
    m = mk_mob(r, M)
    cx.put(M=M, pole=p)
    if c != 0:
        v = m.transform(wrap(r, pz(p)))
        cx.ok(isinstance(v, float) and v == inf, "the image of the pole is inf", M=M, pole=p, got=v)
        v = m.inverse().transform(math.inf)
        cx.near(P2(v), pz(p), 1e-12 * (1 + abs(p)), "the inverse sends infinity to the pole", M=M, got=v)
        cx.cls("pole at the origin" if p == 0 else "pole")
    else:
        v = m.transform(math.inf)
        cx.ok(isinstance(v, float) and v == inf, "without a pole, infinity is fixed", M=M, got=v)
        cx.cls("no pole")


def same_maps(cx, m, _N, label, tol, **info):
    K = mat(m)
    cx.near(proj_dist(K, _N), 0, tol, label, matrix=K, wanted=_N, **info)


@family("C18", 900, ["left", "right", "default"])
def compose(cx):
    r = cx.r
    M, N = mob_gen(r), mob_gen(r)
    m, n = mk_mob(r, M), mk_mob(r, N)
    k = r.choice(["left", "right", "default"])
    cx.put(M=M, N=N, side=k)
    c = m.compose(n) if k == "default" else m.compose(n, left=(k == "left")) if r.random() < .6 else m.compose(n, k == "left")
    W = mob_mul(M, N) if k == "right" else mob_mul(N, M)
    same_maps(cx, c, W, "composition: " + ("right" if k == "right" else "left"), 1e-10, M=M, N=N)
    for z in (INF, 0j, gpoint(r, M), gpoint(r, N), gpoint(r, W)):
        u = mob(N, mob(M, z)) if k != "right" else mob(M, mob(N, z))
        v = to_c(c.transform(as_pt(z)))
        cx.near(chord(u, v), 0, 1e-11 * lip(M) * lip(N), "image by the composition: " + ("right" if k == "right" else "left"), M=M, N=N, z=z)
    cx.cls(k)


@family("C18", 700)
def inverse(cx):
    r = cx.r
    M = mob_gen(r)
    m = mk_mob(r, M)
    cx.put(M=M)
    n = m.inverse()
    same_maps(cx, n, inv_mat(M), "the inverse", 1e-12, M=M)
    same_maps(cx, m.compose(n), (1, 0, 0, 1), "composition with the inverse is the identity", 1e-11 * lip(M), M=M)
    same_maps(cx, n.inverse(), M, "the inverse of the inverse", 1e-12, M=M)
    for z in (INF, gpoint(r, M), gpoint(r, inv_mat(M))):
        w = n.transform(m.transform(as_pt(z)))
        cx.near(chord(to_c(w), z), 0, 1e-11 * lip(M) ** 2, "the inverse undoes the map", M=M, z=z)


@family("C18", 700, ["positive", "negative", "zero", "one"])
def power(cx):
    r = cx.r
    M = mob_gen(r)
    if lip(M) > 30:
        raise Skip()
    m = mk_mob(r, M)
    k = r.choice([0, 1, -1, 2, 3, -2, -3, 4, 5, 7, -6])
    cx.put(M=M, k=k)
    p = m.power(k) if r.random() < .7 else m.power(float(k)) if r.random() < .5 else m.power(np.int64(k))
    B = M if k >= 0 else inv_mat(M)
    W = (1, 0, 0, 1)
    for _ in range(abs(k)):
        W = mob_mul(W, B)
    same_maps(cx, p, W, "integer power", 1e-13 * lip(W) * lip(M) * 10 + 1e-12, M=M, k=k)
    q = m.power(k + 1)
    c = p.compose(m)
    cx.near(proj_dist(mat(c), mat(q)), 0, 1e-12 * (lip(W) * lip(M)) + 1e-11, "M^k M = M^(k+1)", M=M, k=k)
    cx.raises(ValueError, lambda: m.power(k + r.choice([.5, .25, -.125, sgn(r) * 2.0 ** -r.randint(2, 40)])), "a power which is not an integer is rejected", k=k)
    cx.cls("zero" if k == 0 else "one" if k == 1 else "positive" if k > 0 else "negative")


@family("C18", 400, ["elliptic", "parabolic", "negative", "large"])
def large_powers(cx):
    """powers with large exponents of maps whose powers stay bounded, or grow linearly"""
    r = cx.r
    w = r.choice(["elliptic", "parabolic"])
    k = sgn(r) * r.choice([r.randint(8, 64), r.randint(64, 1000), 2 ** r.randint(3, 10), 100, 128, 255])
    z1 = cplx(r)
    z2 = cplx(r)
    if abs(z1 - z2) < .3 or max(abs(z1), abs(z2)) > 8:
        raise Skip()
    if w == "elliptic":
        P = (z2, z1, 1 + 0j, 1 + 0j)                 # sends 0, infinity to z1, z2
        u = r.uniform(0, TAU)
        D = lambda n: (complex(cos(n * u), sin(n * u)), 0j, 0j, 1 + 0j)
    else:
        P = (z1, -1 + 0j, 1 + 0j, 0j)                # sends infinity to z1
        t = complex(*polar((0, 0), logu(r, -3, 0), r.uniform(0, TAU)))
        D = lambda n: (1 + 0j, n * t, 0j, 1 + 0j)
    s = r.choice([1, -1, 1j, 1 + .01 * r.random()]) if abs(k) < 300 else 1
    nrm = lambda M: tuple(x / cmath.sqrt(M[0] * M[3] - M[1] * M[2]) for x in M)
    M = nrm(mob_mul(mob_mul(P, D(1)), inv_mat(P)))
    W = nrm(mob_mul(mob_mul(P, D(k)), inv_mat(P)))
    M = tuple(s * x for x in M)
    cx.put(what=w, M=M, k=k)
    p = mk_mob(r, M).power(k)
    cx.near(proj_dist(mat(p), W), 0, 1e-12 * abs(k) ** (2 if w == "parabolic" else 1) * lip(M) ** 2 + 1e-11, "a large power", M=M, k=k, what=w)
    cx.cls(w)
    cx.cls("negative" if k < 0 else "large")


def gen_powers(r):
    """(kind, M): hyperbolic/elliptic/loxodromic with separated eigenvalues, or exactly parabolic"""
    k = r.random()
    if k < .3:
        # conjugate of a translation by a Gaussian integer transformation, exactly parabolic
        while True:
            p, q = r.randint(-3, 3), r.randint(-3, 3)
            P = r.choice([(1, p, 0, 1), (1, 0, p, 1), (0, 1, -1, 0), (1, p, q, 1 + p * q)])
            t = complex(r.randint(-3, 3), r.choice([0, r.randint(-3, 3)]))
            if t != 0:
                break
        P = tuple(complex(x) for x in P)
        M = mob_mul(mob_mul(P, (1, t, 0, 1)), inv_mat(P))
        s = r.choice([1, 1, -1, 2, .5, 1j, 10.0, 1e-3, 1e3, r.uniform(.1, 5)])
        return "parabolic", tuple(s * x for x in M)
    if k < .35:
        s = r.choice([1, 2, -1, 1j, .5])
        return "identity", (s * (1 + 0j), 0j, 0j, s * (1 + 0j))
    while True:
        M = mob_gen(r)
        a, b, c, dd = M
        tr, det = a + dd, a * dd - b * c
        D = tr * tr - 4 * det
        if abs(D) < .1 * abs(det) or lip(M) > 30:
            continue
        return "diagonalisable", M


@family("C18", 900, ["diagonalisable", "parabolic", "identity", "integer", "negative"])
def gpower(cx):
    r = cx.r
    kind, M = gen_powers(r)
    m = mk_mob(r, M)
    s, t = r.choice([(.5, .5), (1, 1), (2, -1), (r.uniform(-2, 2), r.uniform(-2, 2)), (1 / 3, 2 / 3), (r.uniform(0, 1), 1), (-.5, 1.5), (.25, -.25),
                      (sgn(r) * logu(r, -8, -1), r.uniform(-2, 2)), (sgn(r) * logu(r, -8, -1), sgn(r) * logu(r, -8, -1)), (.5 + sgn(r) * logu(r, -6, -2), .5), (1 + sgn(r) * logu(r, -6, -2), -1)])
    cx.put(kind=kind, M=M, s=s, t=t)
    L = lip(M) ** (1 + abs(s) + abs(t))
    tol = 1e-10 * L if kind != "parabolic" else 1e-8 * L
    same_maps(cx, m.gpower(num(r, 1)), M, "the generalised power 1", tol, M=M)
    same_maps(cx, m.gpower(0), (1, 0, 0, 1), "the generalised power 0 is the identity", tol, M=M)
    u, v, w = m.gpower(num(r, s)), m.gpower(t), m.gpower(s + t)
    cx.near(proj_dist(mat(u.compose(v)), mat(w)), 0, tol, "M^s M^t = M^(s+t)", kind=kind, M=M, s=s, t=t)
    k = r.choice([2, 3, -1, -2, 4])
    cx.near(proj_dist(mat(m.gpower(k)), mat(m.power(k))), 0, 1e-9 * lip(M) ** (1 + abs(k)), "integer generalised powers are powers", kind=kind, M=M, k=k)
    n = r.choice([2, 3, 5, 10, 64, 100, 1000])
    if lip(M) > 5 or kind == "parabolic":
        n = min(n, 10)
    cx.near(proj_dist(mat(m.gpower(1 / n).power(n)), M), 0, 1e-8 * L, "the n-th power of the generalised power 1/n", kind=kind, M=M, n=n)
    cx.cls(kind)
    cx.cls("integer")
    if s < 0 or t < 0:
        cx.cls("negative")


@family("C18", 500, ["short translation", "scaled", "one fixed point", "far fixed point"])
def parabolic_scales(cx):
    """real powers of parabolic maps: short or long translations, moved anywhere, by a matrix of any scale"""
    r = cx.r
    w = r.choice(["short translation", "scaled", "one fixed point", "far fixed point"])
    t = polar((0, 0), logu(r, -9, 3) if w == "short translation" else logu(r, -1.5, 1.5), r.choice([0, pi / 2, pi, r.uniform(0, TAU)]))
    t = complex(*t)
    s = cplx(r) or 1
    if w == "scaled":
        s *= 10.0 ** r.uniform(-10, 10)
    if w in ("short translation", "scaled"):
        M, z0 = (1 + 0j, t, 0j, 1 + 0j), None
    else:
        z0 = cplx(r) * (1 if w == "one fixed point" else 10.0 ** r.uniform(1, 2))
        t = t / (1 + abs(z0)) ** 2            # 1/(w - z0) = 1/(z - z0) + t
        M = (1 + t * z0, -t * z0 * z0, t, 1 - t * z0)
    m = mk_mob(r, tuple(s * x for x in M))
    e = r.choice([.5, 2, -1, 3, 1 / 3, r.uniform(-3, 3), -.5])
    cx.put(M=M, scale=s, t=e)
    W = (1 + 0j, e * t, 0j, 1 + 0j) if z0 is None else (1 + e * t * z0, -e * t * z0 * z0, e * t, 1 - e * t * z0)
    g = m.gpower(e)
    for _ in range(4):
        z = cplx(r) if z0 is None else z0 + cplx(r) / max(abs(t), 1e-3)
        den = W[2] * z + W[3]
        if abs(den) < .05:
            continue
        img = (W[0] * z + W[1]) / den
        sc = 1 + abs(z) + abs(img) + (abs(z0) if z0 is not None else 0)
        got = P2(g.transform((z.real, z.imag)))
        moved = abs(img - z)
        # the displacement itself is relative to the translation
        tol = 1e-12 * sc ** 2 / abs(den) ** 2 * (1 + abs(W[2] * z)) ** 2 * lip(M)
        cx.near(got, (img.real, img.imag), tol, "real power of a parabolic map: " + w, M=M, scale=s, t=e, point=z)
    cx.cls(w)


@family("C18", 1100, ["two", "close", "one", "infinity", "identity", "affine"])
def fixed_points(cx):
    r = cx.r
    k = r.random()
    eps = None
    if r.random() < .2:  # two fixed points close to each other: nearly parabolic
        eps = logu(r, -4, -.5)
        c = r.choice([1, -1, 2, 1j, r.uniform(.5, 2)]) * (1 + 0j)
        h, dd = cplx(r), cplx(r)
        e = eps * r.choice([1, 1j, complex(*unit(rad(r)))])
        a, b = dd + 2 * h, (e * e - h * h) / c
        M = (a, b, c, dd)
        if abs(a * dd - b * c) < .05 * max(map(abs, M)) ** 2:
            raise Skip()
        w = "two"
        cx.cls("close")
    elif k < .55:
        M = mob_gen(r, czero=False)
        a, b, c, dd = M
        if abs((a - dd) ** 2 + 4 * b * c) < .05 * abs(c) ** 2:
            raise Skip()
        w = "two"
    elif k < .7:        # exactly parabolic: (a-d)^2 + 4bc = 0
        c = complex(r.choice([1, -1, 2, -2]), 0)
        h = complex(r.randint(-3, 3), r.randint(-3, 3))     # h = (a-d)/2, b = -h^2/c
        dd = complex(r.randint(-3, 3), r.randint(-3, 3))
        a, b = dd + 2 * h, -h * h / c
        if abs(a * dd - b * c) < .5:
            raise Skip()
        M = (a, b, c, dd)
        w = "one"
    elif k < .85:
        a, b, dd = cplx(r), cplx(r), cplx(r)
        if r.random() < .3:                      # nearly a translation, or a tiny translation part
            if r.random() < .5:
                a = dd * (1 + complex(*polar((0, 0), logu(r, -4, -1), r.uniform(0, TAU))))
            b *= logu(r, -5, 1)
        if abs(a * dd) < .1 or abs(a - dd) < 2e-5 * abs(dd) or a == dd:
            raise Skip()
        M = (a, b, 0j, dd); w = "affine"
    elif k < .93:
        a, b = cplx(r), cplx(r)
        if abs(a) < .1 or abs(b) < .1:
            raise Skip()
        M = (a, b, 0j, a); w = "infinity"
    else:
        a = cplx(r)
        if abs(a) < .1:
            raise Skip()
        M = (a, 0j, 0j, a); w = "identity"
    if w != "one" and r.random() < .25:          # any multiple of the matrix; powers of 2 keep b, c, a-d exact
        q = 2.0 ** r.choice([r.randint(-10, 10), r.randint(-50, 50)])
        M = tuple(q * x for x in M)
    m = mk_mob(r, M)
    cx.put(M=M, what=w)
    f = m.fixed_points()
    if w == "identity":
        cx.ok(f is None, "the identity has no isolated fixed points", M=M, got=f)
    elif w == "infinity":
        cx.ok(isinstance(f, float) and f == inf, "infinity is the fixed point of a translation", M=M, got=f)
    else:
        if w == "two":
            cx.ok(isinstance(f, list) and len(f) == 2, "two fixed points", M=M, got=f)
            zs = [to_c(x) for x in f]
            a, b, c, dd = M
            D = abs((a - dd) ** 2 + 4 * b * c) ** .5 / abs(c)
            nn = max(map(abs, M)) / abs(c)
            cx.near(abs(zs[0] - zs[1]), D, 1e-8 * (1 + D) if eps is None else 1e-14 * (nn * nn / D + nn), "the two fixed points are distinct", M=M, got=f)
        else:
            cx.ok(is_pt(f), "one finite fixed point", M=M, got=f)
            zs = [to_c(f)]
            if w == "affine":
                cx.near(abs(zs[0] - b / (dd - a)), 0, 1e-13 * abs(b) * (abs(a) + abs(dd)) / abs(a - dd) ** 2, "the fixed point of an affine map", M=M, z=zs[0])
        for z in zs:
            cx.near(chord(mob(M, z), z), 0, 1e-7 * lip(M) if w == "one" else 1e-9 * lip(M), "a fixed point is fixed", M=M, z=z)
            cx.near(chord(to_c(m.transform(as_pt(z))), z), 0, 1e-7 * lip(M), "a fixed point is mapped to itself", M=M, z=z)
    cx.cls(w)


# ---------------------------------------------------------------- C19
prop("C19", ["Mobius.from_mapping_three_points", "cross_ratio", "Mobius.transform"],
     "Triples of well separated points of the sphere, infinity in every position.")


def triple(r, pinf=.4):
    while True:
        T = [cplx(r) for _ in range(3)]
        if r.random() < pinf:
            T[r.randrange(3)] = INF
        if r.random() < .2:
            t, v = cplx(r), cplx(r)
            T = [t + k * v for k in r.sample(range(-3, 4), 3)]
        if min(chord(T[0], T[1]), chord(T[1], T[2]), chord(T[0], T[2])) > .1:
            return T


@family("C19", 1500, ["P%d infinite" % i for i in (1, 2, 3)] + ["Q%d infinite" % i for i in (1, 2, 3)] + ["finite"])
def three_points(cx):
    r = cx.r
    P, Q = triple(r), triple(r)
    cx.put(P=P, Q=Q)
    arg = [math.inf if z == INF else wrap(r, pz(z)) for z in P + Q]
    m = G.Mobius.from_mapping_three_points(*arg)
    M = mat(m)
    tol = 1e-9 * lip(M)
    for p, q in zip(P, Q):
        v = to_c(m.transform(as_pt(p)))
        cx.near(chord(v, q), 0, tol, "the three points are mapped to the three points", P=P, Q=Q, point=p, got=v)
        cx.near(chord(mob(M, p), q), 0, tol, "the matrix maps the three points to the three points", P=P, Q=Q, point=p)
    for i in range(3):
        if P[i] == INF:
            cx.cls("P%d infinite" % (i + 1))
        if Q[i] == INF:
            cx.cls("Q%d infinite" % (i + 1))
    if INF not in P and INF not in Q:
        cx.cls("finite")
    # inverse problem
    n = mat(G.Mobius.from_mapping_three_points(*(arg[3:] + arg[:3])))
    cx.near(proj_dist(mob_mul(n, M), (1, 0, 0, 1)), 0, 1e-9 * lip(M) * lip(n), "exchanging the triples gives the inverse", P=P, Q=Q)


@family("C19", 250, ["source", "target"])
def repeated_points(cx):
    r = cx.r
    P, Q = triple(r), triple(r)
    w = r.choice(["source", "target"])
    T = P if w == "source" else Q
    i, j = r.sample(range(3), 2)
    T[i] = T[j]
    cx.put(P=P, Q=Q)
    arg = [math.inf if z == INF else wrap(r, pz(z)) for z in P + Q]
    v = G.Mobius.from_mapping_three_points(*arg)
    cx.ok(v is None, "repeated points determine no transformation", P=P, Q=Q, got=v)
    cx.cls(w)


def four(r):
    while True:
        z = [cplx(r) for _ in range(4)]
        if min(abs(x - y) for i, x in enumerate(z) for y in z[:i]) > .15:
            return z


def ccr(a, b, c, dd):
    return (a - dd) / (a - b) * (c - b) / (c - dd)


@family("C19", 900, ["cocyclic", "collinear", "generic"])
def ratio(cx):
    r = cx.r
    k = r.random()
    if k < .3:
        t, v = cplx(r), complex(*rot((1, 0), rad(r)))
        ks = [r.uniform(-4, 4) for _ in range(4)]
        z = [t + x * v for x in ks]
        w = "collinear"
    elif k < .6:
        t, R = cplx(r), r.uniform(.5, 3)
        z = [t + R * complex(*unit(r.uniform(0, TAU))) for _ in range(4)]
        w = "cocyclic"
    else:
        z = four(r); w = "generic"
    if min(abs(x - y) for i, x in enumerate(z) for y in z[:i]) < .1:
        raise Skip()
    cx.put(z=z, what=w)
    q = complex(G.cross_ratio(*[wrap(r, pz(x)) for x in z]))
    e = ccr(*z)
    cx.near(q, e, 1e-11 * (1 + abs(e)) * 10, "cross ratio", z=z)
    if w != "generic":
        cx.near(q.imag, 0, 1e-9 * (1 + abs(q)), "the cross ratio of cocyclic or collinear points is real", z=z)
    else:
        # oracle: distance of the fourth point to the circle or line of the three others
        P = [pz(x) for x in z]
        if abs(e.imag) > 1e-6 * abs(e):
            cx.ok(q.imag != 0, "the cross ratio of other points is not real", z=z)
    # invariance under a Mobius transformation of the library
    while True:
        M = mob_gen(r)
        ws = [mob(M, x) for x in z]
        if all(x != INF and abs(x) < 50 for x in ws):
            break
    m = mk_mob(r, M)
    im = [m.transform(pz(x)) for x in z]
    if min(abs(x - y) for i, x in enumerate(ws) for y in ws[:i]) > 1e-3:
        q2 = complex(G.cross_ratio(*im))
        s = max(abs(x) for x in ws) + 1
        mm = min(abs(x - y) for i, x in enumerate(ws) for y in ws[:i])
        cx.near(q2, q, 1e-11 * (1 + abs(q)) * s / mm * lip(M), "the cross ratio is invariant", z=z, M=M)
    cx.cls(w)


@family("C19", 200)
def ratio_repeated(cx):
    r = cx.r
    z = four(r)
    i, j = r.sample(range(4), 2)
    z[i] = z[j]
    cx.put(z=z)
    cx.raises(ValueError, lambda: G.cross_ratio(*[wrap(r, pz(x)) for x in z]), "the cross ratio of repeated points is rejected", z=z)


@family("C19", 500, ["tiny", "huge"])
def three_points_scaled(cx):
    """The same interpolation at other scales: sources and targets of any size."""
    r = cx.r
    P, Q = triple(r, .15), triple(r, .15)
    a, b = 10 ** r.uniform(-11, 11), 10 ** r.uniform(-11, 11)
    if r.random() < .5:
        b = a
    Ps, Qs = [z * a if z != INF else z for z in P], [z * b if z != INF else z for z in Q]
    cx.put(P=Ps, Q=Qs)
    ref = mat(G.Mobius.from_mapping_three_points(*[math.inf if z == INF else pz(z) for z in P + Q]))
    tol = 1e-8 * lip(ref)
    m = G.Mobius.from_mapping_three_points(*[math.inf if z == INF else wrap(r, pz(z)) for z in Ps + Qs])
    cx.ok(isinstance(m, G.Mobius), "three distinct points determine a transformation at any scale", P=Ps, Q=Qs, got=m)
    for p, q in zip(Ps, Q):
        v = to_c(m.transform(as_pt(p)))
        v = v / b if v != INF else v
        cx.near(chord(v, q), 0, tol, "the three points are mapped to the three points at any scale", P=Ps, Q=Qs, point=p, got=v)
    # a fourth point
    z = cplx(r)
    e, v = mob(ref, z), to_c(m.transform(pz(z * a)))
    v = v / b if v != INF else v
    cx.near(chord(v, e), 0, tol * 100, "the interpolation commutes with scalings", P=Ps, Q=Qs, z=z, got=v)
    if min(a, b) < 1e-6:
        cx.cls("tiny")
    if max(a, b) > 1e6:
        cx.cls("huge")


@family("C19", 400, ["tiny", "huge", "clustered"])
def ratio_scaled(cx):
    """Four distinct points of any size, and points of very different sizes."""
    r = cx.r
    if r.random() < .6:
        a = 10 ** r.uniform(-12, 12)
        z = [x * a for x in four(r)]
        w = "tiny" if a < 1e-8 else "huge" if a > 1e8 else None
    else:
        # two of the points are close to each other
        z = four(r)
        i, j = r.sample(range(4), 2)
        z[i] = z[j] + complex(*rot((10 ** r.uniform(-10, -3), 0), rad(r)))
        w = "clustered"
    if len(set(z)) < 4:
        raise Skip()
    cx.put(z=z)
    e = ccr(*z)
    q = complex(G.cross_ratio(*[wrap(r, pz(x)) for x in z]))
    cx.near(q / e, 1, 1e-9, "cross ratio of points at any scale", z=z, got=q)
    i, j, k, l = r.choice([(1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0)])
    q2 = complex(G.cross_ratio(*[pz(z[t]) for t in (i, j, k, l)]))
    cx.near(q2 / q, 1, 1e-9, "exchanging the points in pairs keeps the cross ratio", z=z)
    if w:
        cx.cls(w)


# ---------------------------------------------------------------- C20
prop("C20", ["Mobius.transform_circle", "Mobius.transform_line", "Mobius.from_mapping_one_circle"],
     "Circles and lines through the pole, near it, centred at it and away from it; transformations without a pole.")


def check_image(cx, g, M, pts, through, gap, label, **info):
    """g is the image by M of the generalised circle with the given points"""
    if through:
        cx.ok(isinstance(g, G.Line), label + ": the image is a line", got=g, M=M, **info)
        cx.ok(bool(g.extendA) and bool(g.extendB), label + ": the image is an infinite line", got=g)
        A, B = line_of(g)
        u = d(A, B)
    else:
        cx.ok(isinstance(g, G.Circle), label + ": the image is a circle", got=g, M=M, **info)
        C, R = circ_of(g)
    L = lip(M)
    for z in pts:
        w = mob(M, z)
        if w == INF or abs(w) > 1e3:
            continue
        P = pz(w)
        s = 1 + norm(P)
        if through:
            e = 1e-9 * (s + norm(A)) * (1 + d(A, P) / u) * L
        else:
            e = 1e-11 * (1 + norm(C) + R + s) / gap * L
            e = min(e, 1e-3 * max(R, 1e-3)) if R > 1e-2 else e
        cx.near(on_gcircle(G, g, P), 0, e, label + ": the image contains the images of the points", M=M, z=z, w=w, got=g, **info)
    return g


def unit_of_length(r):
    """mostly 1; otherwise the whole figure is k times larger"""
    return 1.0 if r.random() < .65 else 10.0 ** (sgn(r) * r.uniform(1, 4.7))


def in_unit(M, k):
    """z -> k M(z/k)"""
    a, b, c, dd = M
    return M if k == 1 else (a, b * k, c / k, dd)


def back_to_unit(g, k):
    if k == 1:
        return g
    if isinstance(g, G.Circle):
        C, R = circ_of(g)
        return G.Circle(mul(1 / k, C), R / k)
    A, B = line_of(g)
    return G.Line(mul(1 / k, A), mul(1 / k, B), g.extendA, g.extendB)


@family("C20", 2000, ["through the pole", "near the pole", "centred at the pole", "centred near the pole", "away", "no pole", "tiny", "huge"])
def circles(cx):
    r = cx.r
    M = mob_gen(r)
    c, dd = M[2], M[3]
    C, R = gen_circ(r, 20)
    w = "no pole"
    gap = 1.0
    if c != 0:
        p = pz(-dd / c)
        w = r.choice(["through the pole", "near the pole", "centred at the pole", "centred near the pole", "away"])
        t = r.choice([0, pi / 2, pi, -pi / 2, pi / 4]) if r.random() < .5 else r.uniform(0, TAU)
        R = float(rad_len(r))
        if not .1 < R < 10 or norm(p) > 20 * R:
            raise Skip()
        if w == "through the pole":
            C = polar(p, R, t)
        elif w == "near the pole":
            gap = logu(r, -4, -1)
            C = polar(p, R * (1 + sgn(r) * gap), t)
        elif w == "centred at the pole":
            C = p
        elif w == "centred near the pole":
            C = polar(p, R * logu(r, -10, -1.3), t)
        else:
            C = polar(p, R * r.choice([r.uniform(0.05, .8), r.uniform(1.25, 5)]), t)
            gap = .2
    elif norm(C) > 20 * R:
        raise Skip()
    k = unit_of_length(r)
    m = mk_mob(r, in_unit(M, k))
    cx.put(M=M, C=C, R=R, where=w, unit=k)
    g = back_to_unit(m.transform_circle(mkc(r, mul(k, C) if k != 1 else C, k * R if k != 1 else R)), k)
    cx.cls("tiny" if k < 1 else "huge" if k > 1 else w)
    pts = [cz(polar(C, R, i * pi / 6 + .05)) for i in range(12)]
    check_image(cx, g, M, pts, w == "through the pole", gap, "circle " + w, C=C, R=R)
    if w == "no pole":
        K = circ_of(g)
        cx.near(K[0], pz(mob(M, cz(C))), 1e-10 * (1 + norm(K[0])), "without a pole, the centre is mapped to the centre")
    if w == "centred at the pole":
        K = circ_of(g)
        cx.near(K[0], pz(M[0] / c), 1e-10 * (1 + norm(K[0]) + K[1]) * lip(M), "a circle centred at the pole has an image centred at the image of infinity")
    cx.cls(w)


@family("C20", 2000, ["through the pole", "near the pole", "away", "no pole", "vertical", "horizontal", "tiny", "huge"])
def lines(cx):
    r = cx.r
    M = mob_gen(r)
    c, dd = M[2], M[3]
    A, B = line_pts(r)
    w, gap = "no pole", 1.0
    if c != 0:
        p = pz(-dd / c)
        w = r.choice(["through the pole", "through the pole", "near the pole", "away"])
        t = r.choice([0, pi / 2, pi, -pi / 2, pi / 4, rad(r)])
        u, n = unit(t), perp(unit(t))
        if t in (0, pi / 2, pi, -pi / 2):
            u, n = {0: ((1, 0), (0, 1)), pi / 2: ((0, 1), (-1, 0)), pi: ((-1, 0), (0, -1)), -pi / 2: ((0, -1), (1, 0))}[t]
        h = 0.0
        if w == "near the pole":
            gap = logu(r, -5, -1)
            h = gap * (1 + norm(p)) * sgn(r)
        elif w == "away":
            h = sgn(r) * r.uniform(.2, 4)
            gap = .1
        k = r.choice([0, 1, -1, r.uniform(-3, 3)]); l = k + sgn(r) * r.choice([1, 2, r.uniform(.3, 3)])
        o = add(p, mul(h, n))
        A, B = add(o, mul(k, u)), add(o, mul(l, u))
        # the exact coordinate is kept for lines parallel to the axes
        if h == 0 and u[0] == 0:
            A, B = (p[0], A[1]), (p[0], B[1])
        if h == 0 and u[1] == 0:
            A, B = (A[0], p[1]), (B[0], p[1])
        if norm(p) > 20:
            raise Skip()
    q = unit_of_length(r)
    m = mk_mob(r, in_unit(M, q))
    cx.put(M=M, A=A, B=B, where=w, unit=q)
    if q == 1:
        g = m.transform_line(mkline(r, A, B, *flags(r)))
    else:
        g = back_to_unit(m.transform_line(mkline(r, mul(q, A), mul(q, B), *flags(r))), q)
        cx.cls("tiny" if q < 1 else "huge")
    pts = [cz(lerp(A, B, x)) for x in (-5, -2, -1, -.5, 0, .3, .5, 1, 2, 7)] + ([INF] if w not in ("through the pole", "no pole") else [])
    check_image(cx, g, M, pts, w in ("through the pole", "no pole"), gap, "line " + w, A=A, B=B)
    cx.cls(w)
    if abs(A[0] - B[0]) < 1e-12:
        cx.cls("vertical")
    if abs(A[1] - B[1]) < 1e-12:
        cx.cls("horizontal")


@family("C20", 700, ["ordinary", "tiny", "huge", "very different"])
def one_circle(cx):
    r = cx.r
    if r.random() < .5:
        (C1, R1), (C2, R2) = gen_circ(r, 10), gen_circ(r, 10)
        if max(R1, R2) > 50 * min(R1, R2):
            raise Skip()
        cx.cls("ordinary")
    else:
        R1 = 10 ** r.uniform(-6, 6)
        R2 = R1 * 10 ** r.choice([r.uniform(-6, 6), r.uniform(-1, 1)])
        C1, C2 = [polar((0, 0), R * r.choice([0, r.uniform(0, 10)]), r.choice([0, pi / 2, r.uniform(0, TAU)])) for R in (R1, R2)]
        if R1 < 1e-2 or R1 > 1e2:
            cx.cls("tiny" if R1 < 1 else "huge")
        if not 1e-2 < R1 / R2 < 1e2:
            cx.cls("very different")
    cx.put(C1=C1, R1=R1, C2=C2, R2=R2)
    m = G.Mobius.from_mapping_one_circle(mkc(r, C1, R1), mkc(r, C2, R2))
    M = mat(m)
    # measure in the coordinates where both circles are the unit circle
    n = 0
    for i in range(24):
        z = cz(polar(C1, R1, TAU * i / 24 + .03))
        w = mob(M, z)
        if w == INF:
            continue
        cx.near(d(pz(w), C2) / R2, 1, 1e-8 * (1 + (norm(C1) / R1 + norm(C2) / R2)) ** 2, "the points of the first circle are mapped to the second", C1=C1, R1=R1, C2=C2, R2=R2, z=z, w=w)
        n += 1
    cx.ok(n >= 23, "the points of the first circle have finite images", C1=C1, R1=R1)
    g = m.transform_circle(mkc(r, C1, R1))
    cx.ok(isinstance(g, G.Circle), "the image of the first circle is a circle", got=g)
    K = circ_of(g)
    s = (1 + (norm(C1) / R1 + norm(C2) / R2)) ** 2
    cx.near(K[0], C2, 1e-7 * R2 * s, "the image of the first circle has the centre of the second", C1=C1, R1=R1, C2=C2, R2=R2)
    cx.near(K[1], R2, 1e-7 * R2 * s, "the image of the first circle has the radius of the second", C1=C1, R1=R1, C2=C2, R2=R2)
