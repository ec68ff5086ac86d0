"""Independent plane geometry in pure Python (the oracles) and generators.
Nothing here calls the library under test."""
import math
from math import pi, sin, cos, tan, sqrt, atan2, hypot, acos, inf
from fractions import Fraction
import numpy as np
from .core import Fail, Skip, flat

TAU = 2 * pi


# ---------------------------------------------------------------- primitives
def P2(x, label="a point is documented here"):
    """A point returned by the library, as a tuple of two finite floats."""
    v = flat(x)
    if len(v) != 2:
        raise Fail(label, got=repr(x)[:200])
    a, b = v
    if isinstance(a, complex) or isinstance(b, complex):
        raise Fail(label, got=repr(x)[:200])
    a, b = float(a), float(b)
    if not (math.isfinite(a) and math.isfinite(b)):
        raise Fail("non-finite coordinates", got=repr(x)[:200])
    return (a, b)


def is_pt(x):
    try:
        return np.ndim(x) == 1 and len(x) == 2 and not isinstance(x, list)
    except Exception:
        return False


def add(p, q): return (p[0] + q[0], p[1] + q[1])
def sub(p, q): return (p[0] - q[0], p[1] - q[1])
def mul(k, p): return (k * p[0], k * p[1])
def dot(p, q): return p[0] * q[0] + p[1] * q[1]
def cross(p, q): return p[0] * q[1] - p[1] * q[0]
def norm(p): return hypot(p[0], p[1])
def d(p, q): return hypot(p[0] - q[0], p[1] - q[1])
def unit(a): return (cos(a), sin(a))
def perp(p): return (-p[1], p[0])
def lerp(p, q, t): return (p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]))
def rot(p, a, o=(0.0, 0.0)):
    x, y = p[0] - o[0], p[1] - o[1]
    c, s = cos(a), sin(a)
    return (o[0] + c * x - s * y, o[1] + s * x + c * y)
def mid(p, q): return ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)
def cen(*ps): return (sum(p[0] for p in ps) / len(ps), sum(p[1] for p in ps) / len(ps))
def polar(o, r, a): return (o[0] + r * cos(a), o[1] + r * sin(a))
def ang_mod(x, m=TAU): 
    """x reduced to (-m/2, m/2]"""
    x = x % m
    return x - m if x > m / 2 else x


def line_dist(A, B, M):
    """signed distance of M to the line (AB)"""
    u = sub(B, A)
    return cross(u, sub(M, A)) / norm(u)


def foot(A, B, M):
    u = sub(B, A)
    t = dot(sub(M, A), u) / dot(u, u)
    return lerp(A, B, t)


def mirror(A, B, M):
    H = foot(A, B, M)
    return (2 * H[0] - M[0], 2 * H[1] - M[1])


def meet(A, B, C, D):
    u, v = sub(B, A), sub(D, C)
    den = cross(u, v)
    t = cross(sub(C, A), v) / den
    return lerp(A, B, t)


def inv_pt(pole, k, M):
    v = sub(M, pole)
    return add(pole, mul(k / dot(v, v), v))


def inv_circle(pole, k, C, R):
    """image of a circle not through the pole"""
    v = sub(C, pole)
    D = dot(v, v) - R * R
    s = k / D
    return add(pole, mul(s, v)), abs(s) * R


def circ3(A, B, C):
    """circumcentre and radius"""
    b, c = sub(B, A), sub(C, A)
    D = 2 * cross(b, c)
    b2, c2 = dot(b, b), dot(c, c)
    u = ((c[1] * b2 - b[1] * c2) / D, (b[0] * c2 - c[0] * b2) / D)
    return add(A, u), norm(u)


def ell_pt(E, t):
    """E = (center, a, b, alpha_radians)"""
    (cx, cy), a, b, al = E
    x, y = a * cos(t), b * sin(t)
    return (cx + cos(al) * x - sin(al) * y, cy + sin(al) * x + cos(al) * y)


def ell_q(E, P):
    """(x/a)^2+(y/b)^2 in the axes of the ellipse: 1 on it, <1 inside"""
    (cx, cy), a, b, al = E
    x, y = P[0] - cx, P[1] - cy
    u = cos(al) * x + sin(al) * y
    v = -sin(al) * x + cos(al) * y
    return (u / a) ** 2 + (v / b) ** 2


def ell_of(e):
    """(center, a, b, alpha in radians) of an Ellipse of the library"""
    al = float(e.alpha)
    if e.degrees:
        al = al * pi / 180
    a, b = float(e.rmajor), float(e.rminor)
    if not (math.isfinite(a) and math.isfinite(b) and math.isfinite(al) and a > 0 and b > 0):
        raise Fail("not a proper ellipse", got="a=%r b=%r alpha=%r" % (a, b, al))
    return (P2(e.center), a, b, al)


def ell_same(cx, E, e, tol, label):
    """e (library) is the ellipse E: compared as point sets and as parameters"""
    F = ell_of(e)
    s = E[1]
    cx.near(F[0], E[0], tol * (s + norm(E[0])), label + ": center")
    cx.near(F[1], max(E[1], E[2]), tol * s, label + ": major radius")
    cx.near(F[2], min(E[1], E[2]), tol * s, label + ": minor radius")
    if abs(E[1] - E[2]) > 1e-3 * E[1]:
        al = E[3] if E[1] > E[2] else E[3] + pi / 2
        cx.near(ang_mod(F[3] - al, pi), 0.0, tol * 10 * E[1] / abs(E[1] - E[2]), label + ": direction of the major axis")


def circ_of(c):
    R = float(c.radius)
    if not (math.isfinite(R) and R > 0):
        raise Fail("not a proper circle", got="radius %r" % (R,))
    return P2(c.center), R


def line_of(l):
    A, B = P2(l.A), P2(l.B)
    if d(A, B) == 0:
        raise Fail("degenerate line", got=repr((A, B)))
    return A, B


def kind(G, x):
    if isinstance(x, G.Circle):
        return "circle"
    if isinstance(x, G.Line):
        return "line"
    if isinstance(x, G.Ellipse):
        return "ellipse"
    if isinstance(x, G.Arc):
        return "arc"
    return type(x).__name__


def on_gcircle(G, g, P):
    """distance of P to a generalised circle returned by the library"""
    if isinstance(g, G.Circle):
        C, R = circ_of(g)
        return abs(d(C, P) - R)
    A, B = line_of(g)
    return abs(line_dist(A, B, P))


def same_line(l1, l2, tol):
    """two lines (pairs of points) coincide as infinite lines"""
    (A, B), (C, D) = l1, l2
    u, v = sub(B, A), sub(D, C)
    return (abs(cross(u, v)) <= tol * norm(u) * norm(v)
            and abs(line_dist(A, B, C)) <= tol * (1 + d(A, C)))


# ---------------------------------------------------------------- generators
def grid(r, n=6):
    return r.randint(-n, n)


def pt(r, s=5.0):
    k = r.random()
    if k < .35:
        return (grid(r), grid(r))
    if k < .45:
        return (grid(r, 12) / 2, grid(r, 12) / 2)
    if k < .53:
        return (r.uniform(-s, s), 0.0)
    if k < .6:
        return (0.0, r.uniform(-s, s))
    if k < .63:
        return (0, 0)
    if k < .68:
        return (r.uniform(-s, s) + 40, r.uniform(-s, s) - 30)
    return (r.uniform(-s, s), r.uniform(-s, s))


def fpt(P):
    return (float(P[0]), float(P[1]))


def wrap(r, P):
    """the same point in one of the accepted representations"""
    k = r.randrange(5)
    if k == 0:
        return list(P)
    if k <= 2:
        return tuple(P)
    if k == 3 and all(isinstance(x, int) for x in P):
        return np.array(P)
    return np.array(P, dtype=float)


def num(r, x):
    """the same real number in one of the accepted representations"""
    k = r.randrange(4)
    if k == 0 and float(x) == int(x):
        return int(x)
    if k == 1:
        return np.float64(x)
    return x


def rad_len(r):
    """a length: integers, halves, reals, small and large"""
    k = r.random()
    if k < .35:
        return r.randint(1, 6)
    if k < .45:
        return r.randint(1, 12) / 2
    if k < .9:
        return r.uniform(.3, 6)
    return r.choice([.05, .1, 12.0, 25.0]) * r.uniform(.8, 1.2)


def deg(r):
    k = r.random()
    if k < .25:
        return 90 * r.randint(-5, 9)
    if k < .4:
        return 45 * r.randint(-9, 17)
    if k < .5:
        return 30 * r.randint(-13, 25)
    if k < .6:
        return r.randint(-400, 800)
    if k < .65:
        return 90 * r.choice([0, 0, 0, r.randint(-4, 4)]) + r.choice([-1, 1]) * 10.0 ** r.uniform(-6, -.5)
    if k < .68:
        return 90 * r.randint(-40, 40)
    if k < .7:
        return r.uniform(-4000, 4000)
    if k < .8:
        return r.uniform(-8, 8)
    return r.uniform(-400, 800)


def rad(r):
    k = r.random()
    if k < .4:
        return deg(r) * pi / 180
    if k < .5:
        return float(r.randint(-9, 9))
    if k < .53:
        return r.uniform(-70, 70) * r.choice([1, 1, 12])
    if k < .56:
        return r.choice([0, 0, pi / 2, pi, -pi / 2]) + r.choice([-1, 1]) * 10.0 ** r.uniform(-7, -1)
    if k < .6:
        return r.uniform(-1, 1)
    return r.uniform(-8, 14)


def factor(r):
    """a factor of a scaling: special, ordinary, almost one, small or large"""
    k = r.random()
    if k < .65:
        return r.choice([1, -1, 2, .5, -3, 0])
    if k < .72:
        return r.choice([-1, 1, 1]) + r.choice([-1, 1]) * 10.0 ** r.uniform(-7, -1)
    if k < .78:
        return r.choice([-1, 1]) * 10.0 ** r.uniform(-5, 0)
    if k < .82:
        return r.choice([-1, 1]) * 10.0 ** r.uniform(0, 2)
    return r.uniform(-3, 3)


def turned(r, v, dg):
    """the same direction, rarely after very many turns"""
    if r.random() < .06:
        return v + (360 if dg else TAU) * r.randint(-1000, 1000)
    return v


def logu(r, lo, hi):
    return 10.0 ** r.uniform(lo, hi)


def sgn(r):
    return r.choice((-1, 1))


def two_points(r, s=5.0, mn=0.3):
    while True:
        A, B = pt(r, s), pt(r, s)
        if d(A, B) >= mn * max(1.0, 0.02 * max(norm(A), norm(B))):
            return A, B


def line_pts(r, s=5.0):
    """two points defining a line; special positions are frequent"""
    k = r.random()
    if k < .12:                                   # vertical
        x = r.choice([0, 0.0, grid(r), r.uniform(-s, s)])
        A = (x, pt(r)[1]); B = (x, A[1] + sgn(r) * r.choice([1, 2, r.uniform(.3, 6)]))
        return A, B
    if k < .24:                                   # horizontal
        y = r.choice([0, 0.0, grid(r), r.uniform(-s, s)])
        A = (pt(r)[0], y); B = (A[0] + sgn(r) * r.choice([1, 2, r.uniform(.3, 6)]), y)
        return A, B
    if k < .32:                                   # through the origin
        B = (0, 0)
        while norm(B) < .3:
            B = pt(r)
        t = r.choice([0, -1, 2])
        A = mul(t, B) if t else (0, 0)
        return (A, B) if r.random() < .5 else (B, A)
    if k < .40:                                   # diagonals
        A = pt(r); m = sgn(r) * r.choice([1, 2, 3.5])
        return A, (A[0] + m, A[1] + sgn(r) * m)
    return two_points(r, s)


def tri_pts(r, minarea=.15, s=5.0):
    """a clearly non flat triangle; special shapes are frequent"""
    while True:
        k = r.random()
        if k < .1:                                # equilateral
            A = pt(r); a = rad_len(r); t = rad(r)
            T = [A, add(A, mul(a, unit(t))), add(A, mul(a, unit(t + sgn(r) * pi / 3)))]
        elif k < .25:                             # isosceles
            A = pt(r); a = r.uniform(1, 5); t = r.choice([0, pi / 2, rad(r)]); w = r.uniform(.3, 1.35)
            T = [A, add(A, mul(a, unit(t - w))), add(A, mul(a, unit(t + w)))]
        elif k < .4:                              # right
            A = pt(r); t = r.choice([0, pi / 2, pi, rad(r)]); a, b = rad_len(r), rad_len(r)
            T = [A, add(A, mul(a, unit(t))), add(A, mul(sgn(r) * b, unit(t + pi / 2)))]
        elif k < .6:
            T = [(grid(r), grid(r)) for _ in range(3)]
        else:
            T = [pt(r, s) for _ in range(3)]
        r.shuffle(T)
        a, b, c = d(T[1], T[2]), d(T[0], T[2]), d(T[0], T[1])
        m = max(a, b, c)
        if min(a, b, c) < .2:
            continue
        # thin triangles and triangles far from the origin are out
        if abs(cross(sub(T[1], T[0]), sub(T[2], T[0]))) / 2 < minarea * m * m / 4:
            continue
        if max(norm(p) for p in T) > 60 * min(a, b, c):
            continue
        return [tuple(p) for p in T]


def ell_par(r, maxratio=8.0, circ=.1):
    """center, a >= b, alpha, degrees flag and alpha in radians"""
    C = pt(r)
    a = rad_len(r)
    k = r.random()
    b = a if k < circ else a / r.choice([2, r.uniform(1.02, maxratio), r.uniform(1.1, 3)])
    degrees = r.random() < .6
    if degrees:
        al = r.choice([deg(r), r.uniform(0, 180)])
        ra = al * pi / 180
    else:
        al = rad(r)
        ra = al
    return C, a, b, al, degrees, float(ra)


def mk_ell(G, r, par):
    C, a, b, al, dg, ra = par
    if dg and r.random() < .5:
        return G.Ellipse(wrap(r, C), num(r, a), num(r, b), num(r, al))
    return G.Ellipse(wrap(r, C), num(r, a), num(r, b), num(r, al), dg)


def circ_rel(r, rel, samer=False, special=True):
    """two circles in a given relative position; returns c1, r1, c2, r2
    (samer: with the same radius; "almost": with nearly the same radius).
    The gap of the generic positions is log-uniform (down to 1e-4)."""
    while True:
        c1 = fpt(pt(r))
        if norm(c1) > 30:
            continue
        r1 = float(rad_len(r))
        r2 = r1 if samer else float(rad_len(r))
        if samer == "almost":
            r2 = r1 * (1 + sgn(r) * logu(r, -9, -1.5))
        if not samer and r.random() < .3:
            r2 = r1 * r.uniform(1.1, 3) ** sgn(r)
        if not samer and abs(r1 - r2) < .05 * max(r1, r2):
            continue
        if max(r1, r2) > 40 * min(r1, r2):
            continue
        if norm(c1) > 100 * min(r1, r2):
            continue
        t = r.choice([0, pi / 2, pi, -pi / 2, pi / 4]) if (special and r.random() < .4) else r.uniform(0, TAU)
        S, D = r1 + r2, abs(r1 - r2)
        g = logu(r, -4, 0)
        if rel == "apart":
            dd = S * (1 + g * 2)
        elif rel == "outer":
            dd = S
        elif rel == "secant":
            k = r.random()
            lo, hi = D, S
            if k < .35:
                dd = hi - (hi - lo) * min(g, .5)
            elif k < .7:
                dd = lo + (hi - lo) * min(g, .5)
            else:
                dd = r.uniform(lo + .1 * (hi - lo), hi - .1 * (hi - lo))
            if dd <= 0 or (dd - lo) < 1e-4 * S or dd < .02 * S:
                continue
        elif rel == "inner":
            dd = D
        elif rel == "nested":
            dd = D * (1 - min(g, .95))
            if dd < 1e-3 * D:
                continue
        elif rel == "concentric":
            dd = 0.0
        elif rel == "equal":
            dd, r2 = 0.0, r1
        if special and t in (0,) and rel in ("outer", "inner"):
            c2 = (c1[0] + dd, c1[1])
        else:
            c2 = add(c1, mul(dd, unit(t))) if dd else c1
        return c1, r1, c2, r2


def gap_ok(r1, r2, dd, rel):
    return True


# ---------------------------------------------------------------- Mobius (pure Python)
INF = "inf"


def mob(M, z):
    """M = (a,b,c,d); z complex or INF"""
    a, b, c, dd = M
    if z == INF:
        return INF if c == 0 else a / c
    den = c * z + dd
    return INF if den == 0 else (a * z + b) / den


def mob_mul(M, N):
    a, b, c, dd = M
    e, f, g, h = N
    return (a * e + b * g, a * f + b * h, c * e + dd * g, c * f + dd * h)


def cplx(r, s=3.0):
    k = r.random()
    if k < .4:
        return complex(r.randint(-3, 3), r.randint(-3, 3))
    if k < .55:
        return complex(r.randint(-3, 3), 0)
    if k < .65:
        return complex(0, r.randint(-3, 3))
    return complex(r.uniform(-s, s), r.uniform(-s, s))


def mob_gen(r, czero=None):
    """a well conditioned Mobius matrix (a,b,c,d)"""
    while True:
        a, b, c, dd = (cplx(r) for _ in range(4))
        if r.random() < .15:
            c = 0j
        if czero is True:
            c = 0j
        if czero is False and abs(c) < .3:
            continue
        if 0 < abs(c) < .2:
            continue
        if r.random() < .15:
            k = r.choice([.1, 10.0, 1j, -2.0, .001, 1000.0, 1e-2j, 2.0 ** r.randint(-60, 60)])
            a, b, c, dd = a * k, b * k, c * k, dd * k
        nn = max(abs(a), abs(b), abs(c), abs(dd))
        if nn == 0 or abs(a * dd - b * c) < .05 * nn * nn:
            continue
        return (a, b, c, dd)


def cz(P):
    return complex(P[0], P[1])


def pz(z):
    return (z.real, z.imag)
