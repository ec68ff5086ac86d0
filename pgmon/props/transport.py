"""C28 inversions and Moebius maps carry figures to figures: incidence, angles,
tangency, mirror images, mid-circles and circles through points are transported.
C29 affine maps carry the affine constructions to themselves."""
import math
from math import pi, sin, cos, sqrt, atan2, inf
import numpy as np
from ..core import prop, family, load, Skip, Fail, show
from .. import geo
from ..geo import *
from .lines import mkline, flags
from .circles import mkc
from .mobius import to_c, as_pt
from .chains import step_inversion, step_mobius, step_reflection
from .ops import OPS, Style, build, canon, gap, size, jiggle

G = load()

prop("C28", ["Inversion.invert", "Inversion.invert_circle", "Inversion.invert_line", "Mobius.transform",
             "Mobius.transform_circle", "Mobius.transform_line", "Inversion.on_circle", "mid_circles",
             "intersection_circle_circle", "intersection_circle_line", "intersection_line_line", "Circle.angle",
             "Circle.is_orthogonal", "Triangle.circumcircle", "Inversion.from_fixing_three_circles", "SteinerChain"],
     "Pairs of circles and lines in all relative positions, mapped by an inversion or a Moebius map whose pole is apart, on one "
     "of them, or at a common point.")


# ------------------------------------------------------------ generalised circles
def gc_gap(g, p):
    """distance of a point to a described circle or line"""
    if g[0] == "circ":
        return abs(d(g[1], p) - g[2])
    return abs(line_dist(g[1], g[2], p))


def gc_size(g):
    return g[2] if g[0] == "circ" else 1.0


def gc_obj(r, g):
    if g[0] == "circ":
        return mkc(r, g[1], g[2])
    return mkline(r, g[1], g[2], True, True)


def lib_gc(cx, v, label):
    """description of a circle or line returned by the library"""
    if isinstance(v, G.Circle):
        return ("circ",) + circ_of(v)
    cx.ok(isinstance(v, G.Line), label + ": a circle or a line", got=v)
    cx.ok(bool(v.extendA) and bool(v.extendB), label + ": a whole line", got=v)
    return ("line",) + line_of(v)


def gc_marks(g):
    if g[0] == "circ":
        return [polar(g[1], g[2], TAU * i / 7 + .2) for i in range(7)]
    u = mul(1 / d(g[1], g[2]), sub(g[2], g[1]))
    o = foot(g[1], g[2], (0, 0))
    return [add(o, mul(t, u)) for t in (-12, -4, -1, 0, .6, 3, 20)]


def gc_same(cx, g, h, tol, label, **info):
    cx.ok(g[0] == h[0], label + ": kind", one=g, other=h, **info)
    for P in gc_marks(g):
        k = 1 + d(P, h[1]) / d(h[1], h[2]) if h[0] == "line" else 1
        cx.near(gc_gap(h, P), 0, tol * (1 + norm(P)) * k, label, one=g, other=h, **info)


def product(g, h):
    """|cos| of the angle of two generalised circles; above 1 when they do not
    meet.  Invariant by inversions and Moebius maps."""
    if g[0] == "line" and h[0] == "circ":
        g, h = h, g
    if h[0] == "circ":
        return abs(g[2] ** 2 + h[2] ** 2 - d(g[1], h[1]) ** 2) / (2 * g[2] * h[2])
    if g[0] == "circ":
        return abs(line_dist(h[1], h[2], g[1])) / g[2]
    u, v = sub(g[2], g[1]), sub(h[2], h[1])
    return abs(dot(u, v)) / norm(u) / norm(v)


def pair(r):
    """(relation, g, h): two generalised circles and their exact relation"""
    k = r.random()
    if k < .55:
        rel = r.choice(["apart", "outer", "secant", "secant", "inner", "nested", "concentric", "orthogonal"])
        if rel == "orthogonal":
            c1, r1, r2 = fpt(pt(r)), float(rad_len(r)), float(rad_len(r))
            if norm(c1) > 30:
                raise Skip()
            g, h = ("circ", c1, r1), ("circ", polar(c1, sqrt(r1 * r1 + r2 * r2), r.choice([0, pi / 2, pi / 4, r.uniform(0, TAU)])), r2)
        else:
            c1, r1, c2, r2 = circ_rel(r, rel, samer=(r.random() < .3 and rel in ("apart", "outer", "secant")))
            g, h = ("circ", c1, r1), ("circ", c2, r2)
        if max(r1, r2) > 12 * min(r1, r2) or norm(c1) > 30:
            raise Skip()
        dd = d(g[1], h[1])
        q = product(g, h)
        if rel == "secant" and q > .98 or rel in ("apart", "nested") and q < 1.02:
            raise Skip()
    elif k < .85:
        rel = r.choice(["apart", "tangent", "secant", "orthogonal"])
        C, R = fpt(pt(r)), float(rad_len(r))
        if norm(C) > 30:
            raise Skip()
        q = {"apart": r.uniform(1.05, 4), "tangent": 1.0, "secant": r.uniform(.02, .97), "orthogonal": 0.0}[rel]
        t = r.choice([0, pi / 2, pi, -pi / 2, pi / 4, r.uniform(0, TAU)])
        u = unit(t)
        o = add(C, mul(q * R, u))
        s, w = r.choice([0, -1, r.uniform(-3, 3)]), sgn(r) * r.choice([1, 2, r.uniform(.5, 4)])
        g = ("circ", C, R)
        h = ("line", add(o, mul(s, perp(u))), add(o, mul(s + w, perp(u))))
    else:
        rel = r.choice(["parallel", "crossing", "crossing", "orthogonal"])
        A, B = line_pts(r)
        if d(A, B) < .3 or norm(A) > 30:
            raise Skip()
        u = sub(B, A)
        a = {"parallel": 0, "crossing": sgn(r) * r.uniform(.2, 1.4), "orthogonal": pi / 2}[rel]
        v = mul(r.choice([-1, 1, 2, r.uniform(.4, 3)]), rot(u, a))
        C = add(A, mul(sgn(r) * r.uniform(.5, 4) / norm(u), perp(u)))
        C = add(C, mul(r.uniform(-2, 2) / norm(u), u))
        g, h = ("line", A, B), ("line", C, add(C, v))
    if r.random() < .5:
        g, h = h, g
    return rel, g, h


def commons(cx, lib1, lib2, label):
    """the common points of two library curves on the sphere (INF included)"""
    c1, c2 = isinstance(lib1, G.Circle), isinstance(lib2, G.Circle)
    r = cx.r
    if c1 and c2:
        I = r.choice([G.intersection_circle_circle, lambda x, y: x.intersection_with_circle(y)])(lib1, lib2)
    elif c1 or c2:
        c, l = (lib1, lib2) if c1 else (lib2, lib1)
        I = r.choice([lambda: G.intersection_circle_line(c, l), lambda: c.intersection_with_line(l), lambda: l.intersection_with_circle(c)])()
    else:
        I = r.choice([G.intersection_line_line, lambda x, y: x.intersection_with_line(y)])(lib1, lib2)
    if I is None:
        out = []
    elif isinstance(I, list):
        out = [cz(P2(x)) for x in I]
    else:
        cx.ok(not isinstance(I, (G.Circle, G.Line)), label + ": different curves are not equal", got=I)
        out = [cz(P2(I))]
    return out + ([] if c1 or c2 else [INF])


def common_exact(g, h, rel):
    """a common point of the pair (as it was constructed), or None"""
    if rel in ("apart", "nested", "concentric", "parallel"):
        return None
    if g[0] == "line" and h[0] == "line":
        return meet(g[1], g[2], h[1], h[2])
    if g[0] == "line":
        g, h = h, g
    if h[0] == "line":
        f = foot(h[1], h[2], g[1])
        e = d(f, g[1])
        w = sqrt(max(g[2] ** 2 - e * e, 0)) if rel != "tangent" else 0.0
        return add(f, mul(w / d(h[1], h[2]), sub(h[2], h[1])))
    dd = d(g[1], h[1])
    u = mul(1 / dd, sub(h[1], g[1]))
    x = (dd * dd + g[2] ** 2 - h[2] ** 2) / (2 * dd)
    y = sqrt(max(g[2] ** 2 - x * x, 0)) if rel in ("secant", "orthogonal") else 0.0
    return add(g[1], add(mul(x, u), mul(y, perp(u))))


def on_point(r, g):
    if g[0] == "circ":
        return polar(g[1], g[2], r.choice([0, pi / 2, pi, -pi / 2, r.uniform(0, TAU)]))
    return lerp(g[1], g[2], r.choice([0, 1, .5, r.uniform(-1, 2)]))


def off(gs, p, margin=.12):
    return all(gc_gap(g, p) > margin * gc_size(g) for g in gs)


def choose_pole(r, gs, how, rel=None):
    """a pole on the curves named by `how`, well apart from the others"""
    for _ in range(40):
        if how == "common":
            p = common_exact(gs[0], gs[1], rel)
            if p is None:
                raise Skip()
            rest = gs[2:]
        elif how == "on":
            i = r.randrange(len(gs))
            p = on_point(r, gs[i])
            rest = [g for j, g in enumerate(gs) if j != i]
        else:
            g = r.choice(gs)
            k = r.random()
            if g[0] == "circ":
                p = g[1] if k < .15 else polar(g[1], g[2] * logu(r, -9, -1.3), r.uniform(0, TAU)) if k < .3 else polar(g[1], g[2] * r.choice([r.uniform(.1, .8), r.uniform(1.2, 3)]), r.uniform(0, TAU))
            else:
                p = add(on_point(r, g), mul(sgn(r) * r.uniform(.3, 4) / d(g[1], g[2]), perp(sub(g[2], g[1]))))
            if k > .85:
                p = (float(round(p[0])), float(round(p[1])))
            rest = gs
        if off(rest, p):
            return p
    raise Skip()


def map_with_pole(r, p, scale):
    """an inversion (2/3) or a Moebius map with the given pole"""
    if r.random() < .6:
        k = r.choice([1, -1, 4, -4, sgn(r) * r.uniform(.3, 2) * scale ** 2, sgn(r) * scale ** 2])
        return step_inversion(r, p, k)
    z = cz(p)
    for _ in range(50):
        a, b, c = cplx(r), cplx(r), cplx(r)
        if abs(c) < .5 or abs(a) < .3 or abs(-a * c * z - b * c) < .3 * abs(c) ** 2:
            continue
        return step_mobius(r, (a, b, c, -c * z))
    raise Skip()


def img(s, lib):
    return (s.circle if isinstance(lib, G.Circle) else s.line)(lib)


def fine(g, lo=.01, hi=120):
    """the image is of ordinary size and position"""
    if g[0] == "circ":
        return lo < g[2] < hi and norm(g[1]) < hi and norm(g[1]) < 60 * g[2]
    return .01 < d(g[1], g[2]) < 300 and norm(g[1]) < 300 and abs(line_dist(g[1], g[2], (0, 0))) < hi


RELS = ["apart", "outer", "secant", "inner", "nested", "concentric", "orthogonal", "tangent", "parallel", "crossing"]


@family("C28", 3000, RELS + ["off", "on", "common", "circle circle", "circle line", "line line"])
def incidence(cx):
    """common points, angles, tangency and orthogonality are transported"""
    r = cx.r
    rel, g, h = pair(r)
    how = r.choice(["off", "off", "on", "common"])
    p = choose_pole(r, [g, h], how, rel)
    s = map_with_pole(r, p, max(gc_size(g), gc_size(h)))
    cx.put(relation=rel, one=g, other=h, pole=p, map=s.name, power=getattr(s.obj, "power", None), matrix=s.mobm)
    lg, lh = gc_obj(r, g), gc_obj(r, h)
    ig, ih = img(s, lg), img(s, lh)
    dg, dh = lib_gc(cx, ig, s.name), lib_gc(cx, ih, s.name)
    if not fine(dg) or not fine(dh):
        raise Skip()
    cx.cls(rel); cx.cls(how)
    cx.cls(" ".join(sorted(("circle" if x == "circ" else "line" for x in (dg[0], dh[0])))))
    # the invariant: angle, or inversive distance
    q0, q1 = product(g, h), product(dg, dh)
    amp = 1 + (norm(dg[1]) + norm(dh[1])) ** 2 / min(gc_size(dg), gc_size(dh)) ** 2
    cx.near(q1, q0, 1e-9 * (1 + q0) * amp + (1e-6 if dg[0] != dh[0] else 0), "%s: the angle (or the inversive distance) of the two curves" % s.name, images=(dg, dh))
    if isinstance(ig, G.Circle) and isinstance(ih, G.Circle):
        if rel not in ("nested", "apart", "concentric"):
            a = float(ig.angle(ih))
            cx.near(abs(cos(a)), min(q0, 1), 1e-6, "%s: Circle.angle of the images" % s.name, images=(dg, dh), angle=a)
        if amp < 1e4:
            if rel == "orthogonal":
                if max(gc_size(dg), gc_size(dh), norm(dg[1]), norm(dh[1])) < 50:
                    cx.ok(bool(ig.is_orthogonal(ih)), "%s: the images of orthogonal curves are orthogonal" % s.name, images=(dg, dh))
            elif q0 > .02:
                cx.ok(not ig.is_orthogonal(ih), "%s: the images of curves which are not orthogonal" % s.name, images=(dg, dh))
    elif isinstance(ig, G.Line) and isinstance(ih, G.Line):
        if rel == "orthogonal":
            cx.ok(bool(ig.is_perpendicular(ih)), "%s: the image lines of orthogonal curves are perpendicular" % s.name, images=(dg, dh))
        elif q0 > .02:
            cx.ok(not ig.is_perpendicular(ih), "%s: image lines of curves which are not orthogonal" % s.name, images=(dg, dh))
        if rel in ("outer", "inner", "tangent", "parallel"):
            cx.ok(bool(ig.is_parallel(ih)), "%s: the image lines of curves tangent at the pole are parallel" % s.name, images=(dg, dh))
        elif q0 < .99:
            cx.ok(not ig.is_parallel(ih), "%s: image lines of curves crossing at the pole" % s.name, images=(dg, dh))
    # the common points
    X, Y = commons(cx, lg, lh, "originals"), commons(cx, ig, ih, "images")
    n = {"apart": 0, "nested": 0, "concentric": 0, "outer": 1, "inner": 1, "tangent": 1, "parallel": 1}.get(rel, 2)
    cx.ok(len(X) == n, "number of common points of the originals", relation=rel, got=[str(x) for x in X])
    cx.ok(len(Y) == n, "%s: number of common points of the images" % s.name, relation=rel, got=[str(x) for x in Y], images=(dg, dh))
    left = list(Y)
    for z in X:
        if z != INF and abs(z - cz(p)) < 1e-6 * (1 + abs(z)):
            w = INF
        elif z != INF and abs(z - cz(p)) < .05:
            return
        else:
            w = to_c(s.point(pz(z) if z != INF else inf))
        if w == INF:
            cx.ok(INF in left, "%s: a common point at the pole makes the images meet at infinity" % s.name, images=(dg, dh))
            left.remove(INF)
            continue
        es = [abs(w - y) if y != INF else inf for y in left]
        e = min(es)
        L = s.der(abs(z - cz(p))) if z != INF else 1.0
        tan = 1e-7 if n == 1 else 0.0
        cx.near(e, 0, (5e-8 + 3 * tan) * (1 + abs(w) + L * (1 + abs(z if z != INF else 0))) * sqrt(amp) / max(.1, sqrt(abs(1 - min(q0, 1) ** 2)) if n == 2 else 1),
                "%s: the image of a common point is a common point of the images" % s.name, point=str(z), image=str(w), common=[str(y) for y in Y], images=(dg, dh))
        left.pop(es.index(e))


def mirror_in(r, lib):
    """the library's reflection in a circle or a line: (on points, on curves)"""
    if isinstance(lib, G.Circle):
        J = G.Inversion.on_circle(lib)
        return J.invert, J.invert_gcircle
    J = G.Reflection(lib)
    return (lambda P: P if isinstance(P, float) else J.reflect(P)), (lambda c: J.reflect_circle(c) if isinstance(c, G.Circle) else J.reflect_line(c))


def close_pts(cx, v, w, tol, label, **info):
    z, y = to_c(v), to_c(w)
    if z == INF or y == INF or abs(z) > 1e6 or abs(y) > 1e6:
        big = lambda x: x == INF or abs(x) > 1e5
        cx.ok(big(z) and big(y), label + " (infinity)", one=str(z), other=str(y), **info)
        return
    cx.near(z, y, tol * (1 + abs(z)) ** 2, label, **info)


@family("C28", 2400, ["circle", "line", "infinity", "centre", "curve", "image line"])
def symmetry_principle(cx):
    """mirror images in a circle or a line are carried to mirror images in its image"""
    r = cx.r
    rel, g, h = pair(r)
    how = r.choice(["off", "off", "on"])
    p = choose_pole(r, [g, h] if how == "off" else [g], how)
    s = map_with_pole(r, p, gc_size(g))
    cx.put(mirror=g, curve=h, pole=p, map=s.name, power=getattr(s.obj, "power", None), matrix=s.mobm)
    lg, lh = gc_obj(r, g), gc_obj(r, h)
    ig = img(s, lg)
    dg = lib_gc(cx, ig, s.name)
    if not fine(dg, .05, 60):
        raise Skip()
    if dg[0] == "line":
        cx.cls("image line")
    J, Jc = mirror_in(r, lg)
    K, Kc = mirror_in(r, ig)
    cx.cls("circle" if g[0] == "circ" else "line")
    pts_ = [pt(r), pt(r)]
    if g[0] == "circ":
        pts_.append(polar(g[1], g[2] * r.uniform(.2, 4), r.uniform(0, TAU)))
        if r.random() < .3:
            pts_ += [inf, g[1]]
    for P in pts_:
        if P == inf:
            cx.cls("infinity")
            if dg[0] == "line":
                continue
        elif norm(P) > 30 or d(P, p) < .1 * gc_size(g):
            continue
        Q = J(P)
        zq = to_c(Q)
        if P is g[1]:
            cx.cls("centre")
        if zq != INF and (abs(zq) > 100 or abs(zq - cz(p)) < .1 * gc_size(g)):
            continue
        w = s.point(P)
        zw = to_c(w)
        if zw != INF and (abs(zw) > 200 or dg[0] == "circ" and zw != cz(dg[1]) and abs(zw - cz(dg[1])) < .02 * dg[2]):
            continue
        amp = 1 + (norm(dg[1]) / gc_size(dg)) ** 2 + (norm(g[1]) / gc_size(g)) ** 2
        close_pts(cx, s.point(Q), K(w), 1e-8 * amp, "%s: the image of the mirror image is the mirror image of the image" % s.name,
                  point=P, mirror_image=Q, image_of_mirror=dg)
    # a whole curve
    m = Jc(lh)
    dm = lib_gc(cx, m, "mirror image of a curve")
    if not off([h, dm], p, .2) or not fine(dm, .05, 60):
        return
    if g[0] == "circ" and gc_gap(h, g[1]) < .1 * gc_size(h):
        if gc_gap(h, g[1]) > 1e-12:
            return
    ih = img(s, lh)
    dh = lib_gc(cx, ih, s.name)
    if dg[0] == "circ" and gc_gap(dh, dg[1]) < .05 * gc_size(dh) or not fine(dh, .05, 60):
        return
    one = lib_gc(cx, img(s, m), s.name)
    if not fine(one, .05, 60):
        return
    amp = 1 + (norm(dg[1]) / gc_size(dg)) ** 2
    gc_same(cx, one, lib_gc(cx, Kc(ih), "mirror image"), 1e-7 * amp, "%s: the image of the mirror image of a curve is the mirror image of its image" % s.name, mirror=dg)
    cx.cls("curve")


@family("C28", 1200, ["two", "one", "line"])
def mid_circle_transport(cx):
    """mid-circles are carried to the mid-circles of the images"""
    r = cx.r
    rel = r.choice(["apart", "outer", "secant", "secant", "inner", "nested"])
    c1, r1, c2, r2 = circ_rel(r, rel, samer=(rel in ("apart", "secant", "outer") and r.random() < .4))
    g, h = ("circ", c1, r1), ("circ", c2, r2)
    q0 = product(g, h)
    if max(r1, r2) > 8 * min(r1, r2) or norm(c1) > 30 or rel == "secant" and q0 > .95 or rel in ("apart", "nested") and q0 < 1.05:
        raise Skip()
    p = choose_pole(r, [g, h], "off")
    s = map_with_pole(r, p, max(r1, r2))
    cx.put(relation=rel, one=g, other=h, pole=p, map=s.name, power=getattr(s.obj, "power", None), matrix=s.mobm)
    lg, lh = gc_obj(r, g), gc_obj(r, h)
    ig, ih = img(s, lg), img(s, lh)
    dg, dh = lib_gc(cx, ig, s.name), lib_gc(cx, ih, s.name)
    if not fine(dg, .05, 60) or not fine(dh, .05, 60):
        raise Skip()
    aslist = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
    X, Y = aslist(G.mid_circles(lg, lh)), aslist(G.mid_circles(ig, ih))
    n = 2 if rel == "secant" else 1
    cx.ok(len(X) == n and len(Y) == n, "number of mid-circles, before and after %s" % s.name, relation=rel, before=X, after=Y)
    cx.cls("two" if n == 2 else "one")
    left = [lib_gc(cx, y, "mid-circle") for y in Y]
    for m in X:
        dm = lib_gc(cx, m, "mid-circle")
        if dm[0] == "line":
            cx.cls("line")
        if not off([dm], p, .1) or not fine(dm, .02, 60):
            return
        w = lib_gc(cx, img(s, m), s.name)
        if not fine(w, .02, 60):
            return
        amp = 1 + (norm(dg[1]) + norm(dh[1])) ** 2 / min(dg[2], dh[2]) ** 2
        tol = (1e-7 if rel not in ("outer", "inner") else 1e-6) * amp
        best = None
        for y in left:
            if y[0] == w[0]:
                e = max(gc_gap(y, P) / (1 + norm(P)) for P in gc_marks(w))
                if best is None or e < best[0]:
                    best = (e, y)
        cx.ok(best is not None and best[0] <= tol, "%s: the image of a mid-circle is a mid-circle of the images" % s.name, midcircle=dm, image=w, of_images=left, error=best and best[0])
        left.remove(best[1])


@family("C28", 1000, ["circle", "line", "three fixed", "powers"])
def through_points(cx):
    """the circle through three points; the inversion fixing three circles"""
    r = cx.r
    if r.random() < .6:
        T = tri_pts(r, .3)
        c = G.Triangle(*[wrap(r, P) for P in T]).circumcircle()
        g = ("circ",) + circ_of(c)
        if not fine(g, .1, 40):
            raise Skip()
        how = r.choice(["off", "on"])
        p = choose_pole(r, [g], how)
        if min(d(p, P) for P in T) < .15 * g[2]:
            raise Skip()
        s = map_with_pole(r, p, g[2])
        cx.put(triangle=T, pole=p, map=s.name, power=getattr(s.obj, "power", None), matrix=s.mobm)
        W = [P2(s.point(wrap(r, P))) for P in T]
        im = lib_gc(cx, img(s, c), s.name)
        if not fine(im, .05, 60) or max(norm(x) for x in W) > 100:
            raise Skip()
        if im[0] == "line":
            cx.cls("line")
            for P in W:
                cx.near(abs(line_dist(im[1], im[2], P)), 0, 1e-9 * (1 + norm(P)) ** 2 * (1 + d(P, im[1]) / d(im[1], im[2])), "%s: three points whose circle passes through the pole become aligned" % s.name, images=W, line=im)
            return
        sides = sorted(d(W[i], W[i - 1]) for i in range(3))
        if sides[0] < .1 * im[2] or norm(im[1]) > 30 * im[2]:
            raise Skip()
        cx.cls("circle")
        k = ("circ",) + circ_of(G.Triangle(*W).circumcircle())
        gc_same(cx, k, im, 1e-8 * (1 + norm(im[1]) / im[2]) ** 2 / (sides[0] / im[2]) ** 2, "%s: the circle through the images is the image of the circle" % s.name, triangle=T)
        return
    # the anti-conformal involution fixing three circles is unique: it is transported
    cs = [("circ", fpt(pt(r)), float(rad_len(r))) for _ in range(3)]
    A, B, C = [c[1] for c in cs]
    if max(norm(x) for x in (A, B, C)) > 20 or abs(cross(sub(B, A), sub(C, A))) < 1.5 or min(d(A, B), d(B, C), d(A, C)) < .5:
        raise Skip()
    p = choose_pole(r, cs, "off")
    s = map_with_pole(r, p, cs[0][2])
    cx.put(circles=cs, pole=p, map=s.name, power=getattr(s.obj, "power", None), matrix=s.mobm)
    libs = [gc_obj(r, c) for c in cs]
    J = G.Inversion.from_fixing_three_circles(*libs)
    ims = [img(s, c) for c in libs]
    ds = [lib_gc(cx, c, s.name) for c in ims]
    if not all(fine(x, .05, 40) for x in ds):
        raise Skip()
    X, Y, Z = [x[1] for x in ds]
    w = max(d(X, Y), d(Y, Z), d(X, Z))
    if abs(cross(sub(Y, X), sub(Z, X))) < .05 * w * w or abs(float(J.power)) < .05:
        raise Skip()
    K = G.Inversion.from_fixing_three_circles(*ims)
    cx.cls("three fixed")
    cx.cls("powers")
    m = max(norm(P2(J.pole)), norm(P2(K.pole)), max(norm(x[1]) for x in ds))
    if m > 60 or abs(float(K.power)) < .05:
        raise Skip()
    for P in [pt(r) for _ in range(4)]:
        if norm(P) > 20 or d(P, p) < .2:
            continue
        Q = J.invert(wrap(r, P))
        zq = to_c(Q)
        if zq == INF or abs(zq) > 60 or abs(zq - cz(p)) < .2:
            continue
        W = s.point(P)
        zw = to_c(W)
        if zw == INF or abs(zw) > 60 or d(pz(zw), P2(K.pole)) < .2:
            continue
        close_pts(cx, s.point(Q), K.invert(W), 1e-8 * (1 + m) ** 2 / min(1, abs(float(K.power))), "%s: the inversion fixing three circles becomes the one fixing their images" % s.name, point=P)


@family("C28", 900, ["in", "on", "chain"])
def built(cx):
    """orthogonal circles and chains of tangent circles built by the library"""
    r = cx.r
    C, R = fpt(pt(r)), float(rad_len(r))
    if norm(C) > 15 * R:
        raise Skip()
    k = r.random()
    c = mkc(r, C, R)
    if k < .6:
        if k < .3:
            P, Q = [polar(C, R * r.uniform(.1, .85), r.uniform(0, TAU)) for _ in range(2)]
            if d(P, Q) < .2 * R or abs(cross(sub(P, C), sub(Q, C))) < .05 * R * R:
                raise Skip()
            o = c.orthogonal_through_two_points_in_circle(wrap(r, P), wrap(r, Q))
            cx.cls("in")
        else:
            a = r.uniform(0, TAU)
            b = a + sgn(r) * r.uniform(.3, 2.7)
            P, Q = polar(C, R, a), polar(C, R, b)
            o = c.orthogonal_through_two_points_on_circle(a, b)
            cx.cls("on")
        g = lib_gc(cx, o, "orthogonal circle")
        if g[0] != "circ" or not fine(g, .05, 40 * R):
            raise Skip()
        p = choose_pole(r, [("circ", C, R), g], "off")
        if d(p, P) < .1 * R or d(p, Q) < .1 * R:
            raise Skip()
        s = map_with_pole(r, p, R)
        cx.put(circle=(C, R), points=(P, Q), pole=p, map=s.name, power=getattr(s.obj, "power", None), matrix=s.mobm)
        ic, io = img(s, c), img(s, o)
        dc, do = lib_gc(cx, ic, s.name), lib_gc(cx, io, s.name)
        if not fine(dc) or not fine(do):
            raise Skip()
        amp = 1 + (norm(dc[1]) + norm(do[1])) ** 2 / min(gc_size(dc), gc_size(do)) ** 2
        cx.near(product(dc, do), 0, 1e-8 * amp, "%s: the image of the orthogonal circle is orthogonal" % s.name, images=(dc, do))
        for X in (P, Q):
            W = P2(s.point(X))
            if norm(W) < 100:
                cx.near(gc_gap(do, W), 0, 1e-8 * (1 + norm(W)) * sqrt(amp) * (1 + s.der(d(X, p))), "%s: and passes through the images of the points" % s.name, images=(dc, do))
        return
    n, phi = r.randint(3, 8), r.choice([0, .2, -.2, r.uniform(-.4, .4)])
    ch = G.SteinerChain(c, n, phi, r.uniform(-2, 2))["circles"]
    ds = [lib_gc(cx, x, "Steiner chain") for x in ch[:n]]
    if any(x[2] < .05 * R for x in ds):
        raise Skip()
    p = choose_pole(r, [("circ", C, R)] + ds, "off") if r.random() < .5 else polar(C, R * r.uniform(1.3, 3), r.uniform(0, TAU))
    s = map_with_pole(r, p, R)
    cx.put(circle=(C, R), n=n, phi=phi, pole=p, map=s.name, power=getattr(s.obj, "power", None), matrix=s.mobm)
    ims = [img(s, x) for x in ch[:n]]
    im = [lib_gc(cx, x, s.name) for x in ims]
    i0 = img(s, c)
    d0 = lib_gc(cx, i0, s.name)
    if not all(fine(x, .02, 60) for x in im + [d0]):
        raise Skip()
    cx.cls("chain")
    amp = 1 + max(norm(x[1]) + x[2] for x in im + [d0]) ** 2 / min(x[2] for x in im) ** 2
    for i in range(n):
        cx.near(product(im[i], im[i - 1]), 1, 1e-8 * amp, "%s: consecutive circles of the image chain are tangent" % s.name, circles=im)
        cx.near(product(im[i], d0), 1, 1e-8 * amp, "%s: the circles of the image chain touch the image of the outer circle" % s.name, circles=im)
        if amp < 1e3:
            cx.ok(len(commons(cx, ims[i], i0, "chain")) == 1, "%s: one point of contact with the image of the outer circle" % s.name, circles=(im[i], d0))


# ================================================================== C29
prop("C29", ["Affine.transform", "Affine.transform_line", "Affine.transform_ellipse", "Affine.inverse", "Affine.compose",
             "Ellipse.from_five_points", "Ellipse.LownerJohnEllipse", "Ellipse.from_boundary3", "Ellipse.from_boundary4",
             "Triangle.steiner_ellipse", "Triangle.steiner_inellipse", "Triangle.contains", "Triangle.orientation",
             "Projection.transform", "Projection.as_affine", "Ellipse.diameter", "Ellipse.contains", "intersection_ellipse_line",
             "intersection_line_line", "Affine.from_mapping_three_points", "ScalingXY.as_affine", "Scaling.as_affine", "Shear.as_affine"],
     "Affine constructions on moved data against the moved result, for general affine maps (condition number at most 8, both "
     "orientations), shears and stretches along the axes included.")


class Aff:
    """an affine map acting on the descriptions of ops.py"""

    def __init__(self, M, t):
        self.M, self.t = M, t
        self.det = M[0] * M[3] - M[1] * M[2]

    def vec(self, v):
        a, b, c, e = self.M
        return (a * v[0] + b * v[1], c * v[0] + e * v[1])

    def pt(self, P):
        return add(self.vec(P), self.t)

    def inverse(self):
        a, b, c, e = self.M
        k = self.det
        N = (e / k, -b / k, -c / k, a / k)
        f = Aff(N, (0, 0))
        f.t = mul(-1, f.vec(self.t))
        return f

    def after(self, f):
        """self o f"""
        a, b, c, e = self.M
        p, q, s, w = f.M
        return Aff((a * p + b * s, a * q + b * w, c * p + e * s, c * q + e * w), self.pt(f.t))

    def norm(self):
        return math.hypot(*self.M[:2]) + math.hypot(*self.M[2:])

    def ell(self, C, a, b, al):
        c, s = cos(al), sin(al)
        u, v = self.vec((a * c, a * s)), self.vec((-b * s, b * c))
        p, q, w = u[0] ** 2 + v[0] ** 2, u[0] * u[1] + v[0] * v[1], u[1] ** 2 + v[1] ** 2
        m, h = (p + w) / 2, math.hypot((p - w) / 2, q)
        big = sqrt(m + h)
        return (self.pt(C), big, abs(cross(u, v)) / big, atan2(2 * q, p - w) / 2)

    def __call__(self, s):
        if s is None or isinstance(s, (bool, int, str)):
            return s
        k = s[0]
        if k == "pt":
            return ("pt",) + tuple(self.pt(s[1:]))
        if k == "vec":
            return ("vec",) + tuple(self.vec(s[1:]))
        if k == "line":
            return (k, self.pt(s[1]), self.pt(s[2]), s[3], s[4])
        if k == "circ":
            return ("ell",) + self.ell(s[1], s[2], s[2], 0.0)
        if k == "ell":
            return ("ell",) + self.ell(*s[1:])
        if k == "tri":
            return (k,) + tuple(self.pt(p) for p in s[1:])
        if k == "pts":
            return (k, [self.pt(p) for p in s[1]])
        if k in ("list", "set"):
            return (k, [self(x) for x in s[1]])
        if k == "area":
            return (k, abs(self.det) * s[1])
        if k in ("flag", "num", "raw"):
            return s
        raise AssertionError(k)


def gen_aff(r):
    """a well conditioned affine map which is not a similarity"""
    while True:
        k = r.random()
        if k < .15:                                  # stretches along the axes
            M = (sgn(r) * r.choice([1, 2, .5, 3]), 0, 0, sgn(r) * r.choice([1, 2, .5, 3]))
        elif k < .3:                                 # shears
            x = r.choice([1, -1, 2, r.uniform(-2, 2)])
            M = r.choice([(1, x, 0, 1), (1, 0, x, 1)])
        elif k < .4:                                 # exchange of the axes
            M = (0, r.choice([1, -2, .5]), r.choice([1, 2, -3]), 0)
        elif k < .55:
            M = tuple(r.randint(-3, 3) for _ in range(4))
        else:
            M = tuple(r.uniform(-2, 2) for _ in range(4))
        det = M[0] * M[3] - M[1] * M[2]
        n2 = sum(x * x for x in M)
        if abs(det) < .24 * n2 / 2 or n2 < .2:
            continue
        t = r.choice([(0, 0), pt(r), (grid(r), grid(r))])
        if norm(t) > 20:
            t = (3, -2)
        if r.random() < .2:
            q = logu(r, -2, 2)
            M, t = tuple(q * x for x in M), mul(q, t)
        return Aff(tuple(float(x) for x in M), fpt(t))


def lib_aff(r, f):
    M = [[f.M[0], f.M[1]], [f.M[2], f.M[3]]]
    return G.Affine(np.array(M) if r.random() < .5 else M, wrap(r, f.t))


def ops_named(*names):
    t = {o.name: o for o in OPS}
    return [t[n] for n in names]


AFFOPS = ops_named("Line.includes", "Line.translate", "Line.is_equal", "Line.is_parallel", "intersection_line_line", "Line.intersection_with_line",
                   "Ellipse.includes", "Ellipse.contains", "intersection_ellipse_line", "Ellipse.intersection_with_line",
                   "Line.intersection_with_ellipse", "Ellipse.is_equal", "Ellipse.from_five_points", "Ellipse.LownerJohnEllipse",
                   "Ellipse.from_boundary3", "Ellipse.from_boundary4", "Triangle.contains", "Triangle.steiner_ellipse",
                   "Triangle.steiner_inellipse", "Projection.transform", "Projection.as_affine", "Affine.from_mapping_three_points",
                   "Triangle.edges")


def lib_move(F, G, v, res):
    """the result of the library moved by the library's own affine map"""
    if v is None or res in ("bool", "int"):
        return v
    if isinstance(v, list):
        return [lib_move(F, G, x, res) for x in v]
    if isinstance(v, G.Line):
        return F.transform_line(v)
    if isinstance(v, (G.Ellipse, G.Circle)):
        return F.transform_ellipse(v)
    return F.transform(v)


@family("C29", 4600, [o.name for o in AFFOPS if o.name != "Triangle.edges"] + ["reversing", "preserving", "moved by the library"])
def covariant(cx):
    """f(construction(data)) = construction(f(data))"""
    r = cx.r
    o = AFFOPS[cx.idx % (len(AFFOPS) - 1)]
    for _ in range(60):
        try:
            specs = o.gen(r)
            break
        except Skip:
            continue
    else:
        raise Skip()
    f = gen_aff(r)
    if o.name in ("Line.translate",):
        specs = [specs[0], ("vec",) + tuple(specs[1][1:])]
    cx.put(operation=o.name, operands=specs, matrix=f.M, translation=f.t)
    moved = [f(s) for s in specs]
    for s in moved:
        if s[0] == "ell" and (s[2] > 12 * s[3] or s[2] - s[3] < 2e-3 * s[2] and o.name in ("Ellipse.is_equal",)):
            raise Skip()
    args, margs = [build(G, s, Style()) for s in specs], [build(G, s, Style(r)) for s in moved]
    v = o.call(G, *args)
    w = o.call(G, *margs)
    base, got = canon(G, v, o.res), canon(G, w, o.res)
    cx.cls(o.name)
    cx.cls("reversing" if f.det < 0 else "preserving")
    # sensitivity of the result
    sens = 0.0
    if not o.exact:
        for _ in range(2):
            b2 = canon(G, o.call(G, *[build(G, jiggle(r, s, 1e-11, 1 + norm(f.t) / f.norm()), Style()) for s in specs]), o.res)
            g = gap(base, b2)
            if not g < 1e-6 * (1 + size(base)):
                raise Skip()
            sens = max(sens, g)
    back = f.inverse()(got)
    scale = 1 + size(base) + max(size(s) for s in specs) + norm(f.t) / f.norm()
    tol = (1e-8 if base is not None and base[0] == "ell" else 1e-9) * scale + 1000 * sens
    e = gap(base, back)
    cx.ok(e <= tol, o.name + " commutes with affine maps", expected=f(base), got=got, error=e, tol=tol, here=base, back=back)
    if r.random() < .4 and o.res != "bool":
        F = lib_aff(r, f)
        u = canon(G, lib_move(F, G, v, o.res), o.res)
        e = gap(f.inverse()(u), base)
        cx.ok(e <= tol + 1e-8 * scale, o.name + ": the result moved by Affine.transform is the moved result", expected=f(base), got=u, error=e, tol=tol)
        cx.cls("moved by the library")


@family("C29", 900, ["reversing", "preserving", "flat"])
def triangle_facts(cx):
    """orientation, areas, sides and barycentric coordinates"""
    r = cx.r
    T = tri_pts(r, .25)
    f = gen_aff(r)
    F = lib_aff(r, f)
    cx.put(triangle=T, matrix=f.M, translation=f.t)
    t = G.Triangle(*[wrap(r, P) for P in T])
    W = [P2(F.transform(wrap(r, P))) for P in T]
    m = max(d(W[0], W[1]), d(W[1], W[2]), d(W[0], W[2]))
    if abs(cross(sub(W[1], W[0]), sub(W[2], W[0]))) < .03 * m * m or max(map(norm, W)) > 100 * m:
        raise Skip()
    w = G.Triangle(*W)
    cx.ok(int(w.orientation) == int(t.orientation) * (1 if f.det > 0 else -1), "the orientation is multiplied by the sign of the determinant", triangle=T, image=W)
    cx.cls("reversing" if f.det < 0 else "preserving")
    # areas: those of the Steiner ellipses, and Heron's formula with the library's sides
    def heron(x):
        a, b, c = float(x.a), float(x.b), float(x.c)
        s = (a + b + c) / 2
        return sqrt(max(s * (s - a) * (s - b) * (s - c), 0))
    cx.near(heron(w) / heron(t), abs(f.det), 1e-8 * abs(f.det) * (1 + max(map(norm, W)) / m) ** 2, "areas are multiplied by the absolute determinant")
    for nm in ("steiner_ellipse", "steiner_inellipse"):
        e1, e2 = getattr(t, nm)(), getattr(w, nm)()
        A = lambda e: float(e.rmajor) * float(e.rminor)
        cx.near(A(e2) / A(e1), abs(f.det), 1e-8 * abs(f.det) * (1 + max(map(norm, W)) / m) ** 2, nm + ": areas are multiplied by the absolute determinant")
    # barycentric coordinates: a point inside stays inside
    x, y = r.uniform(-.5, 1.5), r.uniform(-.5, 1.5)
    if min(abs(x), abs(y), abs(1 - x - y)) < .02:
        raise Skip()
    P = add(T[0], add(mul(x, sub(T[1], T[0])), mul(y, sub(T[2], T[0]))))
    cx.ok(bool(t.contains(P)) == bool(w.contains(F.transform(P))) == (x > 0 and y > 0 and x + y < 1), "a point and its image are both inside or both outside", bary=(x, y))
    # aligned points stay aligned
    k = r.choice([-2, -1, .5, 2, 3, r.uniform(.2, .8)])
    Q = [T[0], T[1], lerp(T[0], T[1], k)]
    if k in (-2, -1, .5, 2, 3) and all(float(x) == int(x) for p in Q for x in p) and all(abs(x) == int(abs(x)) for x in f.M + f.t):
        cx.ok(float(G.Triangle(*[F.transform(p) for p in Q]).flatness) == 1.0, "aligned points have aligned images", points=Q)
        cx.cls("flat")


@family("C29", 900, ["conjugate", "major axis"])
def ellipse_diameters(cx):
    """conjugate diameters, chords and areas of an ellipse"""
    r = cx.r
    C, a, b, al, dg, ra = ell_par(r, 5, .1)
    if norm(C) > 30 * min(a, b):
        raise Skip()
    f = gen_aff(r)
    F = lib_aff(r, f)
    e = geo.mk_ell(G, r, (C, a, b, al, dg, ra))
    w = F.transform_ellipse(e)
    E, W = ell_of(e), ell_of(w)
    if W[1] > 12 * W[2] or norm(W[0]) > 60 * W[2]:
        raise Skip()
    cx.put(ellipse=E, matrix=f.M, translation=f.t)
    cx.near(W[1] * W[2], abs(f.det) * E[1] * E[2], 1e-9 * W[1] * W[2] * (1 + norm(W[0]) / W[2]), "the area of the image ellipse")
    t = r.choice([0, pi / 2, pi, r.uniform(0, TAU)])
    if t == 0:
        cx.cls("major axis")
    ds = e.diameter(t, conjugate=True)
    us, ends = [], []
    for l in ds:
        A, B = line_of(F.transform_line(l))
        cx.near(mid(A, B), W[0], 1e-9 * (1 + W[1] + norm(W[0])), "the middle of the image of a diameter is the centre of the image")
        for P in (A, B):
            cx.near(ell_q(W, P), 1, 1e-8 * (1 + norm(W[0]) / W[2]) ** 2, "the ends of the image of a diameter are on the image ellipse", point=P, image=W)
        us.append(mul(.5, sub(B, A)))
        ends.append(A)
    # conjugate directions: <u, v> = 0 for the quadratic form, that is u, v -> unit and orthogonal
    (_, a2, b2, th) = W
    co = lambda u: ((cos(th) * u[0] + sin(th) * u[1]) / a2, (-sin(th) * u[0] + cos(th) * u[1]) / b2)
    cx.near(dot(co(us[0]), co(us[1])), 0, 1e-8 * (1 + norm(W[0]) / W[2]), "the images of conjugate diameters are conjugate", image=W)
    cx.cls("conjugate")
    # a chord parallel to one diameter is bisected by the other one, before and after
    s = r.uniform(-.8, .8)
    M = add(E[0], mul(s, mul(.5, sub(P2(ds[0].B), P2(ds[0].A)))))
    u = sub(P2(ds[1].B), P2(ds[1].A))
    l = mkline(r, M, add(M, mul(r.choice([1, -1, .7]), u)), True, True)
    I = G.intersection_ellipse_line(e, l)
    J = G.intersection_ellipse_line(w, F.transform_line(l))
    for X, m0, lab in ((I, M, "chord"), (J, f.pt(M), "image of a chord")):
        cx.ok(isinstance(X, list) and len(X) == 2, lab + " parallel to a diameter: two ends", got=X)
        q = [P2(x) for x in X]
        cx.near(mid(*q), m0, 1e-7 * (1 + norm(m0) + max(E[1], W[1])) * (1 + norm(W[0]) / W[2]), "the %s parallel to a diameter is bisected by the conjugate diameter" % lab)


@family("C29", 900, ["Projection", "ScalingXY", "Scaling", "Shear", "Reflection", "Rotation", "Homothety", "points", "line", "ellipse"])
def conjugation(cx):
    """f o map o f^-1 is the map of the moved data"""
    r = cx.r
    f = gen_aff(r)
    F = lib_aff(r, f)
    Fi = F.inverse()
    k = r.choice(["Projection", "ScalingXY", "Scaling", "Shear", "Reflection", "Rotation", "Homothety", "Projection"])
    O = pt(r)
    if norm(O) > 20:
        O = (1, 2)
    u = unit(r.choice([0, pi / 2, pi / 4, r.uniform(0, TAU)]))
    if k == "Projection":
        v = rot(u, sgn(r) * (r.uniform(.3, 1.5) if r.random() < .7 else pi / 2 - r.choice([0, sgn(r) * logu(r, -7, -1.5), sgn(r) * logu(r, -7, -1.5)])))
        l, m = (O, add(O, mul(2, u))), ((0, 0), v)
        H = G.Projection(mkline(r, *l), mkline(r, *m))
        K = G.Projection(F.transform_line(G.Line(*l)), F.transform_line(G.Line(*m)))
        A, B, lam, mu = u, v, 1.0, 0.0
    elif k == "Homothety":
        q = r.choice([-1, 2, .5, r.uniform(.3, 3)])
        H, K = G.Homothety(wrap(r, O), q), G.Homothety(F.transform(O), q)
        A, B, lam, mu = (1, 0), (0, 1), q, q
    elif k == "ScalingXY":
        sx, sy = r.choice([1, 2, -1, .5]), r.choice([1, 3, -2, .5])
        H, K = G.ScalingXY(wrap(r, O), sx, sy), None
        A, B, lam, mu = (1, 0), (0, 1), sx, sy
    elif k == "Scaling":
        q = r.choice([2, -1, .5, -2, r.uniform(.3, 3)])
        H, K = G.Scaling(wrap(r, O), wrap(r, u), q), None
        A, B, lam, mu = u, perp(u), q, 1.0
    elif k == "Reflection":
        H, K = G.Reflection(mkline(r, O, add(O, mul(1.5, u)))), None
        A, B, lam, mu = u, perp(u), 1.0, -1.0
    elif k == "Rotation":
        th = r.choice([90, 45, r.uniform(0, 360)])
        H, K = G.Rotation(wrap(r, O), th), None
        A = None
    else:
        ra, an = r.choice([1, 2, .5]), r.choice([30, -45, 20, r.uniform(-70, 70)])
        H, K = G.Shear(wrap(r, O), wrap(r, mul(1.5, u)), ra, an), None
        A = None
    cx.put(map=k, center=O, direction=u, matrix=f.M, translation=f.t)
    T = r.choice([lambda: Fi.compose(H.as_affine()).compose(F), lambda: F.compose(H.as_affine(), left=False).compose(Fi, left=False)])()
    M = np.array(T.A, dtype=float)
    sc = (1 + norm(f.t)) * 20 * max(1, f.norm())
    # trace and determinant of the linear part do not change
    L = np.array(H.as_affine().A, dtype=float)
    cx.near(M[0, 0] + M[1, 1], L[0, 0] + L[1, 1], 1e-11 * 100, k + ": the trace of the linear part of the conjugate map")
    cx.near(M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0], L[0, 0] * L[1, 1] - L[0, 1] * L[1, 0], 1e-11 * 1000, k + ": the determinant of the linear part of the conjugate map")
    cx.near(P2(T.transform(f.pt(O))), f.pt(O), 1e-10 * sc * 10, k + ": the image of the fixed point is fixed by the conjugate map")
    if A is not None:
        for w, q in ((A, lam), (B, mu)):
            w2 = f.vec(w)
            g = sub(P2(T.transform(add(f.pt(O), w2))), f.pt(O))
            cx.near(g, mul(q, w2), 1e-10 * sc * 10, k + ": the images of the eigenvectors are eigenvectors of the conjugate map", vector=w)
    cx.cls(k)
    for _ in range(2):
        P = pt(r)
        X = P2(T.transform(F.transform(wrap(r, P))))
        cx.near(X, P2(F.transform(H.transform(wrap(r, P)))), 1e-10 * sc * 10 * (1 + norm(P)), k + ": the conjugate map at the image of a point", point=P)
        if K is not None:
            cx.near(P2(K.transform(f.pt(P))), X, 1e-9 * sc * 10 * (1 + norm(P)), k + " of the moved data is the conjugate map", point=P)
            cx.near(P2(K.as_affine().transform(f.pt(P))), X, 1e-9 * sc * 10 * (1 + norm(P)), k + " of the moved data, as an affine map, is the conjugate map", point=P)
    cx.cls("points")
    A_, B_ = line_pts(r)
    if d(A_, B_) > .3 and norm(A_) < 20 and k != "Projection":
        l = mkline(r, A_, B_, *flags(r))
        one, two = T.transform_line(F.transform_line(l)), F.transform_line(H.as_affine().transform_line(l))
        cx.near(line_of(one)[0] + line_of(one)[1], line_of(two)[0] + line_of(two)[1], 1e-9 * sc * 400, k + ": the conjugate map on the image of a line", line=(A_, B_))
        cx.cls("line")
    C, a, b, al, dg, ra = ell_par(r, 4, .1)
    if k != "Projection" and norm(C) < 15 * b:
        e = geo.mk_ell(G, r, (C, a, b, al, dg, ra))
        one, two = ell_of(T.transform_ellipse(F.transform_ellipse(e))), ell_of(F.transform_ellipse(H.as_affine().transform_ellipse(e)))
        if two[1] < 30 * two[2]:
            cx.near(one[1:3], two[1:3], 1e-8 * two[1] * (1 + norm(two[0]) / two[2]), k + ": the conjugate map on the image of an ellipse: radii", ellipse=(C, a, b, al))
            for x in (0, 1, 2, 4):
                cx.near(ell_q(two, ell_pt(one, x)), 1, 1e-6 * (1 + norm(two[0]) / two[2]), k + ": the conjugate map on the image of an ellipse", ellipse=(C, a, b, al))
            cx.cls("ellipse")
