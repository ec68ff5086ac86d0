"""C27 chains of maps which preserve circles and lines."""
import math
from math import pi, sin, cos, sqrt, atan2, inf
import numpy as np
from ..core import prop, family, load, Skip, Fail
from ..geo import *
from .lines import mkline, flags
from .circles import gen_circ, mkc
from .mobius import to_c, as_pt, chord, mk_mob, mat, proj_dist, lip
from .transforms import af, af_mul, coef, PROBE

G = load()

prop("C27", ["Inversion.invert_circle", "Inversion.invert_line", "Inversion.invert_gcircle", "Inversion.compose",
             "Mobius.transform_circle", "Mobius.transform_line", "Mobius.compose", "Reflection.reflect_circle",
             "Reflection.reflect_line", "Rotation.rotate_circle", "Rotation.rotate_line", "Homothety.transform_circle",
             "Affine.transform_line", "Affine.compose", "Line.invert", "Line.translate", "Line.rotate"],
     "Sequences of two to eight maps; the pole of a map is regularly put on the current circle or line.")


class Step:
    """one map: its name, the library's action on points, circles and lines,
    the reference action on complex numbers, and its pole (None: no pole)"""

    def __init__(self, name, point, circle, line, ref, pole=None, der=None, afm=None, mobm=None, anti=False, obj=None, back=None):
        self.name, self.point, self.circle, self.line = name, point, circle, line
        self.ref, self.pole, self.der = ref, pole, der
        self.afm, self.mobm, self.anti, self.obj, self.back = afm, mobm, anti, obj, back


def step_inversion(r, pole, k):
    io = G.Inversion(wrap(r, pole), k)
    p = cz(pole)

    def ref(z):
        if z == INF:
            return p
        return INF if z == p else p + k / (z - p).conjugate()
    gc = r.random() < .5
    circle = io.invert_gcircle if gc else io.invert_circle
    line = io.invert_gcircle if gc else (lambda l: l.invert(io)) if r.random() < .5 else io.invert_line
    return Step("inversion", io.invert, circle, line, ref, pole, lambda dist: abs(k) / dist ** 2, anti=True, obj=io,
                back=lambda: step_inversion(r, pole, k))


def step_mobius(r, M):
    m = mk_mob(r, M)
    pole = pz(-M[3] / M[2]) if M[2] != 0 else None
    det = abs(M[0] * M[3] - M[1] * M[2])
    return Step("Mobius", m.transform, m.transform_circle, m.transform_line, lambda z: mob(M, z), pole,
                (lambda dist: det / abs(M[2]) ** 2 / dist ** 2) if pole else (lambda dist: abs(M[0] / M[3])), mobm=M, obj=m,
                back=lambda: step_mobius(r, (M[3], -M[1], -M[2], M[0])))


def step_reflection(r, A, B):
    l = mkline(r, A, B, *flags(r))
    f = G.Reflection(l)
    a, u = cz(A), cz(sub(B, A))
    u /= abs(u)

    def ref(z):
        return INF if z == INF else a + u * u * (z - a).conjugate()
    k = r.randrange(2)
    t, i = u * u, a - u * u * a.conjugate()
    return Step("reflection", f.reflect if k else f.transform, f.reflect_circle if k else f.transform_circle,
                f.reflect_line if r.random() < .5 else f.transform_line, ref, anti=True,
                afm=((t.real, t.imag, t.imag, -t.real), pz(i)), obj=f, back=lambda: step_reflection(r, A, B))


def step_rotation(r, O, a, degrees):
    f = G.Rotation(wrap(r, O), a, degrees)
    th = a * pi / 180 if degrees else a
    u, o = complex(cos(th), sin(th)), cz(O)
    k = r.randrange(2)
    line = r.choice([f.rotate_line, f.transform_line, lambda l: l.rotate(a, wrap(r, O), degrees)])
    return Step("rotation", f.rotate if k else f.transform, f.rotate_circle if k else f.transform_circle, line,
                lambda z: INF if z == INF else o + u * (z - o), afm=((u.real, -u.imag, u.imag, u.real), pz(o - u * o)), obj=f,
                back=lambda: step_rotation(r, O, -a, degrees))


def step_homothety(r, O, k):
    f = G.Homothety(wrap(r, O), k)
    o = cz(O)
    return Step("homothety", f.transform, f.transform_circle, lambda l: f.as_affine().transform_line(l),
                lambda z: INF if z == INF else o + k * (z - o), der=lambda _: abs(k), afm=((k, 0, 0, k), pz(o - k * o)), obj=f,
                back=lambda: step_homothety(r, O, 1 / k))


def step_translation(r, v):
    f = G.Affine(np.eye(2) if r.random() < .5 else [[1, 0], [0, 1]], wrap(r, v))
    w = cz(v)
    line = f.transform_line if r.random() < .5 else lambda l: l.translate(wrap(r, v))

    def circle(c):
        # no circle action is documented for affine maps: the ellipse action is
        e = f.transform_ellipse(c)
        cx_, rm, rn, _ = P2(e.center), float(e.rmajor), float(e.rminor), 0
        if abs(rm - rn) > 1e-9 * rm:
            raise Fail("the image of a circle by a translation is a circle", got=repr((rm, rn)))
        return G.Circle(cx_, rm)
    return Step("translation", f.transform, circle, line, lambda z: INF if z == INF else z + w, afm=((1, 0, 0, 1), v), obj=f,
                back=lambda: step_translation(r, mul(-1, v)))


def rnd_pole(r, cur, how):
    """a pole on the current curve or well apart from it"""
    if isinstance(cur, G.Circle):
        C, R = circ_of(cur)
        if how == "on":
            return polar(C, R, r.choice([0, pi / 2, pi, -pi / 2, pi / 4, r.uniform(0, TAU)]))
        t = r.uniform(0, TAU)
        return polar(C, R * r.choice([0, r.uniform(.05, .7), r.uniform(1.3, 4)]), t)
    A, B = line_of(cur)
    o, u = lerp(A, B, r.choice([0, .5, 1, r.uniform(-1, 2)])), mul(1 / d(A, B), sub(B, A))
    if how == "on":
        return o
    return add(o, mul(sgn(r) * r.uniform(.3, 4), perp(u)))


def next_step(r, cur, how=None, only=None):
    name = r.choice(only or ["inversion", "inversion", "Mobius", "Mobius", "reflection", "rotation", "homothety", "translation"])
    how = how or ("on" if r.random() < .35 else "off")
    if name == "inversion":
        return step_inversion(r, rnd_pole(r, cur, how), r.choice([1, -1, 2, 4, -3, sgn(r) * r.uniform(.5, 9)]))
    if name == "Mobius":
        if r.random() < .12:
            return step_mobius(r, mob_gen(r, True))
        p = cz(rnd_pole(r, cur, how))
        while True:
            a, b, c = cplx(r), cplx(r), cplx(r)
            if abs(c) < .5 or abs(a) < .3 or abs(-a * c * p - b * c) < .3:
                continue
            return step_mobius(r, (a, b, c, -c * p))
    if name == "reflection":
        A, B = line_pts(r)
        if d(A, B) < .1 or norm(A) > 20:
            A, B = (0, 0), (1, 2)
        return step_reflection(r, A, B)
    if name == "rotation":
        return step_rotation(r, pt(r), *((deg(r), True) if r.random() < .6 else (rad(r), False)))
    if name == "homothety":
        return step_homothety(r, pt(r), r.choice([-1, 2, .5, -2, sgn(r) * r.uniform(.3, 3)]))
    return step_translation(r, pt(r))


def gap_to(cur, p):
    return on_gcircle(G, cur, p)


def reasonable(cur):
    if isinstance(cur, G.Circle):
        C, R = circ_of(cur)
        return .02 < R < 60 and norm(C) < 60 and norm(C) < 100 * R
    A, B = line_of(cur)
    return .02 < d(A, B) < 100 and norm(A) < 100 and abs(line_dist(A, B, (0, 0))) < 60


def start(r):
    if r.random() < .6:
        C, R = gen_circ(r, 20)
        if not .1 < R < 20 or norm(C) > 30:
            raise Skip()
        return mkc(r, C, R)
    A, B = line_pts(r)
    if d(A, B) < .1 or norm(A) > 30 or norm(B) > 30:
        raise Skip()
    return mkline(r, A, B, True, True)


def marks(cur, n=9):
    """points of the current curve, as complex numbers"""
    if isinstance(cur, G.Circle):
        C, R = circ_of(cur)
        return [cz(polar(C, R, TAU * i / n + .3)) for i in range(n)]
    A, B = line_of(cur)
    u = mul(1 / d(A, B), sub(B, A))
    o = foot(A, B, (0, 0))
    return [cz(add(o, mul(t, u))) for t in (-20, -5, -2, -.7, 0, .4, 1.5, 6, 30)]


def apply(cx, s, cur, trail):
    """one step on the current curve, with all local oracles"""
    through = s.pole is None or gap_to(cur, s.pole) <= 1e-11 * (1 + norm(s.pole))
    if not through:
        g = gap_to(cur, s.pole)
        ref = circ_of(cur)[1] if isinstance(cur, G.Circle) else 1.0
        if g < .05 * ref or g < .02:
            return None
    isc = isinstance(cur, G.Circle)
    out = (s.circle if isc else s.line)(cur)
    if s.pole is None:
        want = G.Circle if isc else G.Line
    else:
        want = G.Line if through else G.Circle
    cx.ok(isinstance(out, want), "step %s on a %s%s: kind of the image" % (s.name, kind(G, cur), "" if s.pole is None else " through the pole" if through else " apart from the pole"),
          current=cur, got=out, trail=trail)
    if want is G.Line:
        cx.ok(bool(out.extendA) and bool(out.extendB), "step %s: the image line is infinite" % s.name, got=out, trail=trail)
    # the local oracle: images of the points of the library's current curve
    for z in marks(cur):
        w = s.ref(z)
        if w == INF or abs(w) > 300 or (s.pole is not None and abs(z - cz(s.pole)) < 1e-3):
            continue
        P = pz(w)
        v = P2(s.point(pz(z)))
        dist = d(pz(z), s.pole) if s.pole is not None else 1.0
        L = s.der(dist) if s.der else 1.0
        e = 1e-12 * (1 + abs(w) + L * (1 + abs(z)))
        cx.near(v, P, e * 10, "step %s: image of a point" % s.name, z=z, trail=trail)
        if isinstance(out, G.Circle):
            C, R = circ_of(out)
            e = 1e-8 * (1 + norm(C) + R + L * (1 + abs(z)))
        else:
            A, B = line_of(out)
            e = 1e-8 * (1 + norm(A) + norm(P) + L * (1 + abs(z))) * (1 + d(A, P) / d(A, B))
        cx.near(on_gcircle(G, out, P), 0, e, "step %s on a %s: the image contains the image of every point" % (s.name, kind(G, cur)), z=z, current=cur, got=out, trail=trail)
    if not reasonable(out):
        return None
    return out


@family("C27", 2200, ["circle>line", "line>circle", "circle>circle", "line>line", "length 5+"])
def walk(cx):
    """a random walk on circles and lines"""
    r = cx.r
    cur = start(r)
    first = cur
    n = r.randint(2, 8)
    trail, steps = [], []
    follow = marks(cur)         # followed from the beginning by the reference
    err = [1e-14 * (1 + abs(z)) for z in follow]
    cx.put(start=first)
    for i in range(n):
        for attempt in range(6):
            s = next_step(r, cur)
            trail.append(s.name + ":" + kind(G, cur))
            k0 = kind(G, cur)
            new = apply(cx, s, cur, list(trail))
            if new is not None:
                break
            trail.pop()
        else:
            break
        steps.append(s)
        cx.cls(k0 + ">" + kind(G, new))
        # global oracle: the points of the first curve, mapped by the whole chain
        f2, e2 = [], []
        for z, e in zip(follow, err):
            w = s.ref(z)
            if w == INF or abs(w) > 100:
                continue
            dist = d(pz(z), s.pole) if s.pole is not None else 1.0
            if dist < .03:
                continue
            L = s.der(dist) if s.der else 1.0
            e = e * L + 1e-13 * (1 + abs(w) + abs(z) * L)
            f2.append(w); e2.append(e)
        follow, err = f2, e2
        cur = new
    cx.put(start=first, trail=trail)
    if len(steps) < 2:
        raise Skip()
    if len(steps) >= 5:
        cx.cls("length 5+")
    for z, e in zip(follow, err):
        if e > 1e-9:
            continue
        if isinstance(cur, G.Line):
            A, B = line_of(cur)
            m = 1 + d(A, pz(z)) / d(A, B)
        else:
            m = 1
        cx.near(on_gcircle(G, cur, pz(z)), 0, 1e-6 * (1 + abs(z)) * m, "the final curve contains the images by the whole chain", trail=trail, got=cur, z=z)
    # and back again, through the inverse maps in the reverse order
    if r.random() < .5 and len(steps) <= 5:
        back = cur
        for s in reversed(steps):
            b = s.back()
            # the pole of the inverse map is the image of infinity: exact for none of them
            if b.pole is not None:
                g = gap_to(back, b.pole)
                ref = circ_of(back)[1] if isinstance(back, G.Circle) else 1.0
                if g < .05 * ref or g < .02:
                    return
            back = (b.circle if isinstance(back, G.Circle) else b.line)(back)
            if not reasonable(back):
                return
        cx.ok(kind(G, back) == kind(G, first), "the inverse maps in the reverse order give back the kind", trail=trail, start=first, got=back)
        for z in marks(first):
            if abs(z) < 30:
                cx.near(on_gcircle(G, back, pz(z)), 0, 1e-5 * (1 + abs(z)), "the inverse maps in the reverse order give back the curve", trail=trail, start=first, got=back)
        cx.cls("back")


def bracket(r, objs, comp):
    """compose a sequence (the first is applied first) with random brackets and sides"""
    objs = list(objs)
    while len(objs) > 1:
        i = r.randrange(len(objs) - 1)
        f, g = objs[i], objs[i + 1]      # g o f
        k = r.randrange(3)
        objs[i:i + 2] = [f.compose(g) if k == 0 else f.compose(g, left=True) if k == 1 else g.compose(f, left=False)]
    return objs[0]


def image_same(cx, g, h, label, tol=1e-6, **info):
    cx.ok(kind(G, g) == kind(G, h), label + ": kind", one=g, other=h, **info)
    for z in marks(g, 5):
        if abs(z) < 50:
            cx.near(on_gcircle(G, h, pz(z)), 0, tol * (1 + abs(z)), label, one=g, other=h, **info)


@family("C27", 900, ["circle", "line", "image line"])
def mobius_grouped(cx):
    """Mobius maps composed in any grouping against the step by step image"""
    r = cx.r
    first = cur = start(r)
    n = r.randint(2, 5)
    steps = []
    L = 1.0
    W = (1, 0, 0, 1)
    for i in range(n):
        for attempt in range(8):
            s = next_step(r, cur, how="off" if i < n - 1 else None, only=["Mobius"])
            new = apply(cx, s, cur, [x.mobm for x in steps] + [s.mobm])
            if new is not None:
                break
        else:
            raise Skip()
        steps.append(s); cur = new
        W = mob_mul(s.mobm, W)
    Ms = [s.mobm for s in steps]
    cx.put(start=first, maps=Ms)
    for M in Ms:
        L *= lip(M)
    if L > 1e6:
        raise Skip()
    T = bracket(r, [s.obj for s in steps], None)
    cx.near(proj_dist(mat(T), W), 0, 1e-12 * L * 10, "any grouping composes to the product of the matrices", maps=Ms)
    z = r.choice([INF, 0j, cplx(r)])
    seq = ref = z
    p = as_pt(z)
    for s in steps:
        p = s.point(p)
        ref = s.ref(ref)
    cx.near(chord(to_c(p), to_c(T.transform(as_pt(z)))), 0, 1e-11 * L, "a point: the composed map and the maps one after the other", maps=Ms, z=z)
    # conditioning of the composed map on the first curve
    pole = -W[3] / W[2] if abs(W[2]) > 1e-9 * max(map(abs, W)) else None
    if pole is None or abs(pole) > 1e3:
        raise Skip()
    g = gap_to(first, pz(pole))
    if isinstance(cur, G.Circle):
        ref = circ_of(first)[1] if isinstance(first, G.Circle) else 1.0
        if g < .01 * ref or g < .005:
            raise Skip()
        out = T.transform_circle(first) if isinstance(first, G.Circle) else T.transform_line(first)
        image_same(cx, cur, out, "the composed map and the maps one after the other", maps=Ms, start=first)
    else:
        # a line within rounding: the composed map may see a circle of huge radius
        cx.cls("image line")
        out = T.transform_circle(first) if isinstance(first, G.Circle) else T.transform_line(first)
        A, B = line_of(cur)
        for z in marks(first):
            w = mob(W, z)
            if w != INF and abs(w) < 20:
                K = out
                if isinstance(K, G.Circle):
                    C, R = circ_of(K)
                    cx.ok(R > 1e4, "the composed map sends the curve to a line", got=K, maps=Ms, start=first)
                    cx.near(abs(d(C, pz(w)) - R), 0, 1e-3, "the composed map sends the curve to the line", maps=Ms, start=first)
                else:
                    cx.near(on_gcircle(G, K, pz(w)), 0, 1e-5 * (1 + abs(w)), "the composed map sends the curve to the line", maps=Ms, start=first)
    cx.cls(kind(G, first))


@family("C27", 700, ["circle", "line"])
def inversion_pairs(cx):
    """an even number of inversions: composed two by two to Mobius maps"""
    r = cx.r
    first = cur = start(r)
    n = r.choice([1, 1, 2, 3])
    steps = []
    for i in range(2 * n):
        for attempt in range(8):
            s = next_step(r, cur, how="off", only=["inversion"])
            new = apply(cx, s, cur, ["inversions"])
            if new is not None:
                break
        else:
            raise Skip()
        steps.append(s); cur = new
    data = [(s.pole, float(s.obj.power)) for s in steps]
    cx.put(start=first, inversions=data)
    maps = []
    for f, g in zip(steps[::2], steps[1::2]):
        k = r.randrange(3)
        maps.append(f.obj.compose(g.obj) if k == 0 else f.obj.compose(g.obj, left=True) if k == 1 else g.obj.compose(f.obj, left=False))
    L = 1.0
    for m in maps:
        L *= lip(mat(m))
    if L > 1e7:
        raise Skip()
    for T in (maps, [bracket(r, maps, None)]):
        for z in (0j, cplx(r), INF):
            p = q = as_pt(z)
            for s in steps:
                p = s.ref(cz(p) if p != inf else INF)
                p = as_pt(p)
            for m in T:
                q = m.transform(q)
            cx.near(chord(to_c(q), INF if p == inf else cz(p)), 0, 1e-11 * L * 10, "a point: two inversions and the composed map", inversions=data, z=z)
        out = first
        for m in T:
            M = mat(m)
            if abs(M[2]) > 1e-8 * max(map(abs, M)):
                pole = pz(-M[3] / M[2])
                ref = circ_of(out)[1] if isinstance(out, G.Circle) else 1.0
                g = gap_to(out, pole)
                if g < .02 * ref or g < .01 or norm(pole) > 1e3:
                    break
            out = m.transform_circle(out) if isinstance(out, G.Circle) else m.transform_line(out)
            if not reasonable(out):
                break
        else:
            image_same(cx, cur, out, "inversions one after the other and the composed maps", inversions=data, start=first)
            cx.cls(kind(G, first))


@family("C27", 900, ["circle", "line", "points"])
def affine_grouped(cx):
    """similarities as affine maps, composed in any grouping"""
    r = cx.r
    first = cur = start(r)
    n = r.randint(2, 6)
    steps = []
    W = ((1, 0, 0, 1), (0, 0))
    for i in range(n):
        s = next_step(r, cur, only=["reflection", "rotation", "homothety", "translation"])
        new = apply(cx, s, cur, [x.name for x in steps] + [s.name])
        if new is None:
            raise Skip()
        steps.append(s); cur = new
        W = af_mul(s.afm, W)
    names = [s.name for s in steps]
    cx.put(start=first, maps=[(s.name, s.afm) for s in steps])
    fs = [s.obj if s.name == "translation" else s.obj.as_affine() for s in steps]
    T = bracket(r, fs, None)
    K = coef(T)
    sc = (1 + max(abs(x) for x in W[0])) * (1 + max(abs(x) for x in W[1])) * 1000
    cx.near(K[0] + K[1], W[0] + W[1], 1e-12 * sc, "any grouping composes to the same affine map", maps=names)
    for P in PROBE[:3]:
        p = P
        for s in steps:
            p = s.point(p)
        cx.near(P2(p), P2(T.transform(P)), 1e-12 * sc * 10, "a point: the composed map and the maps one after the other", maps=names)
    cx.cls("points")
    if isinstance(first, G.Circle):
        e = T.transform_ellipse(first)
        C, R = circ_of(cur)
        cx.near(P2(e.center), C, 1e-11 * sc, "centre: the composed map and the maps one after the other", maps=names, start=first)
        cx.near((float(e.rmajor), float(e.rminor)), (R, R), 1e-7 * (1 + R) * 10, "radius: the composed map and the maps one after the other", maps=names, start=first)
        cx.cls("circle")
    else:
        out = T.transform_line(first)
        image_same(cx, cur, out, "the composed map and the maps one after the other", maps=names, start=first)
        A, B = line_of(cur)
        C, D = line_of(out)
        cx.near(A + B, C + D, 1e-11 * sc, "the points of the line: the composed map and the maps one after the other", maps=names, start=first)
        cx.cls("line")
