"""Coincidences: the operations of the table on data where coordinates, lengths
or angles of different operands happen to be equal, opposite, null or halfway,
observed against the same operation on the data moved to a generic position,
where the coincidences are gone.  One family for each property."""
from math import pi, inf
import re
from ..core import prop, family, Fail, Skip, show, load, META
from .. import geo
from ..geo import TAU
from .ops import OPS, Sim, Style, build, canon, gap, size, jiggle
from .symmetry import outcome, bad, gen, valid, moved_by

G = load()

WHERE = [
    (r"Line\.(includes|is_)", "C01"),
    (r"Line\.(projection|distance|reflection|perpendicular)$", "C02"),
    (r"Projection\.project$|Reflection\.reflect$", "C02"),
    (r".*intersection", "C03"),
    (r"Circle\.orthogonal", "C05"),
    (r"Circle\.|radical|circleAB|circleOA", "C04"),
    (r"Arc\.", "C06"),
    (r"mid_circles|Inversion\.from", "C07"),
    (r"Inversion\.|Line\.invert", "C08"),
    (r"Steiner", "C09"),
    (r"Ellipse\.(is_equal|from_five)", "C11"),
    (r"Ellipse\.(Lowner|from_boundary)", "C12"),
    (r"Ellipse\.", "C10"),
    (r"Triangle\.(a|b|c|angleA|angleB|angleC|edges|orientation|flatness|is_acute|contains)$", "C13"),
    (r"Triangle\.", "C14"),
    (r"Affine\.from_ellipse|Affine\.transform_|Line\.(rotate|translate)", "C17"),
    (r"(Rotation|Reflection|Homothety|Scaling)\.\w*_(circle|ellipse|line)", "C17"),
    (r"Affine\.", "C15"),
    (r"(Rotation|Reflection|Homothety|Scaling|ScalingXY|Shear|Projection)\.", "C16"),
    (r"Mobius\.from_mapping_three|cross_ratio", "C19"),
    (r"Mobius\.transform_", "C20"),
    (r"Mobius\.", "C18"),
]


def home(name):
    for pat, pid in WHERE:
        if re.match(pat, name):
            return pid
    raise AssertionError(name)


# ------------------------------------------------------------------ slots
PTS = {"line": (1, 2), "circ": (1,), "arc": (1,), "ell": (1,), "tri": (1, 2, 3), "inv": (1,)}
LENS = {"len": (1,), "circ": (2,), "arc": (2,), "ell": (2, 3)}
ANGS = {"rot": (1,), "dir": (1,), "arc": (3, 4), "ell": (4,)}


def slots(specs):
    pts, lens, angs, nums = [], [], [], []
    for i, s in enumerate(specs):
        k = s[0]
        if k in ("pt", "vec"):
            pts.append((i, None))
        for j in PTS.get(k, ()):
            pts.append((i, j))
        if k == "pts":
            pts += [(i, ("n", j)) for j in range(len(s[1]))]
        for j in LENS.get(k, ()):
            lens.append((i, j))
        for j in ANGS.get(k, ()):
            angs.append((i, j))
        if k in ("num", "pow"):
            nums.append((i, 1))
        if k == "inv":
            nums.append((i, 2))
    return pts, lens, angs, nums


def get(specs, a):
    i, j = a
    s = specs[i]
    if j is None:
        return tuple(s[1:3])
    if isinstance(j, tuple):
        return tuple(s[1][j[1]])
    return s[j]


def put(specs, a, v):
    i, j = a
    s = specs[i]
    if j is None:
        specs[i] = (s[0],) + tuple(v)
    elif isinstance(j, tuple):
        ps = list(s[1])
        ps[j[1]] = tuple(v)
        specs[i] = (s[0], ps)
    else:
        specs[i] = s[:j] + (v,) + s[j + 1:]


def twist(r, specs):
    """one coincidence; returns its name"""
    pts, lens, angs, nums = slots(specs)
    kinds = ["xy"] * (6 if len(pts) > 1 else 0) + ["self"] * (3 if pts else 0) + ["len"] * (2 if lens else 0) \
        + ["ang"] * (2 if angs else 0) + ["num"] * (2 if nums else 0)
    if not kinds:
        raise Skip()
    k = r.choice(kinds)
    if k == "xy":
        a, b = r.sample(pts, 2)
        p, q = list(get(specs, a)), get(specs, b)
        w = r.choice(["x", "y", "x", "y", "x=-x", "y=-y", "x=y", "swap", "mid", "same", "opp"])
        if w == "x":
            p[0] = q[0]
        elif w == "y":
            p[1] = q[1]
        elif w == "x=-x":
            p[0] = -q[0]
        elif w == "y=-y":
            p[1] = -q[1]
        elif w == "x=y":
            i = r.randrange(2)
            p[i] = q[1 - i]
        elif w == "swap":
            p = [q[1], q[0]]
        elif w == "mid":
            c = get(specs, r.choice(pts))
            if r.random() < .5:
                i = r.randrange(2)
                p[i] = (q[i] + c[i]) / 2
            else:
                p = [(q[0] + c[0]) / 2, (q[1] + c[1]) / 2]
        elif w == "same":
            p = list(q)
        else:
            p = [-q[0], -q[1]]
        put(specs, a, tuple(p))
        return "two points: " + w
    if k == "self":
        a = r.choice(pts)
        p = list(get(specs, a))
        w = r.choice(["x=0", "y=0", "x=y", "x=-y", "zero", "round"])
        if w == "x=0":
            p[0] = 0.0
        elif w == "y=0":
            p[1] = 0.0
        elif w == "x=y":
            p[1] = p[0]
        elif w == "x=-y":
            p[1] = -p[0]
        elif w == "zero":
            p = [0.0, 0.0]
        else:
            p = [float(round(p[0])), float(round(p[1]))]
        put(specs, a, tuple(p))
        return "one point: " + w
    if k == "len":
        a = r.choice(lens)
        c = r.random()
        if c < .3 and len(lens) > 1:
            put(specs, a, get(specs, r.choice(lens)))
            return "equal lengths"
        if c < .5 and len(lens) > 1:
            put(specs, a, get(specs, r.choice(lens)) * r.choice([2, .5]))
            return "double length"
        if c < .7 and len(pts) > 1:
            p, q = r.sample(pts, 2)
            v = geo.d(get(specs, p), get(specs, q))
            put(specs, a, v)
            return "length between points"
        if c < .8 and pts:
            put(specs, a, abs(get(specs, r.choice(pts))[r.randrange(2)]))
            return "length equal to a coordinate"
        put(specs, a, float(r.choice([1, 1, 2, 3, 5])))
        return "integral length"
    if k == "ang":
        a = r.choice(angs)
        c = r.random()
        if c < .3 and len(angs) > 1:
            put(specs, a, get(specs, r.choice(angs)) + r.choice([0, 0, pi / 2, pi, -pi, TAU]))
            return "related angles"
        if c < .5 and len(angs) > 1:
            put(specs, a, -get(specs, r.choice(angs)))
            return "opposite angles"
        put(specs, a, r.choice([0, 30, 45, 60, 90, 120, 135, 180, 225, 270, 315, 360, -45, -90, -180, 450, 720]) * pi / 180)
        return "special angle"
    a = r.choice(nums)
    c = r.random()
    if c < .3 and len(nums) > 1:
        put(specs, a, get(specs, r.choice(nums)) * r.choice([1, 1, -1]))
        return "equal factors"
    if c < .5 and lens and specs[a[0]][0] in ("inv", "pow"):
        put(specs, a, geo.sgn(r) * get(specs, r.choice(lens)) ** 2)
        return "power equal to a squared length"
    put(specs, a, float(r.choice([1, 1, -1, 2, -2, .5, -.5])))
    return "special factor"


def generic(r, o):
    a = r.uniform(.2, TAU) if o.turn else 0
    return Sim(r.choice([1, 1, 1, r.uniform(.5, 2)]), a, o.mirror and r.random() < .3, (r.uniform(-3, 3), r.uniform(-3, 3)))


def reference(o, specs):
    """outcome, where any trouble means that these data are no reference"""
    try:
        return outcome(o, specs, Style())
    except Skip:
        raise
    except Exception:
        raise Skip()


def thin(c):
    """a result with a very thin ellipse"""
    if not isinstance(c, (tuple, list)):
        return False
    if c and c[0] == "ell":
        return max(c[2:4]) > 50 * min(c[2:4])
    return any(thin(x) for x in c)


def distinct_enough(specs):
    """no two points, lengths or coordinates nearly but not exactly equal"""
    pts, lens, angs, _ = slots(specs)
    ps = [get(specs, a) for a in pts]
    for i, p in enumerate(ps):
        for q in ps[:i] + [(0.0, 0.0)]:
            if 0 < geo.d(p, q) < 1e-2:
                return False
    return True


def convex4(ps):
    """the four points are in convex position, clearly"""
    c = geo.cen(*ps)
    import math
    qs = sorted(ps, key=lambda p: math.atan2(p[1] - c[1], p[0] - c[0]))
    for i in range(4):
        u, v = geo.sub(qs[(i + 1) % 4], qs[i]), geo.sub(qs[(i + 2) % 4], qs[(i + 1) % 4])
        if not geo.cross(u, v) > .05 * geo.norm(u) * geo.norm(v):
            return False
    return True


def admissible(o, specs):
    if not all(valid(s) for s in specs) or max(size(s) for s in specs) > 60 or not distinct_enough(specs):
        return False
    for s in specs:
        if s[0] == "arc" and abs(geo.ang_mod(s[3] - s[4])) < 1e-2:
            return False
        if s[0] == "ell" and s[2] > 12 * s[3]:
            return False
    if "two_points_on_circle" in o.name and abs(geo.ang_mod(specs[1][1] - specs[2][1])) < 1e-2:
        return False
    if o.name == "Triangle.contains":
        A, B, C = specs[0][1:]
        M, D = specs[1][1:], geo.cross(geo.sub(B, A), geo.sub(C, A))
        if min(abs(geo.cross(geo.sub(q, p), geo.sub(M, p))) for p, q in ((A, B), (B, C), (C, A))) < 1e-3 * abs(D):
            return False
    if o.name == "Circle.contains" and abs(geo.d(specs[0][1], specs[1][1:]) / specs[0][2] - 1) < 1e-3:
        return False
    if o.name == "Ellipse.contains" and abs(geo.ell_q(specs[0][1:], specs[1][1:]) - 1) < 1e-3:
        return False
    if o.name == "Circle.angle":
        (_, c1, r1), (_, c2, r2) = specs
        if not abs(r1 - r2) * 1.01 < geo.d(c1, c2) - 1e-2 * min(r1, r2) < .98 * (r1 + r2):
            return False
    if o.name == "Ellipse.from_boundary4" and not convex4(specs[0][1]):
        return False
    return True


def coincident(ops_):
    def run(cx):
        r = cx.r
        o = ops_[cx.idx % len(ops_)]
        for _ in range(20):
            specs = list(gen(o, r))
            names = [twist(r, specs) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
            if admissible(o, specs):
                break
        else:
            raise Skip()
        S = generic(r, o)
        cx.put(operation=o.name, operands=specs, coincidences=names, ratio=S.k, angle=S.a, mirror=S.m, translation=S.t)
        away = [S(s) for s in specs]
        # the data are judged in general position, and only if stable there
        ref = reference(o, away)
        if thin(ref):
            raise Skip()
        m = 0.0
        for e in (1e-6,) * (16 if o.exact else 6) + (1e-11,) * 3:
            near = reference(o, [jiggle(r, s, e) for s in away])
            if bad(near) != bad(ref):
                raise Skip()
            if bad(ref):
                continue
            g = gap(ref, near)
            if not g <= 1e-3 * (1 + size(ref)):
                raise Skip()
            if e < 1e-8:
                m = max(m, g)
        if r.random() < .25:                   # neighbouring data, or their parts, were seen just before
            try:
                outcome(o, [jiggle(r, s, geo.logu(r, -8, -4)) if r.random() < .7 else s for s in specs], Style())
            except Exception:
                pass
        got = outcome(o, specs, Style())
        cx.cls(o.name)
        for nm in names:
            cx.cls(nm)
        cx.ok(bad(got) == bad(ref), o.name + ": accepts the data in general position and rejects it here (or conversely)",
              general=ref, here=got)
        if bad(ref):
            return
        want = S(got)
        tol = 1e-8 * (1 + max(size(ref), size(got)) + max(size(s) for s in specs)) * max(1.0, S.k ** 2, 1 / S.k) + 100 * m
        e = gap(want, ref)
        cx.ok(e <= tol, o.name + ": coinciding coordinates, lengths or angles make no difference", here=got, here_moved=want,
              general=ref, error=e, tol=tol)
    return run


def scaled(ops_):
    """the same figure in another unit of length"""
    def run(cx):
        r = cx.r
        o = ops_[cx.idx % len(ops_)]
        if r.random() < .4:
            k = 10.0 ** r.uniform(1.5, 9.5)
        else:
            k = 10.0 ** -r.uniform(1.5, 9.5)
        if moved_by(cx, o, Sim(k)):
            cx.cls("tiny" if k < 1 else "huge")
    return run


def far(ops_):
    """the same figure far from the origin: the result may only differ by what the rounding of the data explains"""
    def run(cx):
        r = cx.r
        o = ops_[cx.idx % len(ops_)]
        mob = "Mobius" in o.name or o.name == "Inversion.compose"
        T = 10.0 ** (r.uniform(1, 2.7) if mob else r.uniform(2, 4.5))
        S = Sim(1.0, 0.0, False, geo.polar((0, 0), T, r.choice([0, pi / 2, pi, -pi / 2, r.uniform(0, TAU), r.uniform(0, TAU)])))
        specs = gen(o, r)
        cx.put(operation=o.name, operands=specs, translation=S.t)
        base = outcome(o, specs, Style())
        e, m = 1e3 * EPS * T, 0.0
        for _ in range(0 if o.exact else 4):
            near = outcome(o, [jiggle(r, s, e) for s in specs], Style())
            if bad(near) != bad(base):
                raise Skip()
            if not bad(base):
                m = max(m, gap(base, near) / 1e3)
        if not m < 1e-3:
            raise Skip()
        got = outcome(o, [S(s) for s in specs], Style())
        cx.ok(bad(got) == bad(base), o.name + ": accepts the data close to the origin and rejects it far from it (or conversely)",
              here=base, there=got)
        cx.cls(o.name)
        if bad(base):
            return
        tol = 2e3 * (m + EPS * T * (1 + size(base)) * (T if mob else 1))
        back = S.inverse()(got)
        g = gap(base, back)
        cx.ok(g <= tol, o.name + ": far from the origin, as close to it", here=base, there=got, back=back, error=g, tol=tol)
    return run


EPS = 2.3e-16
BY = {}
for _o in OPS:
    if _o.sim:
        BY.setdefault(home(_o.name), []).append(_o)
for _pid, _ops in sorted(BY.items()):
    # these properties speak of all positions of their operands
    _c = [o for o in _ops if not o.name.endswith(" tangent")]
    family(_pid, 500 + 90 * len(_c), [o.name for o in _c], name="coincident", factor=25)(coincident(_c))
    # and of all sizes
    family(_pid, 200 + 60 * len(_c), [o.name for o in _c], name="far", factor=25)(far(_c))
    family(_pid, 200 + (600 if _pid == "C20" else 60) * len(_ops), [o.name for o in _ops] + ["tiny", "huge"], name="scaled", factor=25)(scaled(_ops))
