"""C22 operands untouched and history independence, C23 rejected arguments,
C24 unimodular matrices."""
import copy
import math
import random
from math import pi, sqrt, inf
import numpy as np
from .. import core
from ..core import prop, family, Fail, Skip, show, load, freeze, PUBLIC, PURITY
from .. import geo
from . import ops
from .ops import OPS, Op, Style, build, canon, gap, size, CIRC, LINE, FULL, ELL, TRI, INV, ARC, P, LEN, ROT, BOOL, FACTOR, DIRV, each

G = load()
PURITY.add("C22")

prop("C22", [], "Sessions of calls on shared objects; snapshots of all operands are compared around every public call; every call is "
     "replayed on fresh objects in another order.")


# --------------------------------------------------- operations for the sessions
class Spec:
    """description of a map as a spec tuple: ("mob", 4 complex), ("aff", 6 floats)"""


def MOB(r):
    return ("mob", geo.mob_gen(r, None))


def AFF(r):
    while True:
        M = [r.choice([r.randint(-3, 3), r.uniform(-3, 3)]) for _ in range(4)]
        if abs(M[0] * M[3] - M[1] * M[2]) > .2:
            return ("aff", tuple(M), geo.pt(r))


def build2(s, st):
    if s[0] == "mob":
        a, b, c, d = s[1]
        M = [[a, b], [c, d]]
        return G.Mobius(np.array(M) if st.r is not None and st.r.random() < .5 else M)
    if s[0] == "aff":
        a, b, c, d = s[1]
        M = [[a, b], [c, d]]
        return G.Affine(np.array(M, dtype=float) if st.r is not None and st.r.random() < .5 else M, st.p(s[2]))
    if s[0] == "rotation":
        a, dg = st.ang(s[2])
        return G.Rotation(st.p(s[1]), a, dg)
    if s[0] == "homothety":
        return G.Homothety(st.p(s[1]), st.n(s[2]))
    if s[0] == "scaling":
        return G.Scaling(st.p(s[1]), st.p(s[2]), st.n(s[3]))
    if s[0] == "scalingxy":
        return G.ScalingXY(st.p(s[1]), st.n(s[2]), st.n(s[3]))
    if s[0] == "shearing":
        a, dg = st.ang(s[4], False)
        return G.Shear(st.p(s[1]), st.p(s[2]), st.n(s[3]), a, dg)
    if s[0] == "reflection":
        return G.Reflection(G.Line(st.p(s[1]), st.p(s[2])))
    if s[0] == "projection":
        return G.Projection(G.Line(st.p(s[1]), st.p(s[2])), None if s[3] is None else G.Line(st.p(s[3]), st.p(s[4])))
    if s[0] == "rows":
        return np.array(s[1], dtype=float) if st.r is None or st.r.random() < .5 else [list(p) for p in s[1]]
    return build(G, s, st)


def ROTN(r):
    return ("rotation", geo.pt(r), ROT(r)[1])


def HOMO(r):
    return ("homothety", geo.pt(r), FACTOR(r)[1])


def SCAL(r):
    return ("scaling", geo.pt(r), DIRV(r)[1:], FACTOR(r)[1])


def SCXY(r):
    return ("scalingxy", geo.pt(r), FACTOR(r)[1], FACTOR(r)[1])


def SHEA(r):
    s = ops.shear(r)
    return ("shearing", s[0][1:], s[1][1:], s[2][1], s[3][1])


def REFL(r):
    return ("reflection",) + tuple(geo.line_pts(r))


def PROJ(r):
    l, m = ops.crossing(r)
    return ("projection", l[1], l[2]) + ((None, None) if r.random() < .4 else (m[1], m[2]))


def ROWS(r):
    return ("rows", tuple(geo.pt(r) for _ in range(r.randint(1, 4))))


MORE = []


def more(name, gen, f):
    MORE.append(Op(name, gen, f, None))


for nm, gen in (("Rotation", ROTN), ("Homothety", HOMO), ("Scaling", SCAL), ("ScalingXY", SCXY), ("Shear", SHEA), ("Affine", AFF)):
    more(nm + ".transform rows", each(gen, ROWS), lambda G, f, M: f.transform(M))
for nm, gen in (("Rotation", ROTN), ("Homothety", HOMO), ("Scaling", SCAL), ("ScalingXY", SCXY), ("Shear", SHEA),
                ("Affine", AFF), ("Reflection", REFL), ("Projection", PROJ)):
    more(nm + ".get3x3matrix", each(gen), lambda G, f: f.get3x3matrix())
    more(nm + ".transform point", each(gen, P), lambda G, f, M: f.transform(M))
    if nm != "Affine":
        more(nm + ".as_affine obj", each(gen), lambda G, f: f.as_affine())
more("Affine.compose", each(AFF, AFF, BOOL), lambda G, f, g, b: f.compose(g, b))
more("Affine.inverse", each(AFF), lambda G, f: f.inverse())
more("Affine.transform_line", each(AFF, LINE), lambda G, f, l: f.transform_line(l))
more("Affine.transform_ellipse", each(AFF, ELL), lambda G, f, e: f.transform_ellipse(e))
more("Affine.transform_ellipse circle", each(AFF, CIRC), lambda G, f, e: f.transform_ellipse(e))
more("Mobius.compose", each(MOB, MOB, BOOL), lambda G, f, g, b: f.compose(g, b))
more("Mobius.inverse", each(MOB), lambda G, f: f.inverse())
more("Mobius.power", lambda r: [MOB(r), ("raw", r.randint(-4, 5))], lambda G, f, k: f.power(k))
more("Mobius.gpower", lambda r: [MOB(r), ("num", r.choice([.5, -1, 2, .3]))], lambda G, f, k: f.gpower(k))
more("Mobius.transform", each(MOB, P), lambda G, f, M: f.transform(M))
more("Mobius.transform inf", each(MOB), lambda G, f: f.transform(inf))
more("Mobius.fixed_points", each(MOB), lambda G, f: f.fixed_points())
more("Mobius.transform_circle", each(MOB, CIRC), lambda G, f, c: f.transform_circle(c))
more("Mobius.transform_line", each(MOB, FULL), lambda G, f, c: f.transform_line(c))
more("Mobius.abcd", each(MOB), lambda G, f: [f.a, f.b, f.c, f.d])
more("Mobius.from_mapping_one_circle", each(CIRC, CIRC), lambda G, a, b: G.Mobius.from_mapping_one_circle(a, b))
more("Line.direction_offset", each(LINE), lambda G, l: l.direction_offset())
more("Inversion.on_circle", each(CIRC), lambda G, c: G.Inversion.on_circle(c))
more("Ellipse.from_boundary4", each(ELL), lambda G, e: G.Ellipse.from_boundary4(e.path(5)[:4]))
more("Ellipse.from_center_and_matrix", each(ELL), lambda G, e: G.Ellipse.from_center_and_matrix(e.center, e.shape_matrix()))
more("Ellipse.from_equation", each(ELL), lambda G, e: G.Ellipse.from_equation(**e.equation()))
more("Circle.random_points", each(CIRC, ), lambda G, c: len(c.random_points(3)))
more("Ellipse.random_points", each(ELL, ), lambda G, c: len(c.random_points(3, "on")))
more("Triangle.random_points", each(TRI, ), lambda G, c: len(c.random_points(3, "on")))
more("Ellipse.point_from_angle vector", lambda r: [ELL(r), ("list_", tuple(geo.deg(r) for _ in range(r.choice([1, 2, 3, 3, 5, 20, 51, 100, 101]))))],
     lambda G, e, t: e.point_from_angle(t))
def NPTS(r):
    return ("raw", r.choice([1, 2, 3, 7, 20, 51, 100, 100, 101]))


more("Ellipse.path points", each(ELL, NPTS), lambda G, e, n: e.path(n))
more("Arc.path points", each(ARC, NPTS), lambda G, e, n: e.path(n))
more("unimodular_matrices", lambda r: [("raw", r.randint(1, 5))], lambda G, n: G.unimodular_matrices(n))
SHOWN = ("line", "circ", "ell", "tri", "inv", "mob", "aff", "rotation", "homothety", "scaling", "scalingxy", "shearing", "reflection", "projection", "arc")
ALL = OPS + MORE
OBJ = set(SHOWN) | {"pts", "rows"}


def build3(s, st):
    if s[0] == "list_":
        return np.array(s[1]) if st.r is not None and st.r.random() < .6 else list(s[1])
    return build2(s, st)


def approx(a, b, tol=1e-9):
    """two frozen-able values are the same value (up to the last digits)"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(a))) | ((a != a) & (b != b)) | (a == b)))
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(a))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(approx(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(approx(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, G.Ellipse):             # as sets: the axis direction has two angles, 180 degrees apart
        try:
            x, y = canon(G, a, "ell"), canon(G, b, "ell")
            if gap(x, y) <= tol * (1 + size(x)):
                return True
        except Exception:
            pass
    pub = PUBLIC.get(type(a).__name__)
    if pub is not None:
        return all(approx(getattr(a, k, None), getattr(b, k, None), tol) for k in pub)
    return a == b


def alike(o, a, b):
    """same result; the random order of the points in LownerJohnEllipse leaves the angle of a circle free"""
    if "LownerJohn" in o.name and isinstance(a, G.Ellipse) and isinstance(b, G.Ellipse):
        x, y = canon(G, a, "ell"), canon(G, b, "ell")
        return gap(x, y) <= 1e-6 * (1 + size(x))
    return approx(a, b)


def run(o, args):
    try:
        return o.call(G, *args)
    except (Fail, Skip):
        raise
    except Exception as e:
        return ("error", type(e).__name__)


def trycall(f):
    try:
        return f()
    except (Fail, Skip):
        raise
    except Exception as e:
        return ("error", type(e).__name__)


def settings():
    """what a caller shares with the library: the settings of numpy and of the output"""
    import sys
    import warnings
    return {"errors": np.geterr(), "printing": {k: str(v) for k, v in np.get_printoptions().items()},
            "stdout": id(sys.stdout), "stderr": id(sys.stderr), "warnings": [str(x) for x in warnings.filters]}


@family("C22", 700, [o.name for o in ALL], factor=15)
def sessions(cx):
    """calls on shared objects, replayed one by one on fresh objects in another order"""
    r = cx.r
    pool = {}
    calls = []
    n = r.randint(6, 14)
    for i in range(n):
        o = ALL[(cx.idx * 7 + i * 31 + r.randrange(5)) % len(ALL)] if i else ALL[cx.idx % len(ALL)]
        try:
            specs = o.gen(r)
        except Skip:
            continue
        refs = []
        for s in specs:
            have = pool.setdefault(s[0], [])
            if s[0] in OBJ and have and r.random() < .45:
                refs.append((s[0], r.randrange(len(have))))
            else:
                have.append(s)
                refs.append((s[0], len(have) - 1))
        calls.append((o, refs))
    seeds = r.random()
    styles = {}

    def make():
        rr = random.Random(seeds)
        return {k: [build3(s, Style(rr)) for s in v] for k, v in sorted(pool.items())}
    shared = make()
    before = {k: freeze(v) for k, v in shared.items()}
    cx.put(calls=[o.name for o, _ in calls], pool={k: len(v) for k, v in pool.items()}, first=pool.get(calls[0][1][0][0]) if calls and calls[0][1] else None)
    around = settings()
    results = [run(o, [shared[k][i] for k, i in refs]) for o, refs in calls]
    now = settings()
    for k in around:
        cx.ok(around[k] == now[k], "the settings of the caller are left as they were", setting=k, before=around[k], after=now[k])
    for k, v in shared.items():
        cx.ok(freeze(v) == before[k], "the objects of a session keep their state", kind=k)
    order = list(range(len(calls)))
    r.shuffle(order)
    again = make()
    for j in order:
        o, refs = calls[j]
        fresh = run(o, [again[k][i] for k, i in refs])
        cx.ok(alike(o, results[j], fresh), o.name + ": same result in another order on fresh objects", first=results[j], second=fresh)
        if not (isinstance(fresh, tuple) and fresh and isinstance(fresh[0], str) and fresh[0] == "error"):
            cx.cls(o.name)
    # and once more on the shared objects
    for j in order[:4]:
        o, refs = calls[j]
        if "random" in o.name:
            continue
        rep = run(o, [shared[k][i] for k, i in refs])
        cx.ok(alike(o, results[j], rep), o.name + ": same result when repeated", first=results[j], second=rep)


# ------------------------------------------------ memory between the calls
CODE = {}


def pristine():
    """the library, loaded anew: no call was ever made"""
    import importlib
    import importlib.machinery as im
    import sys
    get = im.SourceFileLoader.get_code

    def get_code(self, name):
        if not name.startswith("planegeometry"):
            return get(self, name)
        if self.path not in CODE:
            CODE[self.path] = get(self, name)
        return CODE[self.path]
    old = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "planegeometry"}
    for k in old:
        del sys.modules[k]
    im.SourceFileLoader.get_code = get_code
    try:
        return importlib.import_module("planegeometry.geometry")
    finally:
        im.SourceFileLoader.get_code = get
        for k in [k for k in sys.modules if k.split(".")[0] == "planegeometry"]:
            del sys.modules[k]
        sys.modules.update(old)


def plain(v):
    """a value of any copy of the library, as plain containers"""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    pub = PUBLIC.get(type(v).__name__)
    if pub is not None:
        return [type(v).__name__] + [plain(getattr(v, k, None)) for k in pub]
    return v


def within(lib, o, specs, seed, npseed):
    """the operation in a given copy of the library"""
    global G
    kept = G
    G = lib
    try:
        rr = random.Random(seed)
        args = [build3(s, Style(rr)) for s in specs]
        np.random.seed(npseed)
        random.seed(npseed)
        return plain(run(o, args))
    finally:
        G = kept


@family("C22", 250, [o.name for o in ALL], factor=15)
def remembered(cx):
    """a call after a history of similar calls gives what it gives in a library which was just loaded"""
    r = cx.r
    i = cx.idx % len(ALL)
    group = [ALL[i], ALL[i], ALL[(i + 1) % len(ALL)], ALL[(i - 1) % len(ALL)], r.choice(ALL), r.choice(ALL)]
    used = pristine()
    log = []
    for k in range(12):
        o = ALL[i] if k in (3, 7, 11) else r.choice(group)
        try:
            specs = o.gen(r)
        except Skip:
            continue
        if log and r.random() < .3:                  # some operands of an earlier call come back
            o2, s2 = r.choice(log)
            if o2 is o:
                specs = [a if r.random() < .5 else b for a, b in zip(s2, specs)]
        log.append((o, specs))
        seed, npseed = r.getrandbits(32), r.getrandbits(30)
        x = within(used, o, specs, seed, npseed)
        y = within(pristine(), o, specs, seed, npseed)
        cx.ok(approx(x, y), o.name + ": same result after a history of calls as in a library just loaded",
              history=[p.name for p, _ in log], operands=specs, got=x, fresh=y)
        cx.cls(o.name)
    cx.put(history=[p.name for p, _ in log])


def other_value(r, v):
    """a value which shares something with v"""
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, (int, float, complex, np.number)):
        return r.choice([-v, 2 * v, v / 2, v + 1, int(v) if isinstance(v, float) and abs(v) < 1e9 else v])
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        if not v:
            return v
        w = list(v)
        k = r.randrange(len(w))
        if len(w) == 2 and r.random() < .4:
            w.reverse()
        else:
            w[k] = other_value(r, w[k])
        return type(v)(w) if type(v) in (list, tuple) else w
    if isinstance(v, np.ndarray):
        w = v.copy()
        if w.size:
            if w.ndim == 1 and r.random() < .5:
                w = w[::-1].copy()
            else:
                k = r.randrange(w.size)
                w.flat[k] = r.choice([-w.flat[k], 2 * w.flat[k], w.flat[k] + 1])
        return w
    return sibling(r, v)


def sibling(r, v):
    """an object built from the same data but one; booleans (units, extensions) more often than the others"""
    name = type(v).__name__
    pub = PUBLIC.get(name)
    if pub is None:
        return v
    flags_ = [k for k in pub if isinstance(getattr(v, k), (bool, np.bool_))]
    k = r.choice(flags_) if flags_ and r.random() < .6 else r.choice(pub)
    return type(v)(*[other_value(r, getattr(v, a)) if a == k else getattr(v, a) for a in pub])


def touched(lib, o, specs, seed, npseed, sibs):
    """the operation in a given copy of the library, after `sibs` calls with operands one datum of which differs"""
    global G
    kept = G
    G = lib
    try:
        for k in range(sibs + 1):
            rr = random.Random(seed)
            args = [build3(s, Style(rr)) for s in specs]
            np.random.seed(npseed)
            random.seed(npseed)
            if k == sibs:
                return plain(run(o, args))
            q = random.Random(seed + k + 1)
            j = q.randrange(len(args))
            try:
                args[j] = other_value(q, args[j])
                o.call(G, *args)
            except Exception:
                pass
    finally:
        G = kept


@family("C22", 600, [o.name for o in ALL], factor=15)
def after_siblings(cx):
    """a call after calls with nearly the same operands (another unit or flag, one other number) gives what it gives in a library which was just loaded"""
    r = cx.r
    o = ALL[cx.idx % len(ALL)]
    used = pristine()
    seen = 0
    for _ in range(8):
        try:
            specs = o.gen(r)
        except Skip:
            continue
        if not specs or seen == 3:
            break
        seen += 1
        seed, npseed = r.getrandbits(32), r.getrandbits(30)
        cx.put(operation=o.name, operands=specs, seed=seed)
        y = touched(pristine(), o, specs, seed, npseed, 0)
        x = touched(used, o, specs, seed, npseed, 6)
        cx.ok(approx(x, y), o.name + ": same result after similar calls as in a library just loaded", operands=specs, got=x, fresh=y)
    if seen:
        cx.cls(o.name)


# --------------------------------------------------- reassigned attributes
ATTR = {
    "line": (LINE, lambda o: {"A": o.A, "B": o.B, "extendA": o.extendA, "extendB": o.extendB}),
    "circ": (CIRC, lambda o: {"center": o.center, "radius": o.radius}),
    "arc": (ARC, lambda o: {"center": o.center, "radius": o.radius, "alpha1": o.alpha1, "alpha2": o.alpha2, "degrees": o.degrees}),
    "ell": (ELL, lambda o: {"center": o.center, "rmajor": o.rmajor, "rminor": o.rminor, "alpha": o.alpha, "degrees": o.degrees}),
    "tri": (TRI, lambda o: {"A": o.A, "B": o.B, "C": o.C}),
    "inv": (INV, lambda o: {"pole": o.pole, "power": o.power}),
    "mob": (MOB, lambda o: {"M": o.M}),
    "aff": (AFF, lambda o: {"A": o.A, "b": o.b}),
    "rotation": (ROTN, lambda o: {"center": o.center, "theta": o.theta, "degrees": o.degrees}),
    "homothety": (HOMO, lambda o: {"center": o.center, "scale": o.scale}),
    "scaling": (SCAL, lambda o: {"center": o.center, "direction": o.direction, "scale": o.scale}),
    "scalingxy": (SCXY, lambda o: {"center": o.center, "sx": o.sx, "sy": o.sy}),
    "shearing": (SHEA, lambda o: {"vertex": o.vertex, "vector": o.vector, "ratio": o.ratio, "angle": o.angle, "degrees": o.degrees}),
    "reflection": (REFL, lambda o: {"line": o.line}),
}
BYKIND = {}
for _o in ALL:
    _r = random.Random(5)
    _s = None
    for _ in range(200):
        try:
            _s = _o.gen(_r)
            break
        except Skip:
            pass
    for _j, _x in enumerate(_s):
        BYKIND.setdefault(_x[0], []).append((_o, _j))


@family("C22", 1200, sorted(ATTR), factor=15)
def reassigned(cx):
    """an object whose attributes were reassigned answers as a fresh one"""
    r = cx.r
    k = sorted(ATTR)[cx.idx % len(ATTR)]
    gen, attrs = ATTR[k]
    try:
        old = build3(gen(r), Style(r))
        o, j = r.choice(BYKIND[k])
        if "random" in o.name:
            raise Skip()
        specs = o.gen(r)
    except Skip:
        raise Skip()
    target = build3(specs[j], Style(random.Random(7)))
    # prime whatever the object might remember
    for o2, j2 in [r.choice(BYKIND[k]) for _ in range(3)] + [(o, j)]:
        s2 = None
        for _ in range(20):
            try:
                s2 = o2.gen(r)
                break
            except Skip:
                pass
        if s2 is not None:
            a2 = [build3(s, Style()) for s in s2]
            a2[j2] = old
            run(o2, a2)
    for nm in dir(type(old)):
        if isinstance(getattr(type(old), nm), property):
            trycall(lambda: getattr(old, nm))
    for a, v in attrs(target).items():
        setattr(old, a, v.copy() if isinstance(v, np.ndarray) else v)
    cx.put(kind=k, operation=o.name, operands=specs)
    cx.cls(k)
    rest = random.Random(11)
    a1 = [build3(s, Style(rest)) for s in specs]
    rest = random.Random(11)
    a2 = [build3(s, Style(rest)) for s in specs]
    a1[j] = old
    a2[j] = target
    x, y = run(o, a1), run(o, a2)
    cx.ok(alike(o, x, y), o.name + ": an object with reassigned attributes answers as a fresh one", reassigned=x, fresh=y)
    for nm in dir(type(old)):
        if isinstance(getattr(type(old), nm), property):
            x, y = trycall(lambda: getattr(old, nm)), trycall(lambda: getattr(target, nm))
            cx.ok(approx(x, y), type(old).__name__ + "." + nm + " follows the attributes", reassigned=x, fresh=y)


SHOWGEN = dict((k, v[0]) for k, v in ATTR.items())
SHOWGEN["projection"] = PROJ


@family("C22", 300, sorted(SHOWGEN))
def displayed(cx):
    """show and str describe the object and leave it alone"""
    r = cx.r
    k = sorted(SHOWGEN)[cx.idx % len(SHOWGEN)]
    try:
        s = SHOWGEN[k](r)
    except Skip:
        raise Skip()
    o = build3(s, Style(r))
    cx.put(kind=k, spec=s)
    cx.cls(k)
    before = freeze(o)
    extra = {a for a in vars(o)}
    if hasattr(o, "show"):
        import sys
        n0 = sys.stdout.n
        sys.stdout.keep = []
        try:
            o.show()
            text = "".join(sys.stdout.keep)
        finally:
            sys.stdout.keep = None
        cx.ok(len(text.strip()) > 0, type(o).__name__ + ".show displays something")
    cx.ok(isinstance(str(o), str) and len(str(o)) > 0, "str gives a description")
    cx.ok(freeze(o) == before and extra == set(vars(o)), type(o).__name__ + ": displaying does not change the object")


def arrays_of(x, out):
    """every array of the documented state of a value"""
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, dict):
        for v in x.values():
            arrays_of(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays_of(v, out)
    elif type(x).__name__ in PUBLIC:
        for k in PUBLIC[type(x).__name__]:
            arrays_of(getattr(x, k, None), out)
    return out


def objects_of(x, out):
    if isinstance(x, dict):
        for v in x.values():
            objects_of(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            objects_of(v, out)
    if isinstance(x, (dict, list)) or type(x).__name__ in PUBLIC:
        out.append(x)
    if type(x).__name__ in PUBLIC:
        for k in PUBLIC[type(x).__name__]:
            objects_of(getattr(x, k, None), out)
    return out


def scribble(r, res, args):
    """what a caller may do with a result of its own: changes it in place; what the result shares with the operands is left alone"""
    mine = arrays_of(args, [])
    ids = {id(o) for o in objects_of(args, [])}
    done = 0
    for a in arrays_of(res, []):
        if a.flags.writeable and a.dtype.kind in "ifc" and not any(np.shares_memory(a, b) for b in mine):
            a *= 3
            a += 1
            done += 1
    for o in reversed(objects_of(res, [])):
        if id(o) in ids:
            continue
        if isinstance(o, (list, dict)):
            if r.random() < .5:
                o.clear()
            elif isinstance(o, list):
                o.reverse()
                o.append(None)
            else:
                o["extra"] = None
        else:
            for k in PUBLIC[type(o).__name__]:
                v = getattr(o, k, None)
                if isinstance(v, (bool, np.bool_)):
                    setattr(o, k, not v)
                elif isinstance(v, (int, float)):
                    setattr(o, k, 2 * v + 1)
                elif isinstance(v, np.ndarray):
                    setattr(o, k, 2 * v + 1)
        done += 1
    return done


@family("C22", 700, ["array", "list", "dict", "object"], factor=15)
def scribbled(cx):
    """a caller who changes the result of a call changes neither the operands nor the result of the next call"""
    r = cx.r
    o = ALL[cx.idx % len(ALL)]
    if "random" in o.name or "LownerJohn" in o.name:
        raise Skip()
    try:
        specs = o.gen(r)
    except Skip:
        raise Skip()
    st = r.getrandbits(32)
    args = [build3(s, Style(random.Random(st))) for s in specs]
    fresh = [build3(s, Style(random.Random(st))) for s in specs]
    cx.put(operation=o.name, operands=specs)
    res = run(o, args)
    kept = copy.deepcopy(res)
    if not scribble(r, res, args):
        raise Skip()
    cx.cls("array" if isinstance(res, np.ndarray) else "list" if isinstance(res, (list, tuple)) else "dict" if isinstance(res, dict) else "object")
    cx.ok(freeze(args) == freeze(fresh), o.name + ": the operands do not depend on what is done with the result")
    x = run(o, args)
    cx.ok(alike(o, kept, x), o.name + ": same result after the first one was changed by its owner", first=kept, again=x)
    # (res, changed, is still around: a memory of the library keyed by the operands would show here)
    x = run(o, fresh)
    cx.ok(alike(o, kept, x), o.name + ": same result for equal operands", first=kept, again=x)


def two(k1, g1, name, f, g):
    return (name, g1, f, g)


ALIAS = [
    ("Rotation", each(ROTN, P), lambda f, x: f.rotate(x), lambda f, x: f.transform(x)),
    ("Rotation rows", each(ROTN, ROWS), lambda f, x: f.rotate(x), lambda f, x: f.transform(x)),
    ("Rotation circle", each(ROTN, CIRC), lambda f, x: f.rotate_circle(x), lambda f, x: f.transform_circle(x)),
    ("Rotation ellipse", each(ROTN, ELL), lambda f, x: f.rotate_ellipse(x), lambda f, x: f.transform_ellipse(x)),
    ("Rotation line", each(ROTN, LINE), lambda f, x: f.rotate_line(x), lambda f, x: f.transform_line(x)),
    ("Reflection", each(REFL, P), lambda f, x: f.reflect(x), lambda f, x: f.transform(x)),
    ("Reflection circle", each(REFL, CIRC), lambda f, x: f.reflect_circle(x), lambda f, x: f.transform_circle(x)),
    ("Reflection line", each(REFL, LINE), lambda f, x: f.reflect_line(x), lambda f, x: f.transform_line(x)),
    ("Projection", each(PROJ, P), lambda f, x: f.project(x), lambda f, x: f.transform(x)),
    ("Inversion circle", ops.inv_circ, lambda f, x: f.invert_circle(x), lambda f, x: f.invert_gcircle(x)),
    ("Inversion line", each(INV, FULL), lambda f, x: f.invert_line(x), lambda f, x: f.invert_gcircle(x)),
    ("Line.invert", each(INV, FULL), lambda f, x: f.invert_line(x), lambda f, x: x.invert(f)),
    ("line line", each(FULL, FULL), lambda a, b: G.intersection_line_line(a, b), lambda a, b: a.intersection_with_line(b)),
    ("circle line", ops.circ_line, lambda a, b: G.intersection_circle_line(a, b), lambda a, b: a.intersection_with_line(b)),
    ("line circle", ops.circ_line, lambda a, b: G.intersection_circle_line(a, b), lambda a, b: b.intersection_with_circle(a)),
    ("circle circle", each(CIRC, CIRC), lambda a, b: G.intersection_circle_circle(a, b), lambda a, b: a.intersection_with_circle(b)),
    ("ellipse line", ops.ell_line, lambda a, b: G.intersection_ellipse_line(a, b), lambda a, b: a.intersection_with_line(b)),
    ("line ellipse", ops.ell_line, lambda a, b: G.intersection_ellipse_line(a, b), lambda a, b: b.intersection_with_ellipse(a)),
    ("triangle edges", each(TRI), lambda t: t.edges, lambda t: {"a": t.a, "b": t.b, "c": t.c}),
    ("mobius entries", each(MOB), lambda m: [[m.a, m.b], [m.c, m.d]], lambda m: m.M.tolist()),
    ("from_five_points", ops.five, lambda *p: G.Ellipse.from_five_points(*p),
     lambda *p: G.Ellipse.from_equation(*[G.Ellipse.equation_from_five_points(*p)[k] for k in "ABCDEF"])),
]


@family("C22", 600, [a[0] for a in ALIAS])
def equivalent_names(cx):
    r = cx.r
    name, gen, f, g = ALIAS[cx.idx % len(ALIAS)]
    try:
        specs = gen(r)
    except Skip:
        raise Skip()
    cx.put(names=name, operands=specs)
    args = [build3(s, Style(r)) for s in specs]
    x, y = trycall(lambda: f(*args)), trycall(lambda: g(*args))
    cx.ok(approx(x, y), "equivalent names give the same result: " + name, one=x, other=y)
    cx.cls(name)


# ------------------------------------------------------------------ C23
prop("C23", [], "Every checked parameter of every callable, every kind of invalid value for its type; the valid call is made as well.")

BADPT = [(1,), (1, 2, 3), (), 5, 2.5, None, "ab", "a", (1, "x"), ("1", "2"), (1j, 2), (2, 1 + 1j), (None, 1), (1, None), ([1], 2), ((1, 2), 3),
         [], [1], [1, 2, 3], ["a", "b"], {1, 2}, {"x": 1, "y": 2}, lambda: np.array([1.0]), lambda: np.array([1.0, 2, 3]),
         lambda: np.array([[1.0, 2]]), lambda: np.array([[1.0], [2]]), lambda: np.array([1j, 2]), lambda: np.array(["a", "b"]),
         lambda: np.array(3.0), lambda: G.Line((0, 0), (1, 1)), lambda: G.Circle((0, 0), 1)]
BADNUM = ["3", "", None, 1j, 2 + 0j, [1], (1,), [], {}, lambda: np.array([1.0]), lambda: np.array([1.0, 2]), lambda: np.complex128(1 + 1j),
          lambda: G.Circle((0, 0), 1), (1, 2)]
BADPOS = BADNUM + [0, -1, 0.0, -0.5, -1e9, lambda: np.float64(-2), lambda: np.int64(0)]
BADBOOL = [1, 0, "True", "yes", None, 2.5, [True], (False,), [], "", 1.0, 0.0]
BADCOUNT = [0, -1, -5, 2.5, 3.0, "3", None, [3], (3,), 1j, 1.0]
BADWHERE = ["inside", "IN", "On", "", None, 1, "in ", ["in"], True]
OBJS = {"Line": lambda: G.Line((0, 1), (2, 2)), "Circle": lambda: G.Circle((1, 2), 3), "Ellipse": lambda: G.Ellipse((1, 1), 3, 2, 20),
        "Inversion": lambda: G.Inversion((0, 0), 2), "Triangle": lambda: G.Triangle((0, 0), (3, 0), (1, 2)),
        "Arc": lambda: G.Arc((0, 0), 1, 0, 90), "Affine": lambda: G.Affine([[1, 2], [0, 1]], (1, 1)),
        "Reflection": lambda: G.Reflection(G.Line((0, 1), (2, 2))), "Mobius": lambda: G.Mobius([[1, 2], [0, 1]])}


def bad_obj(*names):
    return [None, 3, 2.5, "x", (1, 2), [1, 2], lambda: np.array([1.0, 2.0])] + [v for k, v in sorted(OBJS.items()) if k not in names]


L = lambda: G.Line((0, 0), (3, 1))
C = lambda: G.Circle((1, 2), 5)
E = lambda: G.Ellipse((1, 1), 4, 2, 30)
T = lambda: G.Triangle((0, 0), (4, 0), (1, 3))
I = lambda: G.Inversion((7, 7), 2)
A = lambda: G.Arc((0, 0), 2, 10, 100)
C2 = lambda: G.Circle((4, 2), 3)
C3 = lambda: G.Circle((2, 6), 2)
L2 = lambda: G.Line((0, 3), (1, 7))
M = lambda: G.Mobius([[1, 2], [1, 1j]])
R = lambda: G.Rotation((1, 1), 30)
pt, nm, ps, bo, co, wh = BADPT, BADNUM, BADPOS, BADBOOL, BADCOUNT, BADWHERE
PTINF = [x for x in BADPT]          # parameters which accept infinity as well
# (name, callable, valid arguments, {index or keyword: invalid values})
TABLE = [
    ("Line", lambda *a, **k: G.Line(*a, **k), [(0, 0), (1, 2)], {0: pt, 1: pt}),
    ("Line.is_equal", lambda l: L().is_equal(l), [L2], {0: bad_obj("Line")}),
    ("Line.is_parallel", lambda l: L().is_parallel(l), [L2], {0: bad_obj("Line")}),
    ("Line.is_perpendicular", lambda l: L().is_perpendicular(l), [L2], {0: bad_obj("Line")}),
    ("Line.includes", lambda p, s, c: L().includes(p, s, c), [(1, 2), False, True], {0: pt, 2: bo}),
    ("Line.perpendicular", lambda *a: L().perpendicular(*a), [(1, 2), False, True], {0: pt, 1: bo, 2: bo}),
    ("Line.projection", lambda p: L().projection(p), [(1, 2)], {0: pt}),
    ("Line.distance", lambda p: L().distance(p), [(1, 2)], {0: pt}),
    ("Line.reflection", lambda p: L().reflection(p), [(1, 2)], {0: pt}),
    ("Line.rotate", lambda *a: L().rotate(*a), [30, (1, 2), True], {0: nm, 1: pt, 2: bo}),
    ("Line.translate", lambda v: L().translate(v), [(1, 2)], {0: pt}),
    ("Line.invert", lambda i: L().invert(i), [I], {0: bad_obj("Inversion")}),
    ("Line.intersection_with_circle", lambda c: L().intersection_with_circle(c), [C], {0: bad_obj("Circle")}),
    ("Line.intersection_with_ellipse", lambda c: L().intersection_with_ellipse(c), [E], {0: bad_obj("Ellipse", "Circle")}),
    ("Circle", lambda *a: G.Circle(*a), [(0, 0), 2], {0: pt, 1: ps}),
    ("Circle.is_equal", lambda c: C().is_equal(c), [C2], {0: bad_obj("Circle")}),
    ("Circle.includes", lambda p: C().includes(p), [(1, 2)], {0: pt}),
    ("Circle.contains", lambda p: C().contains(p), [(1, 2)], {0: pt}),
    ("Circle.random_points", lambda n, w: C().random_points(n, w), [3, "on"], {0: co, 1: wh}),
    ("Circle.point_from_angle", lambda a, dg: C().point_from_angle(a, dg), [30, True], {0: nm, 1: bo}),
    ("Circle.orthogonal_through_two_points_in_circle", lambda *a: C().orthogonal_through_two_points_in_circle(*a),
     [(2, 2), (1, 4), True], {0: pt + [(1, 9), (9, 2), (6, 2), (1, 7), (1, 4)], 1: pt + [(1, 9), (-9, 2), (6, 2), (2, 2)], 2: bo}),
    ("Circle.orthogonal_through_two_points_on_circle", lambda *a: C().orthogonal_through_two_points_on_circle(*a), [1, 2, False], {0: nm, 1: nm, 2: bo}),
    ("Circle.power", lambda p: C().power(p), [(1, 2)], {0: pt}),
    ("Circle.radical_center", lambda c: C().radical_center(c), [C2], {0: bad_obj("Circle")}),
    ("Circle.radical_axis", lambda c: C().radical_axis(c), [C2], {0: bad_obj("Circle")}),
    ("Circle.intersection_with_line", lambda c: C().intersection_with_line(c), [L], {0: bad_obj("Line")}),
    ("Circle.intersection_with_circle", lambda c: C().intersection_with_circle(c), [C2], {0: bad_obj("Circle")}),
    ("Circle.is_orthogonal", lambda c: C().is_orthogonal(c), [C2], {0: bad_obj("Circle")}),
    ("circleAB", lambda *a: G.circleAB(*a), [(0, 0), (1, 2)], {0: pt + [(1, 2), [1.0, 2.0]], 1: pt + [(0, 0), [0.0, 0.0]]}),
    ("circleOA", lambda *a: G.circleOA(*a), [(0, 0), (1, 2)], {0: pt + [(1, 2)], 1: pt + [(0, 0), lambda: np.array([0.0, 0.0])]}),
    ("radical_center", lambda *a: G.radical_center(*a), [C, C2, C3], {0: bad_obj("Circle"), 1: bad_obj("Circle"), 2: bad_obj("Circle")}),
    ("mid_circles", lambda *a: G.mid_circles(*a), [C, C2], {0: bad_obj("Circle"), 1: bad_obj("Circle")}),
    ("intersection_circle_line", lambda *a: G.intersection_circle_line(*a), [C, L], {0: bad_obj("Circle"), 1: bad_obj("Line")}),
    ("intersection_circle_circle", lambda *a: G.intersection_circle_circle(*a), [C, C2], {0: bad_obj("Circle"), 1: bad_obj("Circle")}),
    ("intersection_ellipse_line", lambda *a: G.intersection_ellipse_line(*a), [E, L], {0: bad_obj("Ellipse", "Circle"), 1: bad_obj("Line")}),
    ("Arc", lambda *a: G.Arc(*a), [(0, 0), 2, 10, 50, True], {0: pt, 1: ps, 2: nm, 3: nm, 4: bo}),
    ("Arc.path", lambda n: A().path(n), [7], {0: co}),
    ("Ellipse", lambda *a: G.Ellipse(*a), [(0, 0), 3, 2, 20, True], {0: pt, 1: ps, 2: ps, 3: nm, 4: bo}),
    ("Ellipse.is_equal", lambda e: E().is_equal(e), [E], {0: bad_obj("Ellipse", "Circle")}),
    ("Ellipse.path", lambda n: E().path(n), [7], {0: co}),
    ("Ellipse.random_points", lambda n, w: E().random_points(n, w), [3, "on"], {0: co, 1: wh}),
    ("Ellipse.point_from_angle", lambda t, dg: E().point_from_angle(t, dg), [20, False],
     {0: ["x", None, 1j, {}, ["a", "b"], lambda: np.array([[1.0, 2]])], 1: bo}),
    ("Ellipse.normal", lambda t: E().normal(t), [1], {0: nm}),
    ("Ellipse.includes", lambda p: E().includes(p), [(1, 2)], {0: pt}),
    ("Ellipse.contains", lambda p: E().contains(p), [(1, 2)], {0: pt}),
    ("Ellipse.theta2t", lambda *a: E().theta2t(*a), [30, True], {0: nm, 1: bo}),
    ("Ellipse.diameter", lambda *a: E().diameter(*a), [1, True], {0: nm, 1: bo}),
    ("Ellipse.intersection_with_line", lambda l: E().intersection_with_line(l), [L], {0: bad_obj("Line")}),
    ("Ellipse.from_five_points", lambda *a: G.Ellipse.from_five_points(*a), [(2, 0), (0, 1), (-2, 0), (0, -1), (1, sqrt(3) / 2)],
     {0: pt + [(0, 1), (0, -1)], 1: pt + [(2, 0)], 2: pt + [(0.0, 1.0)], 3: pt + [(2, 0)], 4: pt + [(0, -1)]}),
    ("Ellipse.equation_from_five_points", lambda *a: G.Ellipse.equation_from_five_points(*a), [(2, 0), (0, 1), (-2, 0), (0, -1), (1, sqrt(3) / 2)],
     {0: pt, 1: pt + [(2, 0)], 2: pt, 3: pt, 4: pt}),
    ("Ellipse.from_center_and_matrix", lambda *a: G.Ellipse.from_center_and_matrix(*a), [(0, 0), [[2, .5], [.5, 1]]], {0: pt}),
    ("Inversion", lambda *a: G.Inversion(*a), [(0, 0), -2], {0: pt, 1: nm}),
    ("Inversion.invert", lambda p: I().invert(p), [(1, 2)], {0: pt}),
    ("Inversion.invert_circle", lambda c: I().invert_circle(c), [C], {0: bad_obj("Circle")}),
    ("Inversion.invert_line", lambda c: I().invert_line(c), [L], {0: bad_obj("Line")}),
    ("Inversion.invert_gcircle", lambda c: I().invert_gcircle(c), [L], {0: bad_obj("Line", "Circle")}),
    ("Inversion.compose", lambda *a: I().compose(*a), [I, False], {0: bad_obj("Inversion"), 1: bo}),
    ("Inversion.from_swapping_two_circles", lambda *a: G.Inversion.from_swapping_two_circles(*a), [C, C2, True],
     {0: bad_obj("Circle"), 1: bad_obj("Circle"), 2: bo}),
    ("Inversion.from_fixing_two_circles", lambda *a: G.Inversion.from_fixing_two_circles(*a), [C, C2], {0: bad_obj("Circle"), 1: bad_obj("Circle")}),
    ("Inversion.from_fixing_three_circles", lambda *a: G.Inversion.from_fixing_three_circles(*a), [C, C2, C3],
     {0: bad_obj("Circle"), 1: bad_obj("Circle"), 2: bad_obj("Circle")}),
    ("SteinerChain", lambda *a: G.SteinerChain(*a), [C, 5, .2, .4], {0: bad_obj("Circle"), 1: co, 2: nm, 3: nm}),
    ("Triangle", lambda *a: G.Triangle(*a), [(0, 0), (1, 0), (0, 2)], {0: pt, 1: pt, 2: pt}),
    ("Triangle.contains", lambda p: T().contains(p), [(1, 1)], {0: pt}),
    ("Triangle.random_points", lambda n, w: T().random_points(n, w), [3, "on"], {0: co, 1: wh}),
    ("Affine", lambda *a: G.Affine(*a), [[[1, 2], [0, 1]], (1, 2)],
     {0: [3, [1, 2], [[1, 2, 3], [4, 5, 6]], [[1], [2]], lambda: np.eye(3), lambda: np.ones((2, 2, 2)), []], 1: pt}),
    ("Affine.from_mapping_three_points", lambda *a: G.Affine.from_mapping_three_points(*a), [(0, 0), (1, 0), (0, 1), (2, 2), (3, 5), (-1, 4)],
     {i: pt for i in range(6)}),
    ("Mobius.power", lambda k: M().power(k), [3], {0: [2.5, -.5, "a", 1e-3, lambda: np.float64(.25)]}),
    ("Mobius.gpower", lambda k: M().gpower(k), [.5], {0: nm}),
    ("Mobius.transform", lambda p: M().transform(p), [(1, 2)], {0: pt}),
    ("Mobius.transform_circle", lambda c: M().transform_circle(c), [C], {0: bad_obj("Circle")}),
    ("Mobius.transform_line", lambda c: M().transform_line(c), [L], {0: bad_obj("Line")}),
    ("Mobius.from_mapping_three_points", lambda *a: G.Mobius.from_mapping_three_points(*a), [(0, 0), (1, 0), (0, 1), (2, 2), (3, 5), (-1, 4)],
     {i: pt for i in range(6)}),
    ("Mobius.from_mapping_one_circle", lambda *a: G.Mobius.from_mapping_one_circle(*a), [C, C2], {0: bad_obj("Circle"), 1: bad_obj("Circle")}),
    ("cross_ratio", lambda *a: G.cross_ratio(*a), [(0, 0), (1, 0), (0, 1), (2, 2)],
     {0: pt + [(1, 0), (2, 2.0)], 1: pt + [(0, 1)], 2: pt + [(0, 0)], 3: pt + [[0, 0]]}),
    ("unimodular_matrices", lambda n: G.unimodular_matrices(n), [4], {0: [0, -3, 2.5, 3.0, "3", None, [3], 1j]}),
    ("Reflection", lambda l: G.Reflection(l), [L], {0: bad_obj("Line")}),
    ("Reflection.transform", lambda p: G.Reflection(L()).transform(p), [(1, 2)], {0: pt}),
    ("Reflection.reflect", lambda p: G.Reflection(L()).reflect(p), [(1, 2)], {0: pt}),
    ("Projection", lambda a, b: G.Projection(a, b), [L, L2], {0: bad_obj("Line"), 1: [x for x in bad_obj("Line") if x is not None]}),
    ("Projection.project", lambda p: G.Projection(L(), None).project(p), [(1, 2)], {0: pt}),
    ("Projection.transform", lambda p: G.Projection(L(), L2()).transform(p), [(1, 2)], {0: pt}),
    ("Rotation", lambda *a: G.Rotation(*a), [(1, 2), 30, True], {0: pt, 1: nm, 2: bo}),
    ("Rotation.rotate_circle", lambda c: R().rotate_circle(c), [C], {0: bad_obj("Circle")}),
    ("Rotation.rotate_ellipse", lambda c: R().rotate_ellipse(c), [E], {0: bad_obj("Ellipse")}),
    ("Rotation.rotate_line", lambda c: R().rotate_line(c), [L], {0: bad_obj("Line")}),
    ("Shear", lambda *a: G.Shear(*a), [(1, 2), (1, 1), 2, 30, True],
     {0: pt, 1: pt, 2: ps, 3: nm + [90, -90, 90.0, 120, -91, 1000, 270], 4: bo}),
    ("Shear radians", lambda *a: G.Shear(*a, degrees=False), [(1, 2), (1, 1), 2, .5], {3: [pi / 2, -pi / 2, 1.6, -3, 45, 10]}),
    ("ScalingXY", lambda *a: G.ScalingXY(*a), [(1, 2), 2, -3], {0: pt, 1: nm, 2: nm}),
    ("Homothety", lambda *a: G.Homothety(*a), [(1, 2), -3], {0: pt, 1: nm}),
    ("Homothety.transform_circle", lambda c: G.Homothety((1, 2), 3).transform_circle(c), [C], {0: bad_obj("Circle")}),
    ("Scaling", lambda *a: G.Scaling(*a), [(1, 2), (1, 1), -3], {0: pt, 1: pt, 2: nm}),
    ("Scaling.scale_circle", lambda c: G.Scaling((1, 2), (1, 1), 3).scale_circle(c), [C], {0: bad_obj("Circle")}),
]
_rowbad = [None, "x", 5, (1, 2, 3), [], [1], [[1, 2, 3]], lambda: np.zeros((2, 3)), lambda: np.zeros((2, 2, 2)), ("a", "b"), [[1], [2]]]
for _n, _f in (("Rotation", lambda: R()), ("Homothety", lambda: G.Homothety((1, 2), 3)), ("Scaling", lambda: G.Scaling((1, 2), (1, 1), 3)),
               ("ScalingXY", lambda: G.ScalingXY((1, 2), 3, 2)), ("Shear", lambda: G.Shear((1, 2), (1, 1), 3, 20))):
    TABLE.append((_n + ".transform", lambda m, _f=_f: _f().transform(m), [(1, 2)], {0: _rowbad}))
CELLS = [(i, k, j) for i, (_, _, _, bads) in enumerate(TABLE) for k in sorted(bads) for j in range(len(bads[k]))]


def value(x):
    return x() if callable(x) and not isinstance(x, type) else x


@family("C23", max(1, (len(CELLS) + 2) // 3 + 1), [t[0] for t in TABLE], factor=1)
def table(cx):
    """the whole table, once"""
    if cx.idx >= len(CELLS):
        raise Skip()
    i, k, j = CELLS[cx.idx]
    name, f, good, bads = TABLE[i]
    cx.cls(name)
    x = value(bads[k][j])
    args = [value(a) for a in good]
    cx.put(call=name, parameter=k, value=x)
    cx.evals += 1
    f(*args)                                    # the valid call has to be accepted
    args = [value(a) for a in good]
    args[k] = x
    cx.raises(ValueError, lambda: f(*args), "%s rejects an invalid parameter %s" % (name, k), value=x)


@family("C23", 1500, ["point", "number", "positive"])
def random_bad(cx):
    """generated invalid values in one parameter of a valid call"""
    r = cx.r
    while True:
        name, f, good, bads = r.choice(TABLE)
        ks = [k for k in sorted(bads) if bads[k][:len(BADPT)] == BADPT or bads[k] is BADNUM or bads[k] is BADPOS or bads[k] is BADCOUNT]
        if ks:
            break
    k = r.choice(ks)
    args = [value(a) for a in good]
    atoms = [lambda: r.uniform(-5, 5), lambda: r.randint(-5, 5)]
    wrong = [lambda: None, lambda: "z", lambda: complex(r.uniform(-3, 3), 1), lambda: [1.0], lambda: (1, 2), lambda: {}, lambda: np.complex64(1j)]
    if bads[k][:len(BADPT)] == BADPT:
        cx.cls("point")
        q = r.random()
        if q < .4:
            n = r.choice([0, 1, 3, 4, 5])
            x = [r.choice(atoms)() for _ in range(n)]
        else:
            x = [r.choice(atoms)(), r.choice(wrong)()]
            r.shuffle(x)
        x = r.choice([list, tuple])(x)
        if q < .2:
            x = np.array(x, dtype=float)
    elif bads[k] is BADNUM:
        cx.cls("number")
        x = r.choice(wrong)()
    elif bads[k] is BADPOS:
        cx.cls("positive")
        x = r.choice([lambda: -abs(r.uniform(0, 9)), lambda: -r.randint(0, 9), lambda: np.float64(-r.uniform(0, 1))] + wrong)()
    else:
        x = r.choice([lambda: -r.randint(0, 9), lambda: r.uniform(.1, 9), lambda: float(r.randint(1, 5))])()
    cx.put(call=name, parameter=k, value=x)
    args[k] = x
    cx.raises(ValueError, lambda: f(*args), "%s rejects an invalid parameter %s" % (name, k), value=x)


@family("C23", 400, ["Line"])
def coincident(cx):
    """lines and circles need two distinct points, however they are represented"""
    r = cx.r
    p = geo.pt(r)
    a, b = geo.wrap(r, p), geo.wrap(r, p)
    if r.random() < .3:
        b = (p[0], p[1] * (1 + 1e-12))
    cx.put(A=a, B=b)
    cx.cls("Line")
    cx.raises(ValueError, lambda: G.Line(a, b, r.random() < .5, True), "a line through two equal points is rejected", A=a)
    if np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float)):
        cx.raises(ValueError, lambda: G.circleAB(a, b), "a circle of null diameter is rejected", A=a)
        cx.raises(ValueError, lambda: G.circleOA(a, b), "a circle of null radius is rejected", A=a)


@family("C23", 600, ["point", "circle", "ellipse", "arc"])
def accepted(cx):
    """every representation of valid arguments is accepted"""
    r = cx.r
    k = r.choice(["point", "circle", "ellipse", "arc"])
    cx.cls(k)
    cx.evals += 1
    if k == "point":
        A_, B_ = geo.two_points(r)
        cx.put(A=A_, B=B_)
        l = G.Line(geo.wrap(r, A_), geo.wrap(r, B_))
        cx.near(geo.P2(l.A), A_, 0, "the point is kept")
        cx.near(geo.P2(l.B), B_, 0, "the point is kept")
    elif k == "circle":
        C_, R_ = geo.pt(r), geo.rad_len(r)
        cx.put(C=C_, R=R_)
        c = G.Circle(geo.wrap(r, C_), geo.num(r, R_))
        cx.near(geo.P2(c.center), C_, 0, "the centre is kept")
        cx.near(float(c.radius), R_, 0, "the radius is kept")
    elif k == "ellipse":
        par = geo.ell_par(r)
        cx.put(par=par)
        e = geo.mk_ell(G, r, par)
        cx.near([float(e.rmajor), float(e.rminor), float(e.alpha)], [par[1], par[2], par[3]], 0, "the parameters are kept")
        cx.ok(e.degrees is par[4] or e.degrees == par[4], "the unit is kept")
    else:
        a, b = geo.deg(r), geo.deg(r)
        C_, R_ = geo.pt(r), geo.rad_len(r)
        cx.put(C=C_, R=R_, a=a, b=b)
        q = G.Arc(geo.wrap(r, C_), geo.num(r, R_), geo.num(r, a), geo.num(r, b), r.random() < .5)
        cx.near([float(q.alpha1), float(q.alpha2)], [a, b], 0, "the angles are kept")


# ------------------------------------------------------------------ C24
prop("C24", ["unimodular_matrices"], "Every bound from 1 to 24 and a few up to 128 in the quick tier, more in the thorough one, against a brute force enumeration.")


@family("C24", 2, ["more than 100"], factor=2.4)
def large_bounds(cx):
    """some larger bounds, compared by counts of rows of entries"""
    n = [(127, 64), (101, 48), (75, 90), (128, 33), (57, 110), (141, 83)][cx.idx % 6]
    for n in n:
        cx.put(n=n)
        out = np.array(G.unimodular_matrices(n)).reshape(-1, 4)
        cx.ok(out.shape[1] == 4 and (out == out.astype(np.int64)).all(), "integer entries", got=out.dtype)
        got = sorted(map(tuple, out.astype(np.int64).tolist()))
        want = [(1, 0, 0, 1)]
        b = np.arange(1, n + 1)
        for a in range(1, n + 1):
            for c in range(0, a + 1):
                e = 1 + b * c
                for i in np.nonzero((e % a == 0) & (e // a <= b))[0].tolist():
                    want.append((a, i + 1, c, int(e[i]) // a))
        want.sort()
        if got != want:
            g, w = set(got), set(want)
            cx.ok(False, "the enumeration is complete, without repetitions, large bounds", n=n, found=len(got), expected=len(want), missing=sorted(w - g)[:8], extra=sorted(g - w)[:8])
        if n > 100:
            cx.cls("more than 100")


@family("C24", 8, ["one", "more"], factor=2.4)
def enumeration(cx):
    n = cx.idx + 1
    cx.put(n=n)
    cx.cls("one" if n == 1 else "more")
    out = G.unimodular_matrices(n)
    cx.ok(isinstance(out, list), "a list of matrices", got=type(out))
    got = []
    for m in out:
        a = np.asarray(m)
        cx.ok(a.shape == (2, 2), "2x2 matrices", got=a)
        cx.ok(all(float(x) == int(x) for x in a.ravel().tolist()), "integer entries", got=a)
        got.append(tuple(int(x) for x in a.ravel().tolist()))
    for (a, b, c, d_) in got:
        cx.ok(a * d_ - b * c == 1, "determinant one", got=(a, b, c, d_))
    cx.ok(len(set(got)) == len(got), "no matrix is repeated", n=n)
    want = {(1, 0, 0, 1)}
    if n > 1:
        for a in range(1, n + 1):
            for b in range(1, n + 1):
                for c in range(0, a + 1):
                    # a d - b c = 1
                    if (1 + b * c) % a == 0 and 0 <= (1 + b * c) // a <= b:
                        want.add((a, b, c, (1 + b * c) // a))
    cx.ok(set(got) == want, "the enumeration is complete", n=n, missing=sorted(want - set(got))[:8], extra=sorted(set(got) - want)[:8])
    again = G.unimodular_matrices(n)
    cx.ok(len(again) == len(out), "the enumeration is the same each time")
