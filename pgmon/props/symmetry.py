"""C25 similarity equivariance, C26 units and representations."""
import math
from math import pi, inf, sqrt
import numpy as np
from ..core import prop, family, Fail, Skip, show, load
from .. import geo
from ..geo import TAU
from .ops import OPS, Sim, Style, build, canon, gap, size, jiggle

G = load()


def outcome(o, specs, st):
    """canonical result, or the error class when the call is rejected"""
    args = [build(G, s, st) for s in specs]
    try:
        v = o.call(G, *args)
    except ValueError as e:
        return ("error", "ValueError")
    return canon(G, v, o.res)


def sensitivity(cx, o, specs, base, floor=1.0):
    """change of the result under relative noise of 1e-11 on the operands"""
    if o.exact:
        return 0.0
    m = 0.0
    for _ in range(2):
        r2 = outcome(o, [jiggle(cx.r, s, 1e-11, floor) for s in specs], Style())
        if bad(r2) != bad(base):
            raise Skip()
        g = gap(base, r2) if not bad(base) else 0.0
        if not g < 1e-6 * (1 + size(base)):
            raise Skip()
        m = max(m, g)
    return m


def bad(c):
    return c[1] if c is not None and c[0] == "error" else None


def gen(o, r):
    for _ in range(60):
        try:
            return o.gen(r)
        except Skip:
            continue
    raise Skip()


def unfail(v):
    return v


prop("C25", [], "Operations are drawn from a table of constructions and predicates; data is in general position or exactly degenerate, "
     "the tolerance follows the measured sensitivity of the result to noise.")
C25OPS = [o for o in OPS if o.sim]


def rand_sim(r, o):
    k = r.choice([1, 1, 2, .5, r.uniform(.3, 3)])
    a = r.choice([0, 0, pi / 2, pi, -pi / 2, r.uniform(0, TAU)]) if o.turn else 0
    m = o.mirror and r.random() < .35
    t = r.choice([(0, 0), (r.randint(-9, 9), r.randint(-9, 9)), (r.uniform(-9, 9), r.uniform(-9, 9))])
    if r.random() < .3:                        # pixels, metres or kilometres
        k = r.choice([.001, .01, 100, 1000, geo.logu(r, -3, 3), geo.logu(r, -4.5, 5), geo.logu(r, -9, 9)])
        t = geo.mul(k, t)
    return Sim(k, a, m, t)


def moved_by(cx, o, S):
    """the operation commutes with the similarity"""
    specs = gen(o, cx.r)
    cx.put(operation=o.name, operands=specs, ratio=S.k, angle=S.a, mirror=S.m, translation=S.t)
    base = outcome(o, specs, Style())
    sens = sensitivity(cx, o, specs, base, 1 + geo.norm(S.t) / S.k)
    moved = [S(s) for s in specs]
    got = outcome(o, moved, Style())
    cx.ok(bad(got) == bad(base), o.name + ": accepts the data in one position and rejects it in another", here=base, there=got)
    cx.cls(o.name)
    if bad(base):
        return False
    want = S(base)
    back = S.inverse()(got)                        # compared at the scale of the original data
    scale = 1 + max(size(base), size(back)) + max(size(s) for s in specs) + geo.norm(S.t) / S.k
    tol = o.coarse * scale + 100 * sens
    e = gap(base, back)
    cx.ok(e <= tol, o.name + " commutes with similarities", expected=want, got=got, error=e, tol=tol, here=base, back=back)
    return True


@family("C25", 10000, [o.name for o in C25OPS] + ["tiny", "huge"])
def moved(cx):
    o = C25OPS[cx.idx % len(C25OPS)]
    S = rand_sim(cx.r, o)
    if moved_by(cx, o, S) and abs(math.log10(S.k)) > 1:
        cx.cls("tiny" if S.k < 1 else "huge")


prop("C26", [], "The same call is made with the operands in other angular units (turns added), containers and number types.")
ANG = {"rot", "dir", "shear", "ell", "arc"}


def intspec(s):
    """the description with integer coordinates and lengths, or None"""
    if isinstance(s, tuple) and s and isinstance(s[0], str):
        if s[0] in ("rot", "dir", "raw", "flag", "shear"):
            return s
        if s[0] in ("arc", "ell"):
            return (s[0],) + tuple(intspec(x) for x in s[1:-2 if s[0] == "arc" else -1]) + s[-2 if s[0] == "arc" else -1:]
        return (s[0],) + tuple(intspec(x) for x in s[1:])
    if isinstance(s, (tuple, list)):
        return type(s)(intspec(x) for x in s)
    if isinstance(s, bool) or isinstance(s, str) or s is None:
        return s
    v = int(round(s))
    return v


def valid(s):
    k = s[0]
    if k in ("len",):
        return s[1] > 0
    if k == "line":
        return geo.d(s[1], s[2]) > 0
    if k == "circ":
        return s[2] > 0
    if k == "arc":
        return s[2] > 0
    if k == "ell":
        return s[2] > s[3] > 0
    if k == "tri":
        return abs(geo.cross(geo.sub(s[2], s[1]), geo.sub(s[3], s[1]))) > 1e-6 * max(geo.d(s[1], s[2]), geo.d(s[1], s[3])) ** 2
    if k in ("num", "pow"):
        return s[1] != 0
    if k == "inv":
        return s[2] != 0
    return True


def right_angled(t):
    return any(geo.dot(geo.sub(t[i], t[k]), geo.sub(t[j], t[k])) == 0 for i, j, k in ((1, 2, 3), (2, 3, 1), (3, 1, 2)))


# the integer and floating-point types of arrays: the squares of the coordinates
# of the scaled data below do not fit in them
SHORT = {"int16": np.int16, "int32": np.int32, "int64": np.int64, "float32": np.float32}


class Pure(Style):
    """every number in one number type, every point in one container"""

    def __init__(self, cont, nb, degrees):
        Style.__init__(self, None, degrees)
        self.cont, self.nb = cont, nb

    def n(self, x):
        if self.nb in SHORT:
            return float(x)
        if self.nb == "int":
            return int(x) if float(x) == int(x) else x
        if self.nb == "np":
            return np.float64(x)
        if self.nb == "npint":
            return np.int64(x) if float(x) == int(x) else np.float64(x)
        return float(x)

    def p(self, P):
        if self.nb in SHORT:
            T = SHORT[self.nb]
            big = np.iinfo(T).max if T is not np.float32 else 2 ** 24
            if not all(x == int(x) and abs(x) <= big for x in P):
                T = float
            a = np.array([float(x) if T is float else int(x) for x in P], dtype=T)
            return list(a) if self.cont == "list" else a if self.cont == "array" else tuple(a)
        q = (self.n(P[0]), self.n(P[1]))
        return list(q) if self.cont == "list" else np.array(q) if self.cont == "array" else q


@family("C26", 6000, [o.name for o in OPS])
def represented(cx):
    r = cx.r
    o = OPS[cx.idx % len(OPS)]
    specs = gen(o, r)
    integral = False
    if o.ints and r.random() < .6:
        t = [intspec(s) for s in specs]
        if all(valid(s) for s in t) and not (o.name == "Triangle.is_acute" and right_angled(t[0])):
            specs, integral = t, True
    large = 1
    if integral and o.sim and r.random() < .4:
        large = r.choice([1000, 50000, 10 ** 10])
        specs = [Sim(large)(s) for s in specs]
        if any(x != int(x) for s in specs if s[0] == "pt" for x in s[1:]):
            raise Skip()
    cx.put(operation=o.name, operands=specs)
    try:
        base = outcome(o, specs, Style())
        sens = sensitivity(cx, o, specs, base)
    except Exception:
        if integral:                 # rounding the data made it degenerate
            raise Skip()
        raise
    if integral and size(base) > 1e4 * large ** 2:
        raise Skip()
    cx.cls(o.name)
    if integral:
        cx.cls("integer data" if large == 1 else "large integer data")
    angular = any(x[0] in ANG for x in specs)
    tol = o.coarse / 10 * (1 + size(base) + max(size(s) for s in specs)) + 100 * sens if not bad(base) else 0.0
    for _ in range(6 if angular else 3):
        if r.random() < .6:
            dg = r.choice([True, False, None])            # None: each operand in its own unit
            st = Style(r, dg, r.random() < .35)
            how = dict(representation="mixed", degrees="mixed" if dg is None else dg, turns=st.turns)
        else:
            st = Pure(r.choice(["list", "tuple", "array"]), r.choice(["int", "float", "np", "npint" if large == 1 else "int64"] + list(SHORT)), r.random() < .5)
            how = dict(representation=st.cont + "/" + st.nb, degrees=st.degrees)
        got = outcome(o, specs, st)
        if angular:
            cx.cls("degrees" if st.degrees else "each in its unit" if st.degrees is None else "radians")
        cx.ok(bad(got) == bad(base), o.name + ": one representation is accepted, the other rejected", base=base, other=got, **how)
        if bad(base):
            continue
        e = gap(base, got)
        cx.ok(e <= tol, o.name + " does not depend on the representation of its arguments", expected=base, got=got, error=e, tol=tol, **how)
