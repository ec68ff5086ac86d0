"""C30 objects keep what they are given, and display what they are."""
import math
import re
import sys
from math import pi
import numpy as np
from ..core import prop, family, Fail, Skip, show, load
from ..geo import *
from .ops import OPS, Style, CIRC, LINE, FULL, ELL, TRI, INV, ARC, P as PT, LEN
from .contracts import MOB, AFF, HOMO, SCAL, SCXY, SHEA, REFL, PROJ, ROTN, build3

G = load()

prop("C30", ["Line.show", "Circle.show", "Ellipse.show", "Inversion.show", "Triangle.show", "Affine.show", "Mobius.show",
             "Reflection.show", "Projection.show", "Rotation.show", "Shear.show", "ScalingXY.show", "Homothety.show", "Scaling.show",
             "Line.__str__", "Circle.__str__", "Triangle.__str__"],
     "Objects of every class, built from every representation of their data, reassigned, or returned by operations.")

NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)")


def text_of(o):
    """what show() prints"""
    out = sys.stdout
    if not hasattr(out, "keep"):
        from ..core import Null
        sys.stdout = out2 = Null()
    else:
        out2 = out
    out2.keep = []
    try:
        o.show()
        return "".join(out2.keep)
    finally:
        out2.keep = None
        sys.stdout = out


def numbers(s):
    return [float(x) for x in NUMBER.findall(re.sub(r"float\d+|int\d+|complex\d+", "", s))]


def fields(text, labels):
    """the text which follows each label, up to the next label; lines are '   label:  value'"""
    pos = []
    for l in labels:
        m = re.search(r"(?mi)^[ \t]*" + re.escape(l) + r"[ \t]*:", text)
        if m is None:
            return None, l
        pos.append((m.start(), m.end(), l))
    out = {}
    srt = sorted(pos)
    for i, (a, b, l) in enumerate(srt):
        end = srt[i + 1][0] if i + 1 < len(srt) else len(text)
        blank = text.find("\n\n", b)
        out[l] = text[b:min(end, blank if blank >= 0 else end)]
    return out, None


def pp(x):
    return [float(t) for t in np.asarray(x, dtype=float).ravel()]


def cc_(M):
    return [t for z in np.asarray(M, dtype=complex).ravel() for t in (z.real, z.imag)]


# class -> [(label, what is displayed)]
SHOW = {
    "Line": [("A", lambda o: pp(o.A)), ("B", lambda o: pp(o.B)), ("extendA", lambda o: bool(o.extendA)), ("extendB", lambda o: bool(o.extendB))],
    "Circle": [("center", lambda o: pp(o.center)), ("radius", lambda o: pp(o.radius))],
    "Ellipse": [("center", lambda o: pp(o.center)), ("major radius", lambda o: pp(o.rmajor)), ("minor radius", lambda o: pp(o.rminor)),
                ("angle", lambda o: (pp(o.alpha), o.degrees))],
    "Inversion": [("pole", lambda o: pp(o.pole)), ("power", lambda o: pp(o.power))],
    "Triangle": [("A", lambda o: pp(o.A)), ("B", lambda o: pp(o.B)), ("C", lambda o: pp(o.C))],
    "Affine": [("A", lambda o: pp(o.A)), ("b", lambda o: pp(o.b))],
    "Mobius": [("M", lambda o: cc_(o.M))],
    "Reflection": [("A", lambda o: pp(o.line.A)), ("B", lambda o: pp(o.line.B))],
    "Projection": [("A", lambda o: pp(o.D.A)), ("B", lambda o: pp(o.D.B)), ("P", lambda o: pp(o.Delta.A)), ("Q", lambda o: pp(o.Delta.B))],
    "Rotation": [("center", lambda o: pp(o.center)), ("angle", lambda o: (pp(o.theta), o.degrees))],
    "Shear": [("vertex", lambda o: pp(o.vertex)), ("first vector", lambda o: pp(o.vector)),
              ("second vector", lambda o: pp(np.asarray(o.ratio * np.array([-o.vector[1], o.vector[0]])))), ("angle", lambda o: (pp(o.angle), o.degrees))],
    "ScalingXY": [("center", lambda o: pp(o.center)), ("scale factor x-axis", lambda o: pp(o.sx)), ("scale factor y-axis", lambda o: pp(o.sy))],
    "Homothety": [("center", lambda o: pp(o.center)), ("scale", lambda o: pp(o.scale))],
    "Scaling": [("center", lambda o: pp(o.center)), ("direction", lambda o: pp(o.direction)), ("scale", lambda o: pp(o.scale))],
}


def same_numbers(cx, got, want, label, **info):
    cx.ok(len(got) == len(want), label, got=got, expected=want, **info)
    m = max([abs(x) for x in want] + [0.0])            # arrays are printed with 8 decimals
    for g, w in zip(got, want):
        cx.ok(g == w or abs(g - w) <= 1e-7 * m + 1.1e-8 or g != g and w != w, label, got=got, expected=want, **info)


def check_show(cx, o, what):
    nm = type(o).__name__
    text = text_of(o)
    fs, missing = fields(text, [l for l, _ in SHOW[nm]])
    cx.ok(fs is not None, "%s.show: `%s` is displayed" % (nm, missing), text=text)
    for l, f in SHOW[nm]:
        want = f(o)
        if isinstance(want, bool):
            cx.ok(re.findall(r"True|False", fs[l]) == [str(want)], "%s.show: %s (%s)" % (nm, l, what), text=text, expected=want)
        elif isinstance(want, tuple):
            same_numbers(cx, numbers(fs[l]), want[0], "%s.show: %s (%s)" % (nm, l, what), text=text)
            cx.ok(("degree" in fs[l]) == bool(want[1]) and ("radian" in fs[l]) == (not want[1]), "%s.show: the unit of the angle (%s)" % (nm, what), text=text, degrees=want[1])
        else:
            same_numbers(cx, numbers(fs[l]), want, "%s.show: %s (%s)" % (nm, l, what), text=text)
    return text


def spec_arc(r):
    return ARC(r)


GEN = {"Line": LINE, "Circle": CIRC, "Arc": ARC, "Ellipse": ELL, "Triangle": TRI, "Inversion": INV, "Mobius": MOB, "Affine": AFF,
       "Rotation": ROTN, "Homothety": HOMO, "Scaling": SCAL, "ScalingXY": SCXY, "Shear": SHEA, "Reflection": REFL, "Projection": PROJ}


def given(s, o):
    """the data given to the constructor against the attributes: (label, got, expected)"""
    k = s[0]
    f = lambda a: float(a) * (pi / 180 if o.degrees else 1.0)
    if k == "line":
        return [("A", pp(o.A), s[1]), ("B", pp(o.B), s[2]), ("extendA", [bool(o.extendA)], [s[3]]), ("extendB", [bool(o.extendB)], [s[4]])]
    if k == "circ":
        return [("center", pp(o.center), s[1]), ("radius", [float(o.radius)], [s[2]])]
    if k == "arc":
        return [("center", pp(o.center), s[1]), ("radius", [float(o.radius)], [s[2]]), ("angles", [f(o.alpha1), f(o.alpha2)], s[3:5])]
    if k == "ell":
        return [("center", pp(o.center), s[1]), ("radii", [float(o.rmajor), float(o.rminor)], s[2:4]), ("angle", [f(o.alpha)], [s[4]])]
    if k == "tri":
        return [("A", pp(o.A), s[1]), ("B", pp(o.B), s[2]), ("C", pp(o.C), s[3])]
    if k == "inv":
        return [("pole", pp(o.pole), s[1]), ("power", [float(o.power)], [s[2]])]
    if k == "mob":
        M = np.asarray(o.M, dtype=complex).ravel()
        return [("M", list(M), s[1]), ("a, b, c, d", [complex(o.a), complex(o.b), complex(o.c), complex(o.d)], s[1])]
    if k == "aff":
        return [("A", pp(o.A), s[1]), ("b", pp(o.b), s[2])]
    if k == "rotation":
        return [("center", pp(o.center), s[1]), ("angle", [f(o.theta)], [s[2]])]
    if k == "homothety":
        return [("center", pp(o.center), s[1]), ("scale", [float(o.scale)], [s[2]])]
    if k == "scaling":
        return [("center", pp(o.center), s[1]), ("direction", pp(o.direction), s[2]), ("scale", [float(o.scale)], [s[3]])]
    if k == "scalingxy":
        return [("center", pp(o.center), s[1]), ("scales", [float(o.sx), float(o.sy)], s[2:4])]
    if k == "shearing":
        return [("vertex", pp(o.vertex), s[1]), ("vector", pp(o.vector), s[2]), ("ratio", [float(o.ratio)], [s[3]]), ("angle", [f(o.angle)], [s[4]])]
    if k == "reflection":
        return [("line", pp(o.line.A) + pp(o.line.B), tuple(s[1]) + tuple(s[2]))]
    if k == "projection":
        out = [("D", pp(o.D.A) + pp(o.D.B), tuple(s[1]) + tuple(s[2]))]
        if s[3] is not None:
            out.append(("Delta", pp(o.Delta.A) + pp(o.Delta.B), tuple(s[3]) + tuple(s[4])))
        return out
    raise AssertionError(k)


def raw(x):
    """the value of a specification, without its tag"""
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        return x[1:] if len(x) > 2 else x[1]
    return x


def untag(s):
    """("homothety", ("pt", x, y), ("num", k)) -> ("homothety", (x, y), k)"""
    return (s[0],) + tuple(raw(x) for x in s[1:])


@family("C30", 1500, sorted(GEN))
def kept(cx):
    """the attributes are the data given to the constructor"""
    r = cx.r
    k = sorted(GEN)[cx.idx % len(GEN)]
    s = GEN[k](r)
    o = build3(s, Style(r))
    cx.put(kind=k, spec=s)
    cx.cls(k)
    for label, got, want in given(untag(s), o):
        want = [w if isinstance(w, (bool, complex)) else float(w) for w in want]
        if isinstance(want[0], bool):
            cx.ok(list(got) == want, "%s: the attribute `%s` is the given value" % (k, label), got=got, expected=want)
        else:
            cx.near(list(got), want, 1e-13 * (1 + max(abs(w) for w in want)), "%s: the attribute `%s` is the given value" % (k, label))
    for a in ("center", "A", "B", "C", "pole", "vertex", "direction", "vector", "b"):
        if hasattr(o, a) and k != "Mobius" and (k, a) not in (("Affine", "A"), ("Triangle", "b")):
            x = getattr(o, a)
            cx.ok(isinstance(x, np.ndarray) and x.shape == (2,) and x.dtype.kind == "f", "%s: the attribute `%s` is an array of two floats" % (k, a), got=x)


@family("C30", 1500, sorted(SHOW) + ["reassigned"])
def shown(cx):
    """show displays the attributes, under their names, with the unit"""
    r = cx.r
    k = sorted(SHOW)[cx.idx % len(SHOW)]
    s = GEN[k](r)
    o = build3(s, Style(r))
    cx.put(kind=k, spec=s)
    cx.cls(k)
    text = check_show(cx, o, "new")
    if k == "Line":
        kind_of_line(cx, o, text)
    if k == "Projection":
        cx.ok(("orthogonal" in text) == (s[3] is None), "Projection.show: orthogonal projections", text=text)
        if s[3] is None:
            u, v = sub(P2(o.D.B), P2(o.D.A)), sub(P2(o.Delta.B), P2(o.Delta.A))
            cx.near(dot(u, v), 0, 1e-12 * norm(u) * norm(v), "Projection.show: the directrix of an orthogonal projection is orthogonal")
    if k == "Triangle":
        flat_text(cx, o, text)
    if k not in ("Reflection", "Projection") and r.random() < .5:
        t = GEN[k](r)
        o2 = build3(t, Style(r))
        for a in vars(o2):
            if not a.startswith("_"):
                setattr(o, a, getattr(o2, a))
        check_show(cx, o, "reassigned")
        cx.cls("reassigned")


def kind_of_line(cx, l, text):
    """the sentence agrees with the points which the line includes"""
    A, B = line_of(l)
    u = sub(B, A)
    before, after = bool(l.includes(sub(A, u), strict=True)), bool(l.includes(add(B, u), strict=True))
    low = text.lower()
    names = [w for w in ("infinite line", "half-line", "segment") if w in low]
    want = ["infinite line" if before and after else "half-line" if before or after else "segment"]
    cx.ok(names == want, "Line.show: the kind of the line", text=text, before=before, after=after)
    if want == ["half-line"]:
        m = re.search(r"origin\s+([AB])\b", text)
        cx.ok(m is not None and m.group(1) == ("B" if before else "A"), "Line.show: the origin of the half-line", text=text, before=before, after=after)


def flat_text(cx, t, text):
    f = float(t.flatness)
    low = text.lower()
    if "almost flat" in low:
        same_numbers(cx, numbers(low[low.index("almost flat"):]), [f], "Triangle.show: the flatness", text=text)
    # the flatness itself is judged by C13
    cx.ok(("flat" in low) == (f > .99) and ("almost" in low) == (.99 < f < 1), "Triangle.show: flat and almost flat triangles", text=text, flatness=f)


@family("C30", 300, ["flat", "almost flat", "not flat"])
def flat_triangles(cx):
    """a triangle is displayed as flat exactly when its vertices are aligned"""
    r = cx.r
    A = (grid(r), grid(r))
    u = (grid(r), grid(r))
    if u == (0, 0):
        raise Skip()
    k = r.choice(["flat", "almost flat", "not flat"])
    i, j = r.choice([(1, 2), (-1, 3), (2, 1), (1, -1), (2, -3)])
    B, C = add(A, mul(i, u)), add(A, mul(j, u))
    if k == "almost flat":
        C = add(C, mul(sgn(r) * logu(r, -5, -1.6) * abs(j), perp(u)))
    elif k == "not flat":
        C = add(C, mul(sgn(r) * r.uniform(.2, 3) * abs(j), perp(u)))
    cx.put(A=A, B=B, C=C)
    text = check_show(cx, G.Triangle(wrap(r, A), wrap(r, B), wrap(r, C)), "new")
    low = text.lower()
    cx.ok(("flat" in low) == (k != "not flat") and ("almost" in low) == (k == "almost flat"), "Triangle.show: %s triangle" % k, text=text)
    cx.cls(k)


STR = {"Line": ("A", "B", "extendA", "extendB"), "Circle": ("center", "radius"), "Arc": ("center", "radius", "alpha1", "alpha2", "degrees"),
       "Ellipse": ("center", "rmajor", "rminor", "alpha", "degrees"), "Inversion": ("pole", "power"), "Triangle": ("A", "B", "C"),
       "Affine": ("A", "b"), "Mobius": ("M",), "Rotation": ("center", "theta", "degrees"), "Homothety": ("center", "scale"),
       "Scaling": ("center", "direction", "scale"), "ScalingXY": ("center", "sx", "sy"), "Shear": ("vertex", "vector", "ratio", "angle", "degrees")}


@family("C30", 700, sorted(STR))
def described(cx):
    """str names the attributes and their values"""
    r = cx.r
    k = sorted(STR)[cx.idx % len(STR)]
    s = GEN[k](r)
    o = build3(s, Style(r))
    cx.put(kind=k, spec=s)
    cx.cls(k)
    text = str(o)
    for a in STR[k]:
        m = re.search(r"['\"]%s['\"]\s*:([^:]*?)(?:,\s*['\"]\w+['\"]\s*:|\}$)" % a, text, re.S)
        cx.ok(m is not None, "%s: str names the attribute `%s`" % (k, a), text=text)
        v = getattr(o, a)
        if isinstance(v, (bool, np.bool_)):
            cx.ok(re.findall("True|False", m.group(1)) == [str(bool(v))], "%s: str gives the value of `%s`" % (k, a), text=text)
        else:
            same_numbers(cx, numbers(re.sub(r"dtype=\w+", "", m.group(1))), cc_(v) if k == "Mobius" else pp(v), "%s: str gives the value of `%s`" % (k, a), text=text)


@family("C30", 900, ["Line", "Circle", "Ellipse", "Triangle", "Inversion"])
def results_shown(cx):
    """objects returned by operations display themselves as well"""
    r = cx.r
    o = OPS[cx.idx % len(OPS)]
    for _ in range(40):
        try:
            specs = o.gen(r)
            break
        except Skip:
            continue
    else:
        raise Skip()
    cx.put(operation=o.name, operands=specs)
    try:
        v = o.call(G, *[build3(s, Style(r)) for s in specs])
    except ValueError:
        raise Skip()
    stack, n = [v], 0
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            stack.extend(x.values())
        elif isinstance(x, (list, tuple)):
            stack.extend(x)
        elif type(x).__name__ in SHOW:
            nm = type(x).__name__
            text = check_show(cx, x, "result of " + o.name)
            str(x)
            if nm == "Triangle":
                flat_text(cx, x, text)
            cx.cls(nm)
            n += 1
    if n == 0:
        raise Skip()
