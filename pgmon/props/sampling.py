"""C21 random points."""
import math
import random
from math import pi, sqrt
import numpy as np
from ..core import prop, family, Fail, Skip, show, load
from .. import geo
from ..geo import sub, mul, dot, cross, norm, d, TAU
from . import ops

G = load()
prop("C21", ["Circle.random_points", "Ellipse.random_points", "Triangle.random_points"],
     "Membership of every row for any sample size; uniformity by chi-square on cells of equal measure, alarm below p=1e-9.")


def chi2(cx, counts, label, weights=None):
    """the counts are compatible with the cell probabilities (p > 1e-9)"""
    n = sum(counts)
    k = len(counts)
    exp = [n / k] * k if weights is None else [n * w / sum(weights) for w in weights]
    x = sum((c - e) ** 2 / e for c, e in zip(counts, exp))
    df = k - 1
    z = 6.2                                           # p about 3e-10 (Wilson-Hilferty)
    lim = df * (1 - 2 / (9 * df) + z * sqrt(2 / (9 * df))) ** 3
    cx.ok(x <= lim, label, chi_square=x, threshold=lim, counts=counts, expected=exp)


def rows(cx, M, n, label):
    M = np.asarray(M)
    cx.ok(M.shape == (n, 2), label + ": shape", shape=M.shape, expected=(n, 2))
    cx.ok(M.dtype.kind == "f" and np.isfinite(M).all(), label + ": finite real coordinates")
    return [tuple(x) for x in M.tolist()]


def figure(r):
    k = r.choice(["Circle", "Ellipse", "Triangle"])
    s = ops.CIRC(r) if k == "Circle" else ops.ELL(r) if k == "Ellipse" else ops.TRI(r)
    return k, s, ops.build(G, s, ops.Style(r))


def coords(k, s, P):
    """normal coordinates: (radius, angle) in the disc, or barycentric"""
    if k == "Triangle":
        A, B, C = s[1:]
        D = cross(sub(B, A), sub(C, A))
        v = cross(sub(P, A), sub(C, A)) / D
        w = cross(sub(B, A), sub(P, A)) / D
        return 1 - v - w, v, w
    if k == "Circle":
        x, y = sub(P, s[1])
        return norm((x, y)) / s[2], math.atan2(y, x)
    u = geo.rot(sub(P, s[1]), -s[4])
    q = (u[0] / s[2], u[1] / s[3])
    return norm(q), math.atan2(q[1], q[0])


@family("C21", 500, ["Circle in", "Circle on", "Ellipse in", "Ellipse on", "Triangle in", "Triangle on", "one point"])
def members(cx):
    r = cx.r
    k, s, o = figure(r)
    where = r.choice(["in", "on"])
    n = r.choice([1, 1, 2, 3, r.randint(4, 60)])
    cx.put(figure=s, where=where, n=n)
    cx.cls(k + " " + where)
    if n == 1:
        cx.cls("one point")
    if where == "in" and r.random() < .3:
        M = o.random_points(n)
    elif r.random() < .5:
        M = o.random_points(n, where)
    else:
        M = o.random_points(n, where=where)
    pts = rows(cx, M, n, k)
    tol = 1e-9 * (1 + ops.size(s) / (min(s[2:4]) if k == "Ellipse" else s[2] if k == "Circle" else 1))
    for P in pts:
        c = coords(k, s, P)
        if k == "Triangle":
            cx.ok(min(c) >= -1e-8, k + ": every point is in the closed triangle", point=P, barycentric=c)
            if where == "on":
                cx.ok(min(c) <= 1e-8, k + ": every point is on the boundary", point=P, barycentric=c)
        else:
            cx.ok(c[0] <= 1 + 10 * tol, k + ": every point is inside or on the curve", point=P, q=c)
            if where == "on":
                cx.near(c[0], 1.0, 10 * tol, k + ": every point is on the curve", point=P)
    if n > 1:
        cx.ok(len(set(pts)) == n, k + ": the points of a draw differ", points=pts)
    M2 = o.random_points(n, where)
    cx.ok(not np.array_equal(np.asarray(M), np.asarray(M2)), k + ": two draws differ", draw=M)
    fresh(cx, k, s, where, [pts, rows(cx, M2, n, k), rows(cx, o.random_points(n + 1, where), n + 1, k)])


@family("C21", 40, ["Circle", "Ellipse", "Triangle"], factor=3)
def counts(cx):
    """every number of points, in turn"""
    r = cx.r
    k, s, o = figure(r)
    cx.cls(k)
    for n in range(1 + 10 * (cx.idx % 40), 11 + 10 * (cx.idx % 40)):
        where = r.choice(["in", "on"])
        cx.put(figure=s, where=where, n=n)
        M = np.asarray(o.random_points(n, where))
        cx.ok(M.shape == (n, 2) and np.isfinite(M).all(), k + ": as many rows as requested, any number", n=n, shape=M.shape)
        cx.ok(len(np.unique(M, axis=0)) == n, k + ": the points of a draw differ, any number", n=n)
        if k == "Ellipse" and s[2] > 100 * s[3] or ops.size(s) > 1e3:
            continue
        if where == "in":
            u, v = variates_np(k, s, where, M)
            cx.ok(u.max() <= 1 + 1e-6 and (k != "Triangle" or (v.min() > -1e-6 and v.max() < 1 + 1e-6)), k + ": every point is in the figure, any number", n=n)


@family("C21", 300, ["Circle in", "Circle on", "Ellipse in", "Ellipse on", "Triangle in", "Triangle on", "tiny", "huge", "far", "elongated"])
def extreme_members(cx):
    """tiny, huge, far and elongated figures: every point is where it should be, on both sides of the centre"""
    r = cx.r
    k = r.choice(["Circle", "Ellipse", "Triangle"])
    b = 10 ** r.uniform(-6, 6)
    far = b * r.choice([0, geo.logu(r, 0, 5)])
    C = geo.polar((0, 0), far, r.choice([0, pi / 2, r.uniform(0, TAU)]))
    q = 10 ** r.uniform(0, 2.5)
    if k == "Circle":
        s = ("circ", C, b)
        o = G.Circle(geo.wrap(r, C), b)
    elif k == "Ellipse":
        al = r.uniform(-7, 7)
        s = ("ell", C, b * q, b, al)
        o = G.Ellipse(geo.wrap(r, C), b * q, b, al, False)
    else:
        u = r.uniform(0, TAU)
        P = [geo.add(C, geo.rot(x, u)) for x in ((-b * q, 0), (b * q, 0), (r.uniform(-1, 1) * b * q, b))]
        r.shuffle(P)
        s = ("tri",) + tuple(P)
        o = G.Triangle(*[geo.wrap(r, x) for x in P])
    where = r.choice(["in", "on"])
    cx.put(figure=s, where=where)
    pts = rows(cx, o.random_points(24, where), 24, k)
    tol = 1e-7 + 1e-13 * (1 + far / b + q) * q
    x = []
    for P in pts:
        c = coords(k, s, P)
        if k == "Triangle":
            cx.ok(min(c) >= -tol, k + ": every point is in the closed triangle, extreme figures", point=P, barycentric=c)
            if where == "on":
                cx.ok(min(c) <= tol, k + ": every point is on the boundary, extreme figures", point=P, barycentric=c)
        else:
            cx.ok(c[0] <= 1 + tol, k + ": every point is inside or on the curve, extreme figures", point=P, q=c)
            if where == "on":
                cx.near(c[0], 1.0, tol, k + ": every point is on the curve, extreme figures", point=P)
            x.append(math.cos(c[1] + .3))
    if x and far < 1e4 * b:
        # (the chance of 24 points on one side of a line through the centre is about 1e-7)
        cx.ok(min(x) < 0 < max(x), k + ": the points surround the centre, extreme figures", points=pts)
    cx.cls(k + " " + where)
    if b < 1e-2 or b > 1e2:
        cx.cls("tiny" if b < 1 else "huge")
    if far > 1e3 * b:
        cx.cls("far")
    if k != "Circle" and q > 50:
        cx.cls("elongated")


def fresh(cx, k, s, where, draws):
    """no variate of a draw is found again in another draw (a generator which
    is reset, wholly or for one of its variates only, repeats all of them)"""
    if k == "Ellipse" and s[2] > 20 * s[3]:
        return
    if k == "Triangle" and max(d(s[1], s[2]), d(s[2], s[3]), d(s[1], s[3])) ** 2 > 100 * abs(cross(sub(s[2], s[1]), sub(s[3], s[1]))):
        return
    us = [[variates(k, s, where, P) for P in pts] for pts in draws]
    for i in range(len(us[0][0])):
        for a in range(len(us)):
            for b in range(a):
                x, y = sorted(u[i] for u in us[a]), sorted(u[i] for u in us[b])
                n = min(len(x), len(y))
                same = sum(1 for v in x if any(abs(v - w) < 1e-11 for w in y))
                cx.ok(same < max(1, min(3, n)), k + ": the variates of two draws differ", draw_1=x[:10], draw_2=y[:10])


@family("C21", 400, ["Circle", "Ellipse", "Triangle", "Ellipse.LownerJohnEllipse", "another figure"], factor=6)
def draws_between(cx):
    """the draws stay independent whatever else is computed between them"""
    r = cx.r
    k, s, o = figure(r)
    where = r.choice(["in", "on"])
    n = r.choice([1, 2, 5, 30])
    todo = r.sample(ops.OPS, 3) + [x for x in ops.OPS if "LownerJohn" in x.name]
    cx.cls(k)
    jobs = []
    for x in todo:
        for _ in range(3):
            try:
                sp = x.gen(r)
                st = r.getrandbits(32)
                jobs.append((x, sp, st))
                break
            except Skip:
                continue
    cx.put(figure=s, where=where, n=n, between=[(x.name, sp) for x, sp, _ in jobs])

    def others():
        for x, sp, st in jobs:
            try:
                x.call(G, *[ops.build(G, q, ops.Style(random.Random(st))) for q in sp])
                cx.cls(x.name)
            except Exception:
                pass                      # the operations themselves are the matter of other properties

    draws = []
    for i in range(3):
        if r.random() < .5:
            others()
        else:
            j = r.choice(jobs)
            try:
                j[0].call(G, *[ops.build(G, q, ops.Style(random.Random(j[2]))) for q in j[1]])
            except Exception:
                pass
        draws.append(rows(cx, o.random_points(n, where), n, k))
    # the same operations before each of two draws
    for i in range(2):
        others()
        draws.append(rows(cx, o.random_points(n, where), n, k))
    if r.random() < .4:                   # or the draws of another figure
        cx.cls("another figure")
        k2, s2, o2 = figure(r)
        m = r.randint(1, 40)
        for i in range(2):
            o2.random_points(m, r.choice(["in", "on"]))
            draws.append(rows(cx, o.random_points(n, where), n, k))
    fresh(cx, k, s, where, draws)


def variates(k, s, where, P):
    """the position of P as variates which are uniform on [0, 1) and independent
    when the points are uniformly distributed (one variate along a curve)"""
    c = coords(k, s, P)
    if k == "Triangle":
        if where == "in":
            h = max(1 - c[0], 1e-300)           # fans from A, cut by parallels to BC
            return h * h, max(c[2], 0) / h
        A, B, C = s[1:]
        L = [d(A, B), d(B, C), d(C, A)]
        m = min(c)
        i = 0 if m == c[2] else 1 if m == c[0] else 2
        return ((sum(L[:i]) + d((A, B, C)[i], P)) / sum(L),)
    t = (c[1] / TAU) % 1
    return (c[0] ** 2, t) if where == "in" else (t,)


def uniform01(cx, us, label):
    """chi-square on equal cells, coarse and fine, and the first two moments"""
    n = len(us)
    for m in (4, 25):
        cells = [0] * m
        for u in us:
            cells[min(m - 1, max(0, int(m * u)))] += 1
        chi2(cx, cells, label)
    for p, mean, var in ((1, 1 / 2, 1 / 12), (2, 1 / 3, 4 / 45)):
        z = (sum(u ** p for u in us) / n - mean) / sqrt(var / n)
        cx.ok(abs(z) < 6.5, label + ": moment of order %d" % p, z=z, n=n)


@family("C21", 36, ["Circle in", "Circle on", "Ellipse in", "Ellipse on", "Triangle in", "Triangle on"], factor=12)
def uniform(cx):
    r = cx.r
    want = cx.idx % 6                 # every figure in turn
    while True:
        k, s, o = figure(r)
        where = r.choice(["in", "on"])
        if k == "Ellipse" and s[2] > 4 * s[3]:
            continue
        if (["Circle", "Ellipse", "Triangle"].index(k) * 2 + (where == "on")) == want:
            break
    n = 20000
    cx.put(figure=s, where=where, n=n)
    cx.cls(k + " " + where)
    pts = rows(cx, o.random_points(n, where), n, k)
    name = {"in": "uniform in the ", "on": "uniform on the perimeter of the " if k == "Triangle" else "uniform on the "}[where] + k.lower()
    vs = [variates(k, s, where, P) for P in pts]
    if k == "Ellipse" and where == "on":
        cells = [0] * 16
        for t, in vs:
            cells[int(16 * t + .3) % 16] += 1
        # eccentric or arc-length uniform are both fine: every sector is reached
        cx.ok(min(cells) >= .15 * n / 16, "every part of the ellipse is reached", counts=cells)
        # and the distribution has the symmetries of the ellipse
        q = [0] * 4
        for t, in vs:
            q[int(4 * t) % 4] += 1
        chi2(cx, q, "the four quarters of the ellipse are equally frequent")
        return
    for i in range(len(vs[0])):
        uniform01(cx, [v[i] for v in vs], name)
    if len(vs[0]) == 2:
        cells = [0] * 64
        for u, v in vs:
            cells[8 * min(7, max(0, int(8 * u))) + min(7, max(0, int(8 * v)))] += 1
        chi2(cx, cells, name)
    elif k == "Triangle":             # inside each edge
        A, B, C = s[1:]
        L = [d(A, B), d(B, C), d(C, A)]
        cuts = [0, L[0] / sum(L), (L[0] + L[1]) / sum(L), 1]
        parts = [[], [], []]
        for u, in vs:
            i = 0 if u < cuts[1] else 1 if u < cuts[2] else 2
            parts[i].append((u - cuts[i]) / (cuts[i + 1] - cuts[i]))
        chi2(cx, [len(x) for x in parts], name + ": share of each edge", L)
        for i, x in enumerate(parts):
            if len(x) > 200:
                uniform01(cx, x, name + ": along an edge")


@family("C21", 30, ["Circle", "Ellipse", "Triangle"], factor=12)
def independent_rows(cx):
    """the rows of a draw are not correlated, at any distance, nor with those of the next draw"""
    r = cx.r
    k, s, o = figure(r)
    where = r.choice(["in", "on"])
    n = 3000
    cx.put(figure=s, where=where, n=n)
    cx.cls(k)
    pts = rows(cx, o.random_points(n, where), n, k)
    cx.ok(len(set(pts)) == n, k + ": the points of a draw differ")
    if not (k == "Ellipse" and (where == "on" or s[2] > 20 * s[3])):
        us = [variates(k, s, where, P) for P in pts]
        vs = [variates(k, s, where, P) for P in rows(cx, o.random_points(n, where), n, k)]
        for i in range(len(us[0])):
            for j in range(len(us[0])):
                for lag in (0, 1, 2):
                    # of this draw and of the next one, and of successive rows
                    for name, ws in (("the next draw", vs), ("the following rows", us)):
                        if ws is us and lag == 0:
                            continue
                        z = 12 / sqrt(n - lag) * sum((us[t][i] - .5) * (ws[t + lag][j] - .5) for t in range(n - lag))
                        cx.ok(abs(z) < 6.5, k + ": no correlation with " + name, z=z, variates=(i, j), lag=lag)
        # all the lags at once, forwards and backwards (a draw which is mirrored, shifted or partly repeated)
        F = []
        for ws in (us, vs):
            for i in range(len(us[0])):
                x = np.array([w[i] for w in ws])
                F += [(ws is us, np.fft.fft(f * sqrt(2))) for f in (np.cos(TAU * x), np.sin(TAU * x))] + [(ws is us, np.fft.fft(sqrt(12) * (x - .5)))]
        for a, (first, x) in enumerate(F):
            if not first:
                continue
            for b, (same, y) in enumerate(F):
                if b < a:
                    continue
                for name, w in (("forwards", np.fft.ifft(x * np.conj(y)).real), ("backwards", np.fft.ifft(x * y).real)):
                    if same and name == "forwards":
                        w[0] = 0                                    # the rows with themselves
                    j = int(np.argmax(np.abs(w)))
                    z = abs(float(w[j])) / sqrt(n)
                    cx.ok(z < 10.5, k + ": no correlation of the rows at any distance, " + name, z=z, distance=j, same_draw=same)
    for axis in (0, 1):
        v = sorted(p[axis] for p in pts)
        med = v[n // 2]
        b = [int(p[axis] > med) for p in pts]
        same = sum(b[i] == b[i + 1] for i in range(n - 1))
        z = (same - (n - 1) / 2) / (sqrt(n - 1) / 2)
        cx.ok(abs(z) < 6.5, k + ": consecutive rows are unrelated", z=z, axis=axis)


def variates_np(k, s, where, M):
    """the same as variates(), for all the rows at once"""
    if k == "Triangle":
        A, B, C = (np.array(P, dtype=float) for P in s[1:])
        u, v = B - A, C - A
        D = u[0] * v[1] - u[1] * v[0]
        X = M - A
        b = (X[:, 0] * v[1] - X[:, 1] * v[0]) / D
        c = (u[0] * X[:, 1] - u[1] * X[:, 0]) / D
        if where == "in":
            h = np.maximum(b + c, 1e-300)
            return [h * h, c / h]
        L = [d(s[1], s[2]), d(s[2], s[3]), d(s[3], s[1])]
        bar = np.column_stack((c, 1 - b - c, b))
        e = np.argmin(bar, axis=1)
        start = np.array([0, L[0], L[0] + L[1]])[e]
        O = np.array([A, B, C])[e]
        return [(start + np.hypot(M[:, 0] - O[:, 0], M[:, 1] - O[:, 1])) / sum(L)]
    X = M - np.array(s[1], dtype=float)
    if k == "Circle":
        x, y = X[:, 0] / s[2], X[:, 1] / s[2]
    else:
        co, si = math.cos(s[4]), math.sin(s[4])
        x, y = (co * X[:, 0] + si * X[:, 1]) / s[2], (co * X[:, 1] - si * X[:, 0]) / s[3]
    t = (np.arctan2(y, x) / TAU) % 1
    return [x * x + y * y, t] if where == "in" else [t]


def deviation(k, n, p):
    """of a binomial count k from n p, in standard deviations of a Poisson tail bound"""
    m = n * p
    # Chernoff: P(X >= k) (or <= k) <= exp(-m + k - k log(k/m))
    return m - k + (k * math.log(k / m) if k else 0)


@family("C21", 4, ["Circle in", "Circle on", "Ellipse in", "Ellipse on", "Triangle in", "Triangle on"], factor=12)
def large_samples(cx):
    """one large draw: rare parts of the figure have their share, no value is favoured"""
    r = cx.r
    want = cx.idx % 6
    while True:
        k, s, o = figure(r)
        where = r.choice(["in", "on"])
        if k == "Ellipse" and s[2] > 20 * s[3]:
            continue
        if k == "Triangle" and max(d(s[1], s[2]), d(s[2], s[3]), d(s[1], s[3])) ** 2 > 100 * abs(cross(sub(s[2], s[1]), sub(s[3], s[1]))):
            continue
        size = s[2] if k != "Triangle" else max(d(s[1], s[2]), d(s[2], s[3]))
        if geo.norm(s[1]) > 100 * size:
            continue
        if (["Circle", "Ellipse", "Triangle"].index(k) * 2 + (where == "on")) == want:
            break
    n = 120000
    cx.put(figure=s, where=where, n=n)
    cx.cls(k + " " + where)
    M = np.asarray(o.random_points(n, where))
    cx.ok(M.shape == (n, 2), k + ": shape of a large draw", shape=M.shape)
    name = "%s %s, large sample: " % (k, where)
    us = variates_np(k, s, where, M)
    free = k == "Ellipse" and where == "on"
    for i, u in enumerate(us):
        u = np.minimum(np.maximum(u, 0), 1)
        v = np.sort(u)
        # rounding: the variates have a grain of about 1e-15 times the distortion of the figure
        ties = int((np.diff(v) < 1e-15).sum())
        cx.ok(ties <= 60, name + "no value is taken again and again", ties=ties, variate=i)
        if free:
            h = np.array([int(x) for x in np.histogram(u, bins=400, range=(0, 1))[0]])
            q = h + h[::-1] + np.roll(h, 200) + np.roll(h[::-1], 200)
            for x, y in zip(h.tolist(), (q / 4).tolist()):
                cx.ok(deviation(x, n, y / n) < 26, name + "the distribution has the symmetries of the ellipse", count=x, expected=y)
            # smooth: no sector is empty or crowded compared to its neighbours
            for a in range(100):
                e = (q[a] + q[(a + 2) % 400]) / 2
                cx.ok(abs(q[(a + 1) % 400] - e) < 8 * sqrt(1.5 * e) + .05 * e, name + "the density varies smoothly", counts=q[a:a + 3].tolist())
            continue
        for m in (1000, 97):
            h = np.histogram(u, bins=m, range=(0, 1))[0]
            for x in h.tolist():
                cx.ok(deviation(x, n, 1 / m) < 28, name + "every cell has its share", count=x, expected=n / m, cells=m, variate=i)
            chi2(cx, [int(x) for x in h], name + "uniform on fine cells")
        for p in (3e-4, 1e-3, 3e-3, 1e-2):
            for lo in (0, 1 - p, r.uniform(0, 1 - p)):
                c = int(((u >= lo) & (u <= lo + p)).sum())
                cx.ok(deviation(c, n, p) < 26, name + "rare parts have their share", count=c, expected=n * p, lower=lo, width=p, variate=i)
    if len(us) == 2:
        h = np.histogram2d(np.clip(us[0], 0, 1), np.clip(us[1], 0, 1), bins=30, range=[[0, 1], [0, 1]])[0]
        chi2(cx, [int(x) for x in h.ravel()], name + "uniform on two-dimensional cells")
