"""Framework: loads the library from /repo, instruments its public API, runs
workload families under per-property oracles, and reports verdicts."""
import sys, os, json, time, math, random, hashlib, signal, traceback, warnings

REPO = os.environ.get("PGMON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
# never trust byte code left in the repository: the sources decide
sys.pycache_prefix = "/nonexistent/pgmon"
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np

np.seterr(all="ignore")


class Null:
    """stdout of the library under test: only counts what is written."""

    def __init__(self):
        self.n = 0
        self.keep = None

    def write(self, s):
        self.n += len(s)
        if self.keep is not None:
            self.keep.append(s)
        return len(s)

    def flush(self):
        pass


class Fail(Exception):
    """An oracle observed something the property excludes."""

    def __init__(self, label, **info):
        Exception.__init__(self, label)
        self.label = label
        self.info = info


class Skip(Exception):
    """The generated case is outside the stated domain: not an observation."""


class Hang(BaseException):
    pass


def show(x, depth=0):
    """Compact, deterministic description of any value (samples, witnesses)."""
    if depth > 4:
        return "..."
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        return "%.12g" % float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return "%.12g%+.12gj" % (x.real, x.imag)
    if x is None or isinstance(x, str):
        return repr(x)
    if isinstance(x, np.ndarray):
        return "array" + show(x.tolist(), depth + 1)
    if isinstance(x, (list, tuple)):
        b = "[]" if isinstance(x, list) else "()"
        if len(x) > 12:
            x = list(x[:12]) + ["...%d" % len(x)]
        return b[0] + ", ".join(show(y, depth + 1) for y in x) + b[1]
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (k, show(v, depth + 1)) for k, v in x.items()) + "}"
    pub = PUBLIC.get(type(x).__name__)
    if pub is not None:
        return type(x).__name__ + "(" + ", ".join(
            "%s=%s" % (a, show(getattr(x, a, "<missing>"), depth + 1)) for a in pub) + ")"
    return "<%s>" % type(x).__name__


# the documented state of each class (constructor arguments)
PUBLIC = {
    "Line": ("A", "B", "extendA", "extendB"),
    "Circle": ("center", "radius"),
    "Arc": ("center", "radius", "alpha1", "alpha2", "degrees"),
    "Ellipse": ("center", "rmajor", "rminor", "alpha", "degrees"),
    "Inversion": ("pole", "power"),
    "Triangle": ("A", "B", "C"),
    "Affine": ("A", "b"),
    "Mobius": ("M",),
    "Reflection": ("line",),
    "Projection": ("D", "Delta"),
    "Rotation": ("center", "theta", "degrees"),
    "Shear": ("vertex", "vector", "ratio", "angle", "degrees"),
    "ScalingXY": ("center", "sx", "sy"),
    "Homothety": ("center", "scale"),
    "Scaling": ("center", "direction", "scale"),
}
FUNCTIONS = ("intersection_line_line", "circleAB", "circleOA", "radical_center",
             "mid_circles", "intersection_circle_line", "intersection_circle_circle",
             "intersection_ellipse_line", "SteinerChain", "cross_ratio",
             "unimodular_matrices")


def freeze(x):
    """Exact value snapshot of an argument or an object's documented state."""
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, freeze(v)) for k, v in x.items())
    pub = PUBLIC.get(type(x).__name__)
    if pub is not None:
        return (type(x).__name__,) + tuple(freeze(getattr(x, a, "<missing>")) for a in pub)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    return (type(x).__name__, repr(x)) if not isinstance(x, type) else x.__name__


class Monitor:
    """Wraps every public function, method and property of the library.
    Counts events, remembers a digest of the outermost calls of a case and,
    when `purity` is on, compares snapshots of all operands around the call."""

    def __init__(self):
        self.events = {}
        self.depth = 0
        self.digest = None
        self.purity = False
        self.purity_checks = 0
        self.trace = None
        self.calls = 0

    def wrap(self, name, fn):
        mon = self

        def wrapper(*args, **kw):
            ev = mon.events
            ev[name] = ev.get(name, 0) + 1
            if mon.depth > 0:
                return fn(*args, **kw)
            mon.depth = 1
            mon.calls += 1
            try:
                d = mon.digest
                if d is not None and mon.calls <= 40:
                    d.update(name.encode())
                    d.update(repr([freeze(a) for a in args]).encode())
                if not mon.purity:
                    return fn(*args, **kw)
                before = (freeze(args), freeze(kw))
                try:
                    out = fn(*args, **kw)
                finally:
                    after = (freeze(args), freeze(kw))
                    mon.purity_checks += 1
                    if before != after and not name.endswith(".__init__"):
                        raise Fail("operand modified by " + name, call=name,
                                   args=show(args), before=str(before)[:600],
                                   after=str(after)[:600])
                return out
            finally:
                mon.depth = 0
        wrapper.__name__ = getattr(fn, "__name__", name)
        wrapper.__doc__ = getattr(fn, "__doc__", None)
        return wrapper

    def install(self, g):
        for cname in PUBLIC:
            cls = getattr(g, cname)
            for k, v in list(vars(cls).items()):
                if k.startswith("_") and k not in ("__init__", "__str__"):
                    continue
                name = cname + "." + k
                if isinstance(v, classmethod):
                    setattr(cls, k, classmethod(self.wrap(name, v.__func__)))
                elif isinstance(v, staticmethod):
                    setattr(cls, k, staticmethod(self.wrap(name, v.__func__)))
                elif isinstance(v, property):
                    if v.fget is not None:
                        setattr(cls, k, property(self.wrap(name, v.fget), v.fset, v.fdel, v.__doc__))
                elif callable(v) and not isinstance(v, type):
                    setattr(cls, k, self.wrap(name, v))
        for k in FUNCTIONS:
            setattr(g, k, self.wrap(k, getattr(g, k)))


MON = Monitor()
G = None


def load():
    """Import the library from the working tree and instrument it."""
    global G
    if G is None:
        out = sys.stdout
        sys.stdout = Null()
        try:
            import planegeometry.geometry as g
        finally:
            sys.stdout = out
        if not os.path.realpath(g.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("library loaded from " + g.__file__)
        MON.install(g)
        G = g
    return G


class Case:
    """One generated case: random choices, recorded inputs, oracle calls."""

    def __init__(self, prop, fam, idx, seed):
        h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, fam, idx)).encode()).digest()
        self.r = random.Random(int.from_bytes(h[:8], "big"))
        self.npseed = int.from_bytes(h[8:12], "big") % (2 ** 31)
        self.evals = 0
        self.idx = idx
        self.labels = {}
        self.inputs = {}
        self.classes = []

    def put(self, **kw):
        for k, v in kw.items():
            self.inputs[k] = show(v)

    def cls(self, name):
        self.classes.append(name)

    def ok(self, cond, label, **info):
        self.evals += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if not cond:
            raise Fail(label, **{k: show(v) for k, v in info.items()})

    def near(self, a, b, tol, label, **info):
        """|a-b| <= tol for numbers, points and arrays (NaN never passes)."""
        self.evals += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        e = dist(a, b)
        if not e <= tol:
            raise Fail(label, got=show(a), expected=show(b), error=show(e), tol=show(tol),
                       **{k: show(v) for k, v in info.items()})

    def raises(self, exc, fn, label, **info):
        self.evals += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        try:
            out = fn()
        except exc:
            return
        except (Fail, Skip):
            raise
        except Exception as e:
            raise Fail(label + ": " + type(e).__name__ + " instead of " + exc.__name__,
                       error=repr(str(e))[:200], **{k: show(v) for k, v in info.items()})
        raise Fail(label + ": accepted", returned=show(out),
                   **{k: show(v) for k, v in info.items()})


def flat(x):
    if isinstance(x, (int, float, complex, np.number)) and not isinstance(x, bool):
        return [x]
    if isinstance(x, np.ndarray):
        x = x.tolist()
        if not isinstance(x, list):
            return [x]
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(flat(y))
        return out
    raise Fail("unexpected value where numbers are documented", got=show(x))


def dist(a, b):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        raise Fail("unexpected shape", got=show(a), expected=show(b))
    m = 0.0
    for x, y in zip(fa, fb):
        e = abs(x - y)
        if not e <= m:
            m = e
            if e != e:
                return e
    return m


FAMILIES = {}
META = {}


def prop(pid, require=(), rule=""):
    """Declare a property: the API events without which a run proves nothing."""
    META[pid] = {"require": tuple(require), "rule": rule}
    FAMILIES.setdefault(pid, [])


def family(pid, n, classes=(), name=None, factor=20):
    """Register a workload family with `n` cases in the quick tier; `classes`
    are the outcome classes which have to be seen at least once."""
    def deco(fn):
        FAMILIES.setdefault(pid, []).append(
            {"name": name or fn.__name__, "n": n, "fn": fn, "classes": tuple(classes), "factor": factor})
        return fn
    return deco


CPU_LIMIT = 60.0
QUICK = 3      # multiplier of the family sizes in the quick tier
CHEAP = 7.5    # the same for the families the cases of which take milliseconds


def multiplier(pid, fam, tier):
    """family sizes: the thorough tier is `factor` times the quick one, or a little less"""
    if tier == "thorough":
        return QUICK * fam["factor"]
    return CHEAP if fam["factor"] >= 15 and pid not in ("C12", "C22") else QUICK


def run_case(pid, fam, idx, seed, purity=False):
    """Returns (case, status, failure); status in ok, skip, fail."""
    cx = Case(pid, fam["name"], idx, seed)
    MON.digest = hashlib.sha1()
    MON.depth = 0
    MON.calls = 0
    MON.purity = purity
    np.random.seed(cx.npseed)
    random.seed(cx.npseed)

    def onalarm(signum, frame):
        raise Hang()
    signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    status, failure = "ok", None
    try:
        fam["fn"](cx)
    except Skip:
        status = "skip"
    except Fail as e:
        status, failure = "fail", {"label": e.label, "info": e.info}
    except Hang:
        status, failure = "fail", {"label": "no result within %g s of CPU time" % CPU_LIMIT, "info": {}}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-6:]
        status, failure = "fail", {"label": "unexpected %s: %s" % (type(e).__name__, str(e)[:200]),
                                   "info": {"where": where}}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        MON.depth = 0
        MON.purity = False
    return cx, status, failure


def run_shard(pid, tier, seed, shard, nshards, path, factor):
    """Child process: the cases idx = shard mod nshards of every family."""
    sys.stdout = Null()
    res = {"evals": 0, "cases": 0, "skips": 0, "digests": [], "classes": {}, "labels": {},
           "fails": [], "samples": [], "events": {}, "fam": {}, "purity": 0}
    MON.events.clear()
    seen = set()
    for fam in FAMILIES[pid]:
        n = int(fam["n"] * (factor if factor is not None else multiplier(pid, fam, tier)))
        st = res["fam"].setdefault(fam["name"], [0, 0, 0])
        nf = 0
        for idx in range(shard, n, nshards):
            cx, status, failure = run_case(pid, fam, idx, seed, purity=(pid in PURITY))
            res["cases"] += 1
            st[0] += 1
            if status == "skip":
                res["skips"] += 1
                st[1] += 1
                continue
            res["evals"] += cx.evals
            st[2] += cx.evals
            for k, v in cx.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            for c in cx.classes:
                c = fam["name"] + ":" + c
                res["classes"][c] = res["classes"].get(c, 0) + 1
            if cx.evals > 0:
                MON.digest.update(repr(sorted(cx.inputs.items())).encode())
                seen.add(MON.digest.hexdigest()[:20])
            if status == "ok" and idx < 1 and len(res["samples"]) < 12:
                res["samples"].append({"family": fam["name"], "case": idx, "inputs": cx.inputs,
                                       "outcomes": cx.classes[:6], "oracle_evaluations": cx.evals})
            if status == "fail":
                res["fails"].append({"family": fam["name"], "case": idx, "inputs": cx.inputs,
                                     "label": failure["label"], "info": failure["info"]})
                nf += 1
                if nf >= 3:
                    break
    res["events"] = dict(MON.events)
    res["purity"] = MON.purity_checks
    res["digests"] = sorted(seen)
    with open(path, "w") as f:
        json.dump(res, f)


PURITY = set()


def merge(parts):
    out = None
    for p in parts:
        if out is None:
            out = p
            out["digests"] = set(p["digests"])
            continue
        for k in ("evals", "cases", "skips", "purity"):
            out[k] += p[k]
        out["digests"] |= set(p["digests"])
        out["fails"] += p["fails"]
        out["samples"] += p["samples"]
        for k in ("classes", "labels", "events"):
            for a, b in p[k].items():
                out[k][a] = out[k].get(a, 0) + b
        for a, b in p["fam"].items():
            cur = out["fam"].setdefault(a, [0, 0, 0])
            for i in range(3):
                cur[i] += b[i]
    return out
