"""C25: a figure shows the quantity its labels name, at the place its axes name, with the values paired that belong together.

The plotting code is evaluated on opaque samples with a recording stand-in for matplotlib (kdsa.canvas).  Coordinates are distinct numbers, no
two axes share one, so every coordinate handed to a drawing call tells its axis and index; the values drawn there must be the samples of the
field the label names at exactly these indices."""
import itertools
import math
import random
import re
from fractions import Fraction
from ..gridcheck import *
from ..report import AnalysisBroken, run_scenarios
from ..grid import low
from ..gridlib import fshape
from .. import canvas, fits, finite
from ..canvas import cells, flat
from .c18 import node, adapter_class

SGA, DLGA, DISC, PYSR = ("kd.viz._adapters." + a for a in ("sga", "dlga", "discover", "pysr"))
DV, LV = "kd.viz.discover_viz", "kd.viz.dlga_viz"
COORDS = {"x": ["10", "11.5", "13.25"], "y": ["20", "20.5", "22.25", "25"], "z": ["30", "31.25", "34"], "w": ["40", "41"],
          "t": ["0", "0.25", "0.75", "1.5", "1.75"]}
TRUE = re.compile(r"\b(true|actual|target|exact|original|lhs|ground)\b", re.I)
PRED = re.compile(r"predict|\brhs\b|model output|metadata", re.I)
RES = re.compile(r"residual", re.I)


def num(s):
    from fractions import Fraction
    return Poly.c(Fraction(s))


class Spec:
    """what may be drawn: the axes of the fields in storage order, their coordinates, and the samples by role"""

    def __init__(self, axes, sp, lhs="t", coords=None):
        self.axes, self.sp, self.lhs = list(axes), list(sp), lhs
        self.coords = {a: [num(v) for v in (coords or {}).get(a, COORDS[a])] for a in axes}
        self.roles, self.sliced, self.series, self.wanted = {}, False, [], ()

    def index(self):
        return list(itertools.product(*[range(len(self.coords[a])) for a in self.axes]))

    def shape(self):
        return [len(self.coords[a]) for a in self.axes]

    def sample(self, name):
        return {i: Poly.atom(("s", name, tuple(P(k) for k in i))) for i in self.index()}

    def arr(self, ev, d, torch=False, flatten=False, col=False):
        sh = self.shape()
        if flatten:
            xs = [d[i] for i in self.index()]
            return fits.vec(ev, xs, col)
        return Arr(ev, sh, lambda pos: d[tuple(canvas.at(p) for p in pos)], torch=torch)

    def coord(self, ev, a):
        return fits.vec(ev, self.coords[a])

    def where(self, v):
        for a, vs in self.coords.items():
            for i, c in enumerate(vs):
                if c == v:
                    return a, i
        return None

    def role(self, text):
        if not text:
            return None
        if RES.search(text):
            for q in ("metadata", "original"):
                if re.search(q, text, re.I) and "residual " + q in self.roles:
                    return "residual " + q
            return "residual" if "residual" in self.roles else None
        t, p = bool(TRUE.search(text)), bool(PRED.search(text))
        if t == p:
            return None
        r = "true" if t else "pred"
        return r if r in self.roles else None

    def axis(self, text):
        if not text:
            return None
        if re.search(r"\btime\b", text, re.I):
            return self.lhs
        if re.search(r"\bspace\b", text, re.I) and len(self.sp) == 1:
            return self.sp[0]
        m = re.search(r"x_(\d)", text)
        if m and not self.sliced and int(m.group(1)) <= len(self.sp):
            return self.sp[int(m.group(1)) - 1]
        return None


def titled(text):
    m = re.search(r"\bt\s*[=~]\s*(-?\d+(?:\.\d*)?)", text or "")
    return m.group(1) if m else None


def timed(S, text, fixed):
    """the moment named in a title is the one drawn"""
    s = titled(text)
    if s is not None and fixed.get(S.lhs) is not None:
        dec = len(s.split(".")[1]) if "." in s else 0
        c = S.coords[S.lhs][fixed[S.lhs]].const()
        if "%.*f" % (dec, float(c)) != "%.*f" % (dec, float(s)):
            return "the title says t = %s, drawn is the moment %s" % (s, float(c))
    m = re.search(r"t_idx\s*=\s*(\d+)", text or "")
    if m and fixed.get(S.lhs) is not None and int(m.group(1)) != fixed[S.lhs]:
        return "the title says time index %s, drawn is index %d" % (m.group(1), fixed[S.lhs])
    return None


class NoValue(Exception):
    pass


def valued(p, z):
    """the polynomial at generic point z"""
    s = 0.0
    for mono, c in P(p).t.items():
        v = float(c)
        for a, e in mono:
            b = valued_atom(a, z)
            if b < 0 and e.denominator != 1 or b == 0 and e < 0:
                raise NoValue
            v *= b ** (int(e) if e.denominator == 1 else float(e))
        s += v
    return s


def valued_atom(a, z):
    if a[0] == "s":
        return random.Random("%d %r" % (z, a)).uniform(-3, 3)
    if a[0] != "f":
        raise NoValue
    nm, args = a[1], a[2]
    if nm not in FUNS:
        raise NoValue
    try:
        return FUNS[nm](*[valued(x, z) for x in args])
    except (TypeError, ValueError, OverflowError, ZeroDivisionError, NotPoly):
        raise NoValue


def rms(xs):
    return (sum(x * x for x in xs) / len(xs)) ** .5


def std(xs):
    m = sum(xs) / len(xs)
    return rms([x - m for x in xs])


def power(a, b):
    if a < 0:
        raise NoValue
    return a ** b


FUNS = {"abs": abs, "setmax": lambda *x: max(x), "setmin": lambda *x: min(x), "std": lambda *x: std(x), "var": lambda *x: std(x) ** 2,
        "sqrt": math.sqrt, "pow": power}
STATS = {}
for _n, _f in (("mean", lambda xs: sum(xs) / len(xs)), ("std", std), ("max_abs", lambda xs: max(map(abs, xs))), ("rmse", rms)):
    for _k in ("%s", "%s_residual", "residual_%s"):
        STATS[_k % _n] = _f


class Judge:
    def __init__(self, R, name, S):
        self.R, self.sub, self.name, self.S = R, R.sub, name, S
        self.shown, self.moments = set(), set()

    def bad(self, what, msg):
        self.sub.find("shows", what, "%s: %s" % (self.name, msg), self.name)

    def unknown(self, why):
        self.R.undecided(self.name, why)

    def where(self, D):
        return D.axes.title or D.axes.ylabel or D.kind

    def judge(self, drawn):
        S = self.S
        for A in drawn:
            for D in A.draws:
                self.sub.count("draws_judged")
                if D.kind in ("pcolormesh", "pcolor", "contourf", "contour"):
                    self.mesh(D)
                elif D.kind in ("imshow", "matshow"):
                    self.image(D)
                elif D.kind == "scatter":
                    self.scatter(D)
                elif D.kind == "hist":
                    self.hist(D)
                else:
                    self.line(D)
        if drawn:
            for r in S.wanted:
                if r not in self.shown:
                    self.bad("missing", "no panel shows the %s values" % r)
            if S.asked is not None and self.moments:
                T = [c.const() for c in S.coords[S.lhs]]
                want = {min(range(len(T)), key=lambda k: abs(T[k] - a)) for a in map(Fraction, map(str, S.asked))}
                if want != self.moments:
                    self.bad("moments", "asked for are the moments %s, drawn are those at index %s, the nearest samples are at %s" % (
                        list(S.asked), sorted(self.moments), sorted(want)))

    # -- panels
    def fixed(self, role, pairs, what):
        """pairs: [({axis: index}, value)]: the indices of the other axes, the same for every value; None when there are none"""
        S = self.S
        F = S.roles[role]
        known = set(pairs[0][0])
        rest = [a for a in S.axes if a not in known]
        for fix in itertools.product(*[range(len(S.coords[a])) for a in rest]):
            d = dict(zip(rest, fix))
            ok = True
            for at, v in pairs:
                i = tuple(at[a] if a in at else d[a] for a in S.axes)
                if not (F[i] == v):
                    ok = False
                    break
            if ok:
                return d
        return None

    def texts(self, D):
        return [D.label, D.axes.title, D.bar, D.axes.ylabel, D.axes.xlabel]

    def roles_of(self, D):
        for t in self.texts(D):
            r = self.S.role(t)
            if r:
                return r
        return None

    def field(self, D, pairs, what):
        self.sub.count("values_judged", len(pairs))
        role = self.roles_of(D)
        if role is None:
            return self.unknown("no label names the quantity of %s" % what)
        d = self.fixed(role, pairs, what)
        if d is None:
            at, v = pairs[0]
            for at, v in pairs:
                break
            other = [r for r in self.S.roles if r != role and self.fixed(r, pairs, what) is not None]
            if other:
                return self.bad(what, "labelled %r, drawn are the %s values" % (next(t for t in self.texts(D) if self.S.role(t)), other[0]))
            k = next((p for p in pairs if p[1] not in self.S.roles[role].values()), pairs[min(1, len(pairs) - 1)])
            return self.bad(what, "the value drawn at %s is %s" % (", ".join("%s=%s" % (a, show(self.S.coords[a][i])) for a, i in k[0].items()), show(k[1])[:160]))
        self.shown.add(role)
        self.sub.count("panels_judged")
        for a, i in self.S.cut.items():
            if d.get(a) != i:
                self.bad(what, "asked for is the cut at index %d of axis %s, drawn is the one at %s" % (i, a, ", ".join("%s[%d]" % z for z in d.items())))
        if self.S.lhs in d:
            self.moments.add(d[self.S.lhs])
        msg = timed(self.S, D.axes.title, d)
        if msg:
            self.bad(what, msg)

    def labels(self, D, ax, ay):
        for text, a, nm in ((D.axes.xlabel, ax, "horizontal"), (D.axes.ylabel, ay, "vertical")):
            w = self.S.axis(text)
            if w and a and w != a:
                self.bad(self.where(D), "the %s axis is labelled %r, its values are those of axis %s" % (nm, text, a))

    def mesh(self, D):
        S, what = self.S, self.where(D)
        n = 3 if len(D.args) >= 3 else 1
        C = cells(D.args[n - 1] if len(D.args) >= n else D.kw.get("C"))
        if C is None or len(C[1]) != 2:
            return self.unknown("the values of %s" % what)
        r, c = C[1]
        if n == 1:
            return self.unknown("%s without coordinates" % what)
        X, Y = cells(D.args[0]), cells(D.args[1])
        if X is None or Y is None:
            return self.unknown("the coordinates of %s" % what)
        def grid(Z, row):
            if len(Z[1]) == 2 and Z[1] == (r, c):
                return [[Z[0][i * c + j] for j in range(c)] for i in range(r)]
            if len(Z[0]) == (r if row else c):
                return [[Z[0][i if row else j] for j in range(c)] for i in range(r)]
            return None
        gx, gy = grid(X, False), grid(Y, True)
        if gx is None or gy is None:
            return self.bad(what, "%s x %s values over %s horizontal and %s vertical coordinates" % (r, c, X[1], Y[1]))
        pairs, ax, ay = [], set(), set()
        for i in range(r):
            for j in range(c):
                p, q = S.where(gx[i][j]), S.where(gy[i][j])
                if p is None or q is None:
                    return self.unknown("a coordinate of %s" % what)
                ax.add(p[0])
                ay.add(q[0])
                pairs.append(({p[0]: p[1], q[0]: q[1]}, C[0][i * c + j]))
        if len(ax) != 1 or len(ay) != 1 or ax == ay:
            return self.bad(what, "the coordinates of one direction are of axes %s and %s" % (sorted(ax), sorted(ay)))
        self.labels(D, ax.pop(), ay.pop())
        self.field(D, pairs, what)

    def image(self, D):
        S, what = self.S, self.where(D)
        C = cells(D.arg(0, "X"))
        if C is None or len(C[1]) != 2:
            return self.unknown("the values of %s" % what)
        ext = D.kw.get("extent")
        r, c = C[1]
        by = self.extent(D, ext, r, c)
        if by is not None:
            (ax, fx), (ay, fy) = by
            if len(S.coords[ax]) != c or len(S.coords[ay]) != r:
                return self.bad(what, "an image of %s rows and %s columns spans %d values of axis %s and %d of axis %s" % (r, c, len(S.coords[ay]), ay, len(S.coords[ax]), ax))
            self.labels(D, ax, ay)
            return self.field(D, [({ay: r - 1 - i if fy else i, ax: c - 1 - j if fx else j}, C[0][i * c + j]) for i in range(r) for j in range(c)], what)
        ax, ay = S.axis(D.axes.xlabel), S.axis(D.axes.ylabel) or (S.sp[0] if len(S.sp) == 1 else None)
        if ax is None and len(S.sp) == 2 and not S.sliced:
            ax, ay = S.sp[1], S.sp[0]
        if ax is None or ay is None or ext is not None:
            role = self.roles_of(D)
            if role is None:
                return self.unknown("axes of %s" % what)
            # which axes an unlabelled image runs along is free
            for ax, ay in itertools.permutations(S.axes, 2):
                if len(S.coords[ax]) == c and len(S.coords[ay]) == r and \
                        self.fixed(role, [({ay: i, ax: j}, C[0][i * c + j]) for i in range(r) for j in range(c)], what) is not None:
                    break
            else:
                return self.unknown("axes of %s" % what)
        if len(S.coords[ax]) != c or len(S.coords[ay]) != r:
            return self.bad(what, "an image of %s rows and %s columns over %d values of axis %s and %d of axis %s" % (r, c, len(S.coords[ay]), ay, len(S.coords[ax]), ax))
        self.field(D, [({ay: i, ax: j}, C[0][i * c + j]) for i in range(r) for j in range(c)], what)

    def extent(self, D, ext, r, c):
        """the axes an image spans, and whether it runs against them, when its extent are their ends"""
        e = flat(ext) if ext is not None else None
        if e is None or len(e) != 4:
            return None
        out = []
        for first, last in ((e[0], e[1]), (e[2], e[3])):
            hit = [(a, back) for a, vs in self.S.coords.items() for back in (False, True) if (vs[-1] if back else vs[0]) == first and (vs[0] if back else vs[-1]) == last]
            if len(hit) != 1:
                return None
            out += hit
        if D.kw.get("origin") not in ("lower", "upper"):
            return None
        if D.kw["origin"] == "upper":
            out[1] = (out[1][0], not out[1][1])
        return out if out[0][0] != out[1][0] else None

    def scatter(self, D):
        S, what = self.S, self.where(D)
        X, Y = flat(D.arg(0, "x")), flat(D.arg(1, "y"))
        if X is None or Y is None:
            return self.unknown("the points of %s" % what)
        if len(X) != len(Y):
            return self.bad(what, "%d horizontal and %d vertical values" % (len(X), len(Y)))
        if all(S.where(x) is not None and S.where(y) is not None for x, y in zip(X, Y)):
            V = flat(D.kw.get("c"))
            if V is None or len(V) != len(X):
                return self.unknown("the colours of %s" % what)
            self.labels(D, S.where(X[0])[0], S.where(Y[0])[0])
            return self.field(D, [(dict([S.where(x), S.where(y)]), v) for x, y, v in zip(X, Y, V)], what)
        rx, ry = S.role(D.axes.xlabel), S.role(D.axes.ylabel)
        if rx is None or ry is None:
            return self.unknown("no label names the values of %s" % what)
        want = [(S.roles[rx][i], S.roles[ry][i]) for i in S.index()]
        self.sub.count("values_judged", len(want))
        if self.same(list(zip(X, Y)), want):
            self.shown |= {rx, ry}
            return self.sub.count("panels_judged")
        self.bad(what, "the points (%s against %s) are not the samples' pairs: the first is (%s, %s)" % (D.axes.xlabel, D.axes.ylabel, show(X[0])[:120], show(Y[0])[:120]))

    def same(self, got, want):
        """the same tuples, in any order"""
        if len(got) != len(want):
            return False
        left = list(want)
        for g in got:
            for k, w in enumerate(left):
                if all(a == b for a, b in zip(g, w)):
                    del left[k]
                    break
            else:
                return False
        return True

    def hist(self, D):
        S, what = self.S, self.where(D)
        V = flat(D.arg(0, "x"))
        role = S.role(D.axes.title) or S.role(D.axes.xlabel)
        if V is None or role is None:
            return self.unknown("the values of the histogram %s" % what)
        self.sub.count("values_judged", len(V))
        want = list(S.roles[role].values())
        if S.sliced and 0 < len(V) < len(want):
            # only the slice that is shown
            ok = [k for k, v in enumerate(V) if any(v == w for w in want) and not any(v == x for x in V[:k])]
            want = V if len(ok) == len(V) else want
        if not self.same([(v,) for v in V], [(w,) for w in want]):
            bad = next((v for v in V if not any(v == w for w in want)), None)
            return self.bad(what, "the histogram of the %s values has %d values for %d samples%s" % (
                role, len(V), len(want), "" if bad is None else ", among them %s" % show(bad)[:160]))
        self.shown.add(role)
        self.sub.count("panels_judged")

    def line(self, D):
        S, what = self.S, self.where(D)
        args = [a for a in D.args if not isinstance(a, str)]
        Y = flat(args[-1]) if args else None
        X = flat(args[0]) if len(args) > 1 else None
        if len(args) > 1 and X is not None and Y is not None and len(X) == len(Y) and all(a == b for a, b in zip(X, Y)):
            return      # the diagonal
        if Y is None or len(args) > 1 and X is None:
            if any(re.search(r"y\s*=\s*x|perfect", t or "", re.I) for t in [D.label]) or any(isinstance(a, str) and "--" in a for a in D.args):
                return
            return self.unknown("the values of the line %s" % (D.label or what))
        if X is not None and len(X) != len(Y):
            return self.bad(what, "%d places for %d values" % (len(X), len(Y)))
        if S.series:
            return self.curve(D, X, Y)
        if X is None or any(S.where(x) is None for x in X):
            return self.unknown("the places of the line %s" % (D.label or what))
        a = {S.where(x)[0] for x in X}
        if len(a) != 1:
            return self.bad(what, "the places of one line are of axes %s" % sorted(a))
        self.labels(D, a.pop(), None)
        self.field(D, [(dict([S.where(x)]), y) for x, y in zip(X, Y)], what)

    def curve(self, D, X, Y):
        """a history: value k over step k"""
        S, what = self.S, self.where(D)
        texts = [t for t in (D.label, D.axes.ylabel, D.axes.title) if t]
        hit = next(((rx, vs) for t in texts for rx, vs in S.series if re.search(rx, t, re.I)), None)
        if hit is None:
            return self.unknown("no label names the curve %s" % what)
        rx, vs = hit
        self.sub.count("values_judged", len(Y))
        if X is not None:
            ks = [x.const() for x in X]
            if any(k is None for k in ks):
                return self.unknown("the steps of %s" % what)
            off = ks[0]
            if ks != [off + k for k in range(len(ks))]:
                return self.bad(what, "the steps are %s" % ", ".join(map(str, ks)))
        if len(Y) > len(vs) or len(Y) < len(vs) and not D.label or any(not (a == b) for a, b in zip(Y, vs)):
            k = next((k for k, (a, b) in enumerate(zip(Y, vs)) if not (a == b)), len(Y))
            return self.bad(what, "the curve %r shows %s at step %d of %d" % (D.label or D.axes.ylabel, show(Y[k])[:120] if k < len(Y) else "nothing", k + 1, len(vs)))
        self.shown.add(rx)
        self.sub.count("panels_judged")

    # -- what is returned with the figure
    def result(self, res, ev):
        S = self.S
        meta = res.attrs.get("metadata") if isinstance(res, Inst) else None
        if not isinstance(meta, dict):
            return
        for k, v in meta.items():
            if isinstance(v, Inst):
                self.contract(v, str(k), ev)
            elif isinstance(v, dict):
                self.summary(v, str(k), ev)
            elif k in STATS:
                self.summary({k: v}, str(k), ev)

    def contract(self, v, what, ev):
        S = self.S
        att = v.attrs
        def vals(*names):
            for n in names:
                if att.get(n) is not None:
                    return flat(att[n])
            return None
        a, p, r = vals("actual", "actual_values", "true_field"), vals("predicted", "predicted_values", "predicted_field"), vals("residuals", "residual_field")
        if a is None or p is None or "true" not in S.roles or "pred" not in S.roles:
            return
        if what in S.free:
            return
        self.sub.count("values_judged", len(a))
        if r is None:
            r = [x - y for x, y in zip(a, p)]
        want = [(S.roles["true"][i], S.roles["pred"][i], S.roles["true"][i] - S.roles["pred"][i]) for i in S.index()]
        if len(a) == len(p) == len(r) and self.same(list(zip(a, p, r)), want):
            return self.sub.count("panels_judged")
        self.bad("returned " + what, "the returned samples are not (true, predicted, true - predicted) of one place: the first is (%s, %s, %s)" % tuple(
            show(z[0])[:80] if z else "none" for z in (a, p, r)))

    def summary(self, d, what, ev):
        S = self.S
        for k, v in d.items():
            if isinstance(v, dict):
                self.summary(v, str(k), ev)
                continue
            role = "residual " + what if "residual " + what in S.roles else "residual"
            if role not in S.roles:
                continue
            rs = list(S.roles[role].values())
            f = STATS.get(k)
            if f is not None:
                if isinstance(v, (Unk, Cond, str, list, tuple)) or v is None:
                    continue
                try:
                    # the symbolic statistic and the one its name states, compared at generic points
                    got = [(valued(P(low(v)), z), f([valued(r, z) for r in rs])) for z in range(5)]
                except NoValue:
                    continue
                self.sub.count("values_judged")
                if any(abs(g - w) > 1e-6 * (1 + abs(w)) for g, w in got):
                    self.bad("summary " + what, "%r is %s" % (k, show(P(low(v)))[:200]))
            elif k in ("count",):
                if P(low(v)).const() != len(rs):
                    self.bad("summary " + what, "%r is %s, there are %d samples" % (k, show(P(low(v))), len(rs)))


Spec.free = ()
Spec.cut = {}
Spec.asked = None
from ..grid import Cond


def start(sub, proj=None):
    R = Runner(sub, proj)
    fits.install(R.ev)
    finite.install(R.ev)
    C = canvas.install(R.ev)
    return R, C


def play(sub, name, S, build, proj=None):
    """build(ev): thunk that draws; returns the result object or None"""
    R, C = start(sub, proj)
    ev = R.ev

    def th():
        C.reset()
        return build(ev), list(C.drawn)
    J = None
    any_ = False
    for kind, w, taken in R.paths(name, th):
        if kind == "raise":
            sub.find("shows", "raises", "%s: %s" % (name, w), where(w))
            continue
        res, drawn = w
        J = Judge(R, name, S)
        if not any(A.draws for A in drawn):
            ws = res.attrs.get("warnings") if isinstance(res, Inst) else None
            R.undecided(name, "nothing is drawn %s" % (ws,))
            continue
        any_ = True
        sub.count("figures_judged")
        J.judge(drawn)
        J.result(res, ev)


def render(ev, mod, kind, model, **options):
    ad = ev.call(adapter_class(ev, mod), [])
    ctx = stub({"options": dict(options), "save_path": Native(lambda *a: Unk("path"))}, "Context")
    return ev.call(ev.getattr(ad, "render"), [stub({"kind": kind, "target": model, "options": dict(options)}, "Request"), ctx])


def cutting(S, sp, options):
    """the cut the options of the request name"""
    if len(sp) > 2 and "slice_index" in options:
        a = sp[options.get("slice_axis", -1)]
        S.cut = {a: min(options["slice_index"], len(S.coords[a]) - 1)}


def both(S, t="true", p="pred"):
    S.roles["true"], S.roles["pred"] = S.sample(t), S.sample(p)
    S.roles["residual"] = {i: S.roles["true"][i] - S.roles["pred"][i] for i in S.index()}
    return S


# ---------------------------------------------------------------- SGA
def sga(kind, order, lhs="t", legacy=False, **options):
    name = "SGA %s of u(%s)%s%s" % (kind, ",".join(order), ", legacy" if legacy else "", "".join(", %s=%s" % kv for kv in options.items()))
    sp = [a for a in order if a != lhs]

    def f(sub, proj=None):
        S = both(Spec(order, sp, lhs))
        S.sliced = len(sp) > 2
        cutting(S, sp, options)
        S.asked = options.get("slice_times")
        if kind == "residual":
            S.roles["right"], S.roles["right0"], S.roles["left"] = S.sample("rhs"), S.sample("rhs_origin"), S.sample("ut")
            S.roles["residual metadata"] = {i: S.roles["left"][i] - S.roles["right"][i] for i in S.index()}
            S.roles["residual original"] = {i: S.roles["true"][i] - S.roles["right0"][i] for i in S.index()}
            S.roles["pred"] = S.roles["right"]
            del S.roles["residual"]
            S.wanted = ("residual metadata", "residual original")
        else:
            S.wanted = ("true", "pred")

        def build(ev):
            t, p = S.arr(ev, S.roles["true"]), S.arr(ev, S.roles["pred"])
            at = {"u": p, "u_origin": t, "lhs_axis": lhs, "edge_slicer": None}
            if legacy:
                X = {a: Arr(ev, S.shape(), lambda pos, k=k, a=a: S.coords[a][canvas.at(pos[k])]) for k, a in enumerate(order)}
                at.update(x=X["x"], t=X["t"])
            else:
                at.update(axis_order=list(order), coords_1d={a: S.coord(ev, a) for a in order})
            if kind == "parity":
                o = S.arr(ev, S.sample("other"))
                at.update(**({"ut": o, "ut_origin": t} if options.get("compare") == "original" else {"ut": t, "ut_origin": o}))
            if kind == "residual":
                at.update(ut_origin=t, ut=S.arr(ev, S.roles["left"]), right_side_full=S.arr(ev, S.roles["right"]), right_side_full_origin=S.arr(ev, S.roles["right0"]))
            m = {"context_": stub(at, "Context")}
            m["best_equation_details_"] = stub({"predicted_rhs": S.arr(ev, S.roles["pred"], flatten=True, col=True), "terms": []}, "Details")
            return render(ev, SGA, kind, stub(m, "Model"), **options)
        play(sub, name, S, build, proj)
    return (name, f)


# ---------------------------------------------------------------- DLGA
def dlga_given(kind, legacy=None, names=None, **options):
    """names: the other names the request may give its fields"""
    name = "DLGA %s%s%s%s" % (kind, " (%s)" % legacy if legacy else "", ", %s" % "/".join(names) if names else "", "".join(", %s" % k for k in options))

    def f(sub, proj=None):
        S = both(Spec(["x", "t"], ["x"]))
        S.wanted = ("true", "pred")
        S.asked = options.get("slice_times")

        def build(ev):
            t, p = S.arr(ev, S.roles["true"]), S.arr(ev, S.roles["pred"])
            x, tt = S.coord(ev, "x"), S.coord(ev, "t")
            if legacy == "comparison":
                return ev.call(ev.get(LV, "plot_pde_comparison"), [x, tt, t, p])
            if legacy == "slices":
                return ev.call(ev.get(LV, "plot_time_slices"), [x, tt, t, p, [num("0"), num("1/2"), num("1")]])
            if kind == "residual":
                o = {"actual": S.arr(ev, S.roles["true"], flatten=True), "predicted": S.arr(ev, S.roles["pred"], flatten=True)}
                S.wanted = ("true", "pred", "residual")
            else:
                o = {"x_coords": x, "t_coords": tt, "true_field": t, "predicted_field": p}
            if names:
                o = dict(zip([k for k in o if "coords" in k] + list(names), o.values()))
            o.update(options)
            return render(ev, DLGA, kind, stub({}, "Model"), **o)
        play(sub, name, S, build, proj)
    return (name, f)


def dlga_training():
    name = "DLGA plot of training residuals"

    def f(sub, proj=None):
        S = both(Spec(["x", "t"], ["x"]))
        S.wanted = ("residual",)

        def build(ev):
            ix = S.index()
            X = fits.table(ev, [[S.coords["x"][i], S.coords["t"][j]] for i, j in ix])
            y = S.arr(ev, S.roles["true"], flatten=True, col=True)
            net = Native(lambda ev, a, k, n: Arr(ev, [len(ix), 1], lambda pos: S.roles["pred"][ix[canvas.at(pos[0])]], torch=True))
            return ev.call(ev.get(LV, "plot_residual_analysis"), [stub({"Net": net}, "Model"), X, y, S.arr(ev, S.roles["true"]), S.arr(ev, S.roles["pred"])])
        play(sub, name, S, build, proj)
    return (name, f)


def dlga_equation(kind, chrom, legacy=None, missing=(), **options):
    name = "DLGA %s%s of %s%s%s" % (kind, " (%s)" % legacy if legacy else "", chrom, "".join(" without " + o for o in missing), "".join(", %s=%s" % kv for kv in options.items()))
    ops = ["u", "u_x", "u_xx"]

    def f(sub, proj=None):
        S = Spec(["x", "t"], ["x"])
        T = {o: S.sample(o) for o in ops}
        co = [num(c) for c in ["-0.5", "2", "0.125", "1.25"]][:len(chrom)]
        S.roles["true"] = S.sample("u_t")
        tv = []
        for m in chrom:
            d = {}
            for i in S.index():
                v = P(1)
                for g in m:
                    v = v * T[ops[g]][i]
                d[i] = v
            tv.append(d)
        S.roles["pred"] = {i: sum((c * d[i] for c, d in zip(co, tv)), P(0)) for i in S.index()}
        S.roles["residual"] = {i: S.roles["true"][i] - S.roles["pred"][i] for i in S.index()}
        if kind == "parity":
            S.wanted = ("true", "pred")

        def model(ev):
            meta = {o: S.arr(ev, T[o]) for o in ops if o not in missing}
            meta["u_t"] = S.arr(ev, S.roles["true"])
            return stub({"Chrom": [[list(m) for m in chrom]], "coef": [fits.vec(ev, co, True)], "name": ["u_t"], "user_operators": list(ops), "metadata": meta}, "Model")

        def build(ev):
            if legacy:
                return ev.call(ev.get(LV, legacy), [model(ev)])
            return render(ev, DLGA, kind, model(ev), **options)
        if kind == "parity":
            return play(sub, name, S, build, proj)
        R, C = start(sub, proj)

        def th():
            C.reset()
            return build(R.ev), list(C.drawn)
        for k, w, taken in R.paths(name, th):
            if k == "raise":
                sub.find("shows", "raises", "%s: %s" % (name, w), where(w))
                continue
            J = Judge(R, name, S)
            ds = [D for A in w[1] for D in A.draws if D.kind == "scatter"]
            if not ds:
                R.undecided(name, "nothing is drawn")
                continue
            sub.count("figures_judged")
            top = options.get("top_n_terms", 4)
            here = [j for j, m in enumerate(chrom) if all(ops[g] not in missing for g in m)]
            if len(ds) != min(len(here), top):
                J.bad("terms", "%d panels for %d terms" % (len(ds), len(here)))
            seen = set()
            for D in ds:
                X, Y = flat(D.arg(0, "x")), flat(D.arg(1, "y"))
                if X is None or Y is None or len(X) != len(Y):
                    J.unknown("the points of a panel")
                    continue
                sub.count("values_judged", len(X))
                hit = [j for j, d in enumerate(tv) if J.same(list(zip(X, Y)), [(d[i], S.roles["true"][i]) for i in S.index()])]
                if not hit:
                    J.bad("terms", "the points of %r are not a term over the left-hand side: first (%s, %s)" % (D.axes.xlabel, show(X[0])[:80], show(Y[0])[:80]))
                    continue
                j = hit[0]
                seen.add(j)
                lab = re.sub(r"[\s$*]|RHS\s*term:|Term:|\\cdot", "", D.axes.xlabel or "")
                if lab != "".join(ops[g] for g in chrom[j]):
                    J.bad("terms", "the panel of term %s is labelled %r" % ("*".join(ops[g] for g in chrom[j]), D.axes.xlabel))
                m = re.search(r"-?\d+\.\d+", D.axes.title or "")
                if m and abs(float(m.group(0)) - float(co[j].const())) > 6e-5:
                    J.bad("terms", "the panel of term %s gives the coefficient %s, it is %s" % (D.axes.xlabel, m.group(0), float(co[j].const())))
                if "u_t" not in (D.axes.ylabel or ""):
                    J.bad("terms", "the vertical axis %r does not name the left-hand side" % D.axes.ylabel)
                sub.count("panels_judged")
            big = sorted(here, key=lambda j: -abs(float(co[j].const())))[:top]
            if len(ds) == len(seen) and seen != set(big):
                J.bad("terms", "not the terms with the largest coefficients are shown")
    return (name, f)


def dlga_history(kind, n, legacy=None):
    name = "DLGA %s%s over %d generations" % (kind, " (%s)" % legacy if legacy else "", n)

    def f(sub, proj=None):
        S = Spec(["x", "t"], ["x"])
        H = {k: [Poly.atom(("s", k, (P(i),))) for i in range(n)] for k in ("fitness", "complexity", "population_size", "unique_modules", "loss", "val")}
        if legacy == "plot_optimization_analysis":      # it sums up the changes until most are done
            H["fitness"] = [num(v) for v in ("8", "4", "3", "2.875", "2.8125", "2.75")[:n]]
        S.series = [(r"fitness|objective", H["fitness"]), ("complexity", H["complexity"]), ("population size", H["population_size"]), ("unique modules", H["unique_modules"]),
                    ("training loss", H["loss"]), ("validation loss", H["val"])]
        S.wanted = {"search_evolution": (r"fitness|objective", "complexity"), "optimization": (r"fitness|objective", "population size", "unique modules"),
                    "training_curve": ("training loss",), "validation_curve": ("validation loss",)}[kind]

        def build(ev):
            ks = ("fitness", "complexity", "population_size", "unique_modules")
            m = stub({"evolution_history": [{k: H[k][i] for k in ks} for i in range(n)], "train_loss_history": list(H["loss"]), "val_loss_history": list(H["val"])}, "Model")
            if legacy:
                return ev.call(ev.get(LV, legacy), [m])
            return render(ev, DLGA, kind, m)
        play(sub, name, S, build, proj)
    return (name, f)


# ---------------------------------------------------------------- DISCOVER
def discover(kind, sp, const, legacy=None, steps=5, square=False, **options):
    """square: u^2 is a second term"""
    name = "DISCOVER %s%s over %s, %d steps%s%s%s" % (kind, " (%s)" % legacy if legacy else "", ",".join(sp), steps, ", constant term" if const else "", ", two terms" if square else "", "".join(", %s=%s" % kv for kv in options.items()))

    def f(sub, proj=None):
        order = list(sp) + ["t"] if len(sp) == 1 else ["t"] + list(sp)
        S = Spec(order, sp, coords={"t": [str(k) for k in range(steps)]})
        S.sliced = len(sp) > 2
        cutting(S, sp, options)
        u = S.sample("u")
        S.roles["true"] = S.sample("ut")
        w = [num("0.5"), num("-2")][:2 if const else 1]
        S.roles["pred"] = {i: w[0] * u[i] + (w[1] if const else P(0)) for i in S.index()}
        if square:
            w = [num("3")] + w
            S.roles["pred"] = {i: num("3") * u[i] * u[i] + S.roles["pred"][i] for i in S.index()}
        S.roles["residual"] = {i: S.roles["true"][i] - S.roles["pred"][i] for i in S.index()}
        S.wanted = ("residual",) if kind == "residual" else ("true", "pred")

        def build(ev):
            data = {"u": S.arr(ev, u), "ut": S.arr(ev, S.roles["true"]), "X": [Arr(ev, [len(S.coords[a]), 1], lambda pos, a=a: S.coords[a][canvas.at(pos[0])]) for a in sp],
                    "n_input_dim": len(sp)}
            prog = stub({"w": fits.vec(ev, w), "STRidge": stub({"terms": [node("n2", node("u1"))] * square + [node("u1")]})}, "Program")
            m = stub({"data_class": stub({"get_data": Native(lambda *a: data)}), "searcher": stub({"best_p": [prog]}), "best_p": [prog]}, "Model")
            if legacy:
                return ev.call(ev.get(DV, legacy), [m, prog])
            return render(ev, DISC, kind, m, **options)
        play(sub, name, S, build, proj)
    return (name, f)


def spr(kind, sp, legacy=None):
    name = "SPR %s%s over %s" % (kind, " (%s)" % legacy if legacy else "", ",".join(sp))

    def f(sub, proj=None):
        S = both(Spec(list(sp) + ["t"], sp))
        S.wanted = ("residual",) if kind == "spr_residual" and legacy else ("true", "pred") + (("residual",) if kind == "spr_residual" else ())

        def build(ev):
            ix = S.index()
            col = lambda a: Arr(ev, [len(ix), 1], lambda pos: S.coords[a][ix[canvas.at(pos[0])][S.axes.index(a)]], torch=True)
            vec = lambda r, t=False: Arr(ev, [len(ix), 1], lambda pos: S.roles[r][ix[canvas.at(pos[0])]], torch=t)
            ev.get("kd.model.discover.program", "Program").attrs["task"] = stub({"ut": vec("true"), "t": col("t"), "x": [col(a) for a in sp], "ut_cache": []}, "Task")
            prog = stub({"r_ridge": num("0.5"), "y_hat_rhs": vec("pred"), "Theta": vec("pred"), "w": [num("1")]}, "Program")
            m = stub({"best_p": [prog], "searcher": stub({"best_p": [prog]})}, "Model")
            if legacy:
                return ev.call(ev.get(DV, legacy), [m, prog])
            return render(ev, DISC, kind, m)
        play(sub, name, S, build, proj)
    return (name, f)


def spr_field(legacy):
    name = "SPR spr_field_comparison%s" % (" (%s)" % legacy if legacy else "",)

    def f(sub, proj=None):
        S = both(Spec(["x", "t"], ["x"]))
        span = {a: [S.coords[a][0].const(), S.coords[a][-1].const()] for a in S.axes}
        G = Spec(["x", "t"], ["x"])
        G.coords = {a: [Poly.c(lo + (hi - lo) * Fraction(i, 99)) for i in range(100)] for a, (lo, hi) in span.items()}
        place = {a: {v.const(): i for i, v in enumerate(vs)} for a, vs in G.coords.items()}
        G.roles = {r: G.sample("field " + r) for r in ("true", "pred")}
        G.wanted = ("true", "pred")

        def between(ev, a, k, n):
            """interpolation: the field whose samples are given, at the coordinates asked for"""
            pts, vals, at = [flat(x) for x in a[0]], flat(a[1]), list(a[2])
            if any(x is None for x in pts + [vals]) or len(pts) != 2 or len(at) != 2:
                return Unk("griddata")
            ix = S.index()
            hit = [r for r in ("true", "pred") if len(vals) == len(ix) and all(len(p) == len(ix) for p in pts) and
                   Judge.same(None, list(zip(vals, *pts)), [(S.roles[r][i], S.coords["x"][i[0]], S.coords["t"][i[1]]) for i in ix])]

            def value(pos):
                c = [b.at(pos).const() for b in at]
                if not hit or c[0] not in place["x"] or c[1] not in place["t"]:
                    return Poly.atom(("s", "no field", (P(c[0]), P(c[1]))))
                return G.roles[hit[0]][place["x"][c[0]], place["t"][c[1]]]
            return Arr(ev, list(at[0].dims), value)

        def build(ev):
            ev.handlers["scipy.interpolate.griddata"] = between
            ix = S.index()
            col = lambda a: Arr(ev, [len(ix), 1], lambda pos: S.coords[a][ix[canvas.at(pos[0])][S.axes.index(a)]], torch=True)
            vec = lambda r, t=False: Arr(ev, [len(ix), 1], lambda pos: S.roles[r][ix[canvas.at(pos[0])]], torch=t)
            ev.get("kd.model.discover.program", "Program").attrs["task"] = stub({"ut": vec("true"), "t": col("t"), "x": [col("x")], "ut_cache": []}, "Task")
            prog = stub({"r_ridge": num("0.5"), "y_hat_rhs": vec("pred"), "Theta": vec("pred"), "w": [num("1")]}, "Program")
            m = stub({"best_p": [prog], "searcher": stub({"best_p": [prog]})}, "Model")
            if legacy:
                return ev.call(ev.get(DV, legacy), [m, prog])
            return render(ev, DISC, "spr_field_comparison", m)
        play(sub, name, G, build, proj)
    return (name, f)


def plotter(ev):
    c = ev.get("kd.model.discover.plotter", "Plotter")
    return Inst(c) if isinstance(c, Cls) else ev.call(c, [])


def terms_plot():
    name = "DLGA plot_equation_terms"

    def f(sub, proj=None):
        R, C = start(sub, proj)
        S = Spec(["x", "t"], ["x"])
        T = {o: S.sample(o) for o in ("u", "u_x", "u_xx", "u_t")}

        def th():
            C.reset()
            m = stub({"metadata": {o: S.arr(R.ev, d) for o, d in T.items()}}, "Model")
            R.ev.call(R.ev.get(LV, "plot_equation_terms"), [m, {"x_term": {"vars": ["u", "u_x"], "label": "u u_x"}, "y_term": {"vars": ["u_xx"], "label": "u_xx"}}, "u_t"])
            return list(C.drawn)
        for k, w, taken in R.paths(name, th):
            if k == "raise":
                sub.find("shows", "raises", "%s: %s" % (name, w), where(w))
                continue
            J = Judge(R, name, S)
            ds = [D for A in w for D in A.draws]
            sc, hi = [D for D in ds if D.kind == "scatter"], [D for D in ds if D.kind == "hist"]
            if not sc or not hi:
                J.unknown("what is drawn")
                continue
            sub.count("figures_judged")
            for D, got, want in ((sc[0], [sc[0].arg(0, "x"), sc[0].arg(1, "y"), sc[0].kw.get("c")], [(T["u"][i] * T["u_x"][i], T["u_xx"][i], T["u_t"][i]) for i in S.index()]),
                                 (hi[0], [hi[0].arg(0, "x")], [(T["u_t"][i],) for i in S.index()])):
                got = [flat(g) for g in got]
                if any(g is None for g in got):
                    J.unknown("the values of a panel")
                    continue
                sub.count("draws_judged")
                sub.count("values_judged", len(want))
                if not J.same(list(zip(*got)), want):
                    J.bad("terms", "the %s of %s against %s is of other values" % (D.kind, D.axes.xlabel, D.axes.ylabel))
            if sc[0].axes.xlabel != "u u_x" or sc[0].axes.ylabel != "u_xx" or "u_t" not in (hi[0].axes.xlabel or ""):
                J.bad("terms", "the axes are labelled %r, %r and %r" % (sc[0].axes.xlabel, sc[0].axes.ylabel, hi[0].axes.xlabel))
    return (name, f)


def density(n, legacy=False, **options):
    name = "DISCOVER reward density%s of %d epochs%s" % (" (density_plot)" if legacy else "", n, "".join(", %s=%s" % kv for kv in options.items()))

    def f(sub, proj=None):
        R, C = start(sub, proj)
        ev = R.ev
        H = [[Poly.atom(("s", "reward", (P(i), P(j)))) for j in range(3)] for i in range(n)]
        seen = []

        def kde(ev_, a, k, nd):
            seen.append((flat(a[0] if a else k.get("x", k.get("data"))), k.get("label")))
            return Unk("curve")
        ev.handlers["seaborn.kdeplot"] = kde
        if "epoches" in options:
            due = [i for i in options["epoches"] if i < n]
        elif n <= options.get("max_curves", 10):
            due = list(range(n))
        else:
            due = None

        def th():
            C.reset()
            del seen[:]
            m = stub({"searcher": stub({"r_history": [list(h) for h in H]})}, "Model")
            if legacy:
                return ev.call(ev.getattr(plotter(ev), "density_plot"), [[list(h) for h in H]], dict(options)), list(seen)
            return render(ev, DISC, "density", m, **options), list(seen)
        for k, w, taken in R.paths(name, th):
            if k == "raise":
                sub.find("shows", "raises", "%s: %s" % (name, w), where(w))
                continue
            if not w[1]:
                R.undecided(name, "no curve is drawn")
                continue
            sub.count("figures_judged")
            drawn = []
            for xs, lab in w[1]:
                hit = [i for i, h in enumerate(H) if xs == h]
                num_ = re.search(r"\d+", lab) if isinstance(lab, str) else None
                if not hit or num_ is None:
                    R.undecided(name, "curve %r" % (lab,))
                    continue
                sub.count("draws_judged")
                sub.count("values_judged", 3)
                drawn.append(hit[0])
                if int(num_.group(0)) != hit[0]:
                    sub.find("shows", "density", "%s: the curve labelled %r is epoch %d" % (name, lab, hit[0]), DISC)
            if due is not None and len(drawn) == len(w[1]) and sorted(drawn) != sorted(due):
                sub.find("shows", "density", "%s: the epochs drawn are %s" % (name, drawn), DISC)
    return (name, f)


def rewards(sizes, legacy=None):
    name = "DISCOVER search evolution%s, batches of %s" % (" (%s)" % legacy if legacy else "", sizes)

    def f(sub, proj=None):
        S = Spec(["x", "t"], ["x"])
        vals = [["0.5", "0.5", "0.75"], ["0.125", "0.625"], ["0.875", "0.375", "0.0625", "1"], ["0.1875"]]
        B = [[num(v) for v in b[:n]] for b, n in zip(vals, sizes)]
        mx = [max(b, key=lambda p: p.const()) for b in B]
        best = [max(mx[:k + 1], key=lambda p: p.const()) for k in range(len(mx))]
        mean = [sum(b, P(0)) * num("1/%d" % len(b)) for b in B]
        S.series = [("best", best), ("maximum", mx), ("average|mean", mean)]
        S.wanted = ("best", "maximum", "average|mean")

        def build(ev):
            m = stub({"searcher": stub({"r_train": [fits.vec(ev, b) for b in B]})}, "Model")
            if legacy == "evolution_plot":
                return ev.call(ev.getattr(plotter(ev), legacy), [[fits.vec(ev, b) for b in B]])
            if legacy:
                return ev.call(ev.get(DV, legacy), [m])
            return render(ev, DISC, "search_evolution", m)
        play(sub, name, S, build, proj)
    return (name, f)


# ---------------------------------------------------------------- PySR
def pysr(kind, given):
    name = "PySR %s, data %s" % (kind, "of the request" if given else "of the training")

    def f(sub, proj=None):
        S = both(Spec(["x"], ["x"]))
        S.wanted = ("true", "pred") if kind == "parity" else ("residual",)

        def build(ev):
            X = Arr(ev, [len(S.index()), 2], lambda pos: Poly.atom(("s", "feature", tuple(pos))))

            def predict(ev, a, k, n):
                if a[0] is not X and flat(a[0]) != flat(X):
                    return Arr(ev, [len(S.index())], lambda pos: Poly.atom(("s", "prediction elsewhere", tuple(pos))))
                return S.arr(ev, S.roles["pred"], flatten=True)
            y = S.arr(ev, S.roles["true"], flatten=True)
            at = {"predict": Native(predict)}
            o = {}
            if given:
                o = {"X": X, "y": y}
                at.update(X_train_=Arr(ev, [2, 2], lambda pos: Poly.atom(("s", "old", tuple(pos)))), y_train_=Arr(ev, [2], lambda pos: Poly.atom(("s", "oldy", tuple(pos)))))
            else:
                at.update(X_train_=X, y_train_=y)
            return render(ev, PYSR, kind, stub(at, "Model"), **o)
        play(sub, name, S, build, proj)
    return (name, f)


def tasks(thorough):
    T = []
    for o in (["x", "t"], ["t", "x"], ["x", "y", "t"], ["y", "t", "x"], ["t", "x", "y"], ["x", "y", "z", "t"]) + ((["t", "z", "y", "x"],) if thorough else ()):
        for k in ("field_comparison", "time_slices", "residual"):
            T.append(sga(k, o))
    T += [sga(k, ["x", "t"], legacy=True) for k in ("field_comparison", "time_slices")]
    T += [sga("parity", ["x", "t"]), sga("parity", ["y", "t", "x"]), sga("parity", ["x", "t"], compare="original")]
    T += [sga("time_slices", ["x", "t"], slice_times=[0.3, 1.6]), sga("time_slices", ["x", "t"], slice_times=[1.9, 0.7, 0.95]), sga("time_slices", ["x", "y", "t"], slice_times=[1.4, 0.2]),
          sga("field_comparison", ["x", "y", "z", "t"], slice_axis=0, slice_index=2), sga("time_slices", ["x", "t"], slice_count=1),
          sga("time_slices", ["x", "y", "z", "t"], slice_axis=-2, slice_index=1), sga("time_slices", ["t", "x", "y", "z"], slice_index=0),
          sga("field_comparison", ["z", "t", "x", "y"], slice_axis=1, slice_index=0)]
    T += [dlga_given("field_comparison"), dlga_given("time_slices"), dlga_given("time_slices", slice_times=[0.25, 1.5]), dlga_given("time_slices", slice_times=[1.6, 0.3]), dlga_given("residual"),
          dlga_given("residual", None, ("actual_values", "predicted_values")), dlga_given("field_comparison", None, ("u_true", "u_pred")),
          dlga_given("field_comparison", "comparison"), dlga_given("time_slices", "slices"), dlga_training()]
    for ch in ([[0]], [[0, 1], [2]], [[2, 0], [1], [1, 1]]):
        T += [dlga_equation("parity", ch), dlga_equation("parity", ch, "plot_pde_parity"), dlga_equation("derivative_relationships", ch),
              dlga_equation("derivative_relationships", ch, "plot_derivative_relationships")]
    T += [dlga_equation("derivative_relationships", [[0], [1], [2]], None, top_n_terms=2)]
    T += [dlga_equation("derivative_relationships", [[1], [0], [2]], None, ("u_x",)), dlga_equation("derivative_relationships", [[0], [1, 0], [2]], None, ("u_x",))]
    for k, leg in (("search_evolution", None), ("search_evolution", "plot_evolution"), ("optimization", None), ("optimization", "plot_optimization_analysis"),
                   ("training_curve", None), ("validation_curve", None)):
        T.append(dlga_history(k, 4, leg))
    for sp in (["x"], ["x", "y"], ["x", "y", "z"]):
        for k in ("field_comparison", "residual", "parity"):
            T += [discover(k, sp, False), discover(k, sp, True)] if len(sp) < 3 else [discover(k, sp, True)]
    for leg, k in (("plot_pde_residual_analysis", "residual"), ("plot_field_comparison", "field_comparison"), ("plot_actual_vs_predicted", "parity")):
        T.append(discover(k, ["x"], False, leg))
    T += [discover(k, sp, c, None, 5, True) for k, sp, c in (("parity", ["x"], True), ("residual", ["x", "y"], False), ("field_comparison", ["x", "y"], True))]
    T += [discover("field_comparison", ["x", "y", "z"], False, None, slice_axis=1, slice_index=3)]
    T += [discover(k, sp, True, None, n) for k in ("field_comparison", "residual") for sp in (["x", "y"], ["x", "y", "z"]) for n in (2, 4)]
    T += [spr("spr_residual", ["x"]), spr("spr_residual", ["x", "y"]), spr("spr_residual", ["x"], "plot_spr_residual_analysis"), spr("parity", ["x"], "plot_spr_actual_vs_predicted")]
    T += [spr_field(None), spr_field("plot_spr_field_comparison")]
    T += [density(3), density(13, max_curves=5), density(4, epoches=[0, 2]), density(3, epoches=[7, 1])]
    T += [density(4, True, epoches=[2, 0]), density(4, True, epoches=[1]), terms_plot()]
    T += [rewards([3, 2], n) for n in ("plot_evolution", "evolution_plot")]
    T += [rewards([3]), rewards([3, 2]), rewards([3, 2, 4, 1])]
    T += [pysr(k, g) for k in ("parity", "residual") for g in (False, True)]
    return T


def run(ctx):
    ctx.rule("every drawing call of a plot is recorded with its labels; coordinates are distinct numbers, so each drawn value has a place, and must be the sample of "
             "the quantity the label names at that place; an axis labelled time or space carries the coordinates of that axis; the moment in a title is the moment drawn")
    ctx.rule("parity plots pair true and predicted value of the same sample on the axes that name them, once each; residuals are true minus predicted; histories are drawn in order over "
             "consecutive steps; a term's panel carries its own values, label and coefficient")
    ctx.assumptions += ["labels are read by the words true/actual/target/exact/original/LHS, predicted/RHS/metadata/model output, residual, time, space, x_1, x_2",
                        "matplotlib draws what it is given"]
    T = tasks(ctx.thorough)
    run_scenarios(ctx, T)
    ctx.floor("figures_judged", 50)
    ctx.floor("panels_judged", 120)
    ctx.floor("draws_judged", 100)
    ctx.floor("values_judged", 3000)
    for n, _ in T[::5]:
        ctx.sample(n)
