"""A recording stand-in for matplotlib: figures and axes that remember what was drawn on them, with which texts around it."""
import itertools
import math
from fractions import Fraction
from .gridcheck import *
from .grid import Cond, Rng
from .gridlib import call as general, fshape, iterate

DRAWS = ("scatter", "plot", "hist", "pcolormesh", "pcolor", "contourf", "contour", "imshow", "matshow", "bar", "loglog", "semilogx", "semilogy")
QUIET = ("grid legend set_aspect tick_params axvline axhline set_visible set_xlim set_ylim text annotate set_xticks set_yticks set_xscale set_yscale "
         "tight_layout subplots_adjust savefig clf clear show close draw set_facecolor set_axis_off axis margins set_box_aspect autoscale "
         "set_label ax_label minorticks_on ticklabel_format set_size_inches set_tight_layout set_xticklabels set_yticklabels xlim ylim xticks yticks "
         "setp switch_backend ion ioff fill_between errorbar invert_yaxis invert_xaxis set_figwidth set_figheight colorbar_set").split()


class Axes:
    def __init__(self):
        self.title = self.xlabel = self.ylabel = ""
        self.draws, self.obj, self.twin = [], None, False


class Draw:
    def __init__(self, kind, args, kw, axes):
        self.kind, self.args, self.kw, self.axes, self.bar = kind, list(args), dict(kw), axes, ""
        self.label = kw.get("label") or ""

    def arg(self, i, *names):
        if len(self.args) > i:
            return self.args[i]
        for n in names:
            if n in self.kw:
                return self.kw[n]
        return None


class Canvas:
    """`drawn`: every axes with the draws on it, over all figures"""

    def __init__(self, ev):
        self.ev = ev
        self.reset()

    def reset(self):
        self.drawn, self.saved, self.current, self.figure = [], 0, None, None

    def native(self, f):
        return Native(lambda ev, a, k, n: f(a, k, n))

    def quiet(self, a, k, n):
        return Unk("figure decoration")

    def axes(self, twin=False):
        A = Axes()
        A.twin = twin
        self.drawn.append(A)
        o = {q: self.native(self.quiet) for q in QUIET}

        def text(which):
            def f(a, k, n):
                v = a[0] if a else k.get("label", k.get("xlabel", k.get("ylabel", "")))
                setattr(A, which, v if isinstance(v, str) else "")
                return Unk("text")
            return self.native(f)
        o.update(set_title=text("title"), set_xlabel=text("xlabel"), set_ylabel=text("ylabel"))

        def put(a, k, n):
            for key, v in k.items():
                if key in ("title", "xlabel", "ylabel") and isinstance(v, str):
                    setattr(A, key, v)
            return Unk("properties")
        o["set"] = self.native(put)
        o["get_figure"] = self.native(lambda a, k, n: self.figure)
        o["twinx"] = self.native(lambda a, k, n: self.axes(True).obj)
        for d in DRAWS:
            o[d] = self.native(lambda a, k, n, d=d: self.draw(A, d, a, k))
        A.obj = stub(o, "Axes")
        self.current = A
        return A

    def draw(self, A, kind, a, k):
        D = Draw(kind, a, k, A)
        A.draws.append(D)
        if kind == "hist":
            v = a[0] if a else k.get("x")
            return (Unk("heights"), Arr(self.ev, [3], lambda pos: Poly.atom(("s", "bin edge", tuple(pos)))), [])
        o = {q: self.native(self.quiet) for q in QUIET}
        o["get_label"] = self.native(lambda a, k, n: D.label)
        o["_draw"] = D
        h = stub(o, "Artist")
        return [h] if kind in ("plot", "loglog", "semilogx", "semilogy") else h

    def fig(self):
        o = {q: self.native(self.quiet) for q in QUIET}
        o["suptitle"] = self.native(self.quiet)
        o["add_subplot"] = self.native(lambda a, k, n: self.axes().obj)
        o["add_axes"] = self.native(lambda a, k, n: self.axes().obj)
        o["gca"] = self.native(lambda a, k, n: (self.current or self.axes()).obj)
        o["add_gridspec"] = self.native(lambda a, k, n: Arr(self.ev, [P(a[0]), P(a[1])], lambda pos: P(0)))
        o["subplots"] = self.native(lambda a, k, n: self.grid(a, k))
        o["colorbar"] = self.native(self.colorbar)
        o["canvas"] = Unk("canvas")
        self.figure = stub(o, "Figure")
        return self.figure

    def colorbar(self, a, k, n):
        h = a[0] if a else k.get("mappable")
        D = h.attrs.get("_draw") if isinstance(h, Inst) else None
        if D is not None and isinstance(k.get("label"), str):
            D.bar = k["label"]
        o = {q: self.native(self.quiet) for q in QUIET}

        def lab(a, k, n):
            if D is not None and a and isinstance(a[0], str):
                D.bar = a[0]
            return Unk("label")
        o["set_label"] = self.native(lab)
        o["ax"] = Unk("axes of the colour bar")
        return stub(o, "Colorbar")

    def grid(self, a, k):
        r = low(a[0] if a else k.get("nrows", 1))
        c = low(a[1] if len(a) > 1 else k.get("ncols", 1))
        r, c = P(r).const(), P(c).const()
        if r is None or c is None:
            raise Unmodelled("number of panels")
        r, c = int(r), int(c)
        A = [[self.axes() for _ in range(c)] for _ in range(r)]
        sq = k.get("squeeze", True)
        if sq and r == c == 1:
            return A[0][0].obj
        if sq and (r == 1 or c == 1):
            flat = [x for row in A for x in row]
            return Arr(self.ev, [len(flat)], lambda pos: flat[int(P(pos[0]).const())].obj)
        return Arr(self.ev, [r, c], lambda pos: A[int(P(pos[0]).const())][int(P(pos[1]).const())].obj)


def cells(x, ev=None):
    """the elements of an array, a list or a range in row order, and its shape; None when unknown"""
    if isinstance(x, Rng):
        x = list(x)
    if isinstance(x, (list, tuple, range)):
        out, sh = [], None
        for e in x:
            if isinstance(e, (list, tuple, range)) or isinstance(e, Arr):
                c = cells(e)
                if c is None or sh not in (None, c[1]):
                    return None
                sh = c[1]
                out += c[0]
            else:
                if isinstance(e, (Unk, Cond)) or e is None or isinstance(e, str):
                    return None
                sh = sh or ()
                out.append(P(low(e)))
        return out, (len(x),) + (sh or ())
    if not isinstance(x, Arr):
        return None
    sh = fshape(x)
    if sh is None:
        return None
    out = []
    for p in itertools.product(*[range(m) for m in sh]):
        v = low(x.at(tuple(Poly.c(i) for i in p)))
        if isinstance(v, (Unk, Cond)) or v is None or isinstance(v, (str, Inst)):
            return None
        out.append(P(v))
    return out, tuple(sh)


def flat(x):
    """elements of an array or of nested lists of arrays, whatever their shapes"""
    if isinstance(x, (list, tuple, range, Rng)):
        out = []
        for e in x:
            f = flat(e)
            if f is None:
                return None
            out += f
        return out
    if isinstance(x, Arr):
        c = cells(x)
        return None if c is None else c[0]
    if isinstance(x, (Unk, Cond, Inst, str)) or x is None:
        return None
    return [P(low(x))]


def named(ev, nm, xs):
    """smallest or largest of a set: a number when all are, else a name that depends on the set only"""
    ks = [x.const() for x in xs]
    if xs and all(k is not None for k in ks):
        return low(xs[ks.index((min if nm == "min" else max)(ks))])
    one = list(dict.fromkeys(xs))
    return one[0] if len(one) == 1 else Poly.atom(("f", "set%s" % nm, tuple(sorted(one, key=show))))


BIG = Fraction(10) ** 30        # stands for infinity: beyond every sample


def install(ev):
    C = Canvas(ev)
    H = ev.handlers
    P0 = "matplotlib.pyplot."
    nat = lambda f: (lambda ev_, a, k, n: f(a, k, n))
    for q in QUIET:
        H[P0 + q] = nat(C.quiet)
    H[P0 + "figure"] = nat(lambda a, k, n: C.fig())

    def subplots(a, k, n):
        f = C.fig()
        return (f, C.grid(a, k))
    H[P0 + "subplots"] = nat(subplots)
    H[P0 + "subplot"] = H[P0 + "axes"] = nat(lambda a, k, n: C.axes().obj)
    H[P0 + "gca"] = nat(lambda a, k, n: (C.current or C.axes()).obj)
    H[P0 + "gcf"] = nat(lambda a, k, n: C.figure or C.fig())
    H[P0 + "suptitle"] = H[P0 + "style.use"] = nat(C.quiet)
    H[P0 + "get_cmap"] = nat(lambda a, k, n: C.native(C.quiet))

    def style(a, k, n):
        o = stub({}, "Style")
        o.cls.attrs.update(__enter__=C.native(C.quiet), __exit__=C.native(lambda a, k, n: False), __call__=C.native(lambda a, k, n: a[-1]))
        return o
    H[P0 + "style.context"] = H[P0 + "rc_context"] = nat(style)
    H[P0 + "colorbar"] = nat(C.colorbar)

    def on(which):
        def f(a, k, n):
            A = C.current or C.axes()
            v = a[0] if a else ""
            setattr(A, which, v if isinstance(v, str) else "")
            return Unk("text")
        return nat(f)
    H[P0 + "title"], H[P0 + "xlabel"], H[P0 + "ylabel"] = on("title"), on("xlabel"), on("ylabel")
    for d in DRAWS:
        H[P0 + d] = nat(lambda a, k, n, d=d: C.draw(C.current or C.axes(), d, a, k))

    def extreme(nm, name):
        def h(ev_, a, k, node):
            if k.get("key") is not None or k.get("axis") is not None or name != "builtins." + nm and len(a) > 1:
                return general(ev, name, a, k, node)
            xs = flat(a if name.startswith("builtins") and len(a) > 1 else a[0])
            if not xs:
                return general(ev, name, a, k, node)
            return named(ev, nm, xs)
        return h
    for nm in ("min", "max"):
        for name in ("builtins." + nm, "numpy." + nm, "numpy.a" + nm, "numpy.nan" + nm, "arr." + nm):
            H[name] = extreme(nm, name)
    exact(ev)
    return C


def exact(ev):
    """routines on plain numbers that a plot uses to choose what it draws"""
    H = ev.handlers
    for n in ("numpy.inf", "numpy.Inf", "math.inf", "torch.inf"):
        ev.constants[n] = BIG

    def numbers(x):
        xs = flat(x)
        ks = None if xs is None else [v.const() for v in xs]
        return None if ks is None or any(k is None for k in ks) else ks

    def out(ks):
        return Arr(ev, [len(ks)], lambda pos: Poly.c(ks[at(pos[0])]))

    def linspace(ev_, a, k, n):
        b = [numbers(x) for x in list(a[:3]) + ([k["num"]] if len(a) < 3 and "num" in k else [])]
        if len(b) == 2:
            b.append([50])
        if len(b) != 3 or any(x is None or len(x) != 1 for x in b) or k.get("endpoint", True) is not True or k.get("retstep"):
            return general(ev, "numpy.linspace", a, k, n)
        lo, hi, m = (x[0] for x in b)
        m = int(m)
        return out([lo + (hi - lo) * Fraction(i, m - 1) if m > 1 else lo for i in range(m)])
    H["numpy.linspace"] = linspace

    def mgrid(ev_, a, k, n):
        ax = []
        for s in a[0] if isinstance(a[0], tuple) else (a[0],):
            b = [numbers(x) for x in (s.start, s.stop)] if isinstance(s, slice) and isinstance(s.step, complex) else [None]
            if any(x is None or len(x) != 1 for x in b):
                return Unk("mgrid")
            (lo,), (hi,), m = b[0], b[1], int(abs(s.step))
            ax.append([lo + (hi - lo) * Fraction(i, m - 1) if m > 1 else lo for i in range(m)])
        dims = [len(x) for x in ax]
        return tuple(Arr(ev, dims, lambda pos, j=j: Poly.c(ax[j][at(pos[j])])) for j in range(len(ax)))
    H["numpy.mgrid[]"] = mgrid
    H["numpy.nan_to_num"] = lambda ev_, a, k, n: a[0] if isinstance(a[0], Arr) else general(ev, "numpy.nan_to_num", a, k, n)

    def clip(ev_, a, k, n):
        b = [numbers(x) for x in a]
        if len(b) != 3 or any(x is None for x in b) or k or len(b[1]) != 1 or len(b[2]) != 1:
            return general(ev, "numpy.clip", a, k, n)
        ks = [min(max(v, b[1][0]), b[2][0]) for v in b[0]]
        return out(ks) if isinstance(a[0], (Arr, list, tuple)) else Poly.c(ks[0])
    H["numpy.clip"] = H["arr.clip"] = clip

    def nearest(nm, name, prev):
        """argmin/argmax of a table of numbers along an axis"""
        def h(ev_, a, k, n):
            ax = a[1] if len(a) > 1 else k.get("axis")
            c = cells(a[0]) if isinstance(a[0], Arr) else None
            ks = None if c is None else [v.const() for v in c[0]]
            ax = ax if ax is None or isinstance(ax, int) else P(low(ax)).const()
            if ks is None or any(v is None for v in ks) or len(c[1]) != 2 or ax not in (0, 1, -1, -2) or set(k) - {"axis"}:
                return prev(ev_, a, k, n) if prev else general(ev, name, a, k, n)
            r, m = c[1]
            rows = [ks[i * m:i * m + m] for i in range(r)] if ax % 2 else [ks[j::m] for j in range(m)]
            return out([Fraction(v.index(nm(v))) for v in rows])
        return h
    for nm in (min, max):
        for pre in ("numpy.", "arr."):
            H[pre + "arg" + nm.__name__] = nearest(nm, pre + "arg" + nm.__name__, H.get(pre + "arg" + nm.__name__))

    def whole(nm):
        def h(ev_, a, k, n):
            b = numbers(a[0]) if not isinstance(a[0], (Arr, list)) else None
            if b is None:
                return general(ev, "numpy." + nm, a, k, n)
            return Poly.c(getattr(math, nm)(b[0]))
        return h
    for nm in ("ceil", "floor"):
        H["numpy." + nm] = H["math." + nm] = whole(nm)

    def unique(ev_, a, k, n, prev=H.get("numpy.unique")):
        b = numbers(a[0])
        if b is None or len(a) > 1 or k:
            xs = flat(a[0])
            if xs is not None and len(a) == 1 and not k:
                u = []
                for x in xs:
                    if not any(x == y for y in u):
                        u.append(x)
                return Arr(ev, [len(u)], lambda pos: Poly.atom(("f", "sorted", (P(pos[0]),) + tuple(u))))
            return prev(ev_, a, k, n) if prev else general(ev, "numpy.unique", a, k, n)
        return out(sorted(set(b)))
    H["numpy.unique"] = unique

    def stat(nm, name):
        def h(ev_, a, k, n):
            if k or len(a) != 1:
                return general(ev, name, a, k, n)
            xs = flat(a[0])
            if not xs:
                return general(ev, name, a, k, n)
            if nm == "mean":
                return sum(xs, P(0)) * Poly.c(Fraction(1, len(xs)))
            return Poly.atom(("f", nm, tuple(sorted(xs, key=show))))
        return h
    for nm in ("mean", "std", "var", "median"):
        for pre in ("numpy.", "arr."):
            H[pre + nm] = stat(nm, pre + nm)

    def every(ev_, a, k, n):
        sh = fshape(a[0])
        return Unk("flat") if sh is None else tuple(a[0].at(tuple(Poly.c(i) for i in p)) for p in itertools.product(*map(range, sh)))
    H["arr.flat"] = every

    def atleast(ev_, a, k, n):
        if len(a) == 1 and isinstance(a[0], Inst):
            return Arr(ev, [1], lambda pos: a[0])
        return general(ev, "numpy.atleast_1d", a, k, n)
    H["numpy.atleast_1d"] = atleast

    def again(nm):
        def h(ev_, a, k, n):
            xs = flat(a[0]) if len(a) == 2 and not k and (not isinstance(a[0], Arr) or a[0].ndim == 1) else None
            m = numbers(a[1]) if xs is not None and not isinstance(a[1], (Arr, list, tuple)) else None
            m = m[0] if m else None
            if m is None or m != int(m) or m < 0:
                return general(ev, "numpy." + nm, a, k, n)
            out_ = [x for x in xs for _ in range(int(m))] if nm == "repeat" else xs * int(m)
            return Arr(ev, [len(out_)], lambda pos: out_[at(pos[0])])
        return h
    H["numpy.repeat"], H["numpy.tile"] = again("repeat"), again("tile")

    def searchsorted(ev_, a, k, n):
        b = [numbers(x) for x in a[:2]]
        if any(x is None for x in b) or len(b) < 2 or len(b[1]) != 1 or k:
            return general(ev, "numpy.searchsorted", a, k, n)
        return sum(1 for v in b[0] if v < b[1][0])
    H["numpy.searchsorted"] = searchsorted

    def along(name, f):
        prev = H.get(name)

        def h(ev_, a, k, n):
            b = numbers(a[0]) if len(a) == 1 and not k and isinstance(a[0], Arr) and a[0].ndim == 1 else None
            if b is None:
                return prev(ev_, a, k, n) if prev else general(ev, name, a, k, n)
            return out(f(b))
        H[name] = h
    along("numpy.diff", lambda b: [y - x for x, y in zip(b, b[1:])])
    along("numpy.abs", lambda b: [abs(x) for x in b])
    along("numpy.maximum.accumulate", lambda b: [max(b[:i + 1]) for i in range(len(b))])
    along("numpy.minimum.accumulate", lambda b: [min(b[:i + 1]) for i in range(len(b))])
    along("numpy.cumsum", lambda b: [sum(b[:i + 1]) for i in range(len(b))])


def at(p):
    k = P(p).const()
    if k is None:
        raise Undecided("symbolic place in a table")
    return int(k)
