"""Scores abstracted to their rank.

A search compares the scores of its candidates and does nothing else with them, so which candidate is kept depends only on how
the scores are ordered.  `Scores` gives every candidate a rank, forking over every place its score can take among the ones
already known (below, between, above, and equal to one of them), which covers every history of scores.  The handlers below
give order operations (sorting, arg-extrema, top-k, quantiles, masks) their meaning on short arrays of ranks."""
from .gridcheck import *
from .grid import low
from .gridlib import mkarray, builtin, iterate
from .algebra import F
from . import gridlib


class Scores:
    def __init__(self, ev, ties=True, start=1, step=4):
        self.ev, self.ties, self.start, self.step = ev, ties, F(start), F(step)
        self.reset()

    def reset(self):
        self.of, self.log = {}, []

    def __call__(self, key):
        """the score of a candidate, the same whenever it is evaluated again"""
        if key not in self.of:
            xs = sorted(set(self.of.values()))
            spots = [xs[0] / 2] if xs else [self.start]
            for k, x in enumerate(xs):
                if self.ties:
                    spots.append(x)
                spots.append((x + xs[k + 1]) / 2 if k + 1 < len(xs) else x + self.step)
            lo, hi = 0, len(spots) - 1
            while lo < hi:
                mid = (lo + hi) // 2
                if self.ev.choose("score"):
                    lo = mid + 1
                else:
                    hi = mid
            self.of[key] = spots[lo]
            self.log.append(key)
        return self.of[key]


def consts(v):
    """the elements of a short vector, or None"""
    if isinstance(v, Arr):
        if v.ndim != 1 or v.dims[0].const() is None or v.dims[0].const() > 64:
            return None
        v = [low(v.at((Poly.c(k),))) for k in range(int(v.dims[0].const()))]
    if not isinstance(v, (list, tuple)):
        return None
    out = []
    for x in v:
        x = low(x)
        if isinstance(x, Arr) and x.ndim == 0:
            x = low(x.at(()))
        if not isinstance(x, (int, float, F)):
            return None
        out.append(x)
    return out


def vec(ev, xs, torch=False, mask=False):
    r = Arr(ev, [len(xs)], lambda pos: at(pos, xs), torch=torch)
    r.mask = mask
    return r


def at(pos, xs):
    k = P(pos[0]).const()
    if k is None:
        raise Undecided("symbolic index into a vector of ranks")
    x = xs[int(k)]
    return x if isinstance(x, bool) else P(x)


def order(xs):
    return sorted(range(len(xs)), key=lambda k: xs[k])


BIG = F(10) ** 30        # stands for infinity: beyond every rank


def install(ev):
    H = ev.handlers
    for n in ("numpy.inf", "numpy.Inf", "math.inf", "torch.inf"):
        ev.constants[n] = BIG

    def hook(names, f):
        for n in names:
            def h(ev, a, k, node, n=n, f=f):
                xs = consts(a[0]) if a else None
                if xs is not None and (xs or n.startswith(("heapq", "itertools"))):
                    r = f(xs, list(a[1:]), k, node, bool(isinstance(a[0], Arr) and a[0].torch))
                    if r is not NotImplemented:
                        return r
                return gridlib.call(ev, n, a, k, node)
            H[n] = h

    def np(*names):
        return ["numpy." + n for n in names] + ["arr." + n for n in names] + ["torch." + n for n in names]

    def argsort(xs, a, k, node, t):
        if k.get("key") is not None:
            return NotImplemented
        o = order(xs)
        return vec(ev, o[::-1] if k.get("descending") is True else o, t)

    def num(x):
        return low(P(x))
    hook(np("argsort"), argsort)
    hook(np("argmin"), lambda xs, a, k, n, t: min(range(len(xs)), key=lambda i: xs[i]))
    hook(np("argmax"), lambda xs, a, k, n, t: max(range(len(xs)), key=lambda i: (xs[i], -i)))
    hook(np("max", "amax", "nanmax"), lambda xs, a, k, n, t: num(max(xs)))
    hook(np("min", "amin", "nanmin"), lambda xs, a, k, n, t: num(min(xs)))
    hook(["numpy.sort"], lambda xs, a, k, n, t: vec(ev, sorted(xs), t))
    hook(np("nanargmin"), lambda xs, a, k, n, t: min(range(len(xs)), key=lambda i: xs[i]))
    hook(np("nanargmax"), lambda xs, a, k, n, t: max(range(len(xs)), key=lambda i: (xs[i], -i)))

    def clip(xs, a, k, n, t):
        lo = low(a[0]) if a else k.get("min", k.get("a_min"))
        hi = low(a[1]) if len(a) > 1 else k.get("max", k.get("a_max"))
        if not all(x is None or isinstance(x, (int, float, F)) for x in (lo, hi)):
            return NotImplemented
        return vec(ev, [x if (lo is None or x >= lo) and (hi is None or x <= hi) else lo if lo is not None and x < lo else hi
                        for x in xs], t)
    hook(np("clip", "clamp"), clip)

    def quantile(xs, a, k, n, t):
        q = low(a[0]) if a else k.get("q")
        if not isinstance(q, (int, float, F)):
            return NotImplemented
        how = k.get("method", k.get("interpolation", a[3] if len(a) > 3 else "linear"))
        ys = sorted(xs)
        p = F(q) * (len(ys) - 1)
        lo = int(p)
        hi = min(lo + (p > lo), len(ys) - 1)
        if how == "linear":
            return num(ys[lo] + (ys[hi] - ys[lo]) * (p - lo))
        if how in ("higher", "lower"):
            return num(ys[hi if how == "higher" else lo])
        return NotImplemented
    hook(np("quantile"), quantile)

    def where(xs, a, k, n, t):
        if a or not all(isinstance(x, bool) for x in xs):
            return NotImplemented
        return (vec(ev, [i for i, x in enumerate(xs) if x], t),)
    hook(["numpy.where", "numpy.nonzero", "arr.nonzero"], where)
    hook(["numpy.flatnonzero"], lambda xs, a, k, n, t: vec(ev, [i for i, x in enumerate(xs) if x]))

    def any_(xs, a, k, n, t):
        return any(xs) if all(isinstance(x, bool) for x in xs) else NotImplemented

    def all_(xs, a, k, n, t):
        return all(xs) if all(isinstance(x, bool) for x in xs) else NotImplemented
    hook(np("any"), any_)
    hook(np("all"), all_)

    def topk(xs, a, k, n, t):
        m = low(a[0]) if a else k.get("k")
        if not isinstance(m, int) or k.get("dim") is not None or len(a) > 1 and low(a[1]) not in (0, -1):
            return NotImplemented
        if m > len(xs):
            raise PyRaise("RuntimeError", n, msg="selected index k out of range")
        o = sorted(range(len(xs)), key=lambda i: xs[i], reverse=k.get("largest", True) is not False)[:m]
        v, i = vec(ev, [xs[j] for j in o], True), vec(ev, o, True)
        return stub({"values": v, "indices": i, "__iter__": None}, "topk")
    hook(["torch.topk", "arr.topk"], topk)

    def torchsort(xs, a, k, n, t):
        o = order(xs)
        if k.get("descending") is True:
            o = o[::-1]
        return (vec(ev, [xs[j] for j in o], True), vec(ev, o, True))
    hook(["torch.sort"], torchsort)

    def cumsum(xs, a, k, n, t):
        out, tot = [], 0
        for x in xs:
            tot += x
            out.append(tot)
        return vec(ev, out, t)
    hook(np("cumsum"), cumsum)

    def append(ev, a, k, node):
        xs, ys = consts(a[0]), consts(a[1] if isinstance(a[1], (list, tuple, Arr)) else [a[1]])
        if xs is None or ys is None or k.get("axis", a[2] if len(a) > 2 else None) not in (None, 0):
            return gridlib.call(ev, "numpy.append", a, k, node)
        return vec(ev, xs + ys)
    H["numpy.append"] = append

    def isin(ev, a, k, node):
        ys = consts(a[1])
        if ys is not None and isinstance(low(a[0]), (int, float, F)):
            return low(a[0]) in ys
        xs = consts(a[0])
        return vec(ev, [x in ys for x in xs], mask=True) if xs is not None and ys is not None else gridlib.call(ev, "numpy.isin", a, k, node)
    H["numpy.isin"] = H["numpy.in1d"] = isin

    def nth(sign):
        def f(ev, a, k, node):
            m = low(a[0])
            xs = iterate(ev, a[1], node)
            key = k.get("key", a[2] if len(a) > 2 else None)
            ks = consts([ev.call(key, [x]) for x in xs] if key is not None else xs)
            if ks is None or not isinstance(m, int):
                return Unk("extremes")
            return [xs[i] for i in sorted(range(len(xs)), key=lambda i: sign * ks[i])[:m]]
        return f
    H["heapq.nsmallest"] = nth(1)
    H["heapq.nlargest"] = nth(-1)

    def sorted_(ev, a, k, node):
        xs = iterate(ev, a[0], node)
        if isinstance(xs, Unk):
            return xs
        key = k.get("key")
        ks = [low(ev.call(key, [x])) if key is not None else low(x) for x in xs]
        ks = [tuple(low(y) for y in q) if isinstance(q, tuple) else q for q in ks]
        try:
            o = sorted(range(len(xs)), key=lambda i: ks[i], reverse=k.get("reverse") is True)
        except TypeError:
            return gridlib.call(ev, "builtins.sorted", a, k, node)
        return [xs[i] for i in o]
    H["builtins.sorted"] = sorted_

    def extreme(name, f):
        def h(ev, a, k, node):
            xs = iterate(ev, a[0], node) if len(a) == 1 else list(a)
            key = k.get("key")
            ks = consts([ev.call(key, [x]) for x in xs] if key is not None else xs) if not isinstance(xs, Unk) else None
            if not ks:
                return gridlib.call(ev, "builtins." + name, a, k, node)
            return xs[f(range(len(xs)), key=lambda i: ks[i])]
        return h
    H["builtins.min"], H["builtins.max"] = extreme("min", min), extreme("max", max)

    def array(name):
        def h(ev, a, k, node):
            if a and isinstance(a[0], list) and a[0] and all(isinstance(x, bool) for x in a[0]):
                return vec(ev, list(a[0]), name.startswith("torch"), True)
            return gridlib.call(ev, name, a, k, node)
        H[name] = h
    for n in ("numpy.array", "numpy.asarray", "torch.tensor"):
        array(n)

    def compress(ev, a, k, node):
        xs, m = iterate(ev, a[0], node), consts(a[1])
        if isinstance(xs, Unk) or m is None:
            return Unk("compress")
        return [x for x, keep in zip(xs, m) if keep]
    H["itertools.compress"] = compress


def shuffles(ev):
    """in-place shuffles, over every order"""
    def shuffle(ev, a, k, node):
        xs = a[0]
        if not isinstance(xs, list):
            raise Unmodelled("shuffle of %r" % (xs,))
        rest, out = list(xs), []
        while rest:
            i = 0
            while i < len(rest) - 1 and ev.choose("shuffle"):
                i += 1
            out.append(rest.pop(i))
        xs[:] = out
    ev.handlers["random.shuffle"] = ev.handlers["numpy.random.shuffle"] = shuffle
