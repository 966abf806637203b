"""Arrays over finite domains, element by element.

Token numbers, masks and counters of the symbol-by-symbol searches range over small finite sets, so an array of them can be
tabulated: the handlers below give the set and mask operations of numpy and torch their meaning on tables, and leave anything
that is not a table to the general evaluator."""
import itertools
from .gridcheck import *
from .grid import low, Cond
from .algebra import F
from .gridlib import finite, fshape, iterate
from . import gridlib

LIMIT = 60000


def table(v):
    """(shape, elements in C order) of an array, list or number, or None when it is not a table"""
    if isinstance(v, bool) or isinstance(v, (int, float, F)):
        return (), [v]
    if isinstance(v, Poly):
        return (), [low(v)]
    if isinstance(v, Arr):
        sh = fshape(v)
        if sh is None:
            return None
        out = []
        try:
            for pos in itertools.product(*[range(n) for n in sh]):
                x = v.at(tuple(Poly.c(k) for k in pos))
                out.append(x if isinstance(x, bool) else low(x))
        except Unmodelled:
            return None
        return sh, out
    if isinstance(v, (list, tuple)):
        if not v:
            return (0,), []
        ts = [table(x) for x in v]
        if any(t is None for t in ts) or any(t[0] != ts[0][0] for t in ts):
            return None
        return (len(v),) + ts[0][0], [x for t in ts for x in t[1]]
    return None


def concrete(t):
    return t is not None and all(isinstance(x, (bool, int, float, F)) for x in t[1])


def arr(ev, sh, xs, mask=None, torch=False):
    """an array from a table"""
    sh = tuple(sh)
    vals = [x if isinstance(x, (bool, Cond)) else P(x) for x in xs]
    if not sh:
        return vals[0]
    strides, s = [], 1
    for n in reversed(sh):
        strides.append(s)
        s *= n
    strides.reverse()

    def f(pos):
        k = 0
        for p, st in zip(pos, strides):
            c = P(p).const()
            if c is None:
                raise Undecided("symbolic index into a table")
            k += int(c) * st
        return vals[k]
    r = Arr(ev, list(sh), f, torch=torch)
    r.mask = bool(vals) and all(isinstance(x, bool) for x in vals) if mask is None else mask
    return r


def pairs(a, b):
    """two tables, broadcast"""
    (sa, xa), (sb, xb) = a, b
    n = max(len(sa), len(sb))
    pa, pb = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
    sh = []
    for x, y in zip(pa, pb):
        if x != y and 1 not in (x, y):
            return None
        sh.append(max(x, y) if 0 not in (x, y) else 0)

    def pick(s, xs, pos):
        k = 0
        for n, p in zip(s, pos):
            k = k * n + (p if n != 1 else 0)
        return xs[k]
    return tuple(sh), [(pick(pa, xa, p), pick(pb, xb, p)) for p in itertools.product(*[range(n) for n in sh])]


def install(ev):
    H = ev.handlers

    def general(n):
        old = H.get(n)
        return (lambda ev, a, k, node: old(ev, a, k, node)) if old is not None else (lambda ev, a, k, node: gridlib.call(ev, n, a, k, node))

    def binary(names, f, mask=True):
        for n in names:
            def h(ev, a, k, node, f=f, g=general(n)):
                if len(a) == 2 and not k:
                    x, y = table(a[0]), table(a[1])
                    if concrete(x) and concrete(y):
                        r = pairs(x, y)
                        if r is not None:
                            return arr(ev, r[0], [f(p, q) for p, q in r[1]], mask)
                return g(ev, a, k, node)
            H[n] = h

    def names(*ns):
        return ["numpy." + n for n in ns] + ["torch." + n for n in ns] + ["arr." + n for n in ns]
    binary(names("logical_and"), lambda x, y: bool(x) and bool(y))
    binary(names("logical_or"), lambda x, y: bool(x) or bool(y))
    binary(names("logical_xor"), lambda x, y: bool(x) != bool(y))
    binary(names("equal", "eq"), lambda x, y: x == y)
    binary(names("not_equal", "ne"), lambda x, y: x != y)
    binary(names("less", "lt"), lambda x, y: x < y)
    binary(names("less_equal", "le"), lambda x, y: x <= y)
    binary(names("greater", "gt"), lambda x, y: x > y)
    binary(names("greater_equal", "ge"), lambda x, y: x >= y)

    def isin(ev, a, k, node):
        x = table(a[0])
        y = table(list(a[1]) if isinstance(a[1], (set, frozenset)) else a[1])
        if len(a) > 2 or set(k) - {"invert"} or not concrete(x) or not concrete(y):
            return Unk("isin")
        inv = k.get("invert") is True
        return arr(ev, x[0], [(e in y[1]) != inv for e in x[1]], True)
    H["numpy.isin"] = H["numpy.in1d"] = H["torch.isin"] = isin

    def sets(name, f):
        def h(ev, a, k, node):
            x, y = table(a[0]), table(a[1])
            if k or not concrete(x) or not concrete(y):
                return Unk(name)
            xs = sorted(f(set(x[1]), set(y[1])))
            return arr(ev, (len(xs),), xs)
        H["numpy." + name] = h
    sets("intersect1d", lambda x, y: x & y)
    sets("union1d", lambda x, y: x | y)
    sets("setdiff1d", lambda x, y: x - y)

    def unique(ev, a, k, node, g=general("numpy.unique")):
        x = table(a[0])
        if len(a) > 1 or k or not concrete(x):
            return g(ev, a, k, node)
        xs = sorted(set(x[1]))
        return arr(ev, (len(xs),), xs)
    H["numpy.unique"] = unique

    def reduce(nm, f):
        for n in names(nm):
            def h(ev, a, k, node, g=general(n)):
                t = table(a[0]) if a and isinstance(a[0], Arr) else None
                ax = k.get("axis", k.get("dim", a[1] if len(a) > 1 else None))
                if t is None or len(a) > 2 or set(k) - {"axis", "dim", "keepdims", "keepdim", "dtype"} or \
                        not (ax is None or isinstance(low(ax), int)) or not (concrete(t) or nm == "sum"):
                    return g(ev, a, k, node)
                sh, xs = t
                xs = [int(x) if isinstance(x, bool) and nm == "sum" else x for x in xs]
                if any(isinstance(x, Cond) for x in xs):
                    return g(ev, a, k, node)
                if ax is None:
                    return f(xs)
                ax = low(ax) % len(sh)
                keep = k.get("keepdims", k.get("keepdim")) is True
                out = {}
                for pos, x in zip(itertools.product(*[range(m) for m in sh]), xs):
                    out.setdefault(pos[:ax] + pos[ax + 1:], []).append(x)
                rest = sh[:ax] + sh[ax + 1:]
                ys = [f(out.get(p, [])) for p in itertools.product(*[range(m) for m in rest])]
                return arr(ev, sh[:ax] + (1,) + sh[ax + 1:] if keep else rest, ys, torch=a[0].torch)
            H[n] = h

    def total(xs):
        s = 0
        for x in xs:
            s = s + x if not isinstance(x, Poly) else P(s) + x
        return s
    reduce("sum", total)
    reduce("any", lambda xs: any(bool(x) for x in xs))
    reduce("all", lambda xs: all(bool(x) for x in xs))
    reduce("count_nonzero", lambda xs: sum(1 for x in xs if x))
    H["builtins.all"] = quant(ev, all, general("builtins.all"))
    H["builtins.any"] = quant(ev, any, general("builtins.any"))

    def outer(ev, a, k, node, g=general("numpy.outer")):
        x, y = table(a[0]), table(a[1])
        if k or len(a) != 2 or x is None or y is None or len(x[0]) != 1 or len(y[0]) != 1:
            return g(ev, a, k, node)
        return arr(ev, x[0] + y[0], [bit(p) * bit(q) for p in x[1] for q in y[1]], False)
    H["numpy.outer"] = outer

    def tile(ev, a, k, node, g=general("numpy.tile")):
        x, r = table(a[0]), a[1] if len(a) > 1 else k.get("reps")
        r = [low(y) for y in (r if isinstance(r, (list, tuple)) else [r])]
        if x is None or not all(isinstance(y, int) for y in r):
            return g(ev, a, k, node)
        n = max(len(r), len(x[0]))
        sh, r = (1,) * (n - len(x[0])) + x[0], [1] * (n - len(r)) + r
        new = tuple(p * q for p, q in zip(sh, r))
        out = []
        for pos in itertools.product(*[range(m) for m in new]):
            i = 0
            for p, m in zip(pos, sh):
                i = i * m + p % m
            out.append(x[1][i])
        return arr(ev, new, out)
    H["numpy.tile"] = H["torch.tile"] = tile

    def prange(ev, a, k, node):
        return gridlib.call(ev, "builtins.range", a, k, node)
    H["numba.prange"] = prange

    def bitnot(ev, a, k, node, g=general("numpy.logical_not")):
        t = table(a[0])
        return arr(ev, t[0], [not x for x in t[1]], True) if concrete(t) else g(ev, a, k, node)
    for n in names("logical_not"):
        H[n] = bitnot


def bit(x):
    return P(int(x)) if isinstance(x, bool) else P(x)


def quant(ev, f, g):
    def h(ev, a, k, node):
        t = table(a[0]) if a and isinstance(a[0], Arr) else None
        if t is not None and len(t[0]) == 1 and concrete(t):
            return f(bool(x) for x in t[1])
        return g(ev, a, k, node)
    return h
