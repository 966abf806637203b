"""Array library model for kdsa.grid (numpy, torch, builtins)."""
import ast, itertools, json, math, os
import re as _re
from fractions import Fraction as F
from .algebra import Poly, fn, diff, fdiv, fmod, show, NotPoly
from .grid import (Arr, Unk, Cond, Ext, ModV, Func, Cls, Inst, Bound, Static, Partial, Native, Rng, Zip, Total,
                   PyRaise, Unmodelled, Undecided, low, is_num, P, Lazy, Super)


# ------------------------------------------------------------------ arrays
def lenof(ev, v):
    return low(P(v))


def bshape(ev, shapes, node=None):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = None
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if d.const() == 1:
                if cur is None:
                    cur = d
                continue
            if cur is None or cur.const() == 1:
                cur = d
            elif cur != d:
                sg = ev.B.sign(cur - d)
                if sg in ("+", "-") or (cur.const() is not None and d.const() is not None):
                    raise PyRaise("ValueError", node, msg="shapes do not broadcast: %s vs %s" % (show(cur), show(d)))
                raise PyRaise("ValueError", node, msg="axis lengths %s and %s need not agree" % (show(cur), show(d)))
        out.append(cur)
    return out


def bcast(ev, x, dims):
    """Element rule of x viewed with shape dims."""
    if not isinstance(x, Arr):
        if isinstance(x, (bool, Cond)):
            return lambda pos: x
        c = P(x)
        return lambda pos: c
    f = x.snap()
    off = len(dims) - x.ndim
    ones = [d.const() == 1 for d in x.dims]

    def g(pos):
        q = tuple(Poly.c(0) if ones[k] else pos[k + off] for k in range(len(ones)))
        return f(q)
    g_arr = x

    def h(pos):
        if ev.loops:
            q = tuple(Poly.c(0) if ones[k] else pos[k + off] for k in range(len(ones)))
            ev.note_read(g_arr, q)
        return g(pos)
    return h


def tochain(ev, x):
    """Lists become arrays where an elementwise operation needs one."""
    if isinstance(x, (list, tuple)):
        return mkarray(ev, x)
    return x


def emap(ev, f, xs, node=None):
    xs = [tochain(ev, x) for x in xs]
    for x in xs:
        if isinstance(x, Unk):
            return x
    if not any(isinstance(x, Arr) for x in xs):
        r = f(*[x if isinstance(x, (bool, Cond)) else P(x) for x in xs])
        return low(r)
    dims = bshape(ev, [x.dims if isinstance(x, Arr) else [] for x in xs], node)
    if ev.outer is not None and len(dims) == 2 and dims[0] == dims[1] and dims[0].const() is None:
        # (n, 1) with (n,): every row meets every other row
        sh = sorted((x.ndim, tuple(d.const() for d in x.dims)) for x in xs if isinstance(x, Arr) and x.ndim)
        if (1, (None,)) in sh and (2, (None, 1)) in sh:
            ev.outer.append((dims[0], getattr(node, "lineno", None)))
    gs = [bcast(ev, x, dims) for x in xs]
    a = Arr(ev, dims, lambda pos: f(*[g(pos) for g in gs]), torch=any(isinstance(x, Arr) and x.torch for x in xs))
    return a


def copy(ev, a):
    f = a.snap()
    r = Arr(ev, a.dims, f, leaf=a.leaf, torch=a.torch)
    return r


def boolean(dt):
    return isinstance(dt, Ext) and dt.name.split(".")[-1] in ("bool", "bool_", "bool8") or dt == "bool"


def const_arr(ev, shape, c):
    c = P(c) if not isinstance(c, (bool, Cond)) else c
    return Arr(ev, shape, lambda pos: c)


def mkarray(ev, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Unk):
        return v
    if is_num(v):
        c = P(v)
        return Arr(ev, [], lambda pos: c)
    if isinstance(v, (list, tuple)):
        if all(is_num(x) for x in v):
            vals = [P(x) for x in v]

            def f(pos):
                k = pos[0].const()
                if k is None:
                    if all(x == vals[0] for x in vals):
                        return vals[0]
                    raise Undecided("symbolic index into a literal array")
                return vals[int(k)]
            return Arr(ev, [len(v)], f)
        vs = [mkarray(ev, x) if not isinstance(x, (bool, Cond)) else x for x in v]
        if vs and all(isinstance(x, Arr) for x in vs):
            if any([d for d in x.dims] != [d for d in vs[0].dims] for x in vs):
                return list(v)
            return stack(ev, vs, 0)
    return v if isinstance(v, list) else list(v) if isinstance(v, tuple) else Unk("array of %r" % (v,))


def stack(ev, vs, axis):
    nd = vs[0].ndim + 1
    if axis < 0:
        axis += nd
    fs = [x.snap() for x in vs]
    dims = list(vs[0].dims)
    for x in vs[1:]:
        bshape(ev, [vs[0].dims, x.dims])
    dims.insert(axis, Poly.c(len(vs)))

    def f(pos):
        k = pos[axis].const()
        rest = pos[:axis] + pos[axis + 1:]
        if k is None:
            raise Undecided("symbolic index across stacked arrays")
        return fs[int(k)](rest)
    r = Arr(ev, dims, f, torch=vs[0].torch)
    lf = [getattr(x, "leaf", None) for x in vs]
    return r


def concat(ev, vs, axis, node=None):
    vs = [tochain(ev, v) for v in vs]
    for v in vs:
        if isinstance(v, Unk):
            return v
        if not isinstance(v, Arr):
            return Unk("concatenate of %r" % (v,))
    nd = vs[0].ndim
    if any(v.ndim != nd for v in vs):
        raise PyRaise("ValueError", node, msg="concatenate: dimension mismatch")
    if axis < 0:
        axis += nd
    offs, tot = [], Poly.c(0)
    for v in vs:
        offs.append(tot)
        tot = tot + v.dims[axis]
    fs = [v.snap() for v in vs]
    dims = list(vs[0].dims)
    dims[axis] = tot

    def f(pos):
        p = pos[axis]
        for k in range(len(vs)):
            end = offs[k] + vs[k].dims[axis]
            s = ev.B.sign(p - end)
            if s == "-":
                return fs[k](pos[:axis] + (p - offs[k],) + pos[axis + 1:])
            if s not in ("+", "0", ">="):
                raise Undecided("position in concatenation")
        raise Unmodelled("position beyond concatenation")
    r = Arr(ev, dims, f, torch=vs[0].torch)
    if nd == 2 and axis == 1 and all(v.leaf for v in vs):
        r.leaf = [c for v in vs for c in v.leaf]
    return r


def transpose(ev, a, perm=None):
    nd = a.ndim
    if perm is None:
        perm = list(range(nd))[::-1]
    perm = [int(p) + (nd if int(p) < 0 else 0) for p in perm]
    inv = [perm.index(k) for k in range(nd)]

    def fwd(pos):
        return tuple(pos[inv[k]] for k in range(nd))

    def back(pos):
        return tuple(pos[perm[k]] for k in range(nd))
    return Arr(ev, [a.dims[p] for p in perm], None, base=a, fwd=fwd, inv=back, torch=a.torch)


def prod(ds):
    r = Poly.c(1)
    for d in ds:
        r = r * d
    return r


def reshape(ev, a, shape, node=None, order=None):
    shape = [s if isinstance(s, Poly) else P(s) for s in shape]
    if order is not None and order != "C":
        if not (order == "F" and (a.ndim == 1 or len(shape) == a.ndim)):
            return Unk("reshape order %s" % order)
    src = [d for d in a.dims if d.const() != 1]
    total = prod(a.dims)
    neg = [k for k, s in enumerate(shape) if s.const() == -1]
    if neg:
        rest = prod([s for k, s in enumerate(shape) if k not in neg])
        q = total / rest
        if any(e < 0 for m in q.t for _, e in m):
            q = None
        if q is None:
            raise PyRaise("ValueError", node, msg="cannot reshape %r into %s" % (a, [show(s) for s in shape]))
        shape[neg[0]] = q
    elif prod(shape) != total:
        sg = ev.B.sign(prod(shape) - total)
        raise PyRaise("ValueError", node, msg="cannot reshape %r into %s" % (a, [show(s) for s in shape]))

    def groups(A, Bd):
        """Match axes of A and Bd into blocks with equal products."""
        out, i, j = [], 0, 0
        while i < len(A) or j < len(Bd):
            gi, gj = [i] if i < len(A) else [], [j] if j < len(Bd) else []
            pi = prod([A[x] for x in gi])
            pj = prod([Bd[x] for x in gj])
            i, j = i + len(gi), j + len(gj)
            while pi != pj:
                q1 = pi / pj
                grow_b = all(e > 0 for m in q1.t for _, e in m) and all(c.denominator == 1 for c in q1.t.values())
                if grow_b and j < len(Bd):
                    gj.append(j)
                    pj = pj * Bd[j]
                    j += 1
                elif i < len(A):
                    gi.append(i)
                    pi = pi * A[i]
                    i += 1
                elif j < len(Bd):
                    gj.append(j)
                    pj = pj * Bd[j]
                    j += 1
                else:
                    return None
            out.append((gi, gj))
        return out
    A = [(k, d) for k, d in enumerate(a.dims) if d.const() != 1]
    Bs = [(k, d) for k, d in enumerate(shape) if d.const() != 1]
    gr = groups([d for _, d in A], [d for _, d in Bs])
    if gr is None:
        return Unk("reshape %r to %s" % (a, [show(s) for s in shape]))

    def conv(frm, to, grp, nto):
        def g(pos):
            out = [Poly.c(0)] * nto
            for gi, gj in grp:
                lin = Poly.c(0)
                for x in gi:
                    k, d = frm[x]
                    lin = lin * d + pos[k]
                if len(gj) == 1:
                    out[to[gj[0]][0]] = lin
                else:
                    rest = lin
                    for x in reversed(gj[1:]):
                        k, d = to[x]
                        out[k] = ev.B.simp(fmod(rest, d)) if d.const() != 1 else Poly.c(0)
                        rest = ev.B.simp(fdiv(rest, d))
                    if gj:
                        out[to[gj[0]][0]] = rest
            return tuple(out)
        return g
    fwd = conv(Bs, A, [(gj, gi) for gi, gj in gr], a.ndim)
    inv = conv(A, Bs, gr, len(shape))
    r = Arr(ev, shape, None, base=a, fwd=fwd, inv=inv, torch=a.torch)
    if a.leaf and len(shape) == a.ndim:
        r.leaf = a.leaf
    return r


def normidx(ev, i, n, node=None):
    i = P(i)
    s = ev.B.sign(i)
    if s == "-":
        j = i + n
        if ev.B.sign(j) == "-":
            raise PyRaise("IndexError", node, msg="index %s out of range for length %s" % (show(i), show(n)))
        return j
    if s in ("0", "+", ">="):
        if ev.B.sign(n - 1 - i) == "-":
            raise PyRaise("IndexError", node, msg="index %s out of range for length %s" % (show(i), show(n)))
        return i
    if ev.slack:
        return i
    raise Undecided("index %s of unknown sign" % show(i))


def normslice(ev, sl, n):
    st = sl.step
    st = low(st) if st is not None else 1
    if st not in (1, -1):
        if isinstance(st, int) and st > 1:
            lo = P(0) if sl.start is None else P(sl.start)
            hi = n if sl.stop is None else P(sl.stop)
            lo, hi = [x + n if ev.B.sign(x) == "-" else x for x in (lo, hi)]
            hi = n if ev.B.sign(n - hi) == "-" else hi
            k = (hi - lo).const()
            cnt = Poly.c(-((-int(k)) // st)) if k is not None else Poly.atom(("n", "ceil(%s/%s)" % (show(hi - lo), st)))
            return lo, cnt, st
        raise Unmodelled("slice step %r" % (st,))
    if st == -1:
        if sl.start is None and sl.stop is None:
            return n - 1, n, -1
        raise Unmodelled("partial reversed slice")

    def bound(x, default):
        if x is None:
            return default
        if isinstance(x, Unk):
            raise Unmodelled(x.why)
        x = P(x)
        s = ev.B.sign(x)
        if s == "-":
            x = x + n
            if ev.B.sign(x) == "-":
                x = P(0)
        elif s is None and not ev.slack:
            raise Unmodelled("slice bound %s of unknown sign" % show(x))
        if ev.B.sign(n - x) == "-":
            x = n
        elif ev.B.sign(n - x) is None and not ev.slack:
            raise Unmodelled("slice bound %s beyond length" % show(x))
        return x
    lo, hi = bound(sl.start, P(0)), bound(sl.stop, n)
    if ev.B.sign(hi - lo) == "-":
        hi = lo
    return lo, hi - lo, 1


def ismask(a):
    while isinstance(a, Arr) and a.base is not None:
        a = a.base
    return getattr(a, "mask", False)


def truths(m):
    """the elements of a short mask that is known element by element, or None"""
    k = m.dims[0].const() if m.ndim == 1 else None
    if k is None or k > 4096:
        return None
    try:
        vs = [m.at((Poly.c(i),)) for i in range(int(k))]
    except Unmodelled:
        return None
    return vs if all(isinstance(v, bool) for v in vs) else None


def selection(ev, m):
    """The rows a boolean mask keeps: an unknown number of them, at unknown positions."""
    known = truths(m)
    if known is not None:
        keep = [k for k, t in enumerate(known) if t]

        def row(pos, ax=0):
            k = P(pos[0]).const()
            if k is None:
                raise Undecided("symbolic index into a selection")
            return Poly.c(keep[int(k)])
        return Poly.c(len(keep)), row
    try:
        gp = tuple(Poly.atom(("i", "r%d" % k)) if d.const() != 1 else Poly.c(0) for k, d in enumerate(m.dims))
        for k, d in enumerate(m.dims):
            ev.B.ranges[("i", "r%d" % k)] = (Poly.c(12), d - 13)
        ev.B._memo.clear()
        el = m.at(gp)
        key = (el.desc if isinstance(el, Cond) else el, tuple(m.dims))
    except Unmodelled:
        key = id(m)
    k = next((k for k, x in enumerate(ev.masks) if x[0] == key), None)
    if k is None:
        k = len(ev.masks)
        ev.masks.append((key, m))
    return Poly.atom(("n", "sel%d" % k)), lambda pos, ax=0: Poly.atom(("f", "sel%d_%d" % (k, ax), (P(pos[0]),)))


def fancyidx(ev, x, n):
    if isinstance(x, (bool, Cond)):
        raise Unmodelled("index by %r" % (x,))
    s = ev.B.sign(x)
    return x + n if s == "-" else x


def boolmap(ev, op, xs, node=None):
    """logical_and / or / not of masks or truth values"""
    xs = [tochain(ev, x) if not isinstance(x, (bool, Cond)) else x for x in xs]
    if any(isinstance(x, Unk) for x in xs):
        return next(x for x in xs if isinstance(x, Unk))

    def f(*vs):
        vs = [v if isinstance(v, (bool, Cond)) else cmp_poly(ev, "NotEq", P(v), Poly.c(0)) for v in vs]
        if op == "not":
            return (not vs[0]) if isinstance(vs[0], bool) else Cond("not (%s)" % vs[0].desc)
        if op == "xor":
            return vs[0] != vs[1] if all(isinstance(v, bool) for v in vs) else Cond("(%s xor %s)" % tuple(vs))
        dom = op == "or"
        if any(v is dom for v in vs):
            return dom
        vs = [v for v in vs if not isinstance(v, bool)]
        return (not dom) if not vs else vs[0] if len(vs) == 1 else Cond("(%s)" % (" %s " % op).join(v.desc for v in vs))
    if not any(isinstance(x, Arr) for x in xs):
        return f(*xs)
    dims = bshape(ev, [x.dims if isinstance(x, Arr) else [] for x in xs], node)
    gs = [bcast(ev, x, dims) for x in xs]
    r = Arr(ev, dims, lambda pos: f(*[g(pos) for g in gs]))
    r.mask = True
    return r


def expand(ev, a, idx, node):
    """Normal form of an index: list per source axis, plus result axes."""
    if not isinstance(idx, tuple):
        idx = (idx,)
    k = sum(1 for i in idx if i is not None and i is not Ellipsis)
    if k > a.ndim:
        raise PyRaise("IndexError", node, msg="too many indices for %r" % a)
    out = []
    for i in idx:
        if i is Ellipsis:
            out += [slice(None)] * (a.ndim - k)
        else:
            out.append(i)
    src = sum(1 for i in out if i is not None)
    out += [slice(None)] * (a.ndim - src)
    return out


def getview(ev, a, idx, node=None):
    spec = expand(ev, a, idx, node)
    dims, plan = [], []       # plan per source axis
    ax = 0
    for i in spec:
        if i is None:
            dims.append(Poly.c(1))
            continue
        n = a.dims[ax]
        if isinstance(i, slice):
            lo, ln, st = normslice(ev, i, n)
            plan.append(("s", len(dims), lo, ln, st))
            dims.append(ln)
        elif is_num(i):
            plan.append(("i", normidx(ev, i, n, node)))
        elif isinstance(i, Arr) and i.ndim == 1:
            if ismask(i):
                m, f = selection(ev, i)
            else:
                g = i.snap()
                m, f = i.dims[0], (lambda pos, g=g, n=n: fancyidx(ev, g(pos), n))
            prev = next((q for q in plan if q[0] == "f"), None)
            if prev is not None:
                bshape(ev, [[dims[prev[1]]], [m]])
                plan.append(("f", prev[1], f))
            else:
                plan.append(("f", len(dims), f))
                dims.append(m)
        elif isinstance(i, Arr) and ismask(i) and i.ndim == a.ndim and len(spec) - sum(x == slice(None) for x in spec) == 1 and \
                a.ndim > 1:
            bshape(ev, [a.dims, i.dims])
            m, f = selection(ev, i)
            return Arr(ev, [m], lambda pos, g=a.snap(): g(tuple(f(pos, k) for k in range(a.ndim))), torch=a.torch)
        elif isinstance(i, Arr) and i.ndim == 0 and is_num(low(i.at(()))):
            plan.append(("i", normidx(ev, i.at(()), n, node)))
        elif isinstance(i, (list, tuple)) and all(isinstance(x, int) for x in i):
            f = mkarray(ev, [x + 0 for x in i]).snap()
            plan.append(("f", len(dims), lambda pos, f=f, n=n: normidx(ev, f(pos), n)))
            dims.append(Poly.c(len(i)))
        elif isinstance(i, (Unk, Cond)):
            return Unk("indexed by %r" % (i,))
        elif isinstance(i, Arr):
            return Unk("fancy indexing")
        elif isinstance(i, bool):
            return Unk("bool index")
        else:
            raise PyRaise("IndexError", node, msg="bad index %r" % (i,))
        ax += 1

    def fwd(pos):
        out = []
        for p in plan:
            if p[0] == "s":
                out.append(p[2] + pos[p[1]] * p[4])
            elif p[0] == "i":
                out.append(p[1])
            else:
                out.append(p[2]((pos[p[1]],)))
        return tuple(out)

    def inv(pos):
        out = [Poly.c(0)] * len(dims)
        for k, p in enumerate(plan):
            x = pos[k]
            if p[0] == "s":
                q = (x - p[2]) * p[4]
                if p[4] not in (1, -1):
                    raise Unmodelled("write through a strided view")
                if q == x and p[3] == a.dims[k]:
                    pass
                else:
                    s1 = ev.B.sign(q)
                    if s1 == "-":
                        return None
                    s2 = ev.B.sign(p[3] - 1 - q)
                    if s2 == "-":
                        return None
                    if s1 not in ("0", "+", ">=") or s2 not in ("0", "+", ">="):
                        raise Undecided("row %s against slice [%s, +%s)" % (show(x), show(p[2]), show(p[3])))
                out[p[1]] = q
            elif p[0] == "i":
                s = ev.B.sign(x - p[1])
                if s == "0":
                    continue
                if s in ("+", "-"):
                    return None
                raise Undecided("row %s against index %s" % (show(x), show(p[1])))
            else:
                raise Unmodelled("write through fancy indexing")
        return tuple(out)
    r = Arr(ev, dims, None, base=a, fwd=fwd, inv=inv, torch=a.torch)
    r.plan = plan
    if a.leaf and a.ndim == 2 and len(plan) == 2:
        p0, p1 = plan
        if p1[0] == "i":
            k = p1[1].const()
            if k is not None and a.leaf != "cols":
                r.colof = (a, int(k))
    return r


def getitem(ev, o, i, node):
    o = ev.force(o)
    if isinstance(o, Unk):
        return o
    if isinstance(i, Unk):
        if isinstance(o, dict):
            return Unk(i.why)
        return Unk(i.why)
    if isinstance(o, Arr):
        r = getview(ev, o, i, node)
        if isinstance(r, Arr) and not r.dims:
            return low(r.at(()))
        return r
    if isinstance(o, (list, tuple, str)):
        if isinstance(i, slice):
            try:
                s = slice(*[low(x) for x in (i.start, i.stop, i.step)])
                return o[s]
            except TypeError:
                raise Unmodelled("symbolic slice of a sequence")
        i = low(i)
        if isinstance(i, Arr) and not i.dims:
            i = low(i.at(()))
        if isinstance(i, F) or isinstance(i, float):
            raise PyRaise("TypeError", node)
        if isinstance(i, Poly):
            raise Unmodelled("symbolic index into a sequence")
        if isinstance(o, list) and isinstance(i, tuple) and len(i) == 2 and o and all(
                isinstance(r, list) and len(r) == len(o[0]) for r in o):        # a table of objects (numpy.array(..., dtype=object))
            r, c = i
            if isinstance(r, slice):
                return [getitem(ev, row, c, node) for row in getitem(ev, o, r, node)]
            return getitem(ev, getitem(ev, o, r, node), c, node)
        if not isinstance(i, int):
            raise PyRaise("TypeError", node, msg="sequence index %r" % (i,))
        try:
            return ev.force(o[i])
        except IndexError:
            raise PyRaise("IndexError", node)
    if isinstance(o, dict):
        try:
            if i in o:
                return ev.force(o[i])
            if isinstance(o, DefaultDict) and o.factory is not None:
                o[i] = ev.call(o.factory, [], {}, node)
                return o[i]
        except TypeError:
            raise PyRaise("TypeError", node)
        raise PyRaise("KeyError", node, msg=repr(i))
    if isinstance(o, Inst):
        return ev.call(ev.getattr(o, "__getitem__", node), [i], {}, node)
    if isinstance(o, Ext) and o.name + "[]" in ev.handlers:
        return ev.handlers[o.name + "[]"](ev, [i], {}, node)
    if isinstance(o, (Ext, Cls)):
        return o            # typing subscripts
    if isinstance(o, Rng) and isinstance(o.lo, int) and isinstance(o.hi, int):
        if isinstance(i, slice):
            ends = [low(e) if e is not None else None
                    for e in (i.start, i.stop, i.step)]
            if not all(e is None or isinstance(e, int) for e in ends):
                raise Unmodelled("slice of a range by an unknown length")
            i = slice(*ends)
        else:
            i = low(i)
            if not isinstance(i, int):
                raise Unmodelled("item of a range at an unknown place")
        try:
            return range(o.lo, o.hi, o.step)[i]
        except IndexError:
            raise PyRaise("IndexError", node)
    raise PyRaise("TypeError", node, msg="subscript of %r" % (o,))


def fshape(a):
    """the lengths of an array of known, moderate size, or None"""
    out, n = [], 1
    for d in a.dims:
        k = d.const()
        if k is None or k != int(k):
            return None
        out.append(int(k))
        n *= int(k)
    return tuple(out) if n <= 60000 else None


def finite(ev, o, i, v):
    """A store through masks or index vectors into a table, element by element."""
    spec = list(i) if isinstance(i, tuple) else [i]
    if not any(isinstance(x, (Arr, list)) and not (isinstance(x, Arr) and x.ndim == 0) for x in spec) or isinstance(v, (Unk, Cond)):
        return False
    sh = fshape(o)
    if sh is None or any(isinstance(x, (Unk, Cond)) or x is None or x is Ellipsis for x in spec):
        return False
    rows, adv, ax = [], None, 0             # per axis: a fixed list of positions, or a position in the advanced index
    try:
        for x in spec:
            if isinstance(x, Arr) and ismask(x):
                ms = fshape(x)
                if ms is None or tuple(sh[ax:ax + x.ndim]) != ms:
                    return False
                hits = []
                for pos in itertools.product(*[range(n) for n in ms]):
                    t = x.at(tuple(Poly.c(k) for k in pos))
                    if not isinstance(t, bool):
                        return False
                    if t:
                        hits.append(pos)
                cols = [[h[k] for h in hits] for k in range(x.ndim)]
                m = len(hits)
            elif isinstance(x, (Arr, list)):
                n = fshape(x) if isinstance(x, Arr) else (len(x),)
                if n is None or len(n) != 1:
                    return False
                vals = [low(x.at((Poly.c(k),))) if isinstance(x, Arr) else low(x[k]) for k in range(n[0])]
                if not all(isinstance(y, int) and not isinstance(y, bool) for y in vals):
                    return False
                cols, m = [[y % sh[ax] if -sh[ax] <= y < sh[ax] else None for y in vals]], n[0]
                if any(y is None for y in cols[0]):
                    return False
            elif isinstance(x, slice):
                s = slice(*[low(y) for y in (x.start, x.stop, x.step)])
                rows.append(("s", list(range(sh[ax]))[s]))
                ax += 1
                continue
            elif is_num(x) and isinstance(low(x), int):
                y = low(x)
                if not -sh[ax] <= y < sh[ax]:
                    return False
                rows.append(("i", y % sh[ax]))
                ax += 1
                continue
            else:
                return False
            if adv is not None and m != adv and 1 not in (m, adv):
                return False
            adv = m if adv is None or adv == 1 else adv
            for c in cols:
                rows.append(("a", c))
                ax += 1
    except (TypeError, Unmodelled):
        return False
    while ax < len(sh):
        rows.append(("s", list(range(sh[ax]))))
        ax += 1
    free = [r[1] for r in rows if r[0] == "s"]
    first = next(k for k, r in enumerate(rows) if r[0] == "a")
    if any(r[0] == "s" for r in rows[:first]) and any(r[0] == "s" for r in rows[first:]) and sum(r[0] != "s" for r in rows) > 1:
        return False                        # the order of the resulting axes depends on the index: left to the general case
    lead = [len(r[1]) for r in rows[:first] if r[0] == "s"]
    vshape = lead + [adv] + [len(r[1]) for r in rows[first:] if r[0] == "s"]
    v = tochain(ev, v) if not isinstance(v, bool) else v
    if isinstance(v, Arr):
        vs = fshape(v)
        if vs is None or len(vs) > len(vshape) or any(a != b and a != 1 for a, b in zip(reversed(vs), reversed(vshape))):
            return False
    elif not is_num(v) and not isinstance(v, bool):
        return False
    tbl = {}
    for sel in itertools.product(range(adv), *[range(len(f)) for f in free]):
        a, rest = sel[0], list(sel[1:])
        pos, coord, k = [], [], 0
        for r in rows:
            if r[0] == "s":
                pos.append(r[1][rest[k]])
                coord.append(rest[k])
                k += 1
            elif r[0] == "i":
                pos.append(r[1])
            else:
                pos.append(r[1][a if len(r[1]) > 1 else 0])
        at = coord[:len(lead)] + [a] + coord[len(lead):]
        if isinstance(v, Arr):
            q = at[len(at) - v.ndim:]
            el = v.at(tuple(Poly.c(x if n != 1 else 0) for x, n in zip(q, vs)))
        else:
            el = v if isinstance(v, bool) else P(v)
        tbl[tuple(pos)] = el

    def upd(pos):
        q = tuple(P(x).const() for x in pos)
        if any(x is None for x in q):
            raise Undecided("symbolic index into a table")
        return tbl.get(tuple(int(x) for x in q))
    o.set(upd)
    return True


def setitem(ev, o, i, v, node):
    o = ev.force(o)
    if isinstance(o, Unk):
        return
    if isinstance(o, Arr):
        if finite(ev, o, i, v):
            return
        if isinstance(i, Arr) and i.ndim == 1 and o.ndim == 1 and ismask(i) and is_num(low(v)):
            known = truths(i)
            if known is not None:
                bshape(ev, [o.dims, i.dims], node)
                o.set(lambda pos, c=P(low(v)): c if known[int(P(pos[0]).const())] else None)
                return
        if isinstance(i, (Unk, Cond)) or isinstance(v, Unk) or (isinstance(i, tuple) and any(isinstance(x, (Unk, Cond)) for x in i)) \
                or (isinstance(i, Arr)):
            why = v.why if isinstance(v, Unk) else "masked write"

            def bad(pos):
                raise Unmodelled(why)
            o.set(bad)
            return
        setarr(ev, o, i, v, node)
        return
    if isinstance(o, list):
        if isinstance(i, slice):
            try:
                o[slice(*[low(x) for x in (i.start, i.stop, i.step)])] = list(iterate(ev, v, node))
            except TypeError:
                raise Unmodelled("symbolic slice store")
            return
        i = low(i)
        if not isinstance(i, int):
            raise Unmodelled("list store at %r" % (i,))
        try:
            o[i] = v
        except IndexError:
            raise PyRaise("IndexError", node)
        return
    if isinstance(o, dict):
        o[i] = v
        return
    if isinstance(o, Inst):
        ev.call(ev.getattr(o, "__setitem__", node), [i, v], {}, node)
        return
    if isinstance(o, Ext):
        return
    raise PyRaise("TypeError", node, msg="item store on %r" % (o,))


def setarr(ev, a, idx, v, node):
    # loop variables in scalar positions
    spec = expand(ev, a, idx, node)
    if any(i is None for i in spec):
        spec = [i for i in spec if i is not None]
    loopvars = {lp["var"]: lp for lp in ev.loops}
    free = {}
    for k, i in enumerate(spec):
        if is_num(i) and isinstance(i, Poly):
            vs = [x for x in i.atoms() if x in loopvars]
            if vs:
                free[k] = (i, vs)
    view = getview(ev, a, tuple(spec), node)
    if isinstance(view, Unk):
        raise Unmodelled(view.why)
    v = tochain(ev, v)
    if isinstance(v, Arr):
        while v.ndim > view.ndim and v.dims[0].const() == 1:
            v = getview(ev, v, 0)
        bd = bshape(ev, [view.dims, v.dims], node)
        if bd != view.dims:
            raise PyRaise("ValueError", node, msg="cannot assign %r into %r" % (v, view))
    elif not is_num(v) and not isinstance(v, (bool, Cond)):
        raise Unmodelled("element store of %r" % (v,))
    g = bcast(ev, v, view.dims)
    gather = [lp for lp in ev.loops]
    if gather:
        for lp in gather:
            lp["writes"].append((a, tuple(view.fwd(tuple([Poly.c(0)] * view.ndim))) if not view.dims
                                 else tuple(P(i) if is_num(i) else None for i in spec)))
    if not free:
        used = {x for x in _loop_atoms(view, g, loopvars)}
        inv = view.inv

        def upd(pos):
            q = inv(pos)
            return None if q is None else g(q)
        a.set(upd)
        return
    plan = view.plan
    lps = {}
    for k, (i, vs) in free.items():
        if len(vs) > 1:
            raise Unmodelled("index over two loop variables")
        x = vs[0]
        c = i - Poly.atom(x)
        if x in c.atoms():
            raise Unmodelled("index %s in a symbolic loop" % show(i))
        if x in lps:
            raise Unmodelled("loop variable used on two axes")
        lps[x] = (k, c)

    def upd(pos):
        mp = {}
        for x, (k, c) in lps.items():
            lp = loopvars[x]
            val = pos[k] - c
            if not (lp["lo"].const() == 0 and c.const() == 0 and lp["hi"] == a.dims[k]):
                s1, s2 = ev.B.sign(val - lp["lo"]), ev.B.sign(lp["hi"] - 1 - val)
                if "-" in (s1, s2):
                    return None
                if s1 not in ("0", "+", ">=") or s2 not in ("0", "+", ">="):
                    raise Undecided("row %s against loop range" % show(pos[k]))
            mp[x] = val
        q = [Poly.c(0)] * view.ndim
        for k, p in enumerate(plan):
            if k in free:
                continue
            x = pos[k]
            if p[0] == "s":
                y = x - p[2]
                if not (p[3] == a.dims[k] and not p[2].t):
                    s1, s2 = ev.B.sign(y), ev.B.sign(p[3] - 1 - y)
                    if "-" in (s1, s2):
                        return None
                    if s1 not in ("0", "+", ">=") or s2 not in ("0", "+", ">="):
                        raise Undecided("row against slice")
                q[p[1]] = y
            elif p[0] == "i":
                s = ev.B.sign(x - p[1])
                if s in ("+", "-"):
                    return None
                if s != "0":
                    raise Undecided("row against index")
        r = g(tuple(q))
        return ev.B.simp(r.subst(mp)) if isinstance(r, Poly) else r
    a.set(upd)


def _loop_atoms(view, g, loopvars):
    return ()


def inplace(ev, a, op, v, node):
    c = copy(ev, a)
    c.mask = ismask(a)
    r = binop(ev, op, c, v, node)
    if isinstance(r, Unk):
        def bad(pos):
            raise Unmodelled(r.why)
        a.set(bad)
        return
    if isinstance(r, Arr):
        if r.dims != a.dims:
            raise PyRaise("ValueError", node, msg="in-place result of another shape")
        f = r.snap()
        a.set(lambda pos: f(pos))
    else:
        c = P(r)
        a.set(lambda pos: c)


# ------------------------------------------------------------------ operators
def _div(x, y):
    if not y.t:
        return Poly.atom(("v", "inf"))
    return x / y


_OPS = {
    "Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y, "Div": _div,
    "Pow": lambda x, y: x.power(y),
}


def bit(x):
    if isinstance(x, Cond):
        raise Unmodelled("arithmetic on a mask")
    return P(int(x)) if isinstance(x, bool) else x


def percent(ev, a, b):
    def plain(x):
        if isinstance(x, Arr):
            if any(d.const() != 1 for d in x.dims):
                return x
            x = x.at((Poly.c(0),) * x.ndim)
        x = low(x)
        if isinstance(x, Poly):
            raise TypeError("symbolic")
        if isinstance(x, Inst):
            return text(ev, x, 115, "")
        return float(x) if isinstance(x, F) else x
    try:
        return a % (tuple(plain(x) for x in b) if isinstance(b, tuple) else b if isinstance(b, dict) else plain(b))
    except (TypeError, ValueError):
        return "<?>"


def binop(ev, op, a, b, node):
    a, b = ev.force(a), ev.force(b)
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    if isinstance(a, str) and op == "Mod":
        return percent(ev, a, b)
    if isinstance(a, (Arr, Poly)) or isinstance(b, (Arr, Poly)):
        if op in _OPS:
            if op == "Mult" and isinstance(a, (list, tuple)) and isinstance(b, Poly) and b.const() is not None and b.const().denominator == 1:
                return a * int(b.const())
            if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, dict) or isinstance(b, dict):
                raise PyRaise("TypeError", node, msg="%s of %r and %r" % (op, a, b))
            if isinstance(a, list) and op == "Mult" and isinstance(b, Poly):
                raise Unmodelled("list of symbolic length")
            if isinstance(a, (Inst, Ext, Func)) or isinstance(b, (Inst, Ext, Func)):
                return _dunder(ev, op, a, b, node)
            if isinstance(a, Cond) or isinstance(b, Cond):
                return Unk("arithmetic on a condition")
            if op in ("Add", "Mult") and isinstance(a, Arr) and isinstance(b, Arr) and ismask(a) and ismask(b):
                return boolmap(ev, "or" if op == "Add" else "and", [a, b], node)
            return emap(ev, lambda x, y: _OPS[op](bit(x), bit(y)), [a, b], node)
        if op == "FloorDiv":
            def fd(x, y):
                if x.const() is not None and y.const() is not None:
                    return Poly.c(x.const() // y.const())
                return ev.B.simp(fdiv(x, y))
            return emap(ev, fd, [a, b], node)
        if op == "Mod":
            def fm(x, y):
                if x.const() is not None and y.const() is not None:
                    return Poly.c(x.const() % y.const())
                return ev.B.simp(fmod(x, y))
            return emap(ev, fm, [a, b], node)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return boolmap(ev, op[3:].lower(), [a, b], node)
        if op == "MatMult":
            return matmul(ev, a, b, node)
        raise Unmodelled("operator %s" % op)
    if isinstance(a, Cond) or isinstance(b, Cond):
        return Cond("(%s %s %s)" % (a, op, b))
    if isinstance(a, (Inst,)) or isinstance(b, Inst):
        return _dunder(ev, op, a, b, node)
    if isinstance(a, Ext) or isinstance(b, Ext):
        if op == "Div" and isinstance(a, Ext):
            return Unk("path")
        return Unk("operator on %r, %r" % (a, b))
    if isinstance(a, PathV):
        if op == "Div":
            return PathV(os.path.join(a.p, b.p if isinstance(b, PathV) else str(b)))
    try:
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if isinstance(a, (int, F)) and isinstance(b, (int, F)) and not isinstance(a, bool):
                r = F(a) / F(b)
                return int(r) if r.denominator == 1 and False else r
            return a / b
        if op == "Pow":
            if isinstance(a, F) and isinstance(b, int) or (isinstance(a, int) and isinstance(b, int)):
                return F(a) ** b if b < 0 else a ** b
            return low(P(a).power(b)) if is_num(a) and is_num(b) else a ** b
        if op == "FloorDiv":
            return a // b
        if op == "Mod":
            if isinstance(a, str):
                try:
                    return a % (b if not isinstance(b, (Arr, Poly)) else "?")
                except (TypeError, ValueError):
                    return "<?>"
            return a % b
        if op == "BitOr":
            return a | b
        if op == "BitAnd":
            return a & b
        if op == "BitXor":
            return a ^ b
        if op == "LShift":
            return a << b
        if op == "RShift":
            return a >> b
    except ZeroDivisionError:
        raise PyRaise("ZeroDivisionError", node)
    except TypeError:
        raise PyRaise("TypeError", node, msg="%s of %r and %r" % (op, a, b))
    raise Unmodelled("operator %s on %r, %r" % (op, a, b))


_DN = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Pow": "__pow__", "Mod": "__mod__",
       "BitOr": "__or__", "BitAnd": "__and__"}


def _dunder(ev, op, a, b, node):
    n = _DN.get(op)
    if n and isinstance(a, Inst) and isinstance(a.cls, Cls) and a.cls.find(n) is not None:
        return ev.call(a.cls.find(n), [a, b], {}, node)
    rn = "__r" + n[2:] if n else None
    if rn and isinstance(b, Inst) and isinstance(b.cls, Cls) and b.cls.find(rn) is not None:
        return ev.call(b.cls.find(rn), [b, a], {}, node)
    return Unk("%s on objects" % op)


_CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}


def leaves(p, out=None):
    """all atoms an element is built from"""
    out = set() if out is None else out
    for a in p.atoms():
        out.add(a)
        if a[0] == "f":
            for x in a[2]:
                leaves(x, out)
        elif a[0] in ("p", "e") and isinstance(a[1], Poly):
            leaves(a[1], out)
    return out


def cmp_poly(ev, op, a, b):
    d = a - b
    if a == b:
        return op in ("Eq", "LtE", "GtE")
    if d.t and all(x[0] == "d" for x in d.atoms()) and len(d.t) == 1:
        # spacings are positive
        pos = next(iter(d.t.values())) > 0
        return {"Eq": False, "NotEq": True, "Lt": not pos, "LtE": not pos, "Gt": pos, "GtE": pos}[op]
    if ev.intlike(d) or d.const() is not None:
        s = ev.B.sign(d)
        if s in ("+", "-", "0"):
            return {"Eq": s == "0", "NotEq": s != "0", "Lt": s == "-", "LtE": s in "-0", "Gt": s == "+", "GtE": s in "+0"}[op]
        if s == ">=" and op in ("GtE", "Lt"):
            return op == "GtE"
        if s == "<=" and op in ("LtE", "Gt"):
            return op == "LtE"
        if s is None and op in ("Eq", "NotEq") and all(x[0] == "n" for x in d.atoms()):
            return op == "NotEq"        # two unrelated grid lengths
    return Cond("%s %s %s" % (show(a), _CMP[op], show(b)), op, a, b)


def same_value(ev, a, b):
    """Python equality of two modelled values, or None."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        res = True
        for x, y in zip(a, b):
            r = same_value(ev, x, y)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if is_num(a) and is_num(b):
        r = cmp_poly(ev, "Eq", P(a), P(b))
        if not isinstance(r, bool):
            return next((t for t in (asm(r) for asm in ev.assume) if t is not None), None)
        return r
    if isinstance(a, (Unk, Cond, Arr)) or isinstance(b, (Unk, Cond, Arr)):
        return None
    if isinstance(a, (Inst, Func, Cls)) or isinstance(b, (Inst, Func, Cls)):
        return a is b
    try:
        return a == b
    except Exception:
        return None


def compare(ev, op, a, b, node):
    a, b = ev.force(a), ev.force(b)
    if op in ("Is", "IsNot"):
        if isinstance(a, Unk) or isinstance(b, Unk):
            u = a if isinstance(a, Unk) else b
            if getattr(u, "notnone", False) and (a is None or b is None):
                return op == "IsNot"
            return Cond("%r is %r" % (a, b), op, a, b)
        r = a is b or (isinstance(a, (int, str, bool, Ext)) and isinstance(b, (int, str, bool, Ext)) and type(a) is type(b) and a == b)
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        if isinstance(b, Unk) or isinstance(a, Unk):
            return Cond("%r in %r" % (a, b))
        if isinstance(b, Inst):
            f = b.cls.find("__contains__") if isinstance(b.cls, Cls) else None
            if f is None:
                return Cond("in")
            r = ev.call(f, [b, a], {}, node)
            return r if op == "In" else (not r if isinstance(r, bool) else Cond("not in"))
        if isinstance(b, str):
            if not isinstance(a, str):
                raise PyRaise("TypeError", node)
            r = a in b
        elif isinstance(b, (dict, set, frozenset)):
            try:
                r = a in b
            except TypeError:
                raise PyRaise("TypeError", node)
        elif isinstance(b, (list, tuple)):
            rs = [same_value(ev, a, x) for x in b]
            r = True if True in rs else (None if None in rs else False)
        elif isinstance(b, Arr) and b.ndim == 1 and isinstance(b.dims[0].const(), (int, F)) and b.dims[0].const() <= 64:
            rs = [same_value(ev, a, low(b.at((Poly.c(k),)))) for k in range(int(b.dims[0].const()))]
            r = True if True in rs else (None if None in rs else False)
        elif isinstance(b, Rng) and isinstance(a, int) and isinstance(b.lo, int) and isinstance(b.hi, int):
            r = a in range(b.lo, b.hi, b.step)
        else:
            return Cond("in")
        if r is None:
            return Cond("membership")
        return r if op == "In" else not r
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Cond("%s: %s" % (op, a.why if isinstance(a, Unk) else b.why), op, a, b)
    if isinstance(a, Cond) or isinstance(b, Cond):
        return Cond("%r %s %r" % (a, op, b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return op == "NotEq"
        r = emap(ev, lambda x, y: cmp_poly(ev, op, *(P(int(z)) if isinstance(z, bool) else z for z in (x, y))), [a, b], node)
        if isinstance(r, Arr):
            r.mask = True
        return r
    if is_num(a) and is_num(b):
        return cmp_poly(ev, op, P(a), P(b))
    if op in ("Eq", "NotEq"):
        if isinstance(a, Inst) and isinstance(a.cls, Cls) and a.cls.find("__eq__") is not None:
            r = ev.call(a.cls.find("__eq__"), [a, b], {}, node)
            return r if op == "Eq" else (not r if isinstance(r, bool) else Cond("!="))
        r = same_value(ev, a, b)
        if r is None:
            return Cond("equality")
        return r if op == "Eq" else not r
    try:
        return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
    except TypeError:
        if isinstance(a, (Ext, Inst)) or isinstance(b, (Ext, Inst)):
            return Cond(op)
        raise PyRaise("TypeError", node, msg="%s of %r and %r" % (op, a, b))


def iterate(ev, v, node):
    v = ev.force(v)
    if isinstance(v, Unk):
        return v
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, (set, frozenset)):
        return sorted(v, key=repr)
    if isinstance(v, dict):
        return list(v.keys())
    if isinstance(v, str):
        return list(v)
    if isinstance(v, Rng):
        if isinstance(v.lo, int) and isinstance(v.hi, int):
            return list(range(v.lo, v.hi, v.step))
        raise Unmodelled("iteration over a symbolic range")
    if isinstance(v, Arr):
        if not v.dims:
            raise PyRaise("TypeError", node, msg="iteration over a 0-d array")
        k = v.dims[0].const()
        if k is None:
            raise Unmodelled("iteration over a symbolic axis")
        return [getitem(ev, v, i, node) for i in range(int(k))]
    if isinstance(v, Inst) and isinstance(v.cls, Cls):
        f = v.cls.find("__iter__")
        if f is not None:
            return iterate(ev, ev.call(f, [v], {}, node), node)
        return Unk("iteration over %r" % v)
    if isinstance(v, Ext):
        return Unk("iteration over %r" % v)
    if isinstance(v, (range,)):
        return list(v)
    raise PyRaise("TypeError", node, msg="not iterable: %r" % (v,))


# ------------------------------------------------------------------ attributes and methods
class PathV:
    def __init__(self, p):
        self.p = p


def attr(ev, o, name, node):
    if isinstance(o, Arr):
        if name == "shape":
            return tuple(low(d) for d in o.dims)
        if name == "ndim":
            return o.ndim
        if name == "size":
            if o.torch:
                return Native(lambda ev, a, k, n: tuple(low(d) for d in o.dims) if not a else low(o.dims[a[0]]))
            return low(prod(o.dims))
        if name == "T":
            return transpose(ev, o)
        if name in ("dtype", "device", "real", "data", "requires_grad"):
            if name in ("real", "data"):
                return o
            if name == "requires_grad":
                return True
            return Ext("dtype")
        if name == "flat":
            return ev.handlers["arr.flat"](ev, [o], {}, None) if "arr.flat" in ev.handlers else Unk("flat")
        return Bound(Ext("arr." + name), o)
    if isinstance(o, Poly) or isinstance(o, (int, float, F)) and not isinstance(o, bool):
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name in ("real",):
            return o
        if name in ("dtype", "device"):
            return Ext("dtype")
        return Bound(Ext("num." + name), o)
    if isinstance(o, RegexV):
        v = getattr(o.o, name, None)
        if callable(v):
            return Native(lambda ev, a, k, n: regex_call(ev, v, a, k, n))
        return v
    if isinstance(o, PathV):
        if name == "parent":
            return PathV(os.path.dirname(o.p))
        if name == "name":
            return os.path.basename(o.p)
        return Bound(Ext("path." + name), o)
    if isinstance(o, Total):
        return Bound(Ext("arr." + name), o)
    if isinstance(o, (str, list, tuple, dict, set, frozenset, Rng, PyRaise, Cond, bool)) or o is None:
        if o is None:
            raise PyRaise("AttributeError", node, msg="None.%s" % name)
        if isinstance(o, Cond):
            if name in ("any", "all", "item", "sum"):
                return Native(lambda ev, a, k, n: o)
            return Unk("condition.%s" % name)
        return Bound(Ext({str: "str", list: "list", tuple: "list", dict: "dict", DefaultDict: "dict", set: "set", frozenset: "set"}.get(type(o), "obj")
                         + "." + name), o)
    if isinstance(o, (Bound, Prop_)):
        if name == "__name__":
            return getattr(o.f, "name", "f")
        return Unk("attribute %s" % name)
    if isinstance(o, slice):
        return getattr(o, name)
    return Unk("attribute %s of %r" % (name, o))


class Prop_:
    pass


UF1 = {
    "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log": "log", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh",
    "abs": "abs", "absolute": "abs", "fabs": "abs", "sign": "sign", "log10": "log10", "log2": "log2", "log1p": "log1p",
    "arctan": "atan", "arcsin": "asin", "arccos": "acos", "floor": "floor", "ceil": "ceil", "isnan": None, "sigmoid": "sigmoid",
    "atan": "atan", "expm1": "expm1",
}
UF2 = {
    "add": "Add", "subtract": "Sub", "sub": "Sub", "multiply": "Mult", "mul": "Mult", "divide": "Div", "true_divide": "Div",
    "div": "Div", "power": "Pow", "pow": "Pow", "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod",
}
ALIAS = ("asarray", "ascontiguousarray", "asfarray", "from_numpy", "as_tensor", "atleast_1d", "float32", "float64",
         "astype", "to", "cpu", "cuda", "numpy", "detach", "float", "double", "contiguous", "requires_grad_", "clone", "copy",
         "squeeze_", "tolist_", "view_as", "nan_to_num", "real", "asnumpy", "array", "tensor", "Variable", "FloatTensor",
         "asanyarray", "retain_grad", "type", "type_as", "round", "longdouble", "float_")


def shape_arg(ev, args, kw, key="shape"):
    v = args[0] if args else kw.get(key, kw.get("size"))
    if len(args) > 1 and all(is_num(a) for a in args):
        return [P(a) for a in args]
    if is_num(v):
        return [P(v)]
    if isinstance(v, (tuple, list)):
        return [P(x) for x in v]
    if isinstance(v, Arr) and v.ndim == 1:
        return [P(x) for x in iterate(ev, v, None)]
    raise Unmodelled("shape %r" % (v,))


def axis_of(ev, v, nd, node=None):
    v = low(v)
    if not isinstance(v, int):
        raise Unmodelled("axis %r" % (v,))
    if v >= nd or v < -nd:
        raise PyRaise("IndexError", node, msg="axis %d of %d" % (v, nd))
    return v % nd


def reduce_key(ev, name, a, axis):
    """An opaque but canonical reduction value."""
    f = a.snap()
    gen = []
    for k, d in enumerate(a.dims):
        gen.append(Poly.atom(("i", "r%d" % k)))
        ev.B.ranges.setdefault(("i", "r%d" % k), (Poly.c(12), d - 13))
    return f, gen


def matmul(ev, a, b, node=None):
    """product of matrices / vectors whose inner dimension is a small constant"""
    a, b = tochain(ev, a), tochain(ev, b)
    if not (isinstance(a, Arr) and isinstance(b, Arr) and 1 <= a.ndim <= 2 and 1 <= b.ndim <= 2):
        return Unk("matrix product")
    n, m = a.dims[-1], b.dims[0]
    k = n.const()
    if k is None or m.const() is None or not 0 <= k <= 16:
        return Unk("matrix product")
    if n != m:
        raise PyRaise("ValueError", node, msg="matmul of %s and %s" % (show(n), show(m)))
    f, g = a.snap(), b.snap()
    ra, rb = a.ndim - 1, b.ndim - 1

    def el(pos):
        pa, pb = tuple(pos[:ra]), tuple(pos[ra:])
        r = Poly.c(0)
        for j in range(int(k)):
            r = r + f(pa + (Poly.c(j),)) * g((Poly.c(j),) + pb)
        return r
    dims = list(a.dims[:-1]) + list(b.dims[1:])
    return Arr(ev, dims, el, torch=a.torch or b.torch) if dims else el(())


def reduction(ev, name, a, args, kw, node):
    axis = kw.get("axis", kw.get("dim", args[0] if args else None))
    if isinstance(a, Unk):
        return a
    a = tochain(ev, a)
    if not isinstance(a, Arr):
        if is_num(a):
            return a
        if isinstance(a, (Cond, bool)):
            return a
        return Unk(name)
    if axis is None:
        ks = [d.const() for d in a.dims]
        if name == "sum" and a.torch:
            return Total(a)
        if all(k is not None for k in ks) and name in ("sum", "prod", "max", "min", "mean"):
            vals = [low(a.at(p)) for p in positions([int(k) for k in ks])]
            return fold(ev, name, vals, node)
        f = a.snap()
        try:
            gen = tuple(Poly.atom(("i", "r%d" % k)) if d.const() != 1 else Poly.c(0) for k, d in enumerate(a.dims))
            for k, d in enumerate(a.dims):
                ev.B.ranges[("i", "r%d" % k)] = (Poly.c(12), d - 13)
            ev.B._memo.clear()
            el = f(gen)
        except Unmodelled as e:
            return Unk(str(e))
        if isinstance(el, (Cond, bool)):
            return Unk("%s of a mask" % name)
        if el.const() is not None and name in ("max", "min", "mean", "median"):
            return low(el)
        return Poly.atom(("f", name, (el,)))
    nd = a.ndim
    if isinstance(axis, (tuple, list)):
        return Unk("%s over several axes" % name)
    ax = axis_of(ev, axis, nd, node)
    f = a.snap()
    k = a.dims[ax].const()
    rest = a.dims[:ax] + a.dims[ax + 1:]
    keep = kw.get("keepdims") or kw.get("keepdim")

    def g(pos):
        if keep:
            pos = pos[:ax] + pos[ax + 1:]
        if k is not None and name in ("sum", "mean", "prod", "max", "min"):
            vals = [low(f(pos[:ax] + (Poly.c(i),) + pos[ax:])) for i in range(int(k))]
            return P(fold(ev, name, vals, node))
        at = ("i", "r%d" % ax)
        ev.B.ranges[at] = (Poly.c(12), a.dims[ax] - 13)
        el = f(pos[:ax] + (Poly.atom(at),) + pos[ax:])
        if isinstance(el, (Cond, bool)):
            raise Unmodelled("%s of a mask" % name)
        return Poly.atom(("f", name, (el,)))
    if keep:
        rest = a.dims[:ax] + [Poly.c(1)] + a.dims[ax + 1:]
    return Arr(ev, rest, g, torch=a.torch)


def positions(ks):
    if not ks:
        yield ()
        return
    for i in range(ks[0]):
        for r in positions(ks[1:]):
            yield (Poly.c(i),) + r


def fold(ev, name, vals, node):
    if name == "sum":
        r = 0
        for v in vals:
            r = binop(ev, "Add", r, v, node)
        return r
    if name == "prod":
        r = 1
        for v in vals:
            r = binop(ev, "Mult", r, v, node)
        return r
    if name == "mean":
        return binop(ev, "Div", fold(ev, "sum", vals, node), len(vals), node)
    ks = [P(v).const() for v in vals]
    if all(k is not None for k in ks):
        return low(Poly.c(max(ks) if name == "max" else min(ks)))
    r = P(vals[0])
    for v in vals[1:]:
        r = fn(name, r, P(v))
    return r


def gradient(ev, a, spac, axis, edge_order, node):
    """numpy.gradient along one axis with uniform spacing."""
    n = a.dims[axis]
    f = a.snap()

    def g(pos):
        p = pos[axis]

        def at(q):
            return f(pos[:axis] + (q,) + pos[axis + 1:])

        def h(q0, q1):
            return q1 - q0
        s0, s1 = ev.B.sign(p), ev.B.sign(n - 1 - p)
        if isinstance(spac, Arr):
            c = spac.snap()
            x = lambda q: c((q,))
            # only uniform coordinates are modelled: x(q) linear in q
            dx = x(p + 1) - x(p) if s1 != "0" else x(p) - x(p - 1)
        else:
            dx = P(spac)
        if s0 == "0":
            if edge_order == 2:
                return (at(p) * -3 + at(p + 1) * 4 - at(p + 2)) / (dx * 2)
            return (at(p + 1) - at(p)) / dx
        if s1 == "0":
            if edge_order == 2:
                return (at(p) * 3 - at(p - 1) * 4 + at(p - 2)) / (dx * 2)
            return (at(p) - at(p - 1)) / dx
        if s0 == "+" and s1 == "+":
            return (at(p + 1) - at(p - 1)) / (dx * 2)
        raise Undecided("gradient row %s" % show(p))
    return Arr(ev, a.dims, g)


def np_gradient(ev, args, kw, node):
    a = tochain(ev, args[0])
    if isinstance(a, Unk):
        return a
    if not isinstance(a, Arr):
        raise Unmodelled("gradient of %r" % (a,))
    axis = kw.get("axis")
    eo = low(kw.get("edge_order", 1))
    sp = list(args[1:])
    for s in sp:
        if isinstance(s, Unk):
            return s
    axes = list(range(a.ndim)) if axis is None else [axis_of(ev, x, a.ndim, node) for x in (axis if isinstance(axis, (list, tuple)) else [axis])]
    if not sp:
        sp = [1] * len(axes)
    elif len(sp) == 1 and (not isinstance(sp[0], Arr) or not sp[0].dims):
        sp = sp * len(axes)
    if len(sp) != len(axes):
        raise PyRaise("TypeError", node, msg="gradient: invalid number of arguments")
    out = []
    for ax, s in zip(axes, sp):
        if isinstance(s, Arr):
            if s.ndim == 0:
                s = s.at(())
            elif s.ndim != 1:
                raise PyRaise("ValueError", node, msg="gradient: distances must be 1d")
            elif s.dims[0] != a.dims[ax]:
                raise PyRaise("ValueError", node, msg="gradient: coordinate length %s along an axis of length %s"
                              % (show(s.dims[0]), show(a.dims[ax])))
        out.append(gradient(ev, copy(ev, a), s, ax, eo, node))
    return out[0] if len(out) == 1 else out


def np_diff(ev, args, kw, node):
    a = tochain(ev, args[0])
    if isinstance(a, Unk):
        return a
    n = low(kw.get("n", args[1] if len(args) > 1 else 1))
    ax = axis_of(ev, kw.get("axis", kw.get("dim", args[2] if len(args) > 2 else -1)), a.ndim, node)
    if "prepend" in kw or "append" in kw:
        return Unk("diff with prepend")
    for _ in range(n):
        f = a.snap()

        def g(pos, f=f):
            return f(pos[:ax] + (pos[ax] + 1,) + pos[ax + 1:]) - f(pos)
        dims = list(a.dims)
        dims[ax] = dims[ax] - 1
        a = Arr(ev, dims, g)
    return a


def np_roll(ev, args, kw, node):
    a = tochain(ev, args[0])
    if isinstance(a, Unk):
        return a
    sh = kw.get("shift", kw.get("shifts", args[1] if len(args) > 1 else None))
    axis = kw.get("axis", kw.get("dims", args[2] if len(args) > 2 else None))
    if axis is None:
        if a.ndim != 1:
            return Unk("roll of a flattened array")
        axis = 0
    ax = axis_of(ev, axis, a.ndim, node)
    sh = P(sh)
    n = a.dims[ax]
    f = a.snap()

    def g(pos):
        q = pos[ax] - sh
        if ev.B.sign(q) == "-":
            q = q + n
        elif ev.B.sign(q - n) in ("0", "+", ">="):
            q = q - n
        if ev.B.sign(q) not in ("0", "+", ">=") or ev.B.sign(n - 1 - q) not in ("0", "+", ">="):
            raise Undecided("rolled position")
        return f(pos[:ax] + (q,) + pos[ax + 1:])
    return Arr(ev, a.dims, g, torch=a.torch)


def along_axis(ev, args, kw, node):
    func, axis, a = args[0], args[1], tochain(ev, args[2])
    extra = args[3:]
    if isinstance(a, Unk):
        return a
    ax = axis_of(ev, axis, a.ndim, node)
    vs = []
    idx = []
    base = copy(ev, a)
    for k, d in enumerate(a.dims):
        if k == ax:
            idx.append(slice(None))
        else:
            v = ev.B.fresh("k%d" % k, 0, d - 1)
            vs.append((k, next(iter(v.atoms()))))
            idx.append(v)
    line = getview(ev, base, tuple(idx), node)
    r = ev.call(func, [line] + list(extra), kw, node)
    if isinstance(r, Unk):
        return r
    if not isinstance(r, Arr):
        if is_num(r):
            r = mkarray(ev, r)
        else:
            return Unk("apply_along_axis result")
    f = r.snap()
    dims = a.dims[:ax] + list(r.dims) + a.dims[ax + 1:]
    shift = r.ndim - 1

    def g(pos):
        mp = {}
        for k, at in vs:
            mp[at] = pos[k if k < ax else k + shift]
        el = f(pos[ax:ax + r.ndim])
        return ev.B.simp(el.subst(mp)) if isinstance(el, Poly) else el
    return Arr(ev, dims, g)


def where(ev, args, node):
    if len(args) == 1:
        return Unk("where(mask)")
    c, a, b = args
    for x in (a, b, c):
        if isinstance(x, Unk):
            return x

    def f(cv, x, y):
        if isinstance(cv, bool):
            return x if cv else y
        if isinstance(cv, Poly):
            k = cv.const()
            if k is not None:
                return x if k else y
        if isinstance(cv, Cond):
            if x == y:
                return x
            for asm in ev.assume:
                r = asm(cv)
                if r is not None:
                    return x if r else y
            if cv.op == "Eq":
                return y
            if cv.op == "NotEq":
                return x
            if cv.op in _CMP:
                return Poly.atom(("f", "where_" + cv.op, (cv.a, cv.b, x, y)))
        raise Unmodelled("where on %r" % (cv,))
    xs = [tochain(ev, x) if not isinstance(x, (bool, Cond)) else x for x in (c, a, b)]
    if not any(isinstance(x, Arr) for x in xs):
        return low(f(xs[0] if isinstance(xs[0], (bool, Cond)) else P(xs[0]), P(xs[1]), P(xs[2])))
    dims = bshape(ev, [x.dims if isinstance(x, Arr) else [] for x in xs], node)
    gs = [bcast(ev, x, dims) for x in xs]
    return Arr(ev, dims, lambda pos: f(*[g(pos) for g in gs]), torch=any(isinstance(x, Arr) and x.torch for x in xs))


def autograd(ev, args, kw, node):
    """torch.autograd.grad of a row-wise function of a matrix of coordinates."""
    outs = kw.get("outputs", args[0] if args else None)
    ins = kw.get("inputs", args[1] if len(args) > 1 else None)
    go = kw.get("grad_outputs", args[2] if len(args) > 2 else None)
    if isinstance(ins, (list, tuple)):
        return tuple(autograd(ev, [], dict(kw, outputs=outs, inputs=i, grad_outputs=go), node)[0] for i in ins)
    if isinstance(outs, Unk) or isinstance(ins, Unk):
        return (outs if isinstance(outs, Unk) else ins,)
    if isinstance(outs, Total):
        arr = outs.arr
    elif isinstance(outs, Arr):
        arr = outs
        if go is None and arr.dims:
            raise PyRaise("RuntimeError", node, msg="grad can be implicitly created only for scalar outputs")
        if isinstance(go, Arr):
            el = go.at(tuple(Poly.c(0) for _ in go.dims))
            if el.const() != 1:
                arr = emap(ev, lambda x, y: x * y, [arr, go])
    else:
        return (Unk("gradient of %r" % (outs,)),)
    leaf, cols = find_leaf(ins)
    if leaf is None:
        return (Unk("gradient with respect to a non-leaf"),)
    f = arr.snap()
    nd = arr.ndim

    def g(pos):
        row = pos[0]
        if nd == 2:
            w = arr.dims[1].const()
            if w is None:
                raise Unmodelled("gradient of a wide output")
            el = Poly({})
            for k in range(int(w)):
                el = el + f((row, Poly.c(k)))
        else:
            el = f((row,))
        if isinstance(el, (Cond, bool)):
            raise Unmodelled("gradient of a mask")
        if len(pos) == 1:
            c = 0
        else:
            c = pos[1].const()
            if c is None:
                raise Unmodelled("symbolic gradient column")
        name, scale = cols[int(c)]
        return diff(el, name) / scale
    return (Arr(ev, ins.dims, g, torch=True),)


def markleaf(ev, a):
    """A matrix becomes a differentiation variable: its columns must be (multiples of) coordinates."""
    if a.leaf or a.ndim not in (1, 2):
        return
    w = a.dims[1].const() if a.ndim == 2 else 1
    if w is None or w > 16:
        return
    cols = []
    for k in range(int(w)):
        try:
            el = a.at((Poly.atom(("i", "leaf")),) + ((Poly.c(k),) if a.ndim == 2 else ()))
        except (Unmodelled, NotPoly):
            return
        if not isinstance(el, Poly):
            return
        cs = {x for x in el.atoms() if x[0] in ("c", "x0")}
        if len(cs) != 1:
            return
        (c,) = cs
        slope = diff(el, c[1])
        if not slope.t or any(x[0] in ("c", "x0") for x in slope.atoms()):
            return
        cols.append((c[1], slope))
    a.leaf = cols


def find_leaf(a):
    if a.leaf is not None:
        return a, a.leaf
    return None, None


_SEQ = {"list", "tuple"}


def alias(ev, v, name, args, kw, node):
    if isinstance(v, Arr):
        if name in ("copy", "clone", "array", "tensor", "astype", "nan_to_num", "round"):
            if name == "array" and kw.get("copy") is False:
                return v
            if name in ("array", "tensor", "astype", "nan_to_num", "round"):
                return copy(ev, v) if name != "astype" else passthru(ev, v)
            return copy(ev, v)
        return passthru(ev, v, torch=True if name in ("from_numpy", "as_tensor", "Variable", "FloatTensor", "to") else
                        False if name == "numpy" else None)
    return v


def passthru(ev, v, torch=None):
    if torch is None or torch == v.torch:
        return v
    r = Arr(ev, v.dims, None, base=v, fwd=lambda p: p, inv=lambda p: p, leaf=v.leaf, torch=torch)
    return r


def call(ev, name, args, kw, node):
    head, _, last = name.rpartition(".")
    root = name.split(".")[0]
    # ---- builtins
    if root == "builtins":
        return builtin(ev, last, args, kw, node)
    if name.startswith("arr."):
        return method(ev, args[0], last, args[1:], kw, node)
    if root in ("str", "list", "dict", "set", "num", "path", "obj") and "." in name:
        return pymethod(ev, root, args[0], last, args[1:], kw, node)
    if last == "Path" and root in ("pathlib",):
        a = args[0] if args else "."
        return a if isinstance(a, PathV) else PathV(a) if isinstance(a, str) else Unk("path")
    if name == "commentjson.load" and isinstance(args[0], FileV):
        import re
        try:
            with open(args[0].p, encoding="utf-8") as f:
                src = "\n".join(l for l in f.read().split("\n") if not l.lstrip().startswith(("#", "//")))
            return json.loads(re.sub(r",(\s*[}\]])", r"\1", src))
        except (OSError, ValueError):
            return Unk("json")
    if name == "json.load" and isinstance(args[0], FileV):
        try:
            with open(args[0].p, encoding="utf-8") as f:
                return json.load(f)
        except (OSError, ValueError):
            return Unk("json")
    if root == "re" and name.count(".") == 1:
        if last.isupper():
            return int(getattr(_re, last))
        if last in ("compile", "match", "search", "fullmatch", "sub", "findall", "finditer", "split", "escape", "subn"):
            args = [a.o if isinstance(a, RegexV) else a for a in args]
            if args and isinstance(args[0], _re.Pattern):
                return regex_call(ev, getattr(args[0], last), args[1:], kw, node)
            return regex_call(ev, getattr(_re, last), args, kw, node)
    if name == "functools.partial":
        return Partial(args[0], args[1:], kw)
    if name == "functools.wraps":
        return Native(lambda ev, a, k, n: a[0])
    if name == "functools.reduce":
        vs = iterate(ev, args[1], node)
        if isinstance(vs, Unk):
            return vs
        acc = args[2] if len(args) > 2 else vs.pop(0)
        for v in vs:
            acc = ev.call(args[0], [acc, v], {}, node)
        return acc
    if name in ("copy.copy", "copy.deepcopy"):
        return dcopy(ev, args[0], name.endswith("deepcopy"))
    if name == "collections.OrderedDict" and (not args or isinstance(args[0], dict)):
        return dict(args[0]) if args else {}
    if name == "collections.defaultdict":
        d = DefaultDict(args[1] if len(args) > 1 and isinstance(args[1], dict) else {})
        d.factory = args[0] if args else None
        return d
    if name in ("collections.Counter", "collections.OrderedDict"):
        vs = iterate(ev, args[0], node) if args else []
        if isinstance(vs, Unk):
            return vs
        if name.endswith("Dict"):
            return {v[0]: v[1] for v in vs}
        d = DefaultDict(args[0]) if args and isinstance(args[0], dict) else DefaultDict()
        if not (args and isinstance(args[0], dict)):
            for v in vs:
                if not isinstance(v, (str, int, tuple)):
                    return Unk("Counter of %r" % (v,))
                d[v] = d.get(v, 0) + 1
        d.factory = Native(lambda ev, a, k, n: 0)
        return d
    if name == "itertools.product":
        import itertools
        vs = [iterate(ev, a, node) for a in args]
        if any(isinstance(v, Unk) for v in vs):
            return Unk("product")
        return list(itertools.product(*vs))
    if root == "math" and last in ("pi", "e"):
        return Poly.atom(("v", last))
    if name == "operator.itemgetter":
        return Native(lambda ev, a, k, n, i=args[0]: getitem(ev, a[0], i, n))
    numeric = root in ("numpy", "np", "torch", "math", "scipy", "cupy", "operator")
    if numeric:
        r = numlib(ev, name, root, last, args, kw, node)
        if r is not NotImplemented:
            if root == "torch" and isinstance(r, Arr) and not r.torch and not any(r is x for x in args):
                r.torch = True
            return r
    if last in ("jit", "njit", "no_grad", "errstate", "catch_warnings", "contextmanager", "cache", "lru_cache", "enable_grad",
                "inference_mode"):
        if len(args) == 1 and isinstance(args[0], (Func, Static)) and not kw:
            return args[0]
        return Native(lambda ev, a, k, n: a[0] if a else None)
    if root in ("logging", "warnings", "sys", "os", "time", "tqdm", "matplotlib", "gc", "print"):
        if name in ("tqdm.tqdm", "tqdm.trange"):
            return args[0] if last == "tqdm" else builtin(ev, "range", args, {}, node)
        if name == "sys.exit":
            raise PyRaise("SystemExit", node)
        if name.startswith("os.path.") and last in ("join", "dirname", "abspath", "basename", "realpath") and all(isinstance(a, str) for a in args):
            return getattr(os.path, last)(*args)
        return Unk("%s()" % name)
    return Unk("%s()" % name)


class RegexV:
    def __init__(self, o):
        self.o = o


def regex(ev, v, node):
    """A real regular expression object applied to known strings."""
    if isinstance(v, (_re.Pattern, _re.Match)):
        return RegexV(v)
    if isinstance(v, (list, tuple)):
        return type(v)(regex(ev, x, node) for x in v)
    if hasattr(v, "__next__"):
        return [regex(ev, x, node) for x in v]
    return v


def regex_call(ev, f, args, kw, node):
    if any(not isinstance(a, (str, int, tuple)) or isinstance(a, bool) for a in list(args) + list(kw.values())):
        if len(args) > 1 and isinstance(args[-2 if f.__name__ == "sub" and len(args) > 1 else 0], (Func, Bound, Native)):
            args = [(lambda m, c=a: ev.call(c, [RegexV(m)], {}, node)) if isinstance(a, (Func, Bound, Native)) else a for a in args]
            try:
                return regex(ev, f(*args, **kw), node)
            except (TypeError, _re.error):
                return Unk("re")
        return Unk("re")
    try:
        return regex(ev, f(*args, **kw), node)
    except _re.error:
        raise PyRaise("re.error", node)
    except TypeError:
        return Unk("re")


class FileV:
    def __init__(self, p):
        self.p = p


def dcopy(ev, v, deep, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        return copy(ev, v)
    if isinstance(v, list):
        r = []
        memo[id(v)] = r
        r.extend(dcopy(ev, x, deep, memo) if deep else x for x in v)
        return r
    if isinstance(v, dict):
        r = {}
        memo[id(v)] = r
        for k, x in v.items():
            r[k] = dcopy(ev, x, deep, memo) if deep else x
        return r
    if isinstance(v, tuple):
        return tuple(dcopy(ev, x, deep, memo) if deep else x for x in v)
    if isinstance(v, Inst):
        r = Inst(v.cls)
        memo[id(v)] = r
        for k, x in v.attrs.items():
            r.attrs[k] = dcopy(ev, x, deep, memo) if deep else x
        return r
    return v


def close_values(ev, last, x, y, kw, node):
    """allclose / isclose / array_equal of small arrays of known numbers"""
    pair = emap(ev, lambda p, q: p - q, [x, y], node)
    ds = [d.const() for d in pair.dims] if isinstance(pair, Arr) else [None]
    if not all(d is not None and d < 32 for d in ds):
        return None
    ref = emap(ev, lambda p, q: q, [x, y], node)
    rtol, atol = [kw.get(k, v) for k, v in (("rtol", F(1, 10 ** 5)), ("atol", F(1, 10 ** 8)))] if last != "array_equal" else (0, 0)
    vals = {}
    for pos in itertools.product(*[range(int(d)) for d in ds]):
        at = tuple(P(k) for k in pos)
        d, q = P(pair.at(at)).const(), P(ref.at(at)).const()
        if d is None or q is None:
            return None
        vals[pos] = bool(abs(d) <= atol + rtol * abs(q))
    if last != "isclose":
        return all(vals.values())
    def el(pos):
        ks = [P(k).const() for k in pos]
        return vals[tuple(int(k) for k in ks)] if None not in ks else Cond(last)
    r = Arr(ev, pair.dims, el)
    r.mask = True
    return r


def numlib(ev, name, root, last, args, kw, node):
    a0 = args[0] if args else None
    if name == "torch.autograd.grad":
        return autograd(ev, args, kw, node)
    if ".random." in name or "random" in name.split("."):
        return Unk("random value")
    if ".linalg." in name or ".nn." in name or ".optim" in name or ".fft" in name:
        return Unk("%s()" % name)
    for v in args:
        if isinstance(v, Unk):
            return v
    if last in ("zeros", "ones", "full") and boolean(kw.get("dtype", args[1] if len(args) > 1 and last != "full" and root == "numpy" else None)):
        c = {"zeros": False, "ones": True}.get(last, args[1] if len(args) > 1 else kw.get("fill_value"))
        if is_num(c) and P(c).const() is not None:
            c = P(c).const() != 0
        if isinstance(c, bool):
            r = const_arr(ev, shape_arg(ev, args[:1], kw), c)
            r.mask, r.torch = True, root == "torch"
            return r
    if last in ("zeros", "empty"):
        return const_arr(ev, shape_arg(ev, args, kw), 0 if last == "zeros" else Poly.atom(("v", "uninitialised")))
    if last == "ones":
        return const_arr(ev, shape_arg(ev, args, kw), 1)
    if last == "full":
        sh = args[0] if args else kw.get("shape", kw.get("size"))
        return const_arr(ev, shape_arg(ev, [sh], {}), args[1] if len(args) > 1 else kw.get("fill_value"))
    if last in ("zeros_like", "ones_like", "empty_like", "full_like"):
        a = tochain(ev, a0)
        dims = a.dims if isinstance(a, Arr) else []
        c = 0 if last[0] == "z" else 1 if last[0] == "o" else Poly.atom(("v", "uninitialised")) if last[0] == "e" else args[1]
        r = const_arr(ev, dims, c)
        r.torch = isinstance(a, Arr) and a.torch
        return r
    if last in ("array", "asarray", "ascontiguousarray", "asanyarray", "asfarray", "tensor", "as_tensor", "from_numpy",
                "FloatTensor", "Variable", "atleast_1d", "stack_", "copy", "float64", "float32", "nan_to_num", "real", "clone"):
        if isinstance(a0, Arr):
            r = alias(ev, a0, last, args, kw, node)
            if isinstance(r, Arr) and kw.get("requires_grad") is True:
                markleaf(ev, r)
            return r
        if is_num(a0):
            return mkarray(ev, a0) if last in ("array", "tensor", "asarray", "as_tensor", "asanyarray") else a0
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        if isinstance(a0, (list, tuple)):
            if isinstance(dt, Ext) and dt.name in ("builtins.object", "numpy.object_"):
                return list(list(x) if isinstance(x, tuple) else x for x in a0)
            return mkarray(ev, a0)
        if a0 is None and root == "numpy" and last in ("array", "asarray", "asanyarray"):
            return Arr(ev, [], lambda pos: Poly.atom(("v", "None")))
        if isinstance(a0, (Cond, bool, str)) or a0 is None:
            return a0
        return Unk("%s of %r" % (last, a0))
    if last in ("int32", "int64", "long"):
        return a0
    if last == "shape":
        a = tochain(ev, a0) if a0 is not None else Arr(ev, [], lambda pos: Poly.atom(("v", "None")))
        return tuple(low(d) for d in a.dims)
    if last == "ndim":
        a = tochain(ev, a0) if a0 is not None else Arr(ev, [], lambda pos: Poly.atom(("v", "None")))
        return a.ndim if isinstance(a, Arr) else 0
    if last == "size":
        a = tochain(ev, a0) if a0 is not None else Arr(ev, [], lambda pos: Poly.atom(("v", "None")))
        if len(args) > 1:
            return low(a.dims[axis_of(ev, args[1], a.ndim)])
        return low(prod(a.dims))
    if last == "where":
        return where(ev, args, node)
    if last == "gradient":
        return np_gradient(ev, args, kw, node)
    if last == "diff":
        return np_diff(ev, args, kw, node)
    if last == "roll":
        return np_roll(ev, args, kw, node)
    if last == "apply_along_axis":
        return along_axis(ev, args, kw, node)
    if last in ("transpose", "permute", "reshape", "ravel", "flatten", "squeeze", "expand_dims", "unsqueeze", "swapaxes",
                "moveaxis", "broadcast_to", "flip", "copy", "take"):
        a = tochain(ev, a0)
        if isinstance(a, Arr):
            return method(ev, a, last, args[1:], kw, node)
        return Unk(last)
    if last in ("stack", "vstack", "hstack", "column_stack", "concatenate", "cat", "concat", "dstack", "row_stack"):
        vs = iterate(ev, a0, node)
        if isinstance(vs, Unk):
            return vs
        vs = [tochain(ev, v) for v in vs]
        bad = next((v for v in vs if not isinstance(v, Arr)), None)
        if bad is not None:
            return Unk("%s of %r" % (last, bad))
        axis = low(kw.get("axis", kw.get("dim", args[1] if len(args) > 1 else 0)))
        if last == "stack":
            r = stack(ev, vs, axis)
            return leafcols(ev, r, vs, axis)
        if last == "column_stack":
            vs = [v if v.ndim > 1 else reshape(ev, v, [v.dims[0], 1]) for v in vs]
            return concat(ev, vs, 1, node)
        if last in ("vstack", "row_stack"):
            vs = [v if v.ndim > 1 else reshape(ev, v, [1, v.dims[0]]) for v in vs]
            return concat(ev, vs, 0, node)
        if last == "hstack":
            return concat(ev, vs, 0 if vs[0].ndim == 1 else 1, node)
        return concat(ev, vs, axis if isinstance(axis, int) else 0, node)
    if last == "delete" and root == "numpy":
        a, i, axis = tochain(ev, a0), low(args[1] if len(args) > 1 else kw.get("obj")), low(kw.get("axis", args[2] if len(args) > 2 else None))
        if not isinstance(a, Arr) or not isinstance(axis, int):
            return Unk("delete")
        drop = i if isinstance(i, list) else [i]
        if not all(isinstance(k, int) and not isinstance(k, bool) for k in drop):
            return Unk("delete of %r" % (i,))
        axis = axis % a.ndim
        size = a.dims[axis].const()
        if size is None:
            return Unk("delete along a symbolic axis")
        for k in drop:
            if not -size <= k < size:
                raise PyRaise("IndexError", node)
        drop = {k % int(size) for k in drop}
        keep = [k for k in range(int(size)) if k not in drop]
        fa = a.snap()

        def pick(pos):
            k = P(pos[axis]).const()
            if k is None:
                raise Undecided("position in the result of delete")
            return fa(pos[:axis] + (P(keep[int(k)]),) + pos[axis + 1:])
        return Arr(ev, a.dims[:axis] + [P(len(keep))] + a.dims[axis + 1:], pick, torch=a.torch)
    if last == "meshgrid":
        ind = kw.get("indexing", "xy" if root != "torch" else "ij")
        vs = [tochain(ev, v) for v in args]
        vs = [reshape(ev, v, [prod(v.dims)]) if v.ndim != 1 else v for v in vs]
        n = len(vs)
        order = list(range(n))
        if ind == "xy" and n > 1:
            order[0], order[1] = 1, 0
        dims = [vs[k].dims[0] for k in order]
        out = []
        for k, v in enumerate(vs):
            f = v.snap()
            ax = order.index(k)
            out.append(Arr(ev, dims, lambda pos, f=f, ax=ax: f((pos[ax],)), torch=v.torch))
        return out
    if last == "arange":
        if len(args) == 1:
            return Arr(ev, [P(a0)], lambda pos: pos[0])
        lo, hi = P(args[0]), P(args[1])
        st = P(args[2]) if len(args) > 2 else Poly.c(1)
        n = (hi - lo) / st
        return Arr(ev, [n], lambda pos: lo + pos[0] * st)
    if last == "linspace":
        return Unk("linspace")
    if last in ("round", "around", "round_") and is_num(a0) and (isinstance(a0, (int, float, F)) or a0.const() is not None):
        d = args[1] if len(args) > 1 else kw.get("decimals", 0)
        return Poly.c(round(F(P(a0).const()), d)) if isinstance(d, int) else Unk("round")
    if last in ("allclose", "isclose", "array_equal", "isfinite", "isnan", "isinf", "equal", "logical_and", "logical_or",
                "logical_not", "greater", "less", "array_equiv", "may_share_memory", "issubdtype", "iscomplexobj", "isreal",
                "iscomplex", "isreal", "shares_memory"):
        if last in ("iscomplexobj",):
            return False
        if last in ("isnan", "isinf", "iscomplex", "isfinite", "isreal"):
            v = last in ("isfinite", "isreal")      # values are finite reals in this domain
            x = tochain(ev, a0)
            sp = ev.special
            def el(q):
                kinds = {sp(a) for a in leaves(q)} - {None} if sp is not None else ()
                return v if not kinds else \
                    {"isnan": "nan" in kinds, "isinf": kinds == {"inf"}, "isfinite": False}.get(last, v)
            if isinstance(x, Arr):
                r = Arr(ev, x.dims, lambda pos: el(x.at(pos)) if sp is not None else v, torch=x.torch)
                r.mask = True
                return r
            return x if isinstance(x, Unk) else el(P(x)) if is_num(x) else v
        if last in ("logical_and", "logical_or", "logical_not"):
            return boolmap(ev, last[8:], args[:2], node)
        if last in ("allclose", "isclose", "array_equal") and len(args) >= 2:
            x, y = tochain(ev, args[0]), tochain(ev, args[1])
            try:
                if isinstance(x, Arr) or isinstance(y, Arr):
                    r = close_values(ev, last, x, y, kw, node)
                    if r is not None:
                        return r
                    d = emap(ev, lambda p, q: p - q, [x, y], node)
                    gp = []
                    for k, dd in enumerate(d.dims):
                        at = ("i", "q%d" % k)
                        ev.B.ranges[at] = (Poly.c(0), dd - 1)
                        gp.append(Poly.atom(at) if dd.const() is None else Poly.c(0))
                    ev.B._memo.clear()
                    if not d.at(tuple(gp)).t:
                        return True
                elif is_num(x) and is_num(y):
                    d = (P(x) - P(y)).const()
                    if d is not None:
                        q = P(y).const()
                        tol = [kw.get(k, v) for k, v in (("rtol", F(1, 10 ** 5)), ("atol", F(1, 10 ** 8)))]
                        return bool(abs(d) <= tol[1] + tol[0] * abs(q)) if q is not None else Cond(last) if d else True
            except (Unmodelled, PyRaise):
                pass
        return Cond("%s(%s)" % (last, ", ".join(map(repr, args))), last, args[0] if args else None, args[1] if len(args) > 1 else None)
    if last in ("any", "all"):
        if isinstance(a0, (bool, Cond)):
            return a0
        a = tochain(ev, a0)
        if isinstance(a, Arr) and not kw and len(args) == 1:
            ds = [d.const() for d in a.dims]
            if all(d is not None and d < 20 for d in ds):
                vs = [a.at(tuple(P(k) for k in pos)) for pos in itertools.product(*[range(int(d)) for d in ds])]
                if all(isinstance(v, bool) for v in vs):
                    return any(vs) if last == "any" else all(vs)
        if isinstance(a, Arr):
            try:
                gp = tuple(Poly.atom(("i", "r%d" % k)) if d.const() != 1 else Poly.c(0) for k, d in enumerate(a.dims))
                for k, d in enumerate(a.dims):
                    ev.B.ranges[("i", "r%d" % k)] = (Poly.c(12), d - 13)
                ev.B._memo.clear()
                el = a.at(gp)
                if isinstance(el, Cond):
                    return Cond("%s(%s)" % (last, el.desc), el.op, el.a, el.b)
                if isinstance(el, bool):
                    return el
            except Unmodelled:
                pass
        return Cond("%s(...)" % last)
    if last in ("sum", "mean", "std", "var", "max", "min", "amax", "amin", "prod", "median", "nanmax", "nanmin", "nanmean",
                "argmax", "argmin", "quantile", "percentile", "norm"):
        if isinstance(a0, (list, tuple)) and last in ("prod", "sum", "max", "min") and all(is_num(x) for x in a0) and "axis" not in kw:
            return fold(ev, last, list(a0), node) if a0 else (1 if last == "prod" else 0)
        if last in ("quantile", "percentile"):
            q, rest = (args[1], args[2:]) if len(args) > 1 else (kw.get("q"), ())
            if not is_num(low(q)):
                return Unk(last)
            return reduction(ev, "%s(%s)" % (last, show(P(q))), a0, rest, {k: v for k, v in kw.items() if k != "q"}, node)
        return reduction(ev, {"amax": "max", "amin": "min"}.get(last, last), a0, args[1:], kw, node)
    if last in ("maximum", "minimum", "fmax", "fmin"):
        if len(args) < 2:
            raise PyRaise("TypeError", node, msg="%s takes two arguments" % last)
        return emap(ev, lambda x, y: fn("max" if "max" in last else "min", x, y), args[:2], node)
    if last == "square":
        return emap(ev, lambda x: x * x, args[:1], node)
    if last == "cube":
        return emap(ev, lambda x: x * x * x, args[:1], node)
    if last == "sqrt":
        return emap(ev, lambda x: fn("sqrt", x), args[:1], node)
    if last == "reciprocal":
        return emap(ev, lambda x: x.inv(), args[:1], node)
    if last in ("negative", "neg"):
        return emap(ev, lambda x: -x, args[:1], node)
    if last == "positive":
        return a0
    if last == "clip" or last == "clamp":
        return Unk("clip")
    if last in UF2 and (len(args) + len([k for k in kw if k in ("exponent", "other")])) >= 2 and root != "operator":
        b = args[1] if len(args) > 1 else kw.get("exponent", kw.get("other"))
        if last == "pow" or last == "power":
            return emap(ev, lambda x, y: x.power(y), [a0, b], node)
        return binop(ev, UF2[last], a0, b, node)
    if last in UF2 and root != "operator":
        raise PyRaise("TypeError", node, msg="%s needs two arguments" % last)
    if root == "operator" and last in UF2:
        return binop(ev, UF2[last], args[0], args[1], node)
    if last in UF1 and UF1[last]:
        if not args:
            raise PyRaise("TypeError", node)
        if len(args) > 1 and root in ("numpy", "torch", "math") and last not in ("log",):
            raise PyRaise("TypeError", node, msg="%s takes one argument" % last)
        return emap(ev, lambda x: fn(UF1[last], x), args[:1], node)
    if last in ("abs", "absolute"):
        return emap(ev, lambda x: fn("abs", x), args[:1], node)
    if last == "seterr" or last == "set_printoptions" or last == "manual_seed":
        return None
    if last in ("no_grad", "errstate"):
        return Native(lambda ev, a, k, n: a[0] if a else None)
    if last in ("dot", "matmul", "mm", "mv") and len(args) == 2:
        return matmul(ev, args[0], args[1], node)
    if last == "einsum" or last == "dot" or last == "matmul":
        return Unk(last)
    if name.startswith("torch.device") or last in ("device", "is_available", "dtype", "get_default_dtype"):
        return Ext("device")
    return NotImplemented


def leafcols(ev, r, vs, axis):
    """stack([...coordinates...], axis=1): a matrix whose columns are coordinates."""
    return r


def method(ev, a, name, args, kw, node):
    if isinstance(a, Total):
        if name in ("backward",):
            return None
        return a
    if name in ("any", "all", "sum", "mean", "std", "var", "max", "min", "prod", "norm", "argmax", "argmin", "median"):
        return numlib(ev, "torch." + name if a.torch else "numpy." + name, "torch" if a.torch else "numpy", name, [a] + list(args), kw, node)
    if name == "requires_grad_":
        r = alias(ev, a, name, args, kw, node)
        if (args[0] if args else kw.get("requires_grad", True)) is True:
            markleaf(ev, r)
        return r
    if name in ("astype", "to", "cpu", "cuda", "numpy", "detach", "float", "double", "contiguous", "requires_grad_", "type",
                "copy", "clone", "type_as", "round", "retain_grad", "half", "long", "int", "byte"):
        if name in ("long", "int"):
            return a
        return alias(ev, a, name, args, kw, node)
    if name == "fill":
        c = args[0]
        setarr(ev, a, Ellipsis, c, node)
        return None
    if name in ("reshape", "view"):
        sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else list(args)
        if "shape" in kw:
            sh = kw["shape"]
        if isinstance(sh, int):
            sh = [sh]
        for s in sh:
            if isinstance(s, Unk):
                return s
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = sh[0]
        return reshape(ev, a, list(sh), node, kw.get("order"))
    if name in ("ravel", "flatten"):
        o = kw.get("order", args[0] if args and isinstance(args[0], str) else None)
        if o not in (None, "C"):
            if o == "F":
                r = reshape(ev, transpose(ev, a), [prod(a.dims)], node)
                return r
            return Unk("ravel order")
        r = reshape(ev, a, [prod(a.dims)], node)
        return copy(ev, r) if name == "flatten" and isinstance(r, Arr) else r
    if name in ("transpose", "permute"):
        if a.torch and name == "transpose" and len(args) == 2:
            return method(ev, a, "swapaxes", args, kw, node)
        p = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else list(args) or kw.get("axes", kw.get("dims"))
        if p is not None and not len(p):
            p = None
        if p is not None:
            p = [low(x) for x in p]
            if sorted(x % a.ndim for x in p) != list(range(a.ndim)):
                raise PyRaise("ValueError", node, msg="axes don't match array")
        return transpose(ev, a, p)
    if name == "t":
        return transpose(ev, a)
    if name in ("swapaxes",):
        i, j = [axis_of(ev, x, a.ndim, node) for x in args[:2]]
        p = list(range(a.ndim))
        p[i], p[j] = p[j], p[i]
        return transpose(ev, a, p)
    if name == "moveaxis":
        s = args[0] if args else kw["source"]
        d = args[1] if len(args) > 1 else kw["destination"]
        s = [s] if is_num(s) else list(s)
        d = [d] if is_num(d) else list(d)
        s = [axis_of(ev, x, a.ndim, node) for x in s]
        d = [axis_of(ev, x, a.ndim, node) for x in d]
        order = [k for k in range(a.ndim) if k not in s]
        for dd, ss in sorted(zip(d, s)):
            order.insert(dd, ss)
        return transpose(ev, a, order)
    if name == "squeeze":
        ax = kw.get("axis", kw.get("dim", args[0] if args else None))
        keep = [k for k, d in enumerate(a.dims) if not (d.const() == 1 and (ax is None or k == axis_of(ev, ax, a.ndim)))]
        return getview(ev, a, tuple(slice(None) if k in keep else 0 for k in range(a.ndim)), node)
    if name in ("expand_dims", "unsqueeze"):
        ax = axis_of(ev, kw.get("axis", kw.get("dim", args[0] if args else 0)), a.ndim + 1, node)
        idx = [slice(None)] * a.ndim
        idx.insert(ax, None)
        return newaxes(ev, a, idx)
    if name in ("broadcast_to", "expand"):
        sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else list(args)
        dims = [P(x) for x in sh]
        bd = bshape(ev, [a.dims, dims], node)
        if bd != dims:
            raise PyRaise("ValueError", node, msg="cannot broadcast %r" % a)
        return Arr(ev, dims, bcast(ev, a, dims), torch=a.torch)
    if name == "flip":
        ax = kw.get("axis", args[0] if args else None)
        idx = [slice(None, None, -1) if (ax is None or k == axis_of(ev, ax, a.ndim)) else slice(None) for k in range(a.ndim)]
        return getview(ev, a, tuple(idx), node)
    if name == "item":
        if all(d.const() == 1 for d in a.dims):
            return low(a.at(tuple(Poly.c(0) for _ in a.dims)))
        raise PyRaise("ValueError", node, msg="item() of %r" % a)
    if name == "tolist":
        return iterate(ev, a, node)
    if name == "dim":
        return a.ndim
    if name == "numel":
        return low(prod(a.dims))
    if name == "take":
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        if ax is None:
            return Unk("take")
        ax = axis_of(ev, ax, a.ndim)
        idx = [slice(None)] * a.ndim
        idx[ax] = args[0]
        return getitem(ev, a, tuple(idx), node)
    if name in ("pow", "add", "sub", "mul", "div", "square", "sqrt", "sin", "cos", "exp", "abs", "log", "tanh", "neg", "reciprocal",
                "sign"):
        return numlib(ev, "torch." + name, "torch", name, [a] + list(args), kw, node)
    if name in ("add_", "mul_", "sub_", "div_"):
        inplace(ev, a, {"add_": "Add", "mul_": "Mult", "sub_": "Sub", "div_": "Div"}[name], args[0], node)
        return a
    if name in ("backward", "zero_", "sort", "setflags"):
        return None
    if name in ("dot", "matmul", "mm", "mv") and len(args) == 1:
        return matmul(ev, a, args[0], node)
    return Unk("array method %s" % name)


def newaxes(ev, a, idx):
    v = getview(ev, a, tuple(idx))
    return v


def builtin(ev, name, args, kw, node):
    a0 = ev.force(args[0]) if args else None
    if name in ("float", "int", "bool", "str", "repr", "abs", "round") and isinstance(a0, Unk):
        return a0
    if name == "len":
        if isinstance(a0, Unk):
            return a0
        if isinstance(a0, Arr):
            if not a0.dims:
                raise PyRaise("TypeError", node)
            return low(a0.dims[0])
        if isinstance(a0, Inst):
            return ev.call(ev.getattr(a0, "__len__", node), [], {}, node)
        if isinstance(a0, Rng):
            return low(P(a0.hi) - P(a0.lo))
        try:
            return len(a0)
        except TypeError:
            raise PyRaise("TypeError", node, msg="len of %r" % (a0,))
    if name == "range":
        xs = [low(x) if not isinstance(x, Unk) else x for x in args]
        for x in xs:
            if isinstance(x, Unk):
                raise Unmodelled(x.why)
            if not isinstance(x, (int, Poly)):
                raise PyRaise("TypeError", node, msg="range(%r)" % (x,))
        if len(xs) == 1:
            return Rng(0, xs[0], 1)
        return Rng(xs[0], xs[1], xs[2] if len(xs) > 2 else 1)
    if name == "enumerate":
        st = kw.get("start", args[1] if len(args) > 1 else 0)
        if isinstance(a0, Rng) and not (isinstance(a0.lo, int) and isinstance(a0.hi, int)):
            raise Unmodelled("enumerate over a symbolic range")
        vs = iterate(ev, a0, node)
        return vs if isinstance(vs, Unk) else [(i + st, v) for i, v in enumerate(vs)]
    if name == "zip":
        vs = []
        for a in args:
            v = iterate(ev, a, node)
            if isinstance(v, Unk):
                return v
            vs.append(v)
        return list(zip(*vs))
    if name == "reversed":
        if isinstance(a0, Rng):
            return Rng(low(P(a0.hi) - 1), low(P(a0.lo) - 1), -1)
        return iterate(ev, a0, node)[::-1]
    if name in ("list", "tuple", "set", "frozenset", "sorted"):
        if not args:
            return {"list": [], "tuple": (), "set": set(), "frozenset": frozenset()}[name]
        vs = iterate(ev, a0, node)
        if isinstance(vs, Unk):
            return vs
        if name == "sorted":
            key = kw.get("key")
            try:
                if key is not None:
                    return sorted(vs, key=lambda x: ev.call(key, [x]), reverse=bool(kw.get("reverse")))
                return sorted(vs, reverse=bool(kw.get("reverse")))
            except TypeError:
                return Unk("sorted")
        try:
            return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[name](vs)
        except TypeError:
            return Unk(name)
    if name == "dict":
        d = {}
        if args:
            if isinstance(a0, dict):
                d.update(a0)
            else:
                vs = iterate(ev, a0, node)
                if isinstance(vs, Unk):
                    return vs
                for p in vs:
                    k, v = p
                    d[k] = v
        d.update(kw)
        return d
    if name in ("float", "int"):
        if isinstance(a0, Arr):
            if all(d.const() == 1 for d in a0.dims):
                a0 = low(a0.at(tuple(Poly.c(0) for _ in a0.dims)))
            else:
                raise PyRaise("TypeError", node, msg="only length-1 arrays convert")
        if isinstance(a0, str):
            try:
                x = float(a0) if name == "float" else int(a0)
                return F(repr(x)) if name == "float" and x == x and abs(x) != float("inf") else x
            except ValueError:
                raise PyRaise("ValueError", node)
        if name == "int":
            if isinstance(a0, Poly):
                if ev.intlike(a0) and all(c.denominator == 1 for c in a0.t.values()):
                    return a0
                if ev.slack:
                    return Poly.atom(("n", "int(%s)" % show(a0)))
                if ev.intlike(a0) and ev.B.sign(a0) == "+":     # a fraction of a length
                    q = 1
                    for c in a0.t.values():
                        q = q * c.denominator // math.gcd(q, c.denominator)
                    return fdiv(a0 * q, P(q))
                return Unk("int of %s" % show(a0))
            if isinstance(a0, (int, float, F)):
                return int(a0)
            if a0 is None and not args:
                return 0
            raise PyRaise("TypeError", node)
        if is_num(a0) or isinstance(a0, bool):
            return a0
        if a0 is None or isinstance(a0, (list, tuple, dict)):
            raise PyRaise("TypeError", node, msg="float of %r" % (a0,))
        return Unk("float")
    if name == "bool":
        if isinstance(a0, (Cond, Unk)):
            return a0
        return ev.truth(a0, "bool", node)
    if name == "str":
        if isinstance(a0, (str, int, bool)) or a0 is None:
            return str(a0)
        if isinstance(a0, PathV):
            return a0.p
        return text(ev, a0, 115)
    if name == "repr":
        return text(ev, a0, 114)
    if name == "abs":
        return emap(ev, lambda x: fn("abs", x), args[:1], node)
    if name == "fromkeys":
        vs = iterate(ev, a0, node)
        return vs if isinstance(vs, Unk) else {v: args[1] if len(args) > 1 else None for v in vs}
    if name == "round":
        return a0 if isinstance(a0, (int, F, float, Poly)) else Unk("round")
    if name in ("max", "min", "sum"):
        vs = iterate(ev, a0, node) if len(args) == 1 or name == "sum" else list(args)
        if isinstance(vs, Unk):
            return vs
        if kw.get("key") is not None:
            return Unk(name)
        if name == "sum":
            r = args[1] if len(args) > 1 else 0
            for v in vs:
                r = binop(ev, "Add", r, v, node)
            return r
        if not vs:
            if "default" in kw:
                return kw["default"]
            raise PyRaise("ValueError", node)
        if all(isinstance(v, str) for v in vs):
            return max(vs) if name == "max" else min(vs)
        best = vs[0]
        for v in vs[1:]:
            if isinstance(v, Unk) or isinstance(best, Unk):
                return Unk(name)
            if is_num(v) and is_num(best):
                s = ev.B.sign(P(v) - P(best))
                if s in ("+", ">="):
                    best = v if name == "max" else best
                elif s in ("-", "<="):
                    best = v if name == "min" else best
                elif s != "0":
                    return fn(name, P(v), P(best))
            else:
                return Unk(name)
        return best
    if name in ("any", "all"):
        vs = iterate(ev, a0, node)
        if isinstance(vs, Unk):
            return Cond(name)
        res = name == "all"
        unk = None
        for v in vs:
            if isinstance(v, (Cond, Unk)):
                unk = v
                continue
            t = ev.truth(v, name, node)
            if t != res:
                return t
        return Cond("%s: %r" % (name, unk)) if unk is not None else res
    if name == "isinstance":
        return isinst(ev, a0, args[1])
    if name == "hasattr":
        if isinstance(a0, Unk):
            return Cond("hasattr")
        try:
            r = ev.getattr(a0, args[1], node)
        except PyRaise as e:
            if e.name == "AttributeError":
                return False
            raise
        if isinstance(r, Unk):
            return Cond("hasattr %s" % args[1])
        if isinstance(a0, Arr):
            return args[1] in ("shape", "ndim", "size", "dtype", "T", "astype", "reshape", "flatten", "copy", "tolist", "item") \
                or (args[1] in ("detach", "cpu", "numpy") and a0.torch)
        if isinstance(a0, (int, float, F, Poly, str, list, tuple, dict)):
            return hasattr(a0 if not isinstance(a0, Poly) else 1.0, args[1])
        if isinstance(a0, (Native, Func)):
            return True
        return True
    if name == "getattr":
        try:
            return ev.getattr(a0, args[1], node)
        except PyRaise as e:
            if e.name == "AttributeError" and len(args) > 2:
                return args[2]
            raise
    if name == "setattr":
        ev.setattr(a0, args[1], args[2], node)
        return None
    if name == "callable":
        return isinstance(a0, (Func, Cls, Bound, Ext, Partial, Native, Static)) or \
            (isinstance(a0, Inst) and isinstance(a0.cls, Cls) and a0.cls.find("__call__") is not None)
    if name == "type":
        if isinstance(a0, Inst):
            return a0.cls
        for t, n in ((bool, "bool"), (int, "int"), (str, "str"), (list, "list"), (tuple, "tuple"), (dict, "dict"), ((float, F), "float")):
            if isinstance(a0, t):
                return Ext("builtins." + n)
        return Unk("type")
    if name == "print":
        return None
    if name == "slice":
        xs = list(args)
        return slice(*xs)
    if name == "open":
        p = a0.p if isinstance(a0, PathV) else a0
        if isinstance(p, str) and os.path.isabs(p) and os.path.realpath(p).startswith(os.path.realpath(ev.proj.repo) + os.sep):
            return FileV(p)
        return Unk("file")
    if name == "iter":
        return iterate(ev, a0, node)
    if name == "next":
        if isinstance(a0, list) and a0:
            return a0[0]
        if len(args) > 1:
            return args[1]
        return Unk("next")
    if name == "id" or name == "hash":
        return Unk(name)
    if name == "divmod":
        return (binop(ev, "FloorDiv", args[0], args[1], node), binop(ev, "Mod", args[0], args[1], node))
    if name == "pow":
        return binop(ev, "Pow", args[0], args[1], node)
    if name == "ord":
        return ord(a0) if isinstance(a0, str) else Unk("ord")
    if name == "chr":
        return chr(a0)
    if name == "object":
        return Inst(Ext("object"))
    if name[0].isupper():
        o = Inst(Ext("builtins." + name))
        return PyRaise(name, node)
    if name in ("vars",):
        return a0.attrs if isinstance(a0, Inst) else Unk("vars")
    return Unk("%s()" % name)


def isinst(ev, v, t):
    if isinstance(t, tuple):
        rs = [isinst(ev, v, x) for x in t]
        if True in rs:
            return True
        return next((r for r in rs if isinstance(r, Cond)), False)
    if isinstance(v, Unk):
        return Cond("isinstance of %s" % v.why)
    if isinstance(t, Cls):
        return isinstance(v, Inst) and isinstance(v.cls, Cls) and t in v.cls.mro()
    if isinstance(t, Ext):
        n = t.name.rpartition(".")[2]
        if n in ("ndarray",):
            return isinstance(v, Arr) and not v.torch
        if n in ("Tensor",):
            return isinstance(v, Arr) and v.torch
        py = {"int": (int,), "str": (str,), "list": (list,), "tuple": (tuple,), "dict": (dict,), "set": (set,), "bool": (bool,),
              "slice": (slice,), "frozenset": (frozenset,), "Mapping": (dict,), "Sequence": (list, tuple, str), "Iterable": (list, tuple, dict, set, str, Arr)}
        if n in py:
            if n == "int" and isinstance(v, Poly):
                return ev.intlike(v)
            return isinstance(v, py[n]) and not (False)
        if n in ("float", "Real", "Number", "floating", "float64"):
            if n != "float" and isinstance(v, int) and not isinstance(v, bool) and n in ("Real", "Number"):
                return True
            return isinstance(v, (float, F)) or (isinstance(v, Poly) and not ev.intlike(v))
        if n in ("integer", "int64", "int32", "Integral"):
            return isinstance(v, int) and n == "Integral"
        if n in ("generic", "number", "bool_", "complex", "complexfloating", "bytes", "Path", "PathLike", "NoneType", "Module", "partial"):
            if n == "partial":
                return isinstance(v, Partial)
            if n == "Path":
                return isinstance(v, PathV)
            return False
        if isinstance(v, Inst) and isinstance(v.cls, Cls):
            return any(b == t for c in v.cls.mro() for b in c.bases)
        if isinstance(v, (Arr, int, float, F, Poly, str, list, tuple, dict, Func)) or v is None:
            return False
        return Cond("isinstance %s" % n)
    return Cond("isinstance")


class DefaultDict(dict):
    """a dict with a default factory (collections.defaultdict, collections.Counter)"""
    factory = None


def text(ev, x, conv=115, spec=""):
    """str(x), repr(x), format(x, spec); "<?>" where the text depends on data"""
    if isinstance(x, Arr) and not x.dims:
        x = x.at(())
    if isinstance(x, Poly):
        x = x.const() if x.const() is not None else x
    if isinstance(x, F) and spec:
        x = float(x)
    if isinstance(x, (str, int, float)) or x is None:
        try:
            return format(x, spec) if spec else repr(x) if conv == 114 else str(x)
        except ValueError:
            return "<?>"
    if isinstance(x, F):
        return str(float(x))
    if isinstance(x, (list, tuple)) and not spec:
        t = [text(ev, v, 114) for v in x]
        return "[%s]" % ", ".join(t) if isinstance(x, list) else "(%s%s)" % (", ".join(t), "," if len(t) == 1 else "")
    if isinstance(x, Inst) and isinstance(x.cls, Cls) and not spec:
        for m in (["__repr__"] if conv == 114 else ["__str__", "__repr__"]):
            f = x.cls.find(m)
            if f is not None:
                t = ev.call(f, [x])
                return t if isinstance(t, str) else "<?>"
    return "<?>"


def pymethod(ev, kind, o, name, args, kw, node):
    if name in ("all", "any") and isinstance(o, (bool, Cond)) and not args and not kw:
        return o
    if kind == "str":
        if all(isinstance(a, (str, int, tuple, list)) for a in args) and not kw and hasattr(o, name):
            try:
                return getattr(o, name)(*args)
            except (ValueError, IndexError, KeyError) as e:
                raise PyRaise(type(e).__name__, node)
            except TypeError:
                if name == "join":
                    return "<?>"
                raise PyRaise("TypeError", node)
        if name == "format":
            try:
                return o.format(*[a if isinstance(a, (str, int)) else "?" for a in args],
                                **{k: v if isinstance(v, (str, int)) else "?" for k, v in kw.items()})
            except (ValueError, IndexError, KeyError):
                return "<?>"
        if name == "join":
            vs = iterate(ev, args[0], node)
            return o.join(x if isinstance(x, str) else "?" for x in vs) if not isinstance(vs, Unk) else "<?>"
        return Unk("str.%s" % name)
    if kind == "list":
        if name in ("append", "extend", "insert", "pop", "remove", "reverse", "clear", "copy", "index", "count", "sort"):
            if name == "extend":
                vs = iterate(ev, args[0], node)
                if isinstance(vs, Unk):
                    raise Unmodelled(vs.why)
                o.extend(vs)
                return None
            if name == "sort":
                try:
                    key = kw.get("key")
                    o.sort(key=(lambda x: ev.call(key, [x])) if key is not None else None, reverse=bool(kw.get("reverse")))
                except TypeError:
                    raise Unmodelled("sort")
                return None
            if name in ("index", "count"):
                hits = [i for i, x in enumerate(o) if same_value(ev, x, args[0]) is True]
                if name == "count":
                    return len(hits)
                if not hits:
                    raise PyRaise("ValueError", node)
                return hits[0]
            try:
                return getattr(o, name)(*[low(a) if is_num(a) and name != "append" else a for a in args])
            except (IndexError, ValueError) as e:
                raise PyRaise(type(e).__name__, node)
            except TypeError:
                raise PyRaise("TypeError", node)
        if name in ("astype", "copy", "tolist"):
            return list(o)
        if name == "shape":
            return (len(o),)
        raise PyRaise("AttributeError", node, msg="list.%s" % name)
    if kind == "dict" and name == "most_common" and isinstance(o, DefaultDict):
        return sorted(o.items(), key=lambda i: -i[1])[:args[0] if args else None]
    if kind == "dict":
        if name == "get":
            return ev.force(o.get(args[0], args[1] if len(args) > 1 else None))
        if name == "items":
            return [(k, ev.force(v)) for k, v in o.items()]
        if name == "values":
            return [ev.force(v) for v in o.values()]
        if name == "keys":
            return list(o.keys())
        if name == "update":
            if args:
                if isinstance(args[0], Unk):
                    raise Unmodelled(args[0].why)
                o.update(args[0] if isinstance(args[0], dict) else dict(iterate(ev, args[0], node)))
            o.update(kw)
            return None
        if name == "pop":
            if args[0] in o:
                return o.pop(args[0])
            if len(args) > 1:
                return args[1]
            raise PyRaise("KeyError", node)
        if name == "setdefault":
            return o.setdefault(args[0], args[1] if len(args) > 1 else None)
        if name == "copy":
            return dict(o)
        if name == "clear":
            o.clear()
            return None
        raise PyRaise("AttributeError", node, msg="dict.%s" % name)
    if kind == "set":
        try:
            if name in ("add", "discard", "remove", "update", "clear"):
                getattr(o, name)(*args)
                return None
            return getattr(o, name)(*[set(a) if isinstance(a, (list, tuple)) else a for a in args])
        except KeyError:
            raise PyRaise("KeyError", node)
        except (TypeError, AttributeError):
            return Unk("set.%s" % name)
    if kind == "num":
        if name in ("item", "numpy", "detach", "cpu", "astype", "copy", "float", "to", "double", "squeeze", "round"):
            return o
        if name in ("ravel", "flatten", "reshape"):
            return reshape(ev, mkarray(ev, o), [1], node)
        if name in ("any", "all", "max", "min", "sum", "mean"):
            return o
        if name == "is_integer":
            return Cond("is_integer")
        if name in ("shape",):
            return ()
        raise PyRaise("AttributeError", node, msg="number.%s" % name)
    if kind == "path":
        if name in ("exists", "is_file", "is_dir"):
            return ev.handlers["path.exists"](ev, [], {}, node) if "path.exists" in ev.handlers else Cond("exists")
        if name in ("resolve", "absolute"):
            return o
        if name == "open":
            return builtin(ev, "open", [o], {}, node)
        if name in ("mkdir", "unlink"):
            return None
        return Unk("path.%s" % name)
    if isinstance(o, Rng) and name == "index":
        return Unk("range.index")
    return Unk("%s.%s" % (kind, name))
