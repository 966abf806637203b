"""Least squares on opaque samples.

The samples of the library are opaque and few (a handful of rows), so a matrix is a table of expressions.  A fit is not computed: the
solution of a least squares problem is named by the problem it solves - which vectors are fitted, and to which - and is known to follow the
scale of its columns: the coefficient of s*X is 1/s times the coefficient of X.  So a coefficient can be compared with the term it is
reported for."""
from .gridcheck import *
from .algebra import F
from .gridlib import call as general, compare, fshape, iterate


def column(A, j, n):
    return [P(low(A.at((Poly.c(i), Poly.c(j))))) for i in range(n)]


class Fits:
    """`named`: {name: list of elements}; a column that is not a multiple of a named vector gets a name of its own."""

    def __init__(self, ev):
        self.ev = ev
        self.named = {}
        self.reset()

    def reset(self):
        self.extra, self.log, self.known = {}, [], {}

    def order(self, c):
        """two values compare the same way whenever they are compared; the case of equality is left out"""
        op, a, b = c.op, c.a, c.b
        if op == "not" and isinstance(a, Cond):
            r = self.order(a)
            return None if r is None else not r
        if op in ("Eq", "NotEq"):
            return op == "NotEq"        # generic values differ
        if op not in ("Lt", "LtE", "Gt", "GtE") or a is None or b is None:
            return None
        a, b = P(a), P(b)
        less = op in ("Lt", "LtE")
        for (x, y), v in self.known.items():
            if x == a and y == b:
                return v == less
            if x == b and y == a:
                return v != less
        v = self.ev.choose("less")
        self.known[(a, b)] = v
        return v == less

    def name(self, xs):
        """(name, scale): the vector is scale * named vector"""
        for nm, ys in self.named.items():
            if len(ys) != len(xs):
                continue
            k = next((i for i, y in enumerate(ys) if y.const() != 0), None)
            if k is None:
                continue
            try:
                s = xs[k] / ys[k]
            except Exception:
                continue
            if s.const() == 0:
                continue
            if all(x == s * y for x, y in zip(xs, ys)):
                return nm, s
        key = tuple(xs)
        if key not in self.extra:
            self.extra[key] = "vector %d" % (len(self.extra) + 1)
        return self.extra[key], P(1)

    def coef(self, j, cols, y, kind="fit"):
        return Poly.atom(("s", "%s(%s | %s ~ %s)" % (kind, j, y, ",".join(sorted(cols))), ()))

    def lstsq(self, A, y, node):
        ev = self.ev
        sa, sy = fshape(A) if isinstance(A, Arr) else None, fshape(y) if isinstance(y, Arr) else None
        if sa is None or sy is None or len(sa) != 2:
            raise Unmodelled("least squares of %r and %r" % (A, y))
        if sa[0] != sy[0]:
            raise PyRaise("LinAlgError", node, msg="%d and %d rows" % (sa[0], sy[0]))
        n, d = sa
        ys = [P(low(y.at((Poly.c(i), Poly.c(0)) if len(sy) == 2 else (Poly.c(i),)))) for i in range(n)]
        if len(sy) == 2 and sy[1] != 1:
            raise Unmodelled("several right-hand sides")
        nms = [self.name(column(A, j, n)) for j in range(d)]
        yn, ysc = self.name(ys)
        names = [a for a, _ in nms]
        if len(set(names)) < d:
            raise Unmodelled("dependent columns")
        self.log.append((tuple(names), yn))
        w = [self.coef(nm, names, yn) * ysc / s for nm, s in nms]
        return vec(ev, w, len(sy) == 2)


def vec(ev, xs, col=False):
    xs = [P(x) for x in xs]

    def at(pos):
        k = P(pos[0]).const()
        if k is None:
            raise Undecided("symbolic index into a table")
        return xs[int(k)]
    return Arr(ev, [len(xs), 1] if col else [len(xs)], at)


def table(ev, rows):
    rows = [[P(x) for x in r] for r in rows]

    def at(pos):
        i, j = P(pos[0]).const(), P(pos[1]).const()
        if i is None or j is None:
            raise Undecided("symbolic index into a table")
        return rows[int(i)][int(j)]
    return Arr(ev, [len(rows), len(rows[0]) if rows else 0], at)


def install(ev):
    """returns the Fits of the evaluator; handlers for least squares, norms and positions of a mask"""
    f = Fits(ev)
    ev.assume.append(f.order)
    H = ev.handlers

    def lstsq(ev_, a, k, node):
        w = f.lstsq(a[0] if a else k.get("a"), a[1] if len(a) > 1 else k.get("b"), node)
        return (w, Unk("residuals of a fit"), Unk("rank"), Unk("singular values"))
    H["torch.is_tensor"] = lambda ev_, a, k, n: isinstance(a[0], Arr) and bool(a[0].torch)
    H["numpy.real_if_close"] = lambda ev_, a, k, n: a[0]
    H["numpy.linalg.lstsq"] = H["scipy.linalg.lstsq"] = lstsq

    def norm(ev_, a, k, node):
        x = a[0]
        sh = fshape(x) if isinstance(x, Arr) else None
        if sh is None:
            return general(ev, "numpy.linalg.norm", a, k, node)
        import itertools
        xs = [P(low(x.at(tuple(Poly.c(i) for i in p)))) for p in itertools.product(*[range(m) for m in sh])]
        o = a[1] if len(a) > 1 else k.get("ord", 2)
        o = 2 if o is None else o
        return Poly.atom(("f", "norm%s" % (low(o),), tuple(xs)))
    H["numpy.linalg.norm"] = norm

    def svd(ev_, a, k, node):
        A = a[0]
        sh = fshape(A) if isinstance(A, Arr) else None
        if sh is None or len(sh) != 2:
            return general(ev, "numpy.linalg.svd", a, k, node)
        names = [f.name(column(A, j, sh[0])) for j in range(sh[1])]
        f.log.append((tuple(x for x, _ in names), None))
        r = min(sh)
        tag = ",".join(x for x, _ in names)
        # the rows of v are the right singular vectors, smallest singular value last
        vt = [[Poly.atom(("s", "singular%d(%s | %s)" % (i, names[j][0], tag), ())) for j in range(sh[1])] for i in range(r)]
        return (Unk("left singular vectors"), Unk("singular values"), table(ev, vt))
    H["numpy.linalg.svd"] = H["scipy.linalg.svd"] = svd

    def positions(last):
        def h(ev_, a, k, node):
            if len(a) != 1:
                return general(ev, "numpy." + last, a, k, node)
            x = a[0]
            sh = fshape(x) if isinstance(x, Arr) else None
            if sh is None:
                return general(ev, "numpy." + last, a, k, node)
            import itertools
            hits = []
            for p in itertools.product(*[range(m) for m in sh]):
                t = x.at(tuple(Poly.c(i) for i in p))
                if not isinstance(t, bool):
                    t = ev.truth(t if isinstance(t, Cond) else low(t), "mask", node)
                if t:
                    hits.append(p)
            if last == "flatnonzero":
                out = []
                for p in hits:
                    q = 0
                    for i, m in zip(p, sh):
                        q = q * m + i
                    out.append(q)
                return vec(ev, out)
            if last == "argwhere":
                return table(ev, hits) if hits else Arr(ev, [0, len(sh)], lambda pos: P(0))
            return tuple(vec(ev, [p[i] for p in hits]) for i in range(len(sh)))
        return h
    def number(x):
        x = low(x)
        if isinstance(x, Arr):
            if any(d.const() != 1 for d in x.dims):
                raise Unmodelled("comparison of arrays")
            x = low(x.at((Poly.c(0),) * x.ndim))
        return P(x)

    def less(x, y):
        if isinstance(x, (tuple, list)):
            for p, q in zip(x, y):
                if isinstance(p, str) or not (number(p) == number(q)):
                    return p < q if isinstance(p, str) else less(p, q)
            return False
        x, y = number(x), number(y)
        if x == y:
            return False
        return ev.truth(compare(ev, "Lt", x, y, None), "less")

    def extreme(last):
        def h(ev_, a, k, node):
            xs = list(iterate(ev, a[0], node)) if len(a) == 1 else list(a)
            key = k.get("key")
            try:
                vals = [ev.call(key, [x], {}, node) if key is not None else x for x in xs]
                best = 0
                for i in range(1, len(vals)):
                    if less(vals[i], vals[best]) if last == "min" else less(vals[best], vals[i]):
                        best = i
                return xs[best]
            except (Unmodelled, NotPoly, AttributeError, TypeError):
                return general(ev, "builtins." + last, a, k, node)
        return h
    H["builtins.min"], H["builtins.max"] = extreme("min"), extreme("max")

    def arg(last):
        def h(ev_, a, k, node):
            x = a[0]
            xs = list(x) if isinstance(x, (list, tuple)) else None
            if isinstance(x, Arr) and fshape(x) is not None and x.ndim == 1:
                xs = [x.at((Poly.c(i),)) for i in range(fshape(x)[0])]
            if not xs:
                return general(ev, "numpy." + last, a, k, node)
            best = 0
            for i in range(1, len(xs)):
                if less(xs[i], xs[best]) if last == "argmin" else less(xs[best], xs[i]):
                    best = i
            return best
        return h
    for last in ("argmin", "argmax"):
        H["numpy." + last] = H["arr." + last] = arg(last)
    for last in ("where", "nonzero", "flatnonzero", "argwhere"):
        H["numpy." + last] = positions(last)
    return f
from .grid import Cond
