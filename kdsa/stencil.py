"""Stencils read off grid arrays, and the moment rule that decides them.

A routine's result is an array whose element at every position is a linear
form in samples of one field.  The element is a correct approximation of
  L = sum_b c_b D^b   (b a multi-index over the axes)
of accuracy p when, for every multi-index g with |g| <= order(L) + p - 1,
  sum_k w_k * prod_a (o_ka * h_a)^g_a / g!  =  c_g        (0 when g is not in L)
with o_k the offset of sample k and h_a the spacing: the Taylor conditions.
They are equalities of exact normal forms, for all lengths and spacings.
"""
from fractions import Fraction as F
from math import factorial
import itertools

from .algebra import Poly, NotPoly, show


def P(x):
    return Poly.c(x)


class Bad(Exception):
    """A position at which the value is not the announced stencil."""


def positions(ev, axis, rows, n=None):
    """[(label, position)] at both edges and one generic interior position."""
    n = Poly.atom(("n", axis)) if n is None else n
    if n.const() is not None:
        return [(str(k), P(k)) for k in range(int(n.const()))]
    out = [(str(k), P(k)) for k in range(rows)]
    out.append(("interior", ev.B.fresh("i" + axis, rows, n - 1 - rows)))
    out += [("n-%d" % k, n - k) for k in range(rows, 0, -1)]
    return out


def decompose(v, field, pos, axes, periodic=()):
    """{offset tuple: coefficient}; Bad when v is not a linear stencil in field."""
    parts = v.linear(lambda a: a[0] == "s" and a[1] == field)
    out = {}
    for key, c in parts.items():
        if not key:
            raise Bad("a term without any sample: %s" % short(c))
        if len(key) != 1:
            raise Bad("not linear in the samples of the field")
        (a, e), = key
        if e != 1:
            raise Bad("not linear in the samples of the field")
        off = []
        for k, ax in enumerate(axes):
            d = a[2][k] - pos[k]
            if ax in periodic and d.const() is None:
                n = Poly.atom(("n", ax))
                for q in (d + n, d - n):
                    if q.const() is not None:
                        d = q
                        break
            kc = d.const()
            if kc is None or kc.denominator != 1:
                raise Bad("sample %s[%s] is not a neighbour along %s" % (
                    field, ", ".join(show(x) for x in a[2]), ax))
            off.append(int(kc))
        if any(x[0] == "s" for x in c.atoms()):
            raise Bad("mixes samples of several fields")
        off = tuple(off)
        out[off] = out.get(off, P(0)) + c
    return {o: c for o, c in out.items() if c.t}


def sig(st, axes):
    """A readable, layout independent description of a stencil."""
    if not st:
        return "0"
    used = [k for k in range(len(axes)) if any(o[k] for o in st)] or [0]
    return " ".join("%s@%s" % (show(c).replace(" ", ""), ",".join("%s%+d" % (axes[k], o[k]) for k in used))
                    for o, c in sorted(st.items()))


def short(p, n=120):
    s = show(p)
    return s if len(s) <= n else s[:n] + "…"


def accuracy(st, axes, target, h, extra):
    """None, or the first Taylor condition that fails.
    target: {order tuple: Poly}; h: {axis: spacing Poly}."""
    order = max(sum(b) for b in target)
    used = [k for k in range(len(axes)) if any(o[k] for o in st) or any(b[k] for b in target)]
    top = order + extra
    for tot in range(top + 1):
        for g in itertools.product(range(tot + 1), repeat=len(used)):
            if sum(g) != tot:
                continue
            full = [0] * len(axes)
            for k, e in zip(used, g):
                full[k] = e
            full = tuple(full)
            acc = P(0)
            for o, c in st.items():
                w = F(1)
                for k, e in zip(used, g):
                    w *= F(o[k]) ** e if e else 1
                if w:
                    acc = acc + c * w
            fac = 1
            sp = P(1)
            for k, e in zip(used, g):
                fac *= factorial(e)
                if e:
                    sp = sp * h[axes[k]].power(e)
            acc = acc * sp * F(1, fac)
            want = target.get(full, P(0))
            if acc != want:
                return full, acc, want
    return None


def describe(axes, g):
    names = "".join(a * e for a, e in zip(axes, g))
    return "u_" + names if names else "u"


def check(ev, arr, field, axes, target, h, rows=8, extra=0, inner=0, zero_margin=0, periodic=(), order=None,
          value=None):
    """Check every position of arr.  axes: axis names of the *field* samples;
    order: axis name (or None) per dimension of arr (default axes).
    Yields (label, message, signature)."""
    order = order or axes
    diffed = {axes[k] for b in target for k, e in enumerate(b) if e}
    opts = []
    for a, n in zip(order, arr.dims):
        if a is None:
            opts.append([("0", P(0))] if n.const() == 1 else [("*", P(0))])
            continue
        want = Poly.atom(("n", a))
        if n != want:
            yield ("shape", "dimension %s has length %s" % (a, show(n)), "shape")
            return
        ps = positions(ev, a, rows)
        if a not in diffed:
            ps = [ps[0], ps[rows], ps[-1]]
        opts.append(ps)
    if len(arr.dims) != len(order):
        yield ("shape", "%d dimensions instead of %d" % (len(arr.dims), len(order)), "shape")
        return
    seen = set()
    for combo in itertools.product(*opts):
        pos = tuple(p for _, p in combo)
        bypos = {a: p for a, p in zip(order, pos) if a}
        fpos = tuple(bypos[a] for a in axes)
        label = ",".join("%s=%s" % (a, l) for a, (l, _) in zip(order, combo) if a in diffed)
        interior = all(l == "interior" for a, (l, _) in zip(order, combo) if a in diffed)
        v = arr.at(pos) if value is None else value(arr, pos)
        v = ev.B.simp(v) if isinstance(v, Poly) else v
        if not isinstance(v, Poly):
            yield (label, "the value is not determined: %r" % (v,), "unknown")
            return
        try:
            st = decompose(v, field, fpos, axes, periodic)
            if not st and zero_margin:
                m = [l for a, (l, _) in zip(order, combo) if a in diffed]
                if any(l != "interior" and _edge(l, zero_margin) for l in m):
                    continue
            bad = accuracy(st, axes, target, h, max(extra, inner) if interior or diffed <= set(periodic) else extra)
            if bad:
                g, got, want = bad
                raise Bad("on %s it gives %s, the derivative is %s" % (monomial(axes, g), short(got), short(want)))
        except Bad as e:
            s = str(e)
            if (label, s) not in seen:
                seen.add((label, s))
                try:
                    sg = sig(decompose(v, field, fpos, axes, periodic), axes)
                except Bad:
                    sg = short(v, 300)
                yield (label, s, sg)


def _edge(l, m):
    if l.startswith("n-"):
        return int(l[2:]) <= m
    return int(l) < m


def monomial(axes, g):
    fs = ["%s%s" % (a, "^%d" % e if e > 1 else "") for a, e in zip(axes, g) if e]
    f = 1
    for e in g:
        f *= factorial(e)
    return ("*".join(fs) or "1") + ("/%d" % f if f > 1 else "")
