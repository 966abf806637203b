"""Exact polynomial normal forms.

A Poly is a finite sum of rational multiples of monomials; a monomial is a
product of atoms with integer or rational exponents.  Atoms are hashable
tuples whose first item says what they stand for:

  ('n', k)            length of grid axis k
  ('i', id)           generic row / loop position
  ('d', k)            spacing of grid axis k
  ('x0', k)           origin of grid axis k
  ('s', field, idx)   grid sample: idx is a tuple of Poly positions
  ('j', field, ix)    jet variable: ix is a sorted tuple of (coordinate, order)
  ('c', name)         coordinate
  ('p', Poly)         a sum raised to a power that does not expand
  ('f', name, args)   an elementary function applied to Polys
  ('v', name)         a named unknown
"""
from fractions import Fraction as F


class NotPoly(Exception):
    pass


_ONE = frozenset()


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms
        self._h = None

    # -- construction
    @staticmethod
    def c(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, float):
            if x != x or x in (float("inf"), float("-inf")):
                raise NotPoly("non-finite constant")
            x = F(repr(x))
        if not isinstance(x, (int, F)):
            raise NotPoly(repr(x))
        return Poly({_ONE: F(x)} if x else {})

    @staticmethod
    def atom(a, e=1):
        return Poly({frozenset([(a, F(e))]): F(1)})

    # -- identity
    def __eq__(self, o):
        if not isinstance(o, Poly):
            try:
                o = Poly.c(o)
            except NotPoly:
                return NotImplemented
        return self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def const(self):
        """Fraction when constant, else None."""
        if not self.t:
            return F(0)
        if len(self.t) == 1 and _ONE in self.t:
            return self.t[_ONE]
        return None

    # -- arithmetic
    def __add__(self, o):
        o = Poly.c(o)
        t = dict(self.t)
        for m, c in o.t.items():
            r = t.get(m, 0) + c
            if r:
                t[m] = r
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.c(o))

    def __rsub__(self, o):
        return Poly.c(o) + (-self)

    def __mul__(self, o):
        o = Poly.c(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                r = t.get(m, 0) + c1 * c2
                if r:
                    t[m] = r
                else:
                    t.pop(m, None)
        return Poly(t)

    __rmul__ = __mul__

    def inv(self):
        return self.power(F(-1))

    def __truediv__(self, o):
        return self * Poly.c(o).inv()

    def __rtruediv__(self, o):
        return Poly.c(o) * self.inv()

    def power(self, e):
        if isinstance(e, Poly):
            k = e.const()
            if k is None:
                return fn("pow", self, e)
            e = k
        if isinstance(e, float):
            e = F(repr(e))
        e = F(e)
        if e == 0:
            return Poly.c(1)
        if e == 1:
            return self
        if e.denominator == 1 and e > 0 and e <= 12:
            out = Poly.c(1)
            for _ in range(int(e)):
                out = out * self
            return out
        if not self.t:
            if e < 0:
                raise NotPoly("division by zero")
            return self
        if len(self.t) == 1 and e.denominator == 1:
            (m, c), = self.t.items()
            return Poly({frozenset((a, x * e) for a, x in m): F(c) ** int(e)})
        k = self.const()
        if k is not None and e.denominator != 1:
            return fn("pow", self, Poly.c(e))
        return Poly.atom(("p", self), e)

    # -- queries
    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def linear(self, sel):
        """{key monomial: coefficient Poly} splitting out atoms chosen by sel."""
        out = {}
        for m, c in self.t.items():
            key = frozenset((a, e) for a, e in m if sel(a))
            rest = frozenset((a, e) for a, e in m if not sel(a))
            out.setdefault(key, Poly({}))
            out[key] = out[key] + Poly({rest: c})
        return out

    def subst(self, mp):
        """Replace atoms by Polys (recursively inside sample indices and functions)."""
        out = Poly({})
        for m, c in self.t.items():
            r = Poly({_ONE: c})
            for a, e in m:
                r = r * subst_atom(a, mp).power(e)
            out = out + r
        return out

    def __repr__(self):
        return show(self)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        r = d.get(k, 0) + e
        if r:
            d[k] = r
        else:
            d.pop(k, None)
    return frozenset(d.items())


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    k = a[0]
    if k == "s":
        return Poly.atom(("s", a[1], tuple(x.subst(mp) for x in a[2])))
    if k == "e":
        return a[1](tuple(x.subst(mp) for x in a[2]))
    if k == "p":
        return a[1].subst(mp)
    if k == "f":
        return fn(a[1], *[x.subst(mp) for x in a[2]])
    if k == "interp":
        return Poly.atom((k, tuple(x.subst(mp) for x in a[1]), tuple(x.subst(mp) for x in a[2]), a[3].subst(mp)))
    if k in ("fdiv", "fmod"):
        return (fdiv if k == "fdiv" else fmod)(a[1].subst(mp), a[2].subst(mp))
    return Poly.atom(a)


def fdiv(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly) and a.const() is not None and b.const():
        return Poly.c(a.const() // b.const())
    return Poly.atom(("fdiv", a, b))


def fmod(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly) and a.const() is not None and b.const():
        return Poly.c(a.const() % b.const())
    return Poly.atom(("fmod", a, b))


_EVEN = {"cos", "abs", "cosh"}
_ODD = {"sin", "tan", "sinh", "tanh"}


def fn(name, *args):
    args = tuple(Poly.c(a) for a in args)
    if name == "exp" and args[0].const() == 0:
        return Poly.c(1)
    if name == "log" and args[0].const() == 1:
        return Poly.c(0)
    if name == "abs":
        k = args[0].const()
        if k is not None:
            return Poly.c(abs(k))
    if name in ("max", "min"):
        ks = [a.const() for a in args]
        if all(k is not None for k in ks):
            return Poly.c(max(ks) if name == "max" else min(ks))
        args = tuple(sorted(args, key=show))
    if name == "sqrt":
        name, args = "pow", (args[0], Poly.c(F(1, 2)))
    if name in _EVEN or name in _ODD:
        # canonical sign: f(-a) is ±f(a)
        if args[0].t and _lead(args[0]) < 0:
            r = Poly.atom(("f", name, (-args[0],)))
            return r if name in _EVEN else -r
    return Poly.atom(("f", name, args))


def _lead(p):
    return min(((show(Poly({m: F(1)})), c) for m, c in p.t.items()))[1]


def diff(p, ax):
    """Derivative along coordinate ax (jets, coordinates, functions)."""
    out = Poly({})
    for m, c in p.t.items():
        for a, e in m:
            d = datom(a, ax)
            if not d.t:
                continue
            rest = dict(m)
            if e == 1:
                rest.pop(a)
            else:
                rest[a] = e - 1
            out = out + Poly({frozenset(rest.items()): c * e}) * d
    return out


# values of a whole array: constants with respect to the coordinates of one point
REDUCED = {"mean", "std", "var", "max", "min", "sum", "median", "quantile", "percentile", "prod", "norm"}


def datom(a, ax):
    k = a[0]
    if k == "j":
        ix = dict(a[2])
        ix[ax] = ix.get(ax, 0) + 1
        return Poly.atom(("j", a[1], tuple(sorted(ix.items()))))
    if k in ("c", "x0"):
        return Poly.c(1 if a[1] == ax else 0)
    if k == "p":
        return diff(a[1], ax)
    if k == "f" and a[1].split("(")[0] in REDUCED:
        return Poly({})
    if k == "f":
        name, args = a[1], a[2]
        x = args[0]
        dx = diff(x, ax)
        if name == "pow":
            y = args[1]
            if y.const() is None:
                raise NotPoly("derivative of a variable power")
            if not dx.t:
                return dx
            return y * fn("pow", x, y - 1) * dx if (y - 1).const() != 0 else y * dx
        if not any(diff(y, ax).t for y in args):
            return Poly({})
        t = {
            "exp": lambda: fn("exp", x),
            "log": lambda: x.inv(),
            "sin": lambda: fn("cos", x),
            "cos": lambda: -fn("sin", x),
            "tan": lambda: 1 + fn("tan", x).power(2),
            "sinh": lambda: fn("cosh", x),
            "cosh": lambda: fn("sinh", x),
            "tanh": lambda: 1 - fn("tanh", x).power(2),
            "abs": lambda: fn("sign", x),
        }.get(name)
        if t is None:
            return fn("D" + name, *args) * dx
        return t() * dx
    return Poly({})


def jet(field, **order):
    return Poly.atom(("j", field, tuple(sorted((k, v) for k, v in order.items() if v))))


def show_atom(a):
    k = a[0]
    if k == "n":
        return "n_%s" % a[1]
    if k == "i":
        return "%s" % a[1]
    if k == "d":
        return "d%s" % a[1]
    if k == "x0":
        return "%s0" % a[1]
    if k == "s":
        return "%s[%s]" % (a[1], ",".join(show(x) for x in a[2]))
    if k == "j":
        return a[1] + ("_" + "".join(x * o for x, o in a[2]) if a[2] else "")
    if k == "c":
        return str(a[1])
    if k == "e":
        return "element[%s]" % ",".join(show(x) for x in a[2])
    if k == "p":
        return "(%s)" % show(a[1])
    if k == "f":
        return "%s(%s)" % (a[1], ", ".join(show(x) for x in a[2]))
    if k == "interp":
        return "interp(%s at %s)" % (show(a[3]), ", ".join(show(x) for x in a[2]))
    if k in ("fdiv", "fmod"):
        return "(%s %s %s)" % (show(a[1]), "//" if k == "fdiv" else "%", show(a[2]))
    return "_".join(str(x) for x in a[1:])


def show(p):
    out = []
    for m, c in p.t.items():
        fs = sorted(show_atom(a) + ("" if e == 1 else "^%s" % e) for a, e in m)
        s = "*".join(fs)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(sorted(out)).replace("+ -", "- ") if out else "0"


class Bounds:
    """Sign decisions under: every ('n', k) >= big, every ('i', id) in a range."""

    def __init__(self, big=64):
        self.big = big
        self.ranges = {}
        self._memo = {}

    def fresh(self, name, lo, hi):
        a = ("i", name)
        n = 1
        while a in self.ranges:
            n += 1
            a = ("i", "%s%d" % (name, n))
        self.ranges[a] = (Poly.c(lo), Poly.c(hi))
        return Poly.atom(a)

    def _lower(self, p):
        """A lower bound test: True when p >= 0 for all admissible values."""
        q = p
        for _ in range(6):      # (a - k + 1)/k <= a // k <= a/k for a constant k > 0
            fd = next((a for a in sorted(q.atoms(), key=str) if a[0] == "fdiv"), None)
            if fd is None:
                break
            k = fd[2].const()
            parts = q.linear(lambda a, fd=fd: a == fd)
            c0 = parts.pop(frozenset(), Poly({}))
            c1 = parts.pop(frozenset([(fd, F(1))]), Poly({})).const()
            if parts or k is None or k <= 0 or k.denominator != 1 or c1 is None:
                return False
            q = c0 + (fd[1] if c1 < 0 else fd[1] - (k - 1)) * (c1 / k)
        for _ in range(12):
            iv = next((a for a in sorted(q.atoms(), key=str) if a[0] == "i" and a in self.ranges), None)
            if iv is None:
                break
            parts = q.linear(lambda a, iv=iv: a == iv)
            c0 = parts.pop(frozenset(), Poly({}))
            c1 = parts.pop(frozenset([(iv, F(1))]), Poly({}))
            if parts:
                return False
            lo, hi = self.ranges[iv]
            if self._npos(c1):
                q = c0 + c1 * lo
            elif self._npos(-c1):
                q = c0 + c1 * hi
            else:
                return False
        return self._npos(q)

    def _npos(self, q):
        """q over length atoms only: every coefficient of q(big + m) is >= 0."""
        if any(a[0] != "n" for a in q.atoms()):
            return False
        if any(e.denominator != 1 or e < 0 for m in q.t for _, e in m):
            return False
        r = q.subst({a: Poly.atom(a) + self.big for a in q.atoms()})
        return all(c >= 0 for c in r.t.values())

    def sign(self, p):
        """'+', '-', '0', '>=', '<=' or None."""
        p = Poly.c(p)
        k = p.const()
        if k is not None:
            return "0" if k == 0 else "+" if k > 0 else "-"
        if p in self._memo:
            return self._memo[p]
        if self._lower(p - 1):
            r = "+"
        elif self._lower(-p - 1):
            r = "-"
        elif self._lower(p):
            r = ">="
        elif self._lower(-p):
            r = "<="
        else:
            r = None
        self._memo[p] = r
        return r

    def simp(self, p):
        """Simplify integer division and remainder atoms that the ranges decide."""
        mp = {}
        for a in p.atoms():
            if a[0] in ("fdiv", "fmod"):
                num, den = self.simp(a[1]), self.simp(a[2])
                q = self._split(num, den)
                if q is not None:
                    mp[a] = q[0] if a[0] == "fdiv" else q[1]
                elif (num, den) != (a[1], a[2]):
                    mp[a] = (fdiv if a[0] == "fdiv" else fmod)(num, den)
            elif a[0] == "s":
                t = tuple(self.simp(x) for x in a[2])
                if t != a[2]:
                    mp[a] = Poly.atom(("s", a[1], t))
        return p.subst(mp) if mp else p

    def _split(self, num, den):
        if len(den.t) != 1:
            return None
        (dm, dc), = den.t.items()
        if dc != 1:
            return None
        if not dm:
            return num, Poly({})
        quo, rem = Poly({}), Poly({})
        for m, c in num.t.items():
            d = dict(m)
            ok = all(d.get(a, 0) >= e for a, e in dm)
            if ok:
                for a, e in dm:
                    d[a] -= e
                    if not d[a]:
                        del d[a]
                quo = quo + Poly({frozenset(d.items()): c})
            else:
                rem = rem + Poly({m: c})
        if self.sign(rem) in ("0", "+", ">=") and self.sign(den - rem) == "+":
            return quo, rem
        if self.sign(rem) in ("-", "<=") and self.sign(den + rem) in ("0", "+", ">="):
            return quo - 1, rem + den
        return None
