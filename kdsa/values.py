"""Abstract values.  A value (Val) is a frozenset of atoms (kind, payload, labels).
Labels starting with '@' are alias labels (the value may share storage with the labelled
origin); other labels are dependence labels (the value was computed from the origin)."""
from collections import namedtuple

Atom = namedtuple("Atom", "k p l")
NOL = frozenset()
Arr = namedtuple("Arr", "axes tag")      # axes: None or tuple of tuples of factors


def mk(k, p=None, l=NOL):
    return frozenset((Atom(k, p, l),))


def C(v, l=NOL):
    return mk("const", (type(v).__name__, v), l)


def TOP(l=NOL):
    return mk("top", None, l)


def EXT(name, l=NOL):
    return mk("ext", name, l)


def TUP(vals, l=NOL):
    return mk("tup", tuple(vals), l)


def SYM(name, l=NOL):
    return mk("sym", ((((name,), 1),)), l)


def ARR(axes=None, tag=None, l=NOL):
    return mk("arr", Arr(axes, tag), l)


NONE = C(None)
BOOL = C(True) | C(False)
EMPTY = frozenset()


def labels(v):
    out = set()
    for a in v:
        out |= a.l
        if a.k == "tup":
            for x in a.p:
                out |= labels(x)
        elif a.k == "meth":
            out |= a.p[0].l
    return frozenset(out)


def dep(ls):
    return frozenset(x for x in ls if not x.startswith("@"))


def alias(ls):
    return frozenset(x for x in ls if x.startswith("@"))


def relabel(v, extra=NOL, drop_alias=False):
    if not extra and not drop_alias:
        return v
    out = set()
    for a in v:
        l = dep(a.l) if drop_alias else a.l
        if a.k in ("const", "fn", "cls", "mod", "bound"):
            out.add(Atom(a.k, a.p, l | dep(extra)))
        else:
            out.add(Atom(a.k, a.p, l | extra))
    return frozenset(out)


def consts(v):
    """list of python constants if every atom is a constant, else None"""
    out = []
    for a in v:
        if a.k != "const":
            return None
        out.append(a.p[1])
    return out


def const1(v, default=None):
    if len(v) == 1:
        (a,) = v
        if a.k == "const":
            return a.p[1]
    return default


def is_const(v):
    return len(v) >= 1 and all(a.k == "const" for a in v)


# ---- symbolic integers: tuple of (monomial(tuple of names), coef), sorted
def poly_norm(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c != 0)))


def to_poly(a):
    if a.k == "sym":
        return dict(a.p)
    if a.k == "const" and isinstance(a.p[1], int) and not isinstance(a.p[1], bool):
        return {(): a.p[1]} if a.p[1] else {}
    return None


def from_poly(d, l=NOL):
    n = poly_norm(d)
    if not n:
        return Atom("const", ("int", 0), l)
    if len(n) == 1 and n[0][0] == ():
        return Atom("const", ("int", n[0][1]), l)
    return Atom("sym", n, l)


def poly_op(op, x, y):
    if op in ("+", "-"):
        d = dict(x)
        for m, c in y.items():
            d[m] = d.get(m, 0) + (c if op == "+" else -c)
        return {m: c for m, c in d.items() if c}
    if op == "*":
        d = {}
        for m, c in x.items():
            for m2, c2 in y.items():
                k = tuple(sorted(m + m2))
                d[k] = d.get(k, 0) + c * c2
        return {m: c for m, c in d.items() if c}
    return None


def key_val(k):
    """the value a stored dictionary key stands for"""
    if isinstance(k, tuple):
        return TUP([key_val(q) for q in k])
    if getattr(k, "is_key_class", False):
        return mk("cls", k)
    return C(k)


def describe(v, n=4):
    out = []
    for a in list(v)[:n]:
        if a.k == "const":
            out.append(repr(a.p[1]))
        elif a.k == "arr":
            out.append("array%s" % (a.p.axes,))
        else:
            out.append("%s:%s" % (a.k, str(a.p)[:60]))
    return "{" + ", ".join(out) + ("..." if len(v) > n else "") + "}"


# results of library calls that are objects: never None, always true
OBJECTS = {"matplotlib.pyplot.figure()", "builtins.open()"}
