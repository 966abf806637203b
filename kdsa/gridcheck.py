"""Shared pieces of the checks that use the abstract evaluator (kdsa.grid)."""
import ast
from .grid import Ev, Arr, Inst, Cls, Native, Unk, Unmodelled, Undecided, PyRaise, P, Ext, Func, Bound, low, Static
from .algebra import Poly, NotPoly, show, fn
from . import stencil
from .worlds import PROJECT

AX = "txyz"
CUT = "_redraw"     # raised by a model of random draws: the path only repeats a draw that was already followed
H = {a: Poly.atom(("d", a)) for a in "txyz"}


def N(a):
    return Poly.atom(("n", a))


def field(ev, name, axes, dims=None):
    """The samples of a field on the grid: element [i,...] is the atom name[i,...]."""
    return Arr(ev, [N(a) for a in axes] if dims is None else dims,
               lambda pos: Poly.atom(("s", name, tuple(pos))))


def coord(ev, a, col=False):
    """The equispaced coordinate vector of an axis."""
    x0, d = Poly.atom(("x0", a)), Poly.atom(("d", a))
    return Arr(ev, [N(a), 1] if col else [N(a)], lambda pos: x0 + pos[0] * d)


def stub(d, name="Stub"):
    o = Inst(Cls(name, "stub", [], {}, None))
    o.attrs.update(d)
    if isinstance(d.get("__call__"), Native):
        o.cls.attrs["__call__"] = Static(d["__call__"], "static")
    return o


class Runner:
    """Evaluates one routine on every data dependent path and records what was decided."""
    def __init__(self, sub, proj=None):
        self.sub = sub
        self.ev = Ev(proj or PROJECT())
        self.single = False
        self.maxpaths = None
        self.always = ()        # exceptions handed over on data dependent paths too
        self.strict = False     # raise statements are handed over on data dependent paths too

    def paths(self, name, thunk, must=True):
        """Values of thunk, one per path that returns.  A routine that leaves the model is undecided."""
        ev, sub = self.ev, self.sub
        sub.count("routines_evaluated")
        try:
            res = ev.explore(thunk, self.maxpaths) if self.maxpaths else ev.explore(thunk)
        except (Unmodelled, NotPoly, RecursionError) as e:
            self.undecided(name, e)
            return
        finally:
            sub.seen |= {"%s.%s" % t for t in ev.trace}
            sub.count("call_evaluations", ev.sites)
            ev.sites = 0
        sub.count("paths_followed", len(res))
        self.single = len(res) == 1
        for (kind, v), taken in res:
            if kind == "raise" and v.name == CUT:
                sub.count("redraws_cut")
            elif kind == "raise":
                if must and explicit(v) and not taken or v.name in self.always or self.strict and explicit(v):
                    yield ("raise", v, taken)
                elif explicit(v):
                    sub.count("rejecting_paths")
                else:
                    self.undecided(name, "raises %s %s" % (v, v.msg or ""))
            else:
                yield ("ok", v, taken)

    def undecided(self, name, why):
        self.sub.count("undecided")
        self.sub.notes.append("undecided: %s: %s" % (name, str(why)[:160]))


def explicit(x):
    return isinstance(x.node, ast.Raise) or x.name in ("NameError", "UnboundLocalError", "TypingError")


def where(v):
    n = v.node
    return "%s:%s" % (v.where or "?", getattr(n, "lineno", "?"))
