"""C09: the left-hand side never reappears on the right in SGA.

Three parts, all by abstract interpretation (kdsa.grid) of the project's source:
A  the operator tables of a SGA context: every right-hand-side payload is an array whose elements combine samples of one single
   position along the left-hand-side axis (a difference along it would combine several), and no name denotes that axis;
B  random growth and mutation of an expression tree, followed over every random draw: the right child of a derivative is always
   one of the context's derivative axes;
C  evaluation of expression trees that do contain a derivative along the left-hand-side axis: none of them reaches the
   regression matrix."""
import itertools
from ..gridcheck import *
from ..report import AnalysisBroken, run_scenarios
from .c04 import sga_fit, P0, spread
from .. import gridlib

TREE, PDE = "kd.model.sga.sgapde.tree", "kd.model.sga.sgapde.pde"


# -- what a value is made of

def walk(v, out):
    """all atoms of a value, nested ones included"""
    if isinstance(v, Poly):
        for a in v.atoms():
            if a not in out:
                out.add(a)
                walk(a, out)
    elif isinstance(v, (tuple, list, frozenset)):
        for x in v:
            walk(x, out)
    return out


def mixed(v, axes, lhs):
    """why the value depends on the left-hand-side derivative, or None"""
    atoms = walk(v, set())
    k = axes.index(lhs)
    rows = {a[2][k] for a in atoms if a[0] == "s" and len(a[2]) == len(axes)}
    if len(rows) > 1:
        return "combines the samples at %s %s" % (lhs, " and ".join(sorted(show(r) for r in rows)[:3]))
    for a in atoms:
        if a[0] == "j" and lhs in dict(a[2]):
            return "contains the automatic derivative %s" % show(Poly.atom(a))
        if a[0] in ("d", "x0") and a[1] == lhs:
            return "contains the %s coordinate" % lhs
    return None


def places(ev, dims, tag):
    """generic interior positions and, axis by axis, the edges"""
    per = [stencil.positions(ev, "%s%d" % (tag, k), 1, d) for k, d in enumerate(dims)]
    mid = [p[len(p) // 2][1] for p in per]
    yield tuple(mid)
    for k, p in enumerate(per):
        for l, q in p:
            yield tuple(mid[:k] + [q] + mid[k + 1:])


def judge(R, name, what, arr, axes, lhs, flat=False):
    ev, sub = R.ev, R.sub
    if not isinstance(arr, Arr):
        if not isinstance(arr, (int, float, Poly)):
            R.undecided(name, "%s is %r" % (what, arr))
        return
    try:
        if flat:
            arr = gridlib.reshape(ev, arr, [N(a) for a in axes])
        for pos in places(ev, arr.dims, "g"):
            v = arr.at(pos)
            if isinstance(v, Unk):
                R.undecided(name, "%s is unknown: %s" % (what, v.why))
                return
            why = mixed(ev.B.simp(v), axes, lhs) if isinstance(v, Poly) else None
            sub.count("elements_judged")
            if why:
                sub.find("lhs-on-the-right", "%s|%s" % (name.split(":")[0], what),
                         "%s: %s %s" % (name, what, why), name)
                return
    except (Unmodelled, NotPoly) as e:
        R.undecided(name, "%s: %s" % (what, e))
        return
    sub.count("right_hand_side_arrays_judged")


# -- A: the tables

def autograd_stub(ev, fields, sp):
    """the surrogate is an unknown function of the coordinates; its exact derivatives are jets"""
    def train(ev, a, k, n):
        value = a[1] if len(a) > 1 else k["field_value"]
        probe = tuple(Poly.atom(("i", "z")) for _ in value.dims)
        fl = next(f for f in fields if value.at(probe) == Poly.atom(("s", f, probe)))

        def net(ev, a, k, n):
            z = a[-1]
            if isinstance(z, Arr) and not z.leaf and z.dims[0].const() == 1:
                return Arr(ev, [1, 1], lambda pos: Poly.atom(("v", "probe")), torch=True)
            if not isinstance(z, Arr) or not z.leaf:
                raise Unmodelled("the network is not evaluated at coordinates: %r" % (z,))
            return Arr(ev, [z.dims[0], 1], lambda pos: Poly.atom(("j", fl, ())), torch=True)
        o = stub({"to": Native(lambda ev, a, k, n: o), "eval": Native(lambda ev, a, k, n: o),
                  "modules": Native(lambda ev, a, k, n: [])})
        o.cls.attrs["__call__"] = Native(net)
        return (o, {})
    mod = ev.module("kd.model.sga.sgapde.context")
    if "train_metanet" not in mod:
        raise Unmodelled("no surrogate training found")
    mod["train_metanet"] = Native(train)


def tables(axes, legacy=False, fields=("u",), target="u", lhs="t", params=(), **kw):
    name = "SGA tables: %s" % ("legacy data" if legacy else "%s(%s)/%s%s%s" % (
        target, ",".join(axes), lhs, " of " + "+".join(fields) if len(fields) > 1 else "", " with " + ",".join(params) if params else ""))
    if kw:
        name += " " + ",".join("%s=%s" % i for i in sorted(kw.items()))

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        ev.handlers["os.path.exists"] = lambda ev, a, k, n: False
        ev.assume.append(lambda c: {"Eq": False, "NotEq": True}.get(c.op) if spread(c.a) and P0(c.b) else None)

        def th():
            if kw.get("use_autograd"):
                autograd_stub(ev, fields, None)
            if params:
                DS = ev.get("kd.dataset", "PDEDataset")
                ds = ev.call(DS, ["q"], dict(
                    fields_data={f: field(ev, f, axes) for f in fields}, coords_1d={a: coord(ev, a) for a in axes},
                    axis_order=list(axes), target_field=target, lhs_axis=lhs,
                    param_fields={p: field(ev, p, axes) for p in params}))
                m = ev.call(ev.get("kd.model.kd_sga", "KD_SGA"), [], kw)
                solver = Native(lambda ev, a, k, n: stub({"run": Native(lambda ev, a, k, n: ("eq", Poly.atom(("v", "s"))))}))
                ev.call(ev.getattr(m, "fit_dataset"), [ds], dict(solver_cls=solver))
                return ev.getattr(m, "context_")
            return sga_fit(ev, axes, legacy, fields, target, lhs, kw)
        for kind, c, taken in R.paths(name, th):
            if kind == "raise":
                sub.count("configurations_refused")
                continue
            sub.count("contexts_judged")
            forbidden = {lhs} | {x for fl in fields for x in ("%s_%s" % (fl, lhs), fl + lhs)}
            for tab in ("VARS", "den"):
                rows = ev.getattr(c, tab)
                if not isinstance(rows, list):
                    R.undecided(name, "%s is %r" % (tab, rows))
                    continue
                for r in rows:
                    entry, payload = r[0], r[2]
                    if entry in forbidden:
                        sub.find("lhs-on-the-right", "%s|%s" % (tab, name), "%s: %s offers %r" % (name, tab, entry), name)
                    sub.count("table_entries")
                    if payload is None or not isinstance(payload, Arr):
                        continue
                    judge(R, name, "%s[%r]" % (tab, entry), payload, axes, lhs)
                    if tab == "den":
                        names_axis(R, name, entry, payload, axes)
            gf = ev.getattr(c, "grad_fields")
            for key, v in sorted(gf.items()):
                judge(R, name, "grad_fields[%r]" % key, v, axes, lhs)
            judge(R, name, "default_terms", ev.getattr(c, "default_terms"), axes, lhs, flat=not kw.get("delete_edges"))
    return (name, f)


def names_axis(R, name, entry, arr, axes):
    """a denominator carries the coordinate of the axis it names"""
    ev, sub = R.ev, R.sub
    if entry not in axes:
        sub.find("denominator-is-no-axis", "%s|%s" % (name, entry), "%s: %r is offered as a denominator" % (name, entry), name)
        return
    try:
        v = arr.at(next(places(ev, arr.dims, "g")))
    except (Unmodelled, NotPoly) as e:
        return R.undecided(name, e)
    got = {a[1] for a in walk(v, set()) if a[0] == "x0"}
    if got != {entry}:
        sub.find("denominator-mislabelled", "%s|%s" % (name, entry),
                 "%s: the denominator %r carries the coordinate of %s" % (name, entry, sorted(got)), name)


# -- B: random trees

OPROWS = {"*": 2, "d": 2, "d^2": 2, "^2": 1, "+": 2, "/": 2, "-": 2, "^3": 1}


class Draws:
    """random draws followed over all their values; an endless series of redraws is cut"""
    def __init__(self, ev, cut=64):
        self.ev, self.cut = ev, cut
        self.reset()

    def reset(self):
        self.last, self.n = None, 0

    def pick(self, n, node):
        if node is not None and node is self.last:
            self.n += 1
        else:
            self.last, self.n = node, 0
        if self.n > self.cut:
            raise PyRaise(CUT, node)
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.ev.choose("draw"):
                lo = mid + 1
            else:
                hi = mid
        return lo

    def randint(self, ev, a, k, node):
        lo = a[0] if a else k.get("low", 0)
        hi = a[1] if len(a) > 1 else k.get("high")
        if hi is None:
            lo, hi = 0, lo
        lo, hi = (int(P(x).const()) if not isinstance(x, int) else x for x in (lo, hi))
        if hi <= lo:
            raise PyRaise("ValueError", node)
        return lo + self.pick(hi - lo, node)

    def random(self, ev, a, k, node):
        return Poly.atom(("v", "p%d" % next(COUNT)))

    def choice(self, ev, a, k, node):
        xs = a[0]
        if isinstance(xs, int):
            xs = list(range(xs))
        if not isinstance(xs, list) or (len(a) > 1 and a[1] is not None) or k.get("size") is not None:
            raise Unmodelled("choice of %r" % (xs,))
        self.last = None
        return xs[self.pick(len(xs), None)]

    def install(self):
        h = self.ev.handlers
        for mod in ("numpy.random", "random"):
            h[mod + ".randint"] = self.randint
            h[mod + ".random"] = self.random
            h[mod + ".choice"] = self.choice
        h["numpy.random.rand"] = h["numpy.random.uniform"] = h["random.uniform"] = self.random


COUNT = itertools.count()


def table(*names):
    return [[n, OPROWS.get(n, 0), "payload " + n] for n in names]


def stub_context(ev, variables, den, ops, root, simple=False, lhs="t"):
    two = [o for o in ops if OPROWS[o] == 2]
    one = [o for o in ops if OPROWS[o] == 1]
    axes = [lhs] + list(den)
    return stub(dict(VARS=table(*variables), den=table(*den), OPS=table(*ops), ROOT=table(*root), OP1=table(*one), OP2=table(*two),
                     ALL=table(*ops, *variables), simple_mode=simple, lhs_axis=lhs, axis_order=axes,
                     axis_map={a: k for k, a in enumerate(axes)}, target_field="u"), "Context")


def badly(ev, tree, den):
    """the first derivative node whose right child is no derivative axis"""
    rows = ev.getattr(tree, "tree")
    n = 0
    for d, row in enumerate(rows):
        for nd in row:
            if ev.getattr(nd, "name") in ("d", "d^2"):
                st = ev.getattr(nd, "child_st")
                n += 1
                right = ev.getattr(rows[d + 1][st + 1], "name") if st is not None and d + 1 < len(rows) and st + 1 < len(rows[d + 1]) else None
                if right not in den:
                    return n, "%s(.., %s) at depth %d" % (ev.getattr(nd, "name"), right, d)
    return n, None


def spell(ev, tree, d=0, i=0):
    rows = ev.getattr(tree, "tree")
    nd = rows[d][i]
    ch = ev.getattr(nd, "child_num")
    st = ev.getattr(nd, "child_st")
    return ev.getattr(nd, "name") + ("(%s)" % ", ".join(spell(ev, tree, d + 1, st + j) for j in range(ch)) if ch and st is not None else "")


def grow(root, depth, variables, den, ops):
    name = "grown tree: root %s, depth %d, variables %s, denominators %s, operators %s" % (
        root, depth, " ".join(variables), " ".join(den), " ".join(ops))

    def f(sub, proj=None, mod=TREE):
        R = Runner(sub, proj)
        ev = R.ev
        dr = Draws(ev)
        dr.install()

        def th():
            dr.reset()
            c = stub_context(ev, variables, den, ops, [root])
            return ev.call(ev.get(mod, "Tree"), [c, depth, Poly.atom(("v", "p_var"))])
        trees(R, name, th, den, "grown")
    return (name, f)


def trees(R, name, th, den, how):
    ev, sub = R.ev, R.sub
    for kind, t, taken in R.paths(name, th):
        if kind == "raise":
            continue
        n, bad = badly(ev, t, den)
        sub.count("trees_judged")
        sub.count("derivative_nodes", n)
        if bad:
            sub.find("derivative-by-no-axis", "%s|%s" % (how, name), "a %s tree has %s: %s" % (how, bad, spell(ev, t)), name)


def build(ev, mod, depth, expr):
    """an expression as a Tree: nested tuples (name, child, ...)"""
    cls = ev.get(mod, "Node")
    rows = [[] for _ in range(depth)]

    def make(e, d, parent):
        nm, ch = (e[0], e[1:]) if isinstance(e, tuple) else (e, ())
        rows[d].append((nm, ch, parent))
    make(expr, 0, None)
    out = []
    for d in range(depth):
        row = []
        for i, (nm, ch, parent) in enumerate(rows[d]):
            st = len(rows[d + 1]) if ch else None
            for c in ch:
                make(c, d + 1, i)
            row.append((nm, ch, parent, st))
        out.append(row)
    return out


def node_of(ev, mod, d, i, row, payload):
    nm, ch, parent, st = row
    return ev.call(ev.get(mod, "Node"), [], dict(depth=d, idx=i, parent_idx=parent, name=nm, full=[nm, len(ch), payload(nm, ch)],
                                                  child_num=len(ch), child_st=0 if st is None and d == 0 else st, var=payload(nm, ch)))


def as_tree(ev, mod, depth, expr, payload):
    rows = [[node_of(ev, mod, d, i, r, payload) for i, r in enumerate(row)] for d, row in enumerate(build(ev, mod, depth, expr))]
    cls = ev.get(mod, "Tree")
    t = Inst(cls)
    t.attrs.update(max_depth=depth, tree=rows, preorder="", inorder="")
    return t


def mutate(expr, variables, den, ops, simple=False):
    name = "mutated tree: %s, variables %s, denominators %s, operators %s%s" % (
        expr, " ".join(variables), " ".join(den), " ".join(ops), ", simple mode" if simple else "")
    depth = deep(expr)

    def f(sub, proj=None, mod=TREE):
        R = Runner(sub, proj)
        ev = R.ev
        dr = Draws(ev, 0)       # a rejected draw is drawn again from the same table: one redraw covers every later one
        R.maxpaths = 4000
        dr.install()

        def th():
            dr.reset()
            c = stub_context(ev, variables, den, ops, ["*"], simple)
            t = as_tree(ev, mod, depth, expr, lambda nm, ch: "payload " + nm)
            ev.call(ev.getattr(t, "mutate"), [c, Poly.atom(("v", "p_mute"))])
            return t
        trees(R, name, th, den, "mutated")
    return (name, f)


def deep(e):
    return 1 + max(map(deep, e[1:])) if isinstance(e, tuple) else 1


# -- C: evaluation

def has_lhs(e, lhs):
    return isinstance(e, tuple) and ((e[0] in ("d", "d^2") and e[2] == lhs) or any(has_lhs(c, lhs) for c in e[1:]))


def evaluated(axes, lhs, exprs, is_term, fields=("u",)):
    name = "evaluated equation on %s/%s%s: %s" % (",".join(axes), lhs, " (terms)" if is_term else "", "; ".join(text(e) for e in exprs))

    def f(sub, proj=None, mod=PDE):
        R = Runner(sub, proj)
        ev = R.ev
        got = []

        def train(ev, a, k, n):
            got.append(a[0] if a else k.get("R"))
            w = Arr(ev, [got[-1].dims[1], 1], lambda pos: Poly.atom(("s", "w", (pos[0],))))
            return w, Poly.atom(("v", "loss")), Poly.atom(("v", "mse")), Poly.atom(("v", "aic"))

        def th():
            del got[:]
            c = sga_fit(ev, axes, False, fields, fields[0], lhs, {})
            payload = {r[0]: r[2] for t in ("OPS", "VARS") for r in ev.getattr(c, t)}
            payload[lhs] = coord(ev, lhs)
            m = ev.module(mod)
            if "Train" not in m:
                raise Unmodelled("no regression found in %s" % mod)
            m["Train"] = Native(train)
            ts = [as_tree(ev, TREE, max(deep(e), 2) + 1, e, lambda nm, ch: payload[nm]) for e in exprs]
            box = list(ts)
            a_pde = box if is_term else stub({"elements": box, "W": len(box)}, "PDE")
            ev.handlers.update(GENERIC)
            try:
                r = ev.call(ev.get(mod, "evaluate_mse"), [a_pde, c, is_term], {"return_matrix": True})
            finally:
                for h in GENERIC:
                    del ev.handlers[h]
            return ts, box, list(got), r
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                sub.count("evaluations_refused")
                continue
            ts, box, mats, r = v
            sub.count("evaluations_judged")
            for t, e in zip(ts, exprs):
                if any(t is b for b in box):
                    sub.count("terms_kept")
                    if has_lhs(e, lhs):
                        sub.find("lhs-term-kept", "evaluation|%s|%s" % (name, text(e)),
                                 "%s: the term %s stays in the equation" % (name, text(e)), name)
                elif has_lhs(e, lhs):
                    sub.count("terms_refused")
            for mat in mats + [x for x in (r if isinstance(r, (tuple, list)) else []) if isinstance(x, Arr) and len(x.dims) == 2]:
                if mat is not None and isinstance(mat, Arr) and mat.dims[1].const() is not None and mat.dims[0].const() is None:
                    for j in range(int(mat.dims[1].const())):
                        judge(R, name, "column %d of the regression matrix" % j, Arr(
                            ev, [mat.dims[0]], lambda pos, j=j: mat.at((pos[0], P(j)))), axes, lhs, flat=True)
    return (name, f)


# generic data: no term vanishes identically, none overflows and no denominator vanishes
GENERIC = {"builtins.any": lambda ev, a, k, n: True, "numpy.any": lambda ev, a, k, n: True,
           "numpy.isfinite": lambda ev, a, k, n: [True], "numpy.allclose": lambda ev, a, k, n: False,
           "inspect.isfunction": lambda ev, a, k, n: isinstance(a[0], Func),
           "os.getenv": lambda ev, a, k, n: a[1] if len(a) > 1 else k.get("default")}


SELF = """
import numpy as np

class Node:
    def __init__(self, depth, idx, parent_idx, name, full, child_num, child_st, var):
        self.depth, self.idx, self.parent_idx, self.name = depth, idx, parent_idx, name
        self.full, self.child_num, self.child_st, self.var, self.cache = full, child_num, child_st, var, var

class Tree:
    def __init__(self, context, depth, p):
        root = context.ROOT[0]
        self.tree = [[Node(0, 0, None, root[0], root, root[1], 0, root[2])], []]
        for j in range(root[1]):
            n = context.VARS[np.random.randint(0, len(context.VARS))]
            self.tree[1].append(Node(1, j, 0, n[0], n, 0, None, n[2]))

    def mutate(self, context, p):
        for j in range(2):
            if np.random.choice([True, False]):
                n = context.VARS[np.random.randint(0, len(context.VARS))]
                self.tree[1][j] = Node(1, j, 0, n[0], n, 0, None, n[2])

def Train(m, ut, lam, tol, ratio):
    raise NotImplementedError

def evaluate_mse(pde, context, is_term=False, *, return_matrix=False):
    terms = pde if is_term else pde.elements
    cols = []
    for t in terms:
        a, b = t.tree[1]
        cols.append(t.tree[0][0].var(a.var, context.delta[b.name], context.axis_map[b.name]).reshape(-1, 1))
    m = np.hstack([context.default_terms] + cols)
    w, loss, mse, aic = Train(m, context.ut, 0, 1, 1)
    return (terms, w, m) if is_term else (aic, w, m)
"""


def selftest():
    from ..selftest import Overlay
    from ..report import Ctx
    proj, mod = Overlay(PROJECT(), "kd._kdsa_sga", SELF), "kd._kdsa_sga"
    jobs = [(grow("d", 2, ("u", "x"), ("x",), ("*",))[1], "grown"), (mutate(("d", "u", "x"), ("u", "x"), ("x",), ("*",))[1], "mutated"),
            (evaluated(["x", "t"], "t", [("d", "u", "t"), ("d", "u", "x")], False)[1], "stays"),
            (evaluated(["x", "t"], "t", [("d", "u", "t"), ("d", "u", "x")], True)[1], "combines the samples"),
            (evaluated(["x", "t"], "t", [("d", "u", "x")], True)[1], None)]
    for f, want in jobs:
        sub = Ctx("C09")
        sub.seen = set()
        f(sub, proj, mod)
        msgs = [v["message"] for v in sub.findings.values()]
        if sub.counts.get("undecided") or not all(want and True for _ in msgs) or (want and not any(want in m for m in msgs)):
            raise AnalysisBroken("C09 self-test: wanted %r, got %s %s" % (want, msgs[:3], sub.notes[:2]))


def text(e):
    return "%s(%s)" % (e[0], ", ".join(text(c) for c in e[1:])) if isinstance(e, tuple) else e


# -- enumeration

def all_tasks(thorough):
    T = [tables(["x", "t"], legacy=True), tables(["x", "t"], legacy=True, delete_edges=True), tables(["x", "t"], legacy=True, use_autograd=True)]
    for axes, lhs in (("xt", "t"), ("xt", "x"), ("tx", "t"), ("tx", "x"), ("xy", "y"), ("xy", "x"), ("yt", "t"), ("yt", "y"), ("txy", "t"),
                      ("xyt", "y"), ("ytx", "x"), ("tzyx", "t"), ("tzyx", "z"), ("yz", "z")):
        T.append(tables(list(axes), fields=("u", "v"), lhs=lhs))
        T.append(tables(list(axes), fields=("u", "v"), target="v", lhs=lhs))
        T.append(tables(list(axes), params=("k",), lhs=lhs))
        T.append(tables(list(axes), lhs=lhs, use_autograd=True))
        T.append(tables(list(axes), fields=("u", "v"), target="v", lhs=lhs, use_autograd=True))
        if "x" in axes and len(axes) == 2:
            T.append(tables(list(axes), fields=("u", "v"), lhs=lhs, delete_edges=True))
        for a in axes:
            if len(axes) > 2:
                T.append(tables(list(axes), lhs=lhs, primary_spatial_axis=a))
    if thorough:
        for axes in itertools.chain(itertools.permutations("txy"), itertools.permutations("txyz"), itertools.permutations("xyz")):
            for lhs in axes:
                T.append(tables(list(axes), fields=("u", "v"), target="v", lhs=lhs))
                T.append(tables(list(axes), fields=("u", "v"), target="v", lhs=lhs, use_autograd=True))
    for root in ("*", "d", "d^2", "^2"):
        for den in (("x",), ("x", "y")):
            T.append(grow(root, 2, ("u", "x"), den, ("*", "d")))
            T.append(grow(root, 3, ("u", "x"), den, ("+", "d", "d^2", "^2")))
        T.append(grow(root, 4, ("u",), ("x",), ("d", "^2")))
    if thorough:
        T += [grow("*", 4, ("u",), ("x",), ("d", "^2", "+")), grow("d", 4, ("u", "x"), ("x", "y"), ("d", "^2")),
              grow("^2", 5, ("u",), ("x",), ("d", "^2"))]
    for expr in (("*", "u", "x"), ("d", "u", "x"), ("^2", "u"), ("d^2", ("*", "u", "x"), "x"), ("*", ("d", "u", "x"), "u"),
                 ("*", ("*", "u", "x"), "u"), ("^2", ("*", "u", "x")), ("d", ("*", "u", "x"), "x"), ("*", "u", ("+", "u", "u")),
                 ("^2", ("d", "u", "x"))):
        for den in (("x",), ("x", "y")):
            for simple in (True, False):
                T.append(mutate(expr, ("u", "u_x") + den if thorough or len(den) == 1 else ("u",) + den, den,
                                ("*", "d", "d^2", "^2", "^3") if thorough or len(den) == 1 else ("*", "d", "^2", "^3"), simple))
    if thorough:
        for expr in (("*", ("d", "u", "x"), ("*", "u", "x")), ("d", ("d", "u", "x"), "x"), ("^2", ("*", ("^2", "x"), "x"))):
            T.append(mutate(expr, ("u", "x"), ("x",), ("*", "d", "^2", "^3"), True))
    good = [("d", "u", "{s}"), ("*", "u", ("d", "u", "{s}"))]
    bad = [("d", "u", "{l}"), ("d^2", "u", "{l}"), ("*", "u", ("d", "u", "{l}")), ("^2", ("d", "u", "{l}")), ("d", ("d", "u", "{l}"), "{s}"),
           ("d", ("d", "u", "{s}"), "{l}"), ("*", ("d", "u", "{l}"), ("d", "u", "{s}")), ("*", ("d", "u", "{s}"), ("d", "u", "{l}")),
           ("d", ("*", "u", "u"), "{l}"), ("*", "u", ("*", "u", ("d^2", "u", "{l}"))), ("/", "u", ("d", "u", "{l}"))]
    for axes, lhs, s in (("xt", "t", "x"), ("tx", "t", "x"), ("tx", "x", "t"), ("txy", "t", "y"), ("xyt", "y", "x")):
        fill = lambda e: tuple(fill(c) for c in e) if isinstance(e, tuple) else e.format(s=s, l=lhs)
        for is_term in (False, True):
            for b in bad if len(axes) < 3 or thorough else bad[::3]:
                for seq in ([b, good[0]], [good[1], b], [good[0], b, good[1]], [b, b, good[0]]) if thorough else ([b, good[0]], [good[1], b, b]):
                    T.append(evaluated(list(axes), lhs, [fill(e) for e in seq], is_term))
            T.append(evaluated(list(axes), lhs, [fill(e) for e in bad + good], is_term))
            T.append(evaluated(list(axes), lhs, [fill(e) for e in good], is_term))
    return T


def run(ctx):
    ctx.rule("operator tables: KD_SGA's context is built by abstract interpretation for each enumerated configuration; every element of every "
             "right-hand-side array must combine field samples of a single position along the left-hand-side axis (no difference along it), no "
             "automatic derivative along it and not its coordinate, and no entry may be named after it")
    ctx.rule("growth and mutation: the random draws are followed over all their values (a rejected draw is followed once more); in every "
             "resulting tree the right child of d and d^2 must be one of the context's derivative axes")
    ctx.rule("evaluation: equations whose terms contain a derivative along the left-hand-side axis are evaluated; no such term may stay in the "
             "equation and no column of the regression matrix may combine several positions along that axis")
    ctx.assumptions += ["trees up to the enumerated depth and operator tables up to the enumerated size stand for all; the growth and mutation "
                        "code looks at names only", "data are generic: no term vanishes identically and no denominator is zero",
                        "a parameter field is the user's own data and may hold anything"]
    selftest()
    tasks = all_tasks(ctx.thorough)
    run_scenarios(ctx, tasks)
    ctx.floor("contexts_judged", 60)
    ctx.floor("right_hand_side_arrays_judged", 900)
    ctx.floor("derivative_nodes", 2000)
    ctx.floor("terms_kept", 100)
    ctx.floor("terms_refused", 150)
    for n, _ in tasks[::11]:
        ctx.sample(n)
