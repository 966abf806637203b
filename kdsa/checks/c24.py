"""C24: random variation keeps candidates well formed, and always finishes.

The growth, mutation, replacement and crossover of candidates is followed over every value of every random draw by abstract
interpretation of the source; candidates are small, their operands opaque.  A draw that is rejected and drawn again is followed by a
fair series of draws: when every option of the table has been rejected, the loop cannot end."""
import itertools
from ..gridcheck import *
from ..worlds import PROJECT
from ..report import AnalysisBroken, run_scenarios
from ..grid import low, Method
from .. import gridlib, ranks
from .c04 import sga_fit, spread, P0
from .c09 import Draws, OPROWS, stub_context, as_tree, build, deep, text, GENERIC

TREE, PDE, DLGA, PROG = "kd.model.sga.sgapde.tree", "kd.model.sga.sgapde.pde", "kd.model.dlga", "kd.model.discover.program"
ENDLESS = "_endless"
MUTE = Poly.atom(("v", "p_mute"))


class Fair(Draws):
    """every draw forks over all its values; a draw repeated at the same place is given every value in turn, and when all of them are
    rejected the path ends as endless (a value accepted after a rejection is accepted on another path without one)"""
    def __init__(self, ev, free=0):
        super().__init__(ev)
        self.free = free
        self.budget = None      # how many nodes mutate on one path

    def reset(self):
        self.last, self.n, self.turn, self.spent = None, 0, None, 0

    def pick(self, n, node):
        if n == 1 and node is None:
            return 0
        same = node is not None and node is self.last
        if self.turn is not None and not same:
            raise PyRaise(CUT, node)
        if same:
            self.n += 1
            if self.n > self.free:
                self.turn = 0 if self.turn is None else self.turn + 1
                if self.turn > 2 * n + 2:
                    raise PyRaise(ENDLESS, node)
                return self.turn % n
        else:
            self.last, self.n = node, 0
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.ev.choose("draw"):
                lo = mid + 1
            else:
                hi = mid
        return lo

    def other(self):
        if self.turn is not None:
            raise PyRaise(CUT, None)
        self.last = None

    def random(self, ev, a, k, node):
        self.other()
        return Poly.atom(("v", "p%d" % next(COUNT)))

    def choice(self, ev, a, k, node):
        xs = a[0]
        if isinstance(xs, int):
            xs = list(range(xs))
        size = k.get("size", a[1] if len(a) > 1 else None)
        if not isinstance(xs, list):
            raise Unmodelled("choice of %r" % (xs,))
        self.other()
        p = k.get("p", a[3] if len(a) > 3 else None)
        if self.budget is not None and isinstance(p, list) and len(p) == 2 and len(xs) == 2:
            rare = [i for i in (0, 1) if isinstance(low(p[i]), Poly) and low(p[i]) == MUTE]
            if len(rare) == 1:
                if self.spent >= self.budget:
                    return xs[1 - rare[0]]
                i = self.pick(2, None)
                self.spent += i == rare[0]
                return xs[i]
        if size is None:
            return xs[self.pick(len(xs), None)]
        size = low(size)
        if not isinstance(size, int):
            raise Unmodelled("choice of %r values" % (size,))
        return [xs[self.pick(len(xs), None)] for _ in range(size)]

    def inclusive(self, ev, a, k, node):
        lo, hi = (int(P(x).const()) for x in a[:2])
        if hi < lo:
            raise PyRaise("ValueError", node)
        return lo + self.pick(hi - lo + 1, node)

    def finish(self, v):
        if self.turn is not None:
            raise PyRaise(CUT, None)
        return v

    def install(self):
        super().install()
        h = self.ev.handlers
        h["random.randint"] = self.inclusive
        h["random.randrange"] = self.randint
        h["numpy.random.random_sample"] = h["numpy.random.ranf"] = self.random


COUNT = itertools.count()


def judge_paths(R, name, th, kinds, use):
    """follow all paths; a path that cannot end or fails is a finding"""
    R.always, R.strict = (ENDLESS, "IndexError", "ValueError"), True
    for kind, v, taken in R.paths(name, th):
        if kind == "raise":
            if v.name == ENDLESS:
                R.sub.find("never-finishes", kinds, "%s: every option is rejected and drawn again at %s" % (name, where(v)), name)
            elif v.name != CUT:
                R.sub.find("variation-fails", kinds, "%s: raises %s at %s" % (name, v, where(v)), name)
            continue
        use(v)


# -- SGA trees

def shape(ev, tree, rows_of):
    """what is wrong with a tree, or None"""
    rows = ev.getattr(tree, "tree")
    if not isinstance(rows, list) or not all(isinstance(r, list) for r in rows):
        raise Unmodelled("a tree whose rows are %r" % (rows,))
    if len(rows[0]) != 1:
        return "has %d roots" % len(rows[0])
    for d, row in enumerate(rows):
        taken = []
        below = len(rows[d + 1]) if d + 1 < len(rows) else 0
        for nd in row:
            nm, full, cn, st, var = (ev.getattr(nd, x) for x in ("name", "full", "child_num", "child_st", "var"))
            cn = low(cn)
            if nm not in rows_of:
                return "has a node %r that no table offers" % (nm,)
            if full[0] != nm:
                return "has a node %r described as %r" % (nm, full[0])
            if cn != rows_of[nm][1]:
                return "has a node %r with %s children" % (nm, cn)
            if var != rows_of[nm][2]:
                return "has a node %r that computes %r" % (nm, var)
            if cn:
                st = low(st) if st is not None else None
                if not isinstance(st, int) or st + cn > below:
                    return "has a node %r at depth %d whose children start at %s of %d" % (nm, d, st, below)
                taken += range(st, st + cn)
        if len(set(taken)) != len(taken):
            return "has two nodes at depth %d that share a child" % d
        if set(taken) != set(range(below)):
            return "has nodes at depth %d that belong to no operator" % (d + 1)
    return None


def spelled(ev, tree):
    rows = ev.getattr(tree, "tree")

    def pre(d, i):
        nd = rows[d][i]
        out = [ev.getattr(nd, "name")]
        st = ev.getattr(nd, "child_st")
        for j in range(low(ev.getattr(nd, "child_num"))):
            out += pre(d + 1, low(st) + j)
        return out

    def inn(d, i):
        nd = rows[d][i]
        nm, n = ev.getattr(nd, "name"), low(ev.getattr(nd, "child_num"))
        st = ev.getattr(nd, "child_st")
        ch = [inn(d + 1, low(st) + j) for j in range(n)]
        return [nm] if not n else [nm] + ch[0] if n == 1 else ch[0] + [nm] + ch[1]
    return pre(0, 0), inn(0, 0)


def words(s):
    return s.replace("(", " ").replace(")", " ").split()


def tree_ok(R, name, ev, tree, rows_of, how):
    sub = R.sub
    sub.count("trees_judged")
    bad = shape(ev, tree, rows_of)
    if bad:
        sub.find("malformed", "%s tree" % how, "%s: a %s tree %s" % (name, how, bad), name)
        return
    pre, inn = spelled(ev, tree)
    for attr, want in (("preorder", pre), ("inorder", inn)):
        got = ev.getattr(tree, attr)
        if not isinstance(got, str):
            R.undecided(name, "%s is %r" % (attr, got))
        elif words(got) != want:
            sub.find("misspelled", "%s of a %s tree" % (attr, how), "%s: a %s tree reads %r as %s, which is not %s" % (
                name, how, got, attr, " ".join(want)), name)
        else:
            sub.count("texts_judged")


def tables_of(ev, c):
    out = {}
    for t in ("VARS", "den", "OPS", "ROOT", "OP1", "OP2"):
        for r in ev.getattr(c, t):
            out[r[0]] = r
    return out


def grown(root, depth, variables, den, ops):
    name = "grown tree: root %s, depth %d, variables %s, denominators %s, operators %s" % (
        root, depth, " ".join(variables), " ".join(den), " ".join(ops))

    def f(sub, proj=None, mod=TREE):
        R = Runner(sub, proj)
        R.maxpaths = 20000
        ev = R.ev
        dr = Fair(ev, 64)
        dr.install()

        def th():
            dr.reset()
            c = stub_context(ev, variables, den, ops, [root])
            t = ev.call(ev.get(mod, "Tree"), [c, depth, Poly.atom(("v", "p_var"))])
            return dr.finish((c, t))
        judge_paths(R, name, th, "growing a tree", lambda v: tree_ok(R, name, ev, v[1], tables_of(ev, v[0]), "grown"))
    return (name, f)


def mutated(expr, variables, den, ops, simple, spare=0):
    name = "mutated tree: %s, variables %s, denominators %s, operators %s%s%s" % (
        text(expr), " ".join(variables), " ".join(den), " ".join(ops), ", simple mode" if simple else "", ", %d spare rows" % spare if spare else "")

    def f(sub, proj=None, mod=TREE):
        R = Runner(sub, proj)
        R.maxpaths = 20000
        ev = R.ev
        dr = Fair(ev)
        dr.install()

        def th():
            dr.reset()
            c = stub_context(ev, variables, den, ops, ["*"], simple)
            t = as_tree(ev, mod, deep(expr) + spare, expr, lambda nm, ch: "payload " + nm)
            ev.call(ev.getattr(t, "mutate"), [c, MUTE])
            return dr.finish((c, t))
        judge_paths(R, name, th, "mutating a tree", lambda v: tree_ok(R, name, ev, v[1], tables_of(ev, v[0]), "mutated"))
    return (name, f)


def real_tables(axes, lhs, **kw):
    """mutation with the operator tables KD_SGA really builds: it must finish"""
    name = "mutation with the tables of %s/%s%s" % (",".join(axes), lhs, " " + ",".join("%s=%s" % i for i in sorted(kw.items())) if kw else "")

    def f(sub, proj=None):
        R = Runner(sub, proj)
        R.maxpaths = 20000
        ev = R.ev
        ev.handlers["os.path.exists"] = lambda ev, a, k, n: False
        ev.assume.append(lambda c: {"Eq": False, "NotEq": True}.get(c.op) if spread(c.a) and P0(c.b) else None)
        got = []

        def th():
            c = sga_fit(ev, list(axes), False, ("u",), "u", lhs, kw)
            return {t: [(r[0], int(P(r[1]).const())) for r in ev.getattr(c, t)] for t in ("VARS", "den", "OPS", "ROOT", "OP1", "OP2")}, \
                ev.getattr(c, "simple_mode")
        for kind, v, taken in R.paths(name + ": tables", th):
            if kind != "raise" and v not in got:
                got.append(v)
        for tabs, simple in got:
            dr = Fair(ev)
            den = tabs["den"][0][0]
            two = [nm for nm, k in tabs["OP2"]]
            one = [nm for nm, k in tabs["OP1"]]
            dr.budget = 2 if ctx_thorough(sub) else 1
            exprs = [("*", "u", "u"), ("*", "u", den), ("d", "u", den), ("*", (one[0], "u") if one else "u", den), ("d", ("*", den, "u"), den),
                     ("*", ("d^2", "u", den), ("d", "u", den))]
            for e in exprs:
                if isinstance(e, tuple) and e[0] not in two + one:
                    continue
                nm = "%s: %s" % (name, text(e))

                def th2():
                    dr.install()
                    dr.reset()
                    tab = {t: [[a, k, "payload " + a] for a, k in rows] for t, rows in tabs.items()}
                    c = stub(dict(tab, simple_mode=simple, lhs_axis=lhs), "Context")
                    t = as_tree(ev, TREE, deep(e), e, lambda nm, ch: "payload " + nm)
                    ev.call(ev.getattr(t, "mutate"), [c, MUTE])
                    return dr.finish((c, t))

                def use(v):
                    rows = tables_of(ev, v[0])
                    rows.setdefault("u", ["u", 0, "payload u"])
                    tree_ok(R, nm, ev, v[1], rows, "mutated")
                judge_paths(R, nm, th2, "mutating a tree", use)
            sub.count("contexts_judged")
    return (name, f)


def ctx_thorough(sub):
    return getattr(sub, "thorough", False)


# -- SGA equations

def pde(act, width, bad=0):
    name = "SGA equation of up to %d terms: %s%s" % (width, act, ", %d terms that cannot be evaluated" % bad if bad else "")

    def f(sub, proj=None, mod=PDE):
        R = Runner(sub, proj)
        R.maxpaths = 20000
        ev = R.ev
        dr = Fair(ev)
        dr.install()
        made = itertools.count()

        def tree(ev, a, k, n):
            t = stub({"preorder": "T", "inorder": "T%d" % next(made)}, "Tree")
            t.cls.attrs["mutate"] = Method(lambda ev, a, k, n: None)
            return t

        def th():
            dr.reset()
            m = ev.module(mod)
            if "Tree" not in m:
                raise Unmodelled("no Tree in %s" % mod)
            m["Tree"] = Native(tree)
            p = ev.call(ev.get(mod, "PDE"), [stub({}, "Context"), 3, width, Poly.atom(("v", "p_var"))])
            before = len(ev.getattr(p, "elements"))
            if act == "replace":
                ev.call(ev.getattr(p, "replace"), [])
            elif act == "mutate":
                ev.call(ev.getattr(p, "mutate"), [MUTE])
            return dr.finish((p, before))

        def use(v):
            p, before = v
            els, w = ev.getattr(p, "elements"), low(ev.getattr(p, "W"))
            sub.count("equations_judged")
            if not isinstance(els, list) or not isinstance(w, int):
                return R.undecided(name, "elements %r, width %r" % (els, w))
            if w != len(els):
                sub.find("width", "width after %s" % act, "%s: %d terms, but a width of %d" % (name, len(els), w), name)
            if not 1 <= len(els) <= width:
                sub.find("width", "terms after %s" % act, "%s: %d terms" % (name, len(els)), name)
            if len(els) != before:
                sub.find("width", "terms after %s" % act, "%s: %d terms became %d" % (name, before, len(els)), name)
            if any(a is b for a, b in itertools.combinations(els, 2)):
                sub.find("shared-term", "terms after %s" % act, "%s: one term stands for two" % name, name)
        judge_paths(R, name, th, "equation: " + act, use)
    return (name, f)


def evaluated(axes, lhs, exprs):
    """after evaluation the width is the number of terms left, and they are the valid ones, in order"""
    name = "evaluated equation on %s/%s: %s" % (",".join(axes), lhs, "; ".join(text(e) for e in exprs))

    def f(sub, proj=None, mod=PDE):
        R = Runner(sub, proj)
        ev = R.ev

        def train(ev, a, k, n):
            w = Arr(ev, [a[0].dims[1], 1], lambda pos: Poly.atom(("s", "w", (pos[0],))))
            return w, Poly.atom(("v", "loss")), Poly.atom(("v", "mse")), Poly.atom(("v", "aic"))

        def th():
            c = sga_fit(ev, axes, False, ("u",), "u", lhs, {})
            payload = {r[0]: r[2] for t in ("OPS", "VARS") for r in ev.getattr(c, t)}
            payload[lhs] = coord(ev, lhs)
            m = ev.module(mod)
            if "Train" not in m:
                raise Unmodelled("no regression found in %s" % mod)
            m["Train"] = Native(train)
            ts = [as_tree(ev, TREE, max(deep(e), 2) + 1, e, lambda nm, ch: payload[nm]) for e in exprs]
            p = stub({"elements": list(ts), "W": len(ts)}, "PDE")
            ev.handlers.update(GENERIC)
            try:
                r = ev.call(ev.get(mod, "evaluate_mse"), [p, c, False], {"return_matrix": True})
            finally:
                for h in GENERIC:
                    del ev.handlers[h]
            return ts, p, r
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                continue
            ts, p, r = v
            els, w = ev.getattr(p, "elements"), low(ev.getattr(p, "W"))
            sub.count("equations_judged")
            if w != len(els):
                sub.find("width", "width after evaluation", "%s: %d terms, but a width of %s" % (name, len(els), w), name)
            want = [t for t, e in zip(ts, exprs) if not lhs_in(e, lhs)]
            if len(want) != len(els) or any(a is not b for a, b in zip(want, els)):
                names = ["; ".join(text(e) for t, e in zip(ts, exprs) if any(t is x for x in xs)) for xs in (els, want)]
                sub.find("wrong-term", "terms after evaluation", "%s: keeps %s, the valid terms are %s" % (name, names[0], names[1]), name)
    return (name, f)


def lhs_in(e, lhs):
    return isinstance(e, tuple) and (e[0] in ("d", "d^2") and e[2] == lhs or any(lhs_in(c, lhs) for c in e[1:]))


# -- DLGA

def chromosomes(d, ev):
    pop = ev.getattr(d, "Chrom")
    if not isinstance(pop, list) or not all(isinstance(c, list) and all(isinstance(m, list) for m in c) for c in pop):
        raise Unmodelled("population %r" % (pop,))
    return [[[low(g) for g in m] for m in c] for c in pop]


def genome(name, pop, act, cut=4, gens=None, **more):
    name = "DLGA %s" % name

    def f(sub, proj=None, mod=DLGA):
        R = Runner(sub, proj)
        R.maxpaths = 20000
        ev = R.ev
        dr = Fair(ev, cut)
        dr.install()
        ev.assume.append(lambda c: {"Lt": False, "LtE": False, "Gt": True, "GtE": True}.get(c.op)
                         if isinstance(c.a, Poly) and not isinstance(low(c.b), Poly) and low(c.b) == 0 else None)     # a chance of nothing

        def th():
            dr.reset()
            D = ev.get(mod, "DLGA")
            d = Inst(D)
            size = len(pop)
            attrs = dict(pop_size=size, n_generations=size if gens is None else gens, max_length=2, epi=Poly.atom(("v", "epi")),
                         fitness_history=[], evolution_history=[], Fitness=[])
            for r in ("partial_prob", "genes_prob", "mutate_rate", "delete_rate", "add_rate"):
                attrs[r] = Poly.atom(("v", r))
            attrs.update(more)
            d.attrs.update(attrs, Chrom=[[list(m) for m in c] for c in pop])
            out = act(ev, d)
            return dr.finish((d, out, chromosomes(d, ev)))

        def use(v):
            d, out, got = v
            sub.count("populations_judged")
            extra = [out] if isinstance(out, list) and out and all(isinstance(m, list) for m in out) and not isinstance(
                (out[0] or [0])[0], list) else []
            if len(got) != len(pop):
                sub.find("population-size", name, "%s: %d chromosomes became %d" % (name, len(pop), len(got)), name)
            for c in got + [[[low(g) for g in m] for m in e] for e in extra]:
                if not c or not all(c):
                    sub.find("malformed", name, "%s: a chromosome %s without %s" % (name, c, "modules" if not c else "genes"), name)
                for g in (g for m in c for g in m):
                    if g not in (0, 1, 2, 3):
                        sub.find("malformed", name, "%s: a gene %s, which is no right-hand-side column (0..3)" % (name, g), name)
            if "duplicates" in name:
                for c, before in zip(got, pop):
                    want = []
                    for m in before:
                        if sorted(m) not in want:
                            want.append(sorted(m))
                    if [sorted(m) for m in c] != want:
                        sub.find("malformed", name, "%s: %s became %s" % (name, before, c), name)
            if "crossover" in name:
                if sorted(m for c in got for m in map(tuple, c)) != sorted(m for c in pop for m in map(tuple, c)) or \
                        [len(c) for c in got] != [len(c) for c in pop]:
                    sub.find("malformed", name, "%s: crossover must exchange modules, %s became %s" % (name, pop, got), name)
            ids = [id(m) for c in ev.getattr(d, "Chrom") for m in c]
            if len(set(ids)) != len(ids):
                sub.find("shared-term", name, "%s: one module stands in two places" % name, name)
        judge_paths(R, name, th, name, use)
    return (name, f)


def call(meth):
    def act(ev, d):
        return ev.call(ev.getattr(d, meth), [])
    return act


# -- DISCOVER

def finished(arities):
    name = "DISCOVER program of tokens with arities %s" % " ".join(map(str, arities))

    def f(sub, proj=None, mod=PROG):
        R = Runner(sub, proj)
        ev = R.ev
        dr = Fair(ev, 64)
        dr.install()
        ranks.install(ev)

        def th():
            dr.reset()
            lib = stub({"arities": ranks.vec(ev, [0, 0, 1, 2]), "input_tokens": [0, 1]}, "Library")
            Pg = ev.get(mod, "Program")
            Pg.attrs.update(library=lib, n_objects=1)
            toks = [{0: 1, 1: 2, 2: 3}[a] for a in arities]
            arr = ranks.vec(ev, toks)
            return dr.finish((toks, ev.call(ev.get(mod, "_finish_tokens"), [arr])))

        def use(v):
            toks, out = v
            got = out if isinstance(out, list) else [low(out.at((Poly.c(i),))) for i in range(int(out.dims[0].const()))] if isinstance(out, Arr) else None
            if got is None or not all(isinstance(g, int) for g in got):
                return R.undecided(name, "gives %r" % (out,))
            sub.count("programs_judged")
            ar = {0: 0, 1: 0, 2: 1, 3: 2}
            open_, cut = 1, None
            for i, t in enumerate(got):
                open_ += ar[t] - 1
                if open_ == 0 and cut is None:
                    cut = i + 1
            k = min(len(got), len(toks))
            if got[:k] != toks[:k]:
                sub.find("malformed", "tokens", "%s: %s became %s" % (name, toks, got), name)
            if cut is None:
                sub.find("malformed", "tokens", "%s: %s became %s, which is no complete expression" % (name, toks, got), name)
            elif cut < len(got):
                sub.find("malformed", "tokens", "%s: %s became %s, which is complete after %d tokens" % (name, toks, got, cut), name)
        judge_paths(R, name, th, "finishing a program", use)
    return (name, f)


SELF = """
import numpy as np

class Node:
    def __init__(self, depth, idx, parent_idx, name, full, child_num, child_st, var):
        self.depth, self.idx, self.parent_idx, self.name = depth, idx, parent_idx, name
        self.full, self.child_num, self.child_st, self.var = full, child_num, child_st, var

class Tree:
    def __init__(self, context, depth, p):
        self.max_depth = depth
        root = context.ROOT[0]
        self.tree = [[Node(0, 0, None, root[0], root, root[1], 0, root[2])], []]
        for j in range(root[1]):
            n = context.VARS[np.random.randint(0, len(context.VARS))]
            self.tree[1].append(Node(1, j, 0, n[0], n, 0, None, n[2]))
        self.write()

    def write(self):
        names = [n.name for n in self.tree[1]]
        self.preorder = " ".join([self.tree[0][0].name] + names)
        self.inorder = "(" + names[0] + " " + self.tree[0][0].name + " " + names[1] + ")"

    def mutate(self, context, p):
        for j in range(len(self.tree[1])):
            if np.random.choice([True, False], p=[1 - p, p]):
                continue
            n = context.VARS[np.random.randint(0, len(context.VARS))]
            while %(reject)s:
                n = context.VARS[np.random.randint(0, len(context.VARS))]
            self.tree[1][j] = Node(1, j, 0, n[0], n, 0, None, %(var)s)
        %(last)s
"""


def selftest():
    from ..selftest import Overlay
    from ..report import Ctx
    good = dict(reject="n[0] == self.tree[1][j].name", var="n[2]", last="self.write()")
    for change, want in (({}, None), ({"reject": "n[0] in ('u', 'x')"}, "drawn again"), ({"var": "n[0]"}, "that computes"),
                         ({"last": "pass"}, "which is not"), ({"last": "self.tree[1].pop()"}, "whose children start"),
                         ({"last": "raise ValueError(self)"}, "raises")):
        mod = "kd._kdsa_vary"
        proj = Overlay(PROJECT(), mod, SELF % dict(good, **change))
        sub = Ctx("C24")
        sub.seen = set()
        mutated(("*", "u", "x"), ("u", "x"), ("x",), ("*", "+", "d"), True)[1](sub, proj, mod)
        msgs = [v["message"] for v in sub.findings.values()]
        if sub.counts.get("undecided") or bool(msgs) != bool(want) or want and not any(want in m for m in msgs):
            raise AnalysisBroken("C24 self-test: wanted %r, got %s %s" % (want, msgs[:3], sub.notes[:2]))


OPS = ("*", "+", "d", "d^2", "^2", "^3")


def all_tasks(thorough):
    T = []
    for root in ("*", "d", "d^2", "^2"):
        for den in (("x",), ("x", "y")):
            T.append(grown(root, 2, ("u", "x"), den, ("*", "d")))
            T.append(grown(root, 3, ("u",), den, ("+", "d", "^2")))
        T.append(grown(root, 4, ("u",), ("x",), ("d", "^2")))
    exprs = [("*", "u", "x"), ("d", "u", "x"), ("^2", "u"), ("d^2", ("*", "u", "x"), "x"), ("*", ("d", "u", "x"), "u"),
             ("*", "u", ("+", "u", "u")), ("^2", ("d", "u", "x")), ("*", ("^2", "u"), ("^3", "x")), ("*", ("^2", ("*", "u", "u")), "u")]
    for e in exprs:
        for den in (("x",), ("x", "y")):
            for simple in (True, False):
                if deep(e) > 2 and len(den) > 1 and simple:
                    continue
                T.append(mutated(e, ("u",) + den, den, OPS, simple))
    T.append(mutated(("d", "u", "y"), ("u", "y"), ("y",), OPS, True))
    T.append(mutated(("d", "u", "y"), ("u", "y"), ("y",), OPS, False))
    T.append(mutated(("*", ("d", "u", "y"), "u"), ("u", "y"), ("y",), OPS, True, 1))
    for axes, lhs in (("xt", "t"), ("xt", "x"), ("txy", "t"), ("xy", "y"), ("yt", "t"), ("ytz", "t")):
        T.append(real_tables(axes, lhs))
    for w in (1, 3):
        for act in ("made", "replace", "mutate"):
            T.append(pde(act, w))
    for axes, lhs, s in (("xt", "t", "x"), ("tx", "x", "t"), ("txy", "t", "y")):
        g1, g2, b1, b2 = ("d", "u", s), ("*", "u", ("d", "u", s)), ("d", "u", lhs), ("*", "u", ("d", "u", lhs))
        for seq in ([g1], [b1], [b1, g1], [g1, b1, g2], [b1, b2, g1], [g1, b1, b2], [b1, g1, b2, g2], [b1, b2]):
            T.append(evaluated(list(axes), lhs, seq))
    T += [genome("random module", [[[0]]], call("random_module")), genome("random genome", [[[0]]], call("random_genome")),
          genome("crossover of 2", [[[0]], [[1], [2, 3]]], call("cross_over")),
          genome("crossover of 4", [[[0], [1, 1]], [[2]], [[3]], [[0, 3], [1]]], call("cross_over")),
          genome("crossover of 2 in 9 generations", [[[0]], [[1], [2, 3]]], call("cross_over"), gens=9),
          genome("crossover of 4 in 1 generation", [[[0], [1, 1]], [[2]], [[3]], [[0, 3], [1]]], call("cross_over"), gens=1),
          genome("mutation of one module", [[[0]]], call("mutation")), genome("mutation of two modules", [[[0], [1, 2]]], call("mutation"), max_length=1),
          genome("mutation of two chromosomes", [[[0], [2]], [[3], [1, 1]]], call("mutation"), max_length=1, add_rate=0),
          genome("growth of two chromosomes", [[[0]], [[3]]], call("mutation"), max_length=1, mutate_rate=0),
          genome("duplicates", [[[0]], [[1], [2, 1], [1, 2], [1]], [[3, 3], [3]], [[2, 0], [0, 2]]], call("delete_duplicates"))]
    for n in range(1, 5 if not thorough else 7):
        for ar in itertools.product((0, 1, 2), repeat=n):
            T.append(finished(ar))
    if thorough:
        for e in exprs:
            T.append(mutated(e, ("u", "v", "x", "y"), ("x", "y"), ("*", "+", "/", "d", "d^2", "^2", "^3"), False))
        T += [grown("*", 4, ("u",), ("x",), ("d", "^2", "+")), grown("d", 4, ("u", "x"), ("x", "y"), ("d", "^2")),
              genome("random genome of 3", [[[0]]], call("random_genome"), max_length=3)]
        for axes, lhs in (("tzyx", "t"), ("xyz", "x"), ("tx", "t")):
            T.append(real_tables(axes, lhs))
    return T


tasks = all_tasks


def run(ctx):
    ctx.rule("random draws are followed over all their values; a value drawn again at the same place is given every option in turn, and a series "
             "in which every option is rejected never ends")
    ctx.rule("SGA: every tree grown or mutated has one root, every node's name, arity and operation come from one table entry, the children of the "
             "operators of each level are disjoint and cover the next level, and its prefix and infix text spell the tree")
    ctx.rule("SGA: the width of an equation is the number of its terms after it is made, mutated, replaced in and evaluated, evaluation keeps "
             "exactly the terms it can evaluate, in order, and no term stands for two")
    ctx.rule("DLGA: the population keeps its size, no chromosome or module becomes empty, genes stay right-hand-side columns, crossover only "
             "exchanges modules (whatever the number of generations), removing duplicates keeps each distinct module once, modules are not shared")
    ctx.rule("DISCOVER: a sampled token sequence is cut to its first complete expression or completed with input variables")
    ctx.assumptions += ["candidates and tables up to the enumerated size stand for all: the code looks at names, arities and counts only",
                        "in the mutation with real tables one node mutates on a path (two in the thorough tier)"]
    selftest()
    T = all_tasks(ctx.thorough)
    run_scenarios(ctx, T)
    ctx.floor("trees_judged", 4000)
    ctx.floor("texts_judged", 8000)
    ctx.floor("equations_judged", 30)
    ctx.floor("populations_judged", 3000)
    ctx.floor("programs_judged", 200)
    ctx.floor("contexts_judged", 6)
    for n, _ in T[::13]:
        ctx.sample(n)
