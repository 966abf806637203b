"""C07: inconsistent datasets are rejected at construction.

PDEDataset is constructed by the abstract evaluator (kdsa.grid) with arrays whose axis lengths are unknown, mutually different
grid sizes (and, in addition, small constant sizes) and whose values are opaque.  Every enumerated inconsistency - a length, a
rank, a missing or doubled name - must end in an exception on every path the constructor can take; a path that returns is a
violation.  Valid constructions are evaluated as well: they must return (otherwise nothing was decided)."""
import itertools
from fractions import Fraction as F
from ..gridcheck import *
from ..report import AnalysisBroken, run_scenarios

BASE, DS = "kd.dataset._base", "PDEDataset"


AXES = "xyztq"


def num(v):
    return Poly.c(v) if isinstance(v, int) else Poly.atom(("n", v))


def arr(ev, name, dims):
    return Arr(ev, [num(d) for d in dims], lambda pos: Poly.atom(("s", name, tuple(pos))))


def show_dims(dims):
    return "(%s)" % ", ".join(d if isinstance(d, str) else str(d) for d in dims)


class A:
    """an array argument: rank and lengths (names are unknown, mutually different lengths)"""
    def __init__(self, *dims, bad=None):
        self.dims, self.bad = tuple(dims), bad

    def make(self, ev, name):
        if self.bad is not None:
            kind, pos = self.bad
            at = ("s", name, tuple(P(p) for p in pos))
            old = ev.special
            ev.special = lambda a: kind if a == at else (old(a) if old else None)
        if name in AXES and self.dims and sum(d != 1 for d in self.dims) <= 1:
            return Arr(ev, [num(d) for d in self.dims], lambda pos: Poly.atom(("x0", name)) + sum(
                (p for p, d in zip(pos, self.dims) if d != 1), Poly.c(0)) * Poly.atom(("d", name)))
        return arr(ev, name, self.dims)

    def __repr__(self):
        return show_dims(self.dims) + (" with a %s at %s" % (self.bad[0], self.bad[1]) if self.bad else "")


def build(ev, v, name="v"):
    if isinstance(v, A):
        return v.make(ev, name)
    if isinstance(v, dict):
        return {k: build(ev, x, k) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(build(ev, x, "%s%d" % (name, i)) for i, x in enumerate(v))
    return v


class Case:
    def __init__(self, family, what, kw, reject=True):
        self.family, self.what, self.kw, self.reject = family, what, kw, reject


def decide(R, case, make):
    """evaluate one construction; every path must raise (or, for a valid one, return)"""
    sub, ev = R.sub, R.ev
    out = {"ok": 0, "raise": 0}
    guarded = 0
    def th():
        ev.special = None
        return make(ev, build(ev, case.kw))
    sub.count("constructions_evaluated")
    try:
        res = ev.explore(th)
    except Exception as e:      # the evaluator has no model for something the constructor uses
        return R.undecided(case.family + ": " + case.what, e)
    finally:
        sub.seen |= {"%s.%s" % t for t in ev.trace}
        sub.count("call_evaluations", ev.sites)
        ev.sites = 0
    sub.count("paths_followed", len(res))
    for (kind, v), taken in res:
        out[kind] += 1
        guarded += bool(taken) and kind == "ok"
    if not case.reject:
        if out["raise"]:
            (v,) = [v for (k, v), t in res if k == "raise"][:1]
            return R.undecided(case.family + ": " + case.what, "a valid construction raises %s %s at %s" % (v, v.msg or "", where(v)))
        sub.count("valid_constructions_accepted")
        return
    if not out["ok"]:
        sub.count("inconsistent_constructions_rejected")
    elif guarded == out["ok"]:
        R.undecided(case.family + ": " + case.what, "returns on a path whose conditions are not decided: %s" % [t for (k, v), t in res if k == "ok"][0])
    else:
        sub.find("accepted", case.family, "%s is accepted: %s" % (case.family, case.what), case.family)


# ---------------------------------------------------------------------------- the constructions
def lengths(axes, const=None):
    return {a: (const[i] if const else a) for i, a in enumerate(axes)}


def spare(axes, const):
    """a length that no axis has"""
    return (max(const) + 2) if const else "m"


def wrong_shapes(axes, L, m, full=True):
    """shapes that differ from the lengths of the axes: every assignment of known lengths and one foreign length, other ranks"""
    right = tuple(L[a] for a in axes)
    pool = list(dict.fromkeys(list(right) + [m, 1]))
    k = len(axes)
    if full:
        every = itertools.product(pool, repeat=k)
    else:
        every = [tuple(p) for p in itertools.permutations(right)] + [right[:i] + (x,) + right[i + 1:] for i in range(k) for x in (m, 1)]
    seen = {right}
    for s in list(every) + [right + (1,), (1,) + right, right + (m,), right + right[:1], right[:-1], right[1:], ()]:
        if s not in seen:
            seen.add(s)
            yield s


def legacy_cases(form, const=None):
    L = lengths("xt", const)
    m = spare("xt", const)
    def kw(x, t, u, **more):
        d = {"x": x, "t": t, "usol": u}
        return dict({"pde_data": d} if form == "dict" else d, **more)
    how = ("pde_data" if form == "dict" else "x, t, usol") + (" with lengths %s" % (const,) if const else "")
    X, T, U = A(L["x"]), A(L["t"]), A(L["x"], L["t"])
    yield Case("valid", how, kw(X, T, U), False)
    yield Case("valid", how + ", column vectors", kw(A(L["x"], 1), A(1, L["t"]), U), False)
    yield Case("valid", how + ", parameter fields", kw(X, T, U, param_fields={"k": U, "q": U}), False)
    yield Case("valid", how + ", no parameter field", kw(X, T, U, param_fields={}), False)
    f = "%s: field not of the shape (len(x), len(t))" % ("pde_data" if form == "dict" else "x/t/usol")
    for s in wrong_shapes("xt", L, m):
        yield Case(f, "%s, usol of shape %s" % (how, show_dims(s)), kw(X, T, A(*s)))
    f = "%s: coordinate of another length than its axis" % ("pde_data" if form == "dict" else "x/t/usol")
    for a in "xt":
        for s in ((m,), (m, 1), (1, m), (1,), (), (m, L[a]), (L["x"], L["t"])):
            n = 1
            for d in s:
                n = n * d if isinstance(d, int) and isinstance(n, int) else None
            if s == (L[a],) or n is not None and n == L[a] or tuple(d for d in s if d != 1) == (L[a],):
                continue
            yield Case(f, "%s, %s of shape %s" % (how, a, show_dims(s)), kw(*[A(*s) if b == a else v for b, v in (("x", X), ("t", T))], U))
    f = "%s: missing array" % ("pde_data" if form == "dict" else "x/t/usol")
    for gone in itertools.chain.from_iterable(itertools.combinations(("x", "t", "usol"), r) for r in (1, 2, 3)):
        for u in (U, A(L["x"], 1), A(1, L["t"]), A(1, 1), A(L["x"])):
            full = {"x": X, "t": T, "usol": u}
            part = {k: v for k, v in full.items() if k not in gone}
            none = {k: (None if k in gone else v) for k, v in full.items()}
            for d in ((part, none) if form == "dict" else (part,)):
                yield Case(f, "%s, without %s, usol of shape %r" % (how, " and ".join(gone), u), {"pde_data": d} if form == "dict" else d)
            if "usol" in gone:
                break
    yield from param_cases("x/t/usol" if form != "dict" else "pde_data", how, L, m, "xt", lambda p: kw(X, T, U, param_fields=p))


def param_cases(base, how, L, m, axes, kw, full=True):
    right = A(*[L[a] for a in axes])
    f = base + ": parameter field of another shape than the field"
    for s in wrong_shapes(axes, L, m, full):
        yield Case(f, "%s, parameter field of shape %s" % (how, show_dims(s)), kw({"k": A(*s)}))
    s = (m,) + right.dims[1:]
    yield Case(f, "%s, second parameter field of shape %s" % (how, show_dims(s)), kw({"k": right, "q": A(*s)}))
    yield Case(f, "%s, first parameter field of shape %s" % (how, show_dims(s)), kw({"k": A(*s), "q": right}))
    yield Case(f, "%s, a number as parameter field" % how, kw({"k": F(1, 2)}))
    yield Case(f, "%s, None as parameter field" % how, kw({"k": None}))
    if all(isinstance(d, int) for d in right.dims):
        f = base + ": parameter field that is not finite"
        last = tuple(d - 1 for d in right.dims)
        for kind in ("nan", "inf"):
            for pos in (tuple(0 for _ in last), last, last[:-1] + (0,)):
                b = A(*right.dims, bad=(kind, pos))
                yield Case(f, "%s, parameter field %r" % (how, b), kw({"k": b}))
                yield Case(f, "%s, second parameter field %r" % (how, b), kw({"q": right, "k": b}))


def nd_cases(axes, lhs="t", const=None, full=True, orders=2):
    L = lengths(axes, const)
    m = spare(axes, const)
    right = A(*[L[a] for a in axes])
    C = {a: A(L[a]) for a in axes}
    how = "fields over (%s)" % ", ".join(axes) + (" of lengths %s" % (const,) if const else "")
    def kw(**o):
        d = dict(fields_data={"u": right}, coords_1d=dict(C), axis_order=list(axes), target_field="u", lhs_axis=lhs)
        d.update(o)
        return d
    yield Case("valid", how, kw(), False)
    yield Case("valid", how + ", coordinates listed in another order", kw(coords_1d={a: C[a] for a in reversed(axes)}), False)
    yield Case("valid", how + ", two fields", kw(fields_data={"v": right, "u": right}), False)
    yield Case("valid", how + ", another target", kw(fields_data={"v": right, "u": right}, target_field="v"), False)
    yield Case("valid", how + ", parameter field", kw(param_fields={"k": right}), False)
    f = "N-D: fields not of the shape given by the coordinates"
    for s in wrong_shapes(axes, L, m, full):
        yield Case(f, "%s, u of shape %s" % (how, show_dims(s)), kw(fields_data={"u": A(*s)}))
        yield Case(f, "%s, u and v of shape %s" % (how, show_dims(s)), kw(fields_data={"u": A(*s), "v": A(*s)}))
    f = "N-D: fields of different shapes"
    for s in wrong_shapes(axes, L, m, False):
        yield Case(f, "%s, another field of shape %s" % (how, show_dims(s)), kw(fields_data={"u": right, "v": A(*s)}))
        yield Case(f, "%s, another field, listed first, of shape %s" % (how, show_dims(s)), kw(fields_data={"v": A(*s), "u": right}))
        yield Case(f, "%s, target of shape %s beside a right field" % (how, show_dims(s)), kw(fields_data={"u": A(*s), "v": right}))
        yield Case(f, "%s, third field of shape %s" % (how, show_dims(s)), kw(fields_data={"u": right, "v": right, "w": A(*s)}))
    f = "N-D: coordinate of another length than its axis"
    for a in axes:
        for s in ((m,), (m, 1), (1, m), (), (m, m)):
            if s == () and L[a] == 1:
                continue        # a number is the list of one value
            yield Case(f, "%s, coordinate %s of shape %s" % (how, a, show_dims(s)), kw(coords_1d=dict(C, **{a: A(*s)})))
    f = "N-D: axis_order does not name every coordinate axis exactly once"
    names = list(axes) + ["q"]
    for r in range(0, min(len(axes), orders) + 2):
        for seq in itertools.product(names, repeat=r):
            if sorted(seq) == sorted(axes):
                continue
            shape = A(*[L.get(a, m) for a in seq])
            l = lhs if lhs in seq else (seq[-1] if seq else lhs)
            yield Case(f, "%s, axis_order %s, u of the shape it names" % (how, list(seq)),
                       kw(axis_order=list(seq), fields_data={"u": shape}, lhs_axis=l))
    if len(axes) > orders:
        for i, a in enumerate(axes):
            for seq in ([b for b in axes if b != a], axes[:i] + [a] + axes[i:], axes + [a], axes + ["q"],
                        ["q" if b == a else b for b in axes], [axes[i - 1] if b == a else b for b in axes]):
                shape = A(*[L.get(b, m) for b in seq])
                l = lhs if lhs in seq else seq[-1]
                yield Case(f, "%s, axis_order %s, u of the shape it names" % (how, list(seq)),
                           kw(axis_order=list(seq), fields_data={"u": shape}, lhs_axis=l))
    yield Case(f, how + ", without axis_order", kw(axis_order=None))
    f = "N-D: coordinates that do not match axis_order"
    for a in axes:
        rest = {b: c for b, c in C.items() if b != a}
        yield Case(f, "%s, no coordinate %s" % (how, a), kw(coords_1d=rest))
        yield Case(f, "%s, coordinate q for %s" % (how, a), kw(coords_1d=dict(rest, q=C[a])))
        one = A(*[1 if b == a else L[b] for b in axes])
        yield Case(f, "%s, None for coordinate %s, u of length 1 there" % (how, a), kw(coords_1d=dict(C, **{a: None}), fields_data={"u": one}))
    yield Case(f, how + ", an additional coordinate q", kw(coords_1d=dict(C, q=A(m))))
    yield Case(f, how + ", an additional coordinate q of length 1", kw(coords_1d=dict(C, q=A(1))))
    f = "N-D: fields or coordinates are not given"
    for o in (dict(fields_data=None), dict(coords_1d=None), dict(fields_data={}), dict(coords_1d={}), dict(coords_1d={}, axis_order=[]),
              dict(coords_1d={}, axis_order=[], fields_data={"u": A()}), dict(fields_data={}, coords_1d={}, axis_order=[]),
              dict(fields_data={"u": None}), dict(fields_data={"u": right, "v": None})):
        yield Case(f, "%s, %s" % (how, ", ".join("%s=%s" % kv for kv in sorted(o.items()))), kw(**o))
    f = "N-D: the target field is not among the fields"
    for o in (dict(target_field="w"), dict(target_field="U"), dict(target_field=axes[0]), dict(target_field=""), dict(target_field=None),
              dict(fields_data={"v": right}), dict(fields_data={"v": right}, param_fields={"u": right}), dict(fields_data={"v": right, "w": right})):
        yield Case(f, "%s, %s" % (how, ", ".join("%s=%s" % kv for kv in sorted(o.items()))), kw(**o))
    f = "N-D: the lhs axis is not among the axes"
    for l in ("q", "u", "", None, lhs.upper()):
        yield Case(f, "%s, lhs_axis=%r" % (how, l), kw(lhs_axis=l))
    yield from param_cases("N-D", how, L, m, axes, lambda p: kw(param_fields=p), full)
    yield from param_cases("N-D, target v", how, L, m, axes, lambda p: kw(param_fields=p, fields_data={"u": right, "v": right}, target_field="v"), False)


def nothing():
    for kw in ({}, {"domain": {"x": (0, 1), "t": (0, 1)}}, {"param_fields": {"k": A("x", "t")}}, {"axis_order": ["x", "t"]},
               {"target_field": "u", "lhs_axis": "t"}):
        yield Case("no data at all", "%r" % (sorted(kw),), kw)


def scenario(name, cases, make=None, proj=None):
    def f(sub):
        R = Runner(sub, proj)
        def mk(ev, kw):
            return ev.call(ev.get(BASE, DS), ["q"], kw)
        for c in cases():
            decide(R, c, make or mk)
    return (name, f)


def sga(ev, kw):
    """the SGA problem context built directly from a solver configuration"""
    kw = dict(kw)
    for a, b in (("x", "x_data"), ("t", "t_data"), ("usol", "u_data")):
        if a in kw:
            kw[b] = kw.pop(a)
    cfg = ev.call(ev.get("kd.model.sga.sgapde.config", "SolverConfig"), [], dict(kw, problem_name="q"))
    return ev.call(ev.get("kd.model.sga.sgapde.context", "ProblemContext"), [cfg], {})


def sga_cases(cases):
    """the context takes its own fields, coordinates and axes; parameter fields come from a dataset, which has checked them;
    without axis_order the order of the coordinates counts"""
    for c in cases:
        if "missing array" in c.family or "parameter field" in c.family + c.what or c.kw.get("axis_order", 0) in (None, []):
            continue
        if c.reject:
            c.family = "SGA problem context, " + c.family
        c.what = "SGA problem context, " + c.what
        yield c


def all_tasks(thorough=False):
    tasks = [scenario("nothing", nothing)]
    for form in ("dict", "args"):
        for const in (None, (3, 2), (1, 4), (4, 1), (2, 3)):
            tasks.append(scenario("legacy %s %s" % (form, const), lambda form=form, const=const: legacy_cases(form, const)))
    nd = [(["x", "t"], "t", None), (["t", "x"], "t", None), (["x", "y", "t"], "t", None), (["t", "z", "y", "x"], "t", None),
          (["t"], "t", None), (["x", "y"], "y", None), (["x", "t"], "t", (3, 2)), (["t", "x"], "t", (1, 3)), (["x", "y", "t"], "t", (2, 1, 3))]
    if thorough:
        nd += [(list(p), "t", None) for p in itertools.permutations("txy")] + [(list(p), "t", c) for p in itertools.permutations("txy") for c in ((2, 3, 4), (1, 2, 3))]
        nd += [(["x", "y", "z", "t"], l, None) for l in "xyzt"] + [(["x", "t"], "t", c) for c in itertools.permutations((1, 2, 5), 2)]
    for axes, lhs, const in nd:
        tasks.append(scenario("N-D %s %s %s" % (axes, lhs, const), lambda a=axes, l=lhs, c=const: nd_cases(
            a, l, c, len(a) < 4 or thorough, 3 if thorough else 2)))
    tasks += [scenario("SGA context legacy", lambda: sga_cases(legacy_cases("args")), sga)]
    for axes, lhs in [(["x", "t"], "t"), (["t", "y", "x"], "t")] + ([(["x", "y"], "y"), (["t", "z", "y", "x"], "t")] if thorough else []):
        tasks.append(scenario("SGA context %s %s" % (axes, lhs), lambda a=axes, l=lhs: sga_cases(nd_cases(a, l, None, len(a) < 4, 2)), sga))
    return tasks


SELF = '''
import numpy as np


class Good:
    def __init__(self, name, x=None, t=None, usol=None, param_fields=None):
        if x is None or t is None or usol is None:
            raise ValueError("missing")
        self.x, self.t, self.u = np.ravel(x), np.ravel(t), np.asarray(usol)
        want = (self.x.size, self.t.size)
        if tuple(self.u.shape) != want:
            raise ValueError("shape")
        for k, v in (param_fields or {}).items():
            v = np.asarray(v)
            if v.ndim != 2 or v.shape[0] != want[0] or v.shape[1] != want[1] or np.isnan(v).any() or np.isinf(v).any():
                raise ValueError("parameter")


class Sizes(Good):
    def __init__(self, name, x=None, t=None, usol=None, param_fields=None):
        if np.asarray(usol).size != np.size(x) * np.size(t):
            raise ValueError("size")


class First(Good):
    def __init__(self, name, x=None, t=None, usol=None, param_fields=None):
        super().__init__(name, x, t, usol)
        for k, v in (param_fields or {}).items():
            if np.asarray(v).shape != self.u.shape or not np.isfinite(np.asarray(v)).any():
                raise ValueError("parameter")
'''


class Probe:
    def __init__(self):
        self.notes, self.seen, self.facts, self.found, self.sites = [], set(), {}, {}, set()

    def count(self, k, n=1):
        self.facts[k] = self.facts.get(k, 0) + n

    def find(self, rule, construct, msg, where_):
        self.found[construct] = msg

    def sample(self, *a):
        pass


def selftest():
    from ..selftest import Overlay
    proj = Overlay(PROJECT(), "kd._kdsa_ds", SELF)
    for cls, want in (("Good", ()), ("Sizes", ("field not of", "parameter field", "missing")), ("First", ("not finite",))):
        p = Probe()
        for const in (None, (3, 2)):
            scenario(cls, lambda: legacy_cases("args", const), lambda ev, kw: ev.call(ev.get("kd._kdsa_ds", cls), ["q"], kw), proj)[1](p)
        if cls == "Good" and (p.found or not p.facts.get("inconsistent_constructions_rejected")):
            raise AnalysisBroken("C07 self-test: %s gives %s %s" % (cls, p.found, p.notes[:3]))
        for w in want:
            if not any(w in k for k in p.found):
                raise AnalysisBroken("C07 self-test: %s of %s is not reported (%s)" % (w, cls, p.notes[:3]))


def run(ctx):
    ctx.rule("abstract interpretation of the dataset constructor over arrays of symbolic, mutually different lengths (and over small constant lengths): "
             "every enumerated inconsistent construction must raise on every path; a path that returns is a violation")
    ctx.rule("the inconsistencies: every shape of a field or parameter field built from the axis lengths, one and a foreign length, other ranks, wrong "
             "coordinate lengths, every axis_order over the axes and one foreign name up to one entry more than there are axes (2-D), missing arrays, "
             "names, fields and axes, parameter values that are not finite")
    ctx.assumptions += ["a coordinate is read as the flat list of its values, so a column or row vector of the right number of values is consistent"]
    selftest()
    tasks = all_tasks(ctx.thorough)
    run_scenarios(ctx, tasks)
    ctx.floor("constructions_evaluated", 800)
    ctx.floor("inconsistent_constructions_rejected", 500)
    for n, _ in tasks[::3]:
        ctx.sample(n)
