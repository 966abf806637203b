"""C08: wrong use of an estimator is refused before any work.

Every case makes an estimator (or adapter, or data set) in the abstract evaluator and then uses it wrongly: an argument of the
wrong kind, a value outside its range, data that cannot be differenced, or a result asked for before a fit.  Every path of the
call must end in an exception, without reaching the training it guards (the trainers are replaced by markers) and without
having changed an attribute of the estimator.  The valid counterpart of each case must reach the marker."""
import ast
import itertools
from fractions import Fraction as F
from ..gridcheck import *
from ..report import AnalysisBroken, run_scenarios
from ..rnd import Random
from .. import gridlib

BASE = "kd.dataset._base"
DISC, REGR = "kd.model.kd_discover", "kd.model.kd_discover_regression"
AD = "kd.model.discover.adapter"


class Work(Exception):
    """the guarded work was reached"""


class Case:
    def __init__(self, family, what, make, call, reject=True, keep=True):
        self.family, self.what, self.make, self.call, self.reject, self.keep = family, what, make, call, reject, keep


def frozen(v, depth=0):
    if isinstance(v, dict) and depth < 3:
        return ("d",) + tuple((str(k), frozen(x, depth + 1)) for k, x in v.items())
    if isinstance(v, (list, tuple)) and depth < 3:
        return ("l",) + tuple(frozen(x, depth + 1) for x in v)
    if v is None or isinstance(v, (str, int, bool, F)):
        return v
    return id(v)


def state(o):
    return {k: frozen(v) for k, v in o.attrs.items()} if isinstance(o, Inst) else {}


def decide(R, c):
    sub, ev = R.sub, R.ev
    name = "%s: %s" % (c.family, c.what)
    sub.count("uses_evaluated")
    hold = {}
    def th():
        R.rnd.reset()
        ev.special = None
        work = []
        def mark(what):
            def f(ev, a, k, n):
                work.append(what)
                raise Work(what)
            return Native(f)
        o = c.make(ev, mark)
        hold["o"] = o
        before = state(o)
        try:
            try:
                c.call(ev, o)
            except Work:
                pass
        except PyRaise as e:
            e.work, e.changed = list(work), sorted(k for k in set(before) | set(state(o)) if before.get(k) != state(o).get(k))
            raise
        return list(work)
    try:
        res = ev.explore(th)
    except Work:
        return R.undecided(name, "the marker is reached while the case is built")
    except Exception as e:      # the evaluator has no model for something on the way
        return R.undecided(name, "%s %s" % (type(e).__name__, e))
    finally:
        sub.seen |= {"%s.%s" % t for t in ev.trace}
        sub.count("call_evaluations", ev.sites)
        ev.sites = 0
    sub.count("paths_followed", len(res))
    oks = [(v, t) for (k, v), t in res if k == "ok"]
    bad = [(v, t) for (k, v), t in res if k == "raise"]
    if not c.reject:
        if bad:
            v, t = bad[0]
            if not t and (isinstance(v.node, ast.Raise) or v.name == "TypeError" and "argument" in (v.msg or "")):
                return sub.find("refused", c.what, "the correct use %s is refused: %s %s at %s" % (c.what, v, v.msg or "", where(v)), c.what)
            return R.undecided(name, "a valid use raises %s %s at %s" % (v, v.msg or "", where(v)))
        sub.count("valid_uses_accepted")
        return
    wrong = [(v, t) for v, t in oks] + [(v.work, t) for v, t in bad if getattr(v, "work", None)]
    if wrong:
        v, t = wrong[0]
        if all(t for v, t in wrong):
            return R.undecided(name, "proceeds on a path whose conditions are not decided: %s" % [t for v, t in wrong][0])
        sub.find("accepted", c.family, "%s is not refused: %s %s" % (c.family, c.what, "reaches %s" % v[0] if v else "returns"), c.family)
        return
    touched = [v for v, t in bad if c.keep and getattr(v, "changed", None)]
    if touched:
        sub.find("touched", c.family, "%s: the refused use (%s) has already changed %s" % (c.family, c.what, ", ".join(touched[0].changed)), c.family)
        return
    sub.count("wrong_uses_refused")


# ---------------------------------------------------------------------------- data
def num(n):
    return Poly.c(n) if isinstance(n, int) else Poly.atom(("n", n))


def grid_coord(ev, n, values=None):
    """n equispaced numbers, or the given ones"""
    if values is not None:
        vs = [F(v) for v in values]
        return Arr(ev, [Poly.c(len(vs))], lambda pos: pick(vs, pos))
    return Arr(ev, [num(n)], lambda pos: P(pos[0]) * F(1, 4))


def pick(vs, pos):
    k = P(pos[0]).const()
    if k is None:
        raise Unmodelled("an unknown position of an explicit vector")
    return Poly.c(vs[int(k)])


def samples(ev, name, dims, bad=None):
    if bad:
        at = ("s", name, tuple(P(p) for p in bad[1]))
        old = ev.special
        ev.special = lambda a: bad[0] if a == at else (old(a) if old else None)
    return Arr(ev, [num(d) for d in dims], lambda pos: Poly.atom(("s", name, tuple(pos))))


SIZES = {"x": 6, "y": 5, "z": 4, "t": 7, "q": 4}


def legacy(ev, nx=6, nt=7, x=None, t=None, bad=None):
    X, T = grid_coord(ev, nx, x), grid_coord(ev, nt, t)
    n, m = (len(x) if x is not None else nx), (len(t) if t is not None else nt)
    return ev.call(ev.get(BASE, "PDEDataset"), ["q"], dict(x=X, t=T, usol=samples(ev, "u", (n, m), bad)))


def gridded(ev, axes, lhs="t", sizes=None, coords=None, bad=None, target="u"):
    sizes = dict(SIZES, **(sizes or {}))
    coords = coords or {}
    for a, v in coords.items():
        sizes[a] = len(v)
    return ev.call(ev.get(BASE, "PDEDataset"), ["q"], dict(
        fields_data={target: samples(ev, target, [sizes[a] for a in axes], bad)},
        coords_1d={a: grid_coord(ev, sizes[a], coords.get(a)) for a in axes}, axis_order=list(axes), target_field=target, lhs_axis=lhs))


def duck(ev):
    """it has the attributes of a data set, but is none"""
    u = samples(ev, "u", (6, 7))
    return stub({"x": grid_coord(ev, 6), "t": grid_coord(ev, 7), "usol": u, "equation_name": "q", "fields_data": None, "coords_1d": None,
                 "param_fields": None, "aliases": {}, "target_field": "u", "lhs_axis": "t", "axis_order": None,
                 "mesh": Native(lambda ev, a, k, n: Arr(ev, [Poly.c(42), 2], lambda pos: Poly.atom(("s", "m", tuple(pos))))),
                 "mesh_bounds": Native(lambda ev, a, k, n: (samples(ev, "lb", (2,)), samples(ev, "ub", (2,)))),
                 "sample": Native(lambda ev, a, k, n: (samples(ev, "X", (5, 2)), samples(ev, "y", (5, 1))))}, "Lookalike")


NOT_DATA = [("None", lambda ev: None), ("a name", lambda ev: "burgers"), ("a number", lambda ev: 7), ("an array", lambda ev: samples(ev, "u", (6, 7))),
            ("a dict", lambda ev: {"x": grid_coord(ev, 6), "t": grid_coord(ev, 7), "usol": samples(ev, "u", (6, 7))}),
            ("an object that merely has the attributes", duck)]


def m(ev, o, n, *a, **k):
    return ev.call(ev.getattr(o, n), list(a), k)


# ---------------------------------------------------------------------------- DLGA
def dlga(ev, mark):
    o = ev.call(ev.get("kd.model.kd_dlga", "KD_DLGA"), [], dict(operators=["u", "u_x"], epi=F(1, 10), input_dim=2))
    o.attrs["train_NN"] = mark("the network training")
    o.attrs["evolution"] = mark("the search")
    o.attrs["Net"] = mark("the network")
    return o


def dlga_cases():
    f = "KD_DLGA.fit_dataset with something that is no data set"
    for w, d in NOT_DATA:
        yield Case(f, w, dlga, lambda ev, o, d=d: m(ev, o, "fit_dataset", d(ev)))
    f = "KD_DLGA.fit_dataset with an unknown Xy_from"
    for w in ("grid", "", "Sample", "meshes", "all"):
        yield Case(f, repr(w), dlga, lambda ev, o, w=w: m(ev, o, "fit_dataset", legacy(ev), Xy_from=w))
        yield Case(f, "%r with a sample" % w, dlga, lambda ev, o, w=w: m(ev, o, "fit_dataset", legacy(ev), Xy_from=w, sample=5))
    f = "KD_DLGA.fit_dataset with a field of more than two axes"
    for ax in ("xyt", "txy", "xyzt"):
        for kw in ({}, {"Xy_from": "mesh"}, {"sample": 5}):
            yield Case(f, "axes %s, %s" % (ax, kw), dlga, lambda ev, o, ax=ax, kw=kw: m(ev, o, "fit_dataset", gridded(ev, ax), **kw))
    f = "KD_DLGA.fit_dataset with a sample the data cannot give"
    for s in (43, 100, 0, -1):
        yield Case(f, "sample=%s of 42 points" % s, dlga, lambda ev, o, s=s: m(ev, o, "fit_dataset", legacy(ev), sample=s))
    f = "KD_DLGA.fit_dataset with an unknown sample_method"
    for s in ("", "grid", "Random", None):
        yield Case(f, repr(s), dlga, lambda ev, o, s=s: m(ev, o, "fit_dataset", legacy(ev), sample=5, sample_method=s))
    for kw in ({}, {"Xy_from": "mesh"}, {"sample": 5}, {"sample": F(1, 2)}, {"Xy_from": "mesh", "sample": 5}):
        yield Case("valid", "KD_DLGA.fit_dataset, %s" % kw, dlga, lambda ev, o, kw=kw: m(ev, o, "fit_dataset", legacy(ev), **kw), False)
    yield Case("KD_DLGA.predict before a fit", "on a mesh", dlga, lambda ev, o: m(ev, o, "predict", samples(ev, "X", (5, 2))))


def sample_cases():
    def mk(ev, mark):
        return legacy(ev)
    f = "PDEDataset.sample with a number of points the data cannot give"
    for how in ("random", "uniform", "spline"):
        for s in (43, 1000, 0, -1, -7):
            yield Case(f, "%s of 42, %s" % (s, how), mk, lambda ev, o, s=s, how=how: m(ev, o, "sample", s, how))
    f = "PDEDataset.sample with an unknown method"
    for s in ("", "grid", "Random", None):
        yield Case(f, repr(s), mk, lambda ev, o, s=s: m(ev, o, "sample", 5, s))
    yield Case("valid", "PDEDataset.sample", mk, lambda ev, o: m(ev, o, "sample", 5, "random"), False)


# ---------------------------------------------------------------------------- SGA
def sga(**kw):
    def f(ev, mark):
        ev.module("kd.model.sga.sgapde.visualizer")["plot_figures"] = mark("the plots")
        return ev.call(ev.get("kd.model.kd_sga", "KD_SGA"), [], kw)
    return f


def fit_sga(ev, o, d):
    def solver(ev, a, k, n):
        return stub({"run": Native(stop)})
    def stop(ev, a, k, n):
        raise Work("the search")
    return m(ev, o, "fit_dataset", d, solver_cls=Native(solver))


def sga_cases():
    f = "KD_SGA.fit_dataset with something that is no data set"
    for w, d in NOT_DATA:
        yield Case(f, w, sga(), lambda ev, o, d=d: fit_sga(ev, o, d(ev)))
    yield Case("KD_SGA.fit (deprecated)", "a problem name", sga(), lambda ev, o: m(ev, o, "fit", "burgers"))
    for n in ("equation_latex", "equation_structure_latex", "plot_results"):
        yield Case("KD_SGA.%s before a fit" % n, "on a new estimator", sga(), lambda ev, o, n=n: m(ev, o, n))
    f = "KD_SGA with a target field the data does not have"
    yield Case(f, "v of u", sga(target_field="v"), lambda ev, o: fit_sga(ev, o, gridded(ev, "xyt")))
    f = "KD_SGA with a left-hand axis the data does not have"
    for a in ("q", "tt", "X"):
        yield Case(f, "%s of (x, y, t)" % a, sga(lhs_axis=a), lambda ev, o: fit_sga(ev, o, gridded(ev, "xyt")))
    f = "KD_SGA with a primary spatial axis that is none"
    for a in ("q", "t"):
        yield Case(f, "%s of (y, z, t)" % a, sga(primary_spatial_axis=a), lambda ev, o: fit_sga(ev, o, gridded(ev, "yzt")))
    f = "KD_SGA(delete_edges) on a grid it cannot crop"
    yield Case(f, "axes xyt", sga(delete_edges=True), lambda ev, o: fit_sga(ev, o, gridded(ev, "xyt")))
    yield Case(f, "axes yt", sga(delete_edges=True), lambda ev, o: fit_sga(ev, o, gridded(ev, "yt")))
    f = "KD_SGA on a grid too small to difference"
    for s in ({"x": 2}, {"t": 2}, {"y": 2}, {"y": 1}):
        yield Case(f, "axes xyt, %s" % s, sga(), lambda ev, o, s=s: fit_sga(ev, o, gridded(ev, "xyt", sizes=s)))
    for ax in ("xt", "xyt", "txy", "xyzt"):
        yield Case("valid", "KD_SGA on %s" % ax, sga(), lambda ev, o, ax=ax: fit_sga(ev, o, gridded(ev, ax)), False)
    for kw, ax in (({"target_field": "u"}, "xyt"), ({"lhs_axis": "t"}, "xyt"), ({"lhs_axis": "x"}, "xyt"), ({"primary_spatial_axis": "y"}, "yzt"),
                   ({"primary_spatial_axis": "z"}, "yzt"), ({"target_field": "u", "lhs_axis": "y", "primary_spatial_axis": "x"}, "txy"),
                   ({"lhs_axis": "t", "delete_edges": True}, "xt")):
        s = {"x": 40} if "delete_edges" in kw else None
        yield Case("valid", "KD_SGA(%s) on %s" % (", ".join("%s=%r" % i for i in kw.items()), ax), sga(**kw),
                   lambda ev, o, ax=ax, s=s: fit_sga(ev, o, gridded(ev, ax, sizes=s)), False)
    for kw in ({}, {"target_field": "u"}, {"lhs_axis": "t"}, {"lhs_axis": "t", "delete_edges": True}):
        n = 40 if "delete_edges" in kw else 6
        yield Case("valid", "KD_SGA(%s) on x, t arrays" % ", ".join("%s=%r" % i for i in kw.items()), sga(**kw),
                   lambda ev, o, n=n: fit_sga(ev, o, legacy(ev, nx=n)), False)
    for w, at, v in (("one of the two structured arrays", "coords_1d", None), ("one of the two structured arrays", "fields_data", None)):
        def call(ev, o, at=at, v=v):
            d = gridded(ev, "xyt")
            d.attrs[at] = v
            return fit_sga(ev, o, d)
        yield Case("KD_SGA on a data set with %s missing" % w, at, sga(), call)
    def short(ev, o):
        d = legacy(ev)
        d.attrs["usol"] = samples(ev, "w", (7, 6))
        return fit_sga(ev, o, d)
    yield Case("KD_SGA on a data set whose field does not match its coordinates", "transposed", sga(), short)


# ---------------------------------------------------------------------------- DISCOVER
def discover(cls, mod=DISC):
    def f(ev, mark):
        o = ev.call(ev.get(mod, cls), [], dict(out_path=None))
        o.attrs["setup"] = mark("the set-up of the search")
        return o
    return f


def regular_cases():
    for cls in ("KD_Discover", "KD_Discover_SPR"):
        for n in ("import_dataset", "fit_dataset"):
            f = "%s.%s with something that is no data set" % (cls, n)
            for w, d in NOT_DATA:
                yield Case(f, w, discover(cls), lambda ev, o, d=d, n=n: m(ev, o, n, d(ev)))
    yield Case("KD_Discover.fit (deprecated)", "arrays", discover("KD_Discover"), lambda ev, o: m(ev, o, "fit", samples(ev, "X", (5, 2)), samples(ev, "y", (5, 1))))
    for cls, a in (("KD_Discover", ()), ("KD_Discover_SPR", (1, False))):
        for n, a in (("train", (1, False)), ("train_one_step", ()), ("plot", ("density",)), ("print_pq", ())):
            def mk(ev, mark, cls=cls):
                o = discover(cls)(ev, mark)
                del o.attrs["setup"]
                return o
            yield Case("%s.%s before data were imported" % (cls, n), "on a new estimator", mk, lambda ev, o, n=n, a=a: m(ev, o, n, *a), keep=False)
    imp = lambda d, **kw: (lambda ev, o: m(ev, o, "import_dataset", d(ev), **kw))
    D = discover("KD_Discover")
    f = "KD_Discover.import_dataset with an n_input_dim the data does not have"
    for k in (0, 2, 3):
        yield Case(f, "%d for one spatial axis" % k, D, imp(legacy, n_input_dim=k))
    for k in (0, 1, 3):
        yield Case(f, "%d for two spatial axes" % k, D, imp(lambda ev: gridded(ev, "xyt"), n_input_dim=k))
    for k in (1, 2):
        yield Case(f, "%d for three spatial axes" % k, D, imp(lambda ev: gridded(ev, "xyzt"), n_input_dim=k))
    f = "KD_Discover.import_dataset with samples that are not finite"
    for kind in ("nan", "inf"):
        for pos in [(i, j) for i in range(6) for j in range(7)]:
            yield Case(f, "a %s at %s" % (kind, pos), D, imp(lambda ev, kind=kind, pos=pos: legacy(ev, bad=(kind, pos))))
        for ax in ("xyt", "txy"):
            for pos in [(0, 0, 0), (3, 2, 1)] + [tuple(SIZES[b] - 1 if b == a else 1 for b in ax) for a in ax]:
                yield Case(f, "a %s at %s of %s" % (kind, pos, ax), D, imp(lambda ev, kind=kind, pos=pos, ax=ax: gridded(ev, ax, bad=(kind, pos))))
    f = "KD_Discover.import_dataset with a time grid that is not evenly spaced"
    for w, t in (("stretched", [0, 1, 2, 4, 8]), ("one step longer", [0, 1, 2, 3, 5]), ("first step longer", [0, 2, 3, 4, 5]), ("falling back", [0, 1, 2, 1, 0]),
                 ("one repeated", [0, 1, 1, 2, 3]), ("nearly even", [0, 1, 2, 3, F(401, 100)])):
        yield Case(f, w, D, imp(lambda ev, t=t: legacy(ev, t=t)))
        for ax in ("xyt", "txyz"):
            yield Case(f, "%s, axes %s" % (w, ax), D, imp(lambda ev, t=t, ax=ax: gridded(ev, ax, coords={"t": t})))
    for st in itertools.product((F(1, 2), F(1), F(3, 2)), repeat=4):
        if len(set(st)) > 1:
            t = [sum(st[:i], F(0)) for i in range(5)]
            yield Case(f, "steps %s" % ", ".join(map(str, st)), D, imp(lambda ev, t=t: legacy(ev, t=t)))
            if sum(st) == 4 * st[0]:
                yield Case(f, "steps %s, axes txy" % ", ".join(map(str, st)), D, imp(lambda ev, t=t: gridded(ev, "txy", coords={"t": t})))
    f = "KD_Discover.import_dataset with a time grid that does not advance"
    yield Case(f, "all times equal", D, imp(lambda ev: legacy(ev, t=[2, 2, 2, 2])))
    yield Case(f, "all times equal, axes xyt", D, imp(lambda ev: gridded(ev, "xyt", coords={"t": [2, 2, 2, 2]})))
    f = "KD_Discover.import_dataset with too few times"
    for k in (1, 2):
        yield Case(f, "%d" % k, D, imp(lambda ev, k=k: legacy(ev, nt=k)))
        for ax in ("xyt", "txy"):
            yield Case(f, "%d, axes %s" % (k, ax), D, imp(lambda ev, k=k, ax=ax: gridded(ev, ax, sizes={"t": k})))
    f = "KD_Discover.import_dataset with too few points on a spatial axis"
    for ax in ("xyt", "txy", "xyzt"):
        for a in ax:
            if a != "t":
                for k in (1, 2, 3):
                    yield Case(f, "%d on %s of %s" % (k, a, ax), D, imp(lambda ev, k=k, ax=ax, a=a: gridded(ev, ax, sizes={a: k})))
    f = "KD_Discover.import_dataset with repeated points on a spatial axis"
    for a in "xy":
        yield Case(f, "on %s" % a, D, imp(lambda ev, a=a: gridded(ev, "xyt", coords={a: [0, 1, 1, 2, 3]})))
        yield Case(f, "at the end of %s" % a, D, imp(lambda ev, a=a: gridded(ev, "txy", coords={a: [0, 1, 2, 3, 4, 4]})))
    f = "KD_Discover.import_dataset with an unsupported number of spatial axes"
    for ax in ("xt", "xyzqt"):
        yield Case(f, ax, D, imp(lambda ev, ax=ax: gridded(ev, ax)))
    for cls in ("KD_Discover", "KD_Discover_SPR"):
        f = "%s.import_dataset with half of the structured data" % cls
        for at in ("fields_data", "coords_1d"):
            def half(ev, at=at):
                d = gridded(ev, "xyt")
                d.attrs[at] = None
                return d
            yield Case(f, "no %s" % at, discover(cls), imp(half))
        f = "%s.import_dataset with a left-hand axis that is none" % cls
        def lhs(ev):
            d = gridded(ev, "xyt")
            d.attrs["lhs_axis"] = "w"
            return d
        yield Case(f, "w of (x, y, t)", discover(cls), imp(lhs))
        f = "%s.import_dataset with a field that does not match its coordinates" % cls
        def turned(ev):
            d = legacy(ev)
            d.attrs["usol"] = samples(ev, "w", (7, 6))
            return d
        yield Case(f, "transposed", discover(cls), imp(turned))
    for k, d in ((1, legacy), (2, lambda ev: gridded(ev, "xyt")), (3, lambda ev: gridded(ev, "xyzt"))):
        yield Case("valid", "KD_Discover.import_dataset, n_input_dim=%d" % k, D, imp(d, n_input_dim=k), False)
    for w, d in (("x, t", legacy), ("xyt", lambda ev: gridded(ev, "xyt")), ("txy", lambda ev: gridded(ev, "txy")), ("xyzt", lambda ev: gridded(ev, "xyzt", sizes={"y": 4, "x": 4, "t": 3}))):
        yield Case("valid", "KD_Discover.import_dataset of %s" % w, D, imp(d), False)


def sparse_cases():
    D = discover("KD_Discover_SPR")
    imp = lambda d, n="import_dataset", **kw: (lambda ev, o: m(ev, o, n, d(ev), **kw))
    grid = lambda ev: gridded(ev, "xyt")
    for n in ("import_dataset", "fit_dataset"):
        f = "KD_Discover_SPR.%s with a fraction that is none" % n
        for r in (0, -1, F(3, 2), 2):
            for key in ("sample_ratio", "data_ratio"):
                yield Case(f, "%s=%s" % (key, r), D, imp(legacy, n, **{key: r}))
                yield Case(f, "%s=%s, splines" % (key, r), D, imp(legacy, n, spline_sample=True, **{key: r}))
            yield Case(f, "sample_ratio=%s, axes xyt" % r, D, imp(grid, n, sample_ratio=r))
        f = "KD_Discover_SPR.%s with a cut that leaves nothing" % n
        for q in (F(1, 2), 1, F(-1, 10)):
            yield Case(f, "cut_quantile=%s" % q, D, imp(legacy, n, cut_quantile=q))
        f = "KD_Discover_SPR.%s with a sample the data cannot give" % n
        for s in (43, 100, 0, -1):
            yield Case(f, "sample=%s of 42" % s, D, imp(legacy, n, sample=s))
            yield Case(f, "sample=%s of 42, splines" % s, D, imp(legacy, n, sample=s, spline_sample=True))
        for s in (211, 0, -1):
            yield Case(f, "sample=%s of 210, axes xyt" % s, D, imp(grid, n, sample=s))
        f = "KD_Discover_SPR.%s with an option that needs one spatial axis" % n
        for kw in ({"spline_sample": True}, {"cut_quantile": F(1, 10)}, {"data_ratio": F(1, 2)}):
            yield Case(f, "%s, axes xyt" % kw, D, imp(grid, n, **kw))
        f = "KD_Discover_SPR.%s with samples that are not finite" % n
        for kind in ("nan", "inf"):
            for pos in ((0, 0), (3, 2), (5, 6), (0, 6), (5, 0), (1, 1)):
                yield Case(f, "a %s at %s" % (kind, pos), D, imp(lambda ev, kind=kind, pos=pos: legacy(ev, bad=(kind, pos)), n))
            for ax in ("xyt", "txy"):
                yield Case(f, "a %s, axes %s" % (kind, ax), D, imp(lambda ev, kind=kind, ax=ax: gridded(ev, ax, bad=(kind, (3, 2, 1))), n))
    for w, d, kw in (("x, t", legacy, {"sample": 20}), ("x, t", legacy, {"sample": 21, "spline_sample": True}), ("x, t", legacy, {"sample_ratio": F(1, 2)}),
                     ("xyt", grid, {"sample": 20}), ("x, t", legacy, {"sample": 20, "cut_quantile": F(1, 5)})):
        yield Case("valid", "KD_Discover_SPR.import_dataset of %s, %s" % (w, kw), D, imp(d, **kw), False)


# ---------------------------------------------------------------------------- regression
def regression(fitted=None):
    def f(ev, mark):
        o = discover("KD_Discover_Regression", REGR)(ev, mark)
        if fitted:
            prog = stub({"traversal": [], "get_constants": Native(lambda ev, a, k, n: []), "evaluate": {"nmse_test": F(1, 2)},
                         "execute_direct": mark("the evaluation of the program")})
            o.attrs["setup"] = Native(lambda ev, a, k, n: None)
            o.attrs["train"] = Native(lambda ev, a, k, n: {"program": prog, "r": F(1, 2)})
            m(ev, o, "fit", samples(ev, "X", (5, fitted)), samples(ev, "y", (5,)))
        return o
    return f


def xy(X, y):
    return lambda ev, o, **k: m(ev, o, "fit", samples(ev, "X", X), samples(ev, "y", y), **k)


def array_cases(label, mk, names):
    f = "%s.fit with X that is no matrix" % label
    for s in ((5,), (5, 2, 2), (1, 5, 2)):
        yield Case(f, "shape %s" % (s,), mk, xy(s, (s[0],)))
    f = "%s.fit with X and y of different lengths" % label
    for s in ((4,), (6,), (1,), (10,), (5, 2), (2, 5), (4, 1)):
        yield Case(f, "5 rows and y of shape %s" % (s,), mk, xy((5, 2), s))
    if names:
        f = "%s.fit with names for other variables" % label
        for v in (["a"], ["a", "b", "c"], [], ["a", "b", "c", "d", "e"]):
            yield Case(f, "%s for two variables" % v, mk, lambda ev, o, v=v: xy((5, 2), (5,))(ev, o, var_names=list(v)))
        yield Case("valid", "%s.fit with names" % label, mk, lambda ev, o: xy((5, 2), (5,))(ev, o, var_names=["a", "b"]), False)
    for s in ((5,), (5, 1), (1, 5)):
        yield Case("valid", "%s.fit, y of shape %s" % (label, s), mk, xy((5, 2), s), False)


def regression_cases():
    yield from array_cases("KD_Discover_Regression", regression(), True)
    for s in ((5, 2), (5,)):
        yield Case("KD_Discover_Regression.predict before a fit", "X of shape %s" % (s,), regression(), lambda ev, o, s=s: m(ev, o, "predict", samples(ev, "X", s)))
    f = "KD_Discover_Regression.predict with X of another shape"
    for k in (2, 3):
        for s in ((5,), (k,), (5, k, 1), (5, k + 1), (5, k - 1), (k, 5), (5, 1)):
            yield Case(f, "X of shape %s after a fit with %d variables" % (s, k), regression(k), lambda ev, o, s=s: m(ev, o, "predict", samples(ev, "X", s)))
        yield Case("valid", "KD_Discover_Regression.predict, %d variables" % k, regression(k), lambda ev, o, k=k: m(ev, o, "predict", samples(ev, "X", (9, k))), False)


# ---------------------------------------------------------------------------- PySR
def pysr(ev, mark):
    ev.module("kd.model.kd_pysr")["_PySRRegressor"] = mark("the backend")
    return ev.call(ev.get("kd.model.kd_pysr", "KD_PySR"), [], {})


def pysr_cases():
    yield from array_cases("KD_PySR", pysr, False)
    yield Case("KD_PySR.predict before a fit", "X of shape (5, 2)", pysr, lambda ev, o: m(ev, o, "predict", samples(ev, "X", (5, 2))))
    yield Case("KD_PySR.equation_latex before a fit", "on a new estimator", pysr, lambda ev, o: m(ev, o, "equation_latex"))
    yield Case("KD_PySR.equation_latex before a fit", "with a left-hand side", pysr, lambda ev, o: m(ev, o, "equation_latex", "z"))


# ---------------------------------------------------------------------------- EqGPT
def eqgpt_cases():
    def new(**kw):
        return lambda ev, o: ev.call(ev.get("kd.model.kd_eqgpt", "KD_EqGPT"), [], kw)
    none = lambda ev, mark: None
    for f, key, vals in (("KD_EqGPT with an unknown scenario", "pretrained", ["", "wave", "Wave_breaking", "burgers", None, 3]),
                         ("KD_EqGPT with a number of epochs that is none", "optimize_epochs", [0, -1, -100, F(5, 2), "5", None, [5]]),
                         ("KD_EqGPT with a number of samples that is none", "samples_per_epoch", [0, -1, -400, F(5, 2), "5", None, [5]]),
                         ("KD_EqGPT with an unknown case filter", "case_filter", ["", "n", "ALL", "W", None, 1]),
                         ("KD_EqGPT with a negative seed", "seed", [-1, -5])):
        for v in vals:
            yield Case(f, "%s=%r" % (key, v if not isinstance(v, F) else float(v)), none, new(**{key: v}))
    for kw in ({}, {"optimize_epochs": 1, "samples_per_epoch": 1}, {"case_filter": "all", "seed": 7}):
        yield Case("valid", "KD_EqGPT(%s)" % kw, none, new(**kw), False)


# ---------------------------------------------------------------------------- self-test
SELF = '''
import numpy as np

class Careful:
    def __init__(self):
        self.seen_ = None

    def train(self, X):
        return X

    def fit(self, X, mode="a"):
        X = np.asarray(X)
        if X.ndim != 2:
            raise ValueError("shape")
        if mode not in ("a", "b"):
            raise ValueError("mode")
        if not np.all(np.isfinite(X)):
            raise ValueError("values")
        self.seen_ = X
        return self.train(X)

class Hasty(Careful):
    def fit(self, X, mode="a"):
        self.seen_ = X
        return Careful.fit(self, X, mode)

class Blind(Careful):
    def fit(self, X, mode="a"):
        X = np.asarray(X)
        if X.shape[0] > 1 and not np.isfinite(X[0]).all():
            raise ValueError("values")
        return self.train(X)

class Fussy(Careful):
    def fit(self, X, mode="a"):
        if mode == "b":
            raise ValueError("mode")
        return Careful.fit(self, X, mode)
'''


class Probe:
    def __init__(self):
        self.notes, self.seen, self.facts, self.found, self.sites = [], set(), {}, set(), set()

    def count(self, k, n=1):
        self.facts[k] = self.facts.get(k, 0) + n

    def find(self, rule, construct, msg, where_):
        self.found.add((rule, construct))

    def sample(self, *a):
        pass


def selftest():
    from ..selftest import Overlay
    proj = Overlay(PROJECT(), "kd._kdsa_wrong", SELF)
    def cases(cls):
        def mk(ev, mark):
            o = ev.call(ev.get("kd._kdsa_wrong", cls), [], {})
            o.attrs["train"] = mark("the training")
            return o
        yield Case("rank", "a vector", mk, lambda ev, o: m(ev, o, "fit", samples(ev, "X", (5,))))
        yield Case("mode", "c", mk, lambda ev, o: m(ev, o, "fit", samples(ev, "X", (5, 2)), mode="c"))
        yield Case("values", "a nan", mk, lambda ev, o: m(ev, o, "fit", samples(ev, "X", (5, 2), ("nan", (1, 1)))))
        for v in "ab":
            yield Case("valid", "mode %s" % v, mk, lambda ev, o, v=v: m(ev, o, "fit", samples(ev, "X", (5, 2)), mode=v), False)
    for cls, want in (("Careful", set()), ("Hasty", {("touched", "rank"), ("touched", "mode"), ("touched", "values")}),
                      ("Blind", {("accepted", "rank"), ("accepted", "mode"), ("accepted", "values")}), ("Fussy", {("refused", "mode b")})):
        p = Probe()
        R = Runner(p, proj)
        R.rnd = Random(R.ev)
        for c in cases(cls):
            decide(R, c)
        if p.found != want:
            raise AnalysisBroken("C08 self-test: %s gives %s instead of %s (%s)" % (cls, sorted(p.found), sorted(want), p.notes[:3]))


# ---------------------------------------------------------------------------- running
FAMILIES = [("KD_DLGA", dlga_cases), ("PDEDataset.sample", sample_cases), ("KD_SGA", sga_cases), ("KD_Discover", regular_cases), ("KD_Discover_SPR", sparse_cases),
            ("KD_Discover_Regression", regression_cases), ("KD_PySR", pysr_cases), ("KD_EqGPT", eqgpt_cases)]


def start(sub):
    R = Runner(sub)
    R.rnd = Random(R.ev)
    return R


def task(name, cases, part, parts):
    def f(sub):
        R = start(sub)
        for i, c in enumerate(cases()):
            if i % parts == part:
                R.ev.assume[:] = []
                decide(R, c)
    return ("%s %d/%d" % (name, part + 1, parts), f)


def tasks(thorough=False):
    out = []
    for n, c in FAMILIES:
        k = 3 if n in ("KD_Discover", "KD_Discover_SPR") else 1
        out += [task(n, c, i, k) for i in range(k)]
    return out


def run(ctx):
    ctx.rule("abstract interpretation of every public entry point over enumerated wrong uses: every path of the call must raise, before the training "
             "it guards is reached and without having changed an attribute of the estimator")
    selftest()
    todo = tasks(ctx.thorough)
    run_scenarios(ctx, todo)
    ctx.floor("uses_evaluated", 350)
    ctx.floor("wrong_uses_refused", 300)
    ctx.floor("valid_uses_accepted", 20)
    for n, _ in todo[::2]:
        ctx.sample(n)
