"""C03: an estimator used again behaves as one just made.

For every pair of runs the abstract evaluator follows two worlds from the same start: in one the estimator (or another one in
the same process) first carries out an earlier run, in the other it does not.  What the last run leaves behind -- the public
state of the estimator, the state shared by the process, what is handed to the trainers -- must be the same in both."""
import hashlib
import itertools
from fractions import Fraction as F
from ..gridcheck import *
from ..report import AnalysisBroken, run_scenarios
from ..rnd import Random
from ..grid import Cond, Method
from .. import gridlib, finite, ranks
from .c20 import files
from .c08 import legacy, gridded, samples, grid_coord, m, BASE, DISC, REGR, Probe

PROG = "kd.model.discover.program"
SEARCH = "kd.model.discover.searcher"
NUL = Native(lambda ev, a, k, n: None)


# ---------------------------------------------------------------------------- what can be told apart
class Canon:
    """a value as a comparable term; objects are numbered in the order they are met"""
    def __init__(self, ev):
        self.ev, self.ids, self.keep, self.unknown, self.priors = ev, {}, [], 0, []

    def __call__(self, v, depth=0):
        ev = self.ev
        v = ev.force(v)
        if v is None or isinstance(v, (bool, str, bytes)):
            return repr(v)
        if isinstance(v, (int, float, F)):
            return str(F(v)) if v == v and abs(v) != float("inf") else str(v)
        if isinstance(v, Poly):
            return show(v)
        if depth > 7:
            return "..."
        if isinstance(v, Arr):
            try:
                at = show(P(v.at(tuple(Poly.atom(("p", i)) for i in range(len(v.dims))))))
            except Exception:
                try:
                    at = show(P(v.at(tuple(Poly.c(0) for _ in v.dims))))
                except Exception:
                    at = "?"
            return "array(%s: %s)" % (" x ".join(show(P(d)) for d in v.dims), at)
        if isinstance(v, dict):
            return "{%s}" % ", ".join("%s: %s" % kv for kv in sorted((self(k, depth + 1), self(x, depth + 1)) for k, x in v.items()))
        if isinstance(v, (list, tuple)):
            return ("[%s]" if isinstance(v, list) else "(%s)") % ", ".join(self(x, depth + 1) for x in v)
        if isinstance(v, (set, frozenset)):
            return "set(%s)" % ", ".join(sorted(self(x, depth + 1) for x in v))
        if isinstance(v, Inst):
            if id(v) in self.ids:
                return "<%s>" % v.cls.name
            self.ids[id(v)] = len(self.ids)
            self.keep.append(v)
            if v.cls.name == "JointPrior" and "priors" in v.attrs:
                # judged apart: the finding recorded for it must not hide what else differs
                sub = Canon(ev)
                rest = ", ".join("%s=%s" % (k, sub(v.attrs[k], depth + 1)) for k in sorted(v.attrs) if not str(k).startswith("_") and k != "library")
                self.priors.append("%d priors: %s" % (len(v.attrs["priors"]), rest))
                return "<JointPrior>"
            return "%s(%s)" % (v.cls.name, ", ".join("%s=%s" % (k, self(v.attrs[k], depth + 1)) for k in sorted(v.attrs) if not str(k).startswith("_")))
        if isinstance(v, (Unk, Cond)):
            self.unknown += 1
            return "?"
        if isinstance(v, Bound):
            return "method of %s" % self(v.self_, depth + 1)
        if isinstance(v, Func):
            return "function %s" % v.name
        if isinstance(v, Cls):
            return "class %s" % v.name
        return type(v).__name__


def public(ev, o):
    """what can be read from an estimator, by attribute"""
    out = {}
    for k, v in o.attrs.items():
        if isinstance(k, str) and not k.startswith("_") and not isinstance(v, (Native, Func, Bound)):
            c = Canon(ev)
            out["attribute " + k] = c(v)
            for p in c.priors:
                out["%s of attribute %s" % (PRIORS, k)] = p
    return out


def shared(ev):
    """the state that all searches of a process share"""
    out = {}
    for mod, cls in ((PROG, "Program"), ("kd.model.discover.stridge", "STRidge")):
        if ev.proj.has(mod) and cls in ev.module(mod):
            c = ev.get(mod, cls)
            for k, v in c.attrs.items():
                if isinstance(v, (Func, Static, Native)) and k != "execute_function" or type(v).__name__ in ("Prop", "Method"):
                    continue
                if not k.startswith("__"):
                    out["%s.%s" % (cls, k)] = Canon(ev)(v)
    return out


PRIORS = "the priors"


class World:
    """one evaluation: records what is handed to the replaced trainers"""
    def __init__(self, R):
        self.R, self.ev, self.log = R, R.ev, []

    def note(self, what, result=None):
        def f(ev, a, k, n):
            c = Canon(ev)
            self.log.append((what, c(list(a)), c(dict(k)), c.priors))
            return result(ev, a, k, n) if callable(result) else result
        return Native(f)

    def seen(self):
        out = {}
        for i, (what, a, k, *p) in enumerate(self.log):
            p = p[0] if p else []
            out["%s (call %d)" % (what, i + 1)] = "%s %s" % (a, k)
            if p:
                out["%s of %s (call %d)" % (PRIORS, what, i + 1)] = "; ".join(p)
        return out


class History:
    """make(w) -> estimator; earlier: what happens first, or nothing; last: the run that is judged.  Both are f(w, estimator)."""
    def __init__(self, family, what, make, earlier, last, world=None, look=None):
        self.family, self.what, self.make, self.earlier, self.last, self.world = family, what, make, earlier, last, world
        self.look = look or (lambda w, o: public(w.ev, o))


def follow(R, h, used):
    """the outcomes of the judged run, one per path"""
    ev = R.ev

    def th():
        R.rnd.reset()
        ev.special = None
        w = World(R)
        if h.world:
            h.world(w)
        o = h.make(w)
        if used:
            try:
                h.earlier(w, o)
            except PyRaise as e:
                w.log = None
                return {"outcome": "the earlier run raises %s %s at %s" % (e, e.msg or "", where(e))}
        w.log = []
        R.rnd.reset()
        try:
            h.last(w, o)
        except PyRaise as e:
            return {"outcome": "raises %s" % e.name, "at": where(e), "why": e.msg or ""}
        out = {"outcome": "returns"}
        out.update(h.look(w, o))
        out.update(shared(ev))
        out.update(w.seen())
        return out
    try:
        return [(k, v, t) for (k, v), t in ev.explore(th, 64)]
    finally:
        R.sub.seen |= {"%s.%s" % t for t in ev.trace}
        R.sub.count("call_evaluations", ev.sites)
        ev.sites = 0


FRESH = {}


def decide(R, h, key=None):
    sub = R.sub
    name = "%s: %s" % (h.family, h.what)
    sub.count("histories_compared")
    try:
        if key is not None and key in R.fresh:
            fresh = R.fresh[key]
        else:
            fresh = follow(R, h, False)
            if key is not None:
                R.fresh[key] = fresh
        used = follow(R, h, True)
    except (Unmodelled, NotPoly, RecursionError) as e:
        return R.undecided(name, e)
    lost = [v for k, v, t in used if k == "ok" and v["outcome"].startswith("the earlier")]
    used = [x for x in used if x[1] not in lost]
    if not used:
        return R.undecided(name, lost[0]["outcome"])
    bad = [v for k, v, t in fresh + used if k != "ok"]
    if bad:
        return R.undecided(name, "%s %s at %s" % (bad[0], bad[0].msg or "", where(bad[0])))
    sub.count("paths_followed", len(fresh) + len(used))
    if len(fresh) > 8 or len(used) > 8:
        return R.undecided(name, "%d and %d paths: %s" % (len(fresh), len(used), fresh[0][2][:2]))
    if all(v["outcome"] != "returns" for k, v, t in fresh):
        return R.undecided(name, "the run fails on a new estimator: %s" % (fresh[0][1],))
    for k, v, t in used:
        if any(v == f for _, f, _ in fresh):
            continue
        # the new world that resembles this one most
        near = min((f for _, f, _ in fresh), key=lambda f: sum(f.get(x) != v.get(x) for x in set(f) | set(v)))
        what = sorted(x for x in set(near) | set(v) if near.get(x) != v.get(x))
        if len(fresh) > 1 and not any(set(map(str, tf)) <= set(map(str, t)) for _, _, tf in fresh):
            return R.undecided(name, "paths with different conditions: %s" % (t[:2],))
        lost = [x for x in what if x.startswith(PRIORS) and v.get(x, "").startswith("0 priors") and not near.get(x, "0 priors").startswith("0 priors")]
        if lost:
            sub.find("priors", "make_prior called again: %s" % h.family.split(".")[0], "%s, %s: the search runs without any of the constraints it has on a new estimator (%s: %s)" % (
                h.family, h.what, lost[0], near.get(lost[0])[:150]), h.family)
        what = [x for x in what if x not in lost]
        if not what:
            return
        x = what[0] if "outcome" not in what else "outcome"
        a, b = differ(near.get(x, "nothing"), v.get(x, "nothing"))
        sub.find("residue", "%s: %s" % (h.family, x.split(" (call")[0]), "%s, %s: %s differs from a new estimator's: %s instead of %s%s" % (
            h.family, h.what, x, b, a, "; also " + ", ".join(what[1:5]) if len(what) > 1 else ""), h.family)
        return
    sub.count("runs_equal_to_a_fresh_one")


def differ(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 40)
    return a[i:i + 110], b[i:i + 110]


# ---------------------------------------------------------------------------- DISCOVER
def with_params(d):
    def f(ev):
        o = d(ev)
        o.attrs["param_fields"] = {"nu": samples(ev, "nu", [P(k) for k in o.attrs["usol"].dims])}
        return o
    return f


def named(d, name):
    def f(ev):
        o = d(ev)
        o.attrs["equation_name"] = name
        return o
    return f


DATA = {"one axis": named(lambda ev: legacy(ev), "first"), "one axis, other size": named(lambda ev: legacy(ev, nx=9, nt=8), "second"),
        "two axes": named(lambda ev: gridded(ev, "xyt"), "third"), "three axes": named(lambda ev: gridded(ev, "xyzt"), "fourth"),
        "one axis with a coefficient field": named(with_params(lambda ev: legacy(ev)), "fifth"),
        "one axis, other size, same name": named(lambda ev: legacy(ev, nx=9, nt=8), "first")}


def with_other(params, run):
    """the run, with other parameters than the estimator was built with; they are put back afterwards"""
    def f(w, o):
        own = {k: o.attrs[k] for k in params}
        o.attrs.update({k: list(v) if isinstance(v, list) else v for k, v in params.items()})
        run(w, o)
        o.attrs.update(own)
    return f


def program(name):
    p = stub({"r_ridge": F(1, 2), "invalid": False, "str_expression": name, "str": name, "traversal": [], "tokens": [1, 2],
              "get_constants": Native(lambda ev, a, k, n: []), "evaluate": {"nmse_test": F(1, 2)}, "execute_direct": NUL, "switch_tokens": NUL}, "Prog")
    return p


def discover_world(w):
    md = w.ev.module(DISC)
    md["Controller"] = w.note("Controller", lambda ev, a, k, n: stub({"pqt_k": 10, "pqt_batch_size": 1, "max_length": 64, "prior": a[0]}, "Ctl"))
    md["PINN_model"] = w.note("PINN_model", lambda ev, a, k, n: stub({
        "import_outter_data": w.note("PINN_model.import_outter_data"), "pretrain": w.note("PINN_model.pretrain"),
        "train_pinn": w.note("PINN_model.train_pinn")}, "Pinn"))
    def searched(ev, a, k, n):
        """a search scores programs on the data at hand and leaves them in the caches of the process"""
        P_ = ev.get(PROG, "Program")
        key = "scored on " + hashlib.md5(Canon(ev)(P_.attrs.get("task")).encode()).hexdigest()[:8]
        for c in (P_, ev.get("kd.model.discover.stridge", "STRidge")):
            if isinstance(c.attrs.get("cache"), dict):
                c.attrs["cache"][key] = 1
    md["Searcher"] = w.note("Searcher", lambda ev, a, k, n: stub({
        "search": w.note("Searcher.search", lambda ev, a, k, n: searched(ev, a, k, n) or {"program": program("best"), "r": F(1, 2), "expression": "best", "traversal": "best"}),
        "r_history": [], "best_p": None}, "Search"))
    md["from_tokens"] = Native(lambda ev, a, k, n: program("again"))
    w.ev.get(PROG, "Program").attrs["reset_task"] = w.note("Program.reset_task")


def est(cls, mod=DISC, **kw):
    def make(w):
        k = dict(out_path="./log/")
        k.update({a: (list(v) if isinstance(v, list) else v) for a, v in kw.items()})
        return w.ev.call(w.ev.get(mod, cls), [], k)
    return make


def imports(d, **kw):
    return lambda w, o: m(w.ev, o, "import_dataset", DATA[d](w.ev), **kw)


def fits(d, **kw):
    return lambda w, o: m(w.ev, o, "fit_dataset", DATA[d](w.ev), **kw)


def other(make, run):
    """another estimator of the same process"""
    def f(w, o):
        run(w, make(w))
    return f


def both(*fs):
    def f(w, o):
        for g in fs:
            g(w, o)
    return f


def discover_cases(cls, thorough):
    opts = {"KD_Discover": [("", {}), (", chosen operators", dict(binary_operators=["add", "mul"], unary_operators=["n2"])), (", no output", dict(out_path=None))],
            "KD_Discover_SPR": [("", {}), (", chosen operators", dict(binary_operators=["add_t", "mul_t"], unary_operators=["n2_t"]))]}[cls]
    spr = cls == "KD_Discover_SPR"
    kw = {"sample": 20} if spr else {}
    names = [d for d in DATA if thorough or "three" not in d or not spr]
    for on, opt in opts:
        if on and not thorough:
            pairs = [("one axis", "two axes"), ("two axes", "one axis"), ("one axis", "one axis, other size")]
        else:
            pairs = list(itertools.product(names, names))
        for a, b in pairs:
            f = "%s.import_dataset after import_dataset" % cls
            yield History(f, "%s after %s%s" % (b, a, on), est(cls, **opt), imports(a, **kw), imports(b, **kw), discover_world), (cls, on, "import", b)
    k2 = dict(kw, n_epochs=2, verbose=False)
    for a, b in [(a, b) for a in names for b in names if thorough or "size" in b or "size" in a or a == b]:
        f = "%s.fit_dataset after fit_dataset" % cls
        yield History(f, "%s after %s" % (b, a), est(cls), fits(a, **k2), fits(b, **k2), discover_world), (cls, "", "fit", b)
    for p in (dict(n_iterations=7, n_samples_per_batch=9), dict(binary_operators=["add_t", "div_t"] if spr else ["add", "div"], unary_operators=["n3_t" if spr else "n3"]), dict(seed=5)):
        f = "%s.fit_dataset after other parameters" % cls
        yield History(f, "%s" % p, est(cls), with_other(p, fits("one axis", **k2)), fits("two axes", **k2), discover_world), (cls, "", "fit", "two axes")
    for a, b in (("one axis", "one axis, other size"), ("two axes", "one axis")):
        for oc in ("KD_Discover", "KD_Discover_SPR"):
            ok = {"sample": 20} if oc == "KD_Discover_SPR" else {}
            f = "%s.import_dataset after another estimator" % cls
            yield History(f, "%s after %s of %s" % (b, a, oc), est(cls), other(est(oc, config_out={"training": {"epsilon": F(1, 4)}}), imports(a, **ok)), imports(b, **kw),
                          discover_world), (cls, "", "import", b)
        f = "%s.import_dataset after a regression" % cls
        yield History(f, b, est(cls), other(est("KD_Discover_Regression", REGR), arrays(5, 2)), imports(b, **kw), discover_world), (cls, "", "import", b)
    if spr:
        t = lambda w, o: m(w.ev, o, "train", 2, False)
        for d in ("one axis", "two axes"):
            yield History("KD_Discover_SPR.train after train", d, est(cls), both(imports(d, **kw), t), both(imports(d, **kw), t), discover_world), (cls, "", "train", d)

            def again(w, o, d=d):
                w.log = []
                t(w, o)

            def first(w, o, d=d):
                imports(d, **kw)(w, o)
            h = History("KD_Discover_SPR.train called twice", d, lambda w, d=d: first_of(w, est(cls)(w), first), t, again, discover_world)
            yield h, (cls, "", "twice", d)


def first_of(w, o, f):
    f(w, o)
    return o


def arrays(rows, cols, name="X", **kw):
    return lambda w, o: m(w.ev, o, "fit", samples(w.ev, name, (rows, cols)), samples(w.ev, name + "y", (rows,)), **kw)


def regression_cases():
    mk = est("KD_Discover_Regression", REGR)
    f = "KD_Discover_Regression.fit after fit"
    for (r, c), (r2, c2) in itertools.product(((5, 2), (7, 3), (5, 1)), repeat=2):
        for kw in ({}, {"var_names": ["a", "b", "c"][:c]}):
            yield History(f, "%d x %d after %d x %d %s" % (r2, c2, r, c, kw or ""), mk, arrays(r, c, "A", **kw), arrays(r2, c2, "B"), discover_world), ("r", r2, c2)
    for on, kw in (("one", dict(binary_operators=["add", "mul"])), ("some", dict(binary_operators=["add"], unary_operators=["sin", "const"]))):
        yield History("KD_Discover_Regression.fit after other parameters", "%s" % kw, mk, with_other(kw, arrays(5, 2, "A")), arrays(7, 3, "B"), discover_world), ("r", 7, 3)
        yield History(f, "%s chosen operators" % on, est("KD_Discover_Regression", REGR, **kw), arrays(5, 2, "A"), arrays(5, 2, "B"), discover_world), None
    for oc, ok in (("KD_Discover", {}), ("KD_Discover_SPR", {"sample": 20})):
        yield History("KD_Discover_Regression.fit after another estimator", oc, mk, other(est(oc), imports("two axes", **ok)), arrays(5, 2, "B"), discover_world), ("r", 5, 2)


# ---------------------------------------------------------------------------- DLGA
def dlga_world(w):
    md = w.ev.module("kd.model.dlga")
    K = w.ev.get("kd.model.kd_dlga", "KD_DLGA")

    def net(ev, a, k, n):
        o = stub({"steps": 0, "loaded": None}, "Net")
        o.cls.attrs["__call__"] = Method(lambda ev, a, k, n: Arr(ev, [a[1].dims[0], 1], lambda pos: Poly.atom(("s", "net", tuple(pos))), torch=True))
        w.nets.append(o)
        o.attrs.update(parameters=Native(lambda ev, a, k, n: [o]), state_dict=Native(lambda ev, a, k, n: {"steps": o.attrs["steps"]}),
                       load_state_dict=Native(lambda ev, a, k, n: o.attrs.update(a[0]) if isinstance(a[0], dict) else None),
                       to=Native(lambda ev, a, k, n: o), train=Native(lambda ev, a, k, n: o), eval=Native(lambda ev, a, k, n: o))
        return o
    files(w.ev)
    w.nets = []
    md["NN"] = Native(net)

    def adam(ev, a, k, n):
        of = a[0][0]["params"][0] if isinstance(a[0], list) and isinstance(a[0][0], dict) else a[0][0]

        def step(ev, a, k, n):
            of.attrs["steps"] += 1
        return stub({"zero_grad": NUL, "step": Native(step)}, "Adam")
    disk = {}

    def save(ev, a, k, n):
        disk[Canon(ev)(a[1])] = dict(a[0])

    def load(ev, a, k, n):
        f = Canon(ev)(a[0])
        if f not in disk:
            raise Unmodelled("loads %s, which was not saved" % f)
        return dict(disk[f])
    w.ev.handlers.update({"torch.optim.Adam": adam, "torch.save": save, "torch.load": load})

    def fitness(ev, a, k, n):
        return Arr(ev, [Poly.c(1), Poly.c(1)], lambda pos: Poly.c(3) * F(1, 4)), F(1, 2), F(1, 2), "u_t"
    for c in (K, w.ev.get("kd.model.dlga", "DLGA")):
        c.attrs.update(get_fitness=Native(fitness), translate_DNA=Native(lambda ev, a, k, n: ([], 1)), random_genome=Native(lambda ev, a, k, n: [[0]]),
                       cross_over=NUL, mutation=NUL, delete_duplicates=NUL, convert_chrom_to_eq=Native(lambda ev, a, k, n: "eq"))
    def meta(ev, a, k, n):
        a[0].attrs["metadata"] = {"u": samples(ev, "meta", (P(a[1].dims[0]), 1))}
        return samples(ev, "Theta", (P(a[1].dims[0]), 2))
    K.attrs["generate_meta_data"] = Method(meta)


def dlga_look(w, o):
    out = public(w.ev, o)
    out.pop("attribute Net", None)
    net = w.ev.getattr(o, "Net")
    out["training steps taken by the network"] = str(net.attrs.get("steps")) if isinstance(net, Inst) else "?"
    return out


def dlga_cases():
    def mk(w):
        o = w.ev.call(w.ev.get("kd.model.kd_dlga", "KD_DLGA"), [], dict(operators=["u", "u_x"], epi=F(1, 10), input_dim=2, max_iter=3))
        o.attrs.update(pop_size=2, n_generations=2)
        return o
    f = "KD_DLGA.fit_dataset after fit_dataset"
    fd = lambda d, **kw: (lambda w, o: m(w.ev, o, "fit_dataset", DATA[d](w.ev), **kw))
    for a, b in itertools.product(("one axis", "one axis, other size"), repeat=2):
        for kw in ({}, {"sample": 10}, {"Xy_from": "mesh"}):
            yield History(f, "%s after %s %s" % (b, a, kw or ""), mk, fd(a), fd(b, **kw), dlga_world, dlga_look), ("d", b, str(kw))
    yield History("KD_DLGA.fit_dataset after another estimator", "", mk, other(mk, fd("one axis")), fd("one axis, other size"), dlga_world, dlga_look), ("d", "one axis, other size", "{}")


# ---------------------------------------------------------------------------- SGA, PySR
SGADATA = {"two axes, field v": named(lambda ev: gridded(ev, "xyt", target="v"), "sixth"), "two axes, evolving along y": named(lambda ev: gridded(ev, "xyt", lhs="y"), "seventh")}


def sga_cases(thorough):
    def mk(**kw):
        return lambda w: w.ev.call(w.ev.get("kd.model.kd_sga", "KD_SGA"), [], kw)

    def fd(d):
        def f(w, o):
            def solver(ev, a, k, n):
                w.log.append(("solver", Canon(ev)(a), Canon(ev)(k)))
                return stub({"run": w.note("solver.run", ("best", F(1, 2))), "best_equation_details_": "details"}, "Solver")
            return m(w.ev, o, "fit_dataset", DATA.get(d, SGADATA.get(d))(w.ev), solver_cls=Native(solver))
        return f
    names = list(DATA) + list(SGADATA)
    f = "KD_SGA.fit_dataset after fit_dataset"
    for a, b in itertools.product(names, names):
        if thorough or a == names[0] or b == names[0] or a == b:
            yield History(f, "%s after %s" % (b, a), mk(), fd(a), fd(b)), ("s", b)
    for kw in (dict(lhs_axis="t"), dict(target_field="u"), dict(seed=3, num=5)):
        yield History(f, "with %s" % kw, mk(**kw), fd("two axes"), fd("one axis")), None
        yield History("KD_SGA.fit_dataset after other parameters", "%s" % kw, mk(), with_other(kw, fd("two axes")), fd("one axis")), ("s", "one axis")
        yield History("KD_SGA.fit_dataset after another estimator", "with %s" % kw, mk(), other(mk(**kw), fd("two axes")), fd("one axis")), ("s", "one axis")


def pysr_cases():
    def world(w):
        md = w.ev.module("kd.model.kd_pysr")
        def backend(ev, a, k, n):
            o = stub({"rows": None}, "Backend")
            def fit(ev, a, k, n):
                o.attrs["rows"] = a[0].dims[0]
            o.attrs.update(fit=Native(fit), get_best=Native(lambda ev, a, k, n: {"equation": "eq of %s rows" % show(P(o.attrs["rows"]))}),
                           sympy=Native(lambda ev, a, k, n: "sympy of %s rows" % show(P(o.attrs["rows"]))))
            return o
        md["_PySRRegressor"] = w.note("PySRRegressor", backend)

    def bare(w):
        """a backend without the optional interfaces"""
        world(w)
        n = []
        def backend(ev, a, k, nd):
            n.append(0)
            return stub({"fit": NUL}, "Backend") if len(n) > 1 or not w.rich else stub({
                "fit": NUL, "get_best": Native(lambda ev, a, k, n: {"equation": "old"}), "sympy": Native(lambda ev, a, k, n: "old")}, "Backend")
        w.ev.module("kd.model.kd_pysr")["_PySRRegressor"] = Native(backend)

    def mk(**kw):
        return lambda w: w.ev.call(w.ev.get("kd.model.kd_pysr", "KD_PySR"), [], dict(kw))
    f = "KD_PySR.fit after fit"
    look = lambda w, o: dict(public(w.ev, o), **{"the fitted backend": Canon(w.ev)(o.attrs.get("_model")), "equation_latex": Canon(w.ev)(m(w.ev, o, "equation_latex"))})
    for kw in ({}, dict(niterations=3, binary_operators=["+"], unary_operators=["exp"]), dict(extra_model_kwargs={"procs": 0})):
        for (r, c), (r2, c2) in itertools.product(((5, 2), (7, 3)), repeat=2):
            yield History(f, "%d x %d after %d x %d %s" % (r2, c2, r, c, kw), mk(**kw), arrays(r, c, "A"), arrays(r2, c2, "B"), world, look), None
        if kw:
            yield History("KD_PySR.fit after other parameters", str(kw), mk(), with_other(kw, arrays(5, 2, "A")), arrays(7, 3, "B"), world, look), None
            yield History("KD_PySR.fit after other parameters", "set back from %s" % kw, mk(niterations=9, binary_operators=["-"], unary_operators=["log"]),
                          with_other(kw, arrays(5, 2, "A")), arrays(7, 3, "B"), world, look), None
        yield History("KD_PySR.fit after another estimator", str(kw), mk(), other(mk(**kw), arrays(5, 2, "A")), arrays(7, 3, "B"), world, look), None


# ---------------------------------------------------------------------------- the search loop
def search_cases():
    def world(w):
        ev = w.ev
        md = ev.module(SEARCH)
        w.made = []

        def prog(ev, a, k, n):
            nm = "P%d" % len(w.made)
            p = stub({"r_ridge": w.scores[len(w.made) % len(w.scores)], "invalid": w.invalid, "str_expression": nm, "str": nm, "traversal": ["add", nm],
                      "originally_on_policy": True, "print_stats": NUL, "STRidge": None}, "Prog")
            p.cls.attrs["__repr__"] = Native(lambda ev, a, k, n: "repr of " + nm)
            w.made.append(p)
            return p
        if "from_tokens" not in md:
            raise Unmodelled("no from_tokens in %s" % SEARCH)
        md["from_tokens"] = Native(prog)
        md["Plotter"] = Native(lambda ev, a, k, n: stub({}))

        def queue(ev, a, k, n):
            q = stub({"items": 0, "sample_batch": NUL, "iter_in_order": Native(lambda ev, a, k, n: [])}, "Queue")
            def push(ev, a, k, n):
                q.attrs["items"] += 1
            q.attrs["push_batch"] = Native(push)
            q.cls.attrs["__len__"] = Native(lambda ev, a, k, n: q.attrs["items"])
            return q
        md["make_queue"] = Native(queue)

    def mk(size):
        def f(w):
            ev = w.ev

            def episodes(ev, a, k, n):
                def arr(nm, *more):
                    return Arr(ev, [size] + list(more), lambda pos: Poly.atom(("s", nm, tuple(pos))))
                acts = arr("actions", 5)
                acts.torch = True
                return acts, arr("obs", 3, 5), arr("priors", 5, 4), None, None
            ctrl = stub({"pqt_k": 10, "pqt_batch_size": 1, "max_length": 5, "sample_episodes": Native(episodes), "train_step": NUL}, "Controller")
            return ev.call(ev.get(SEARCH, "Searcher"), [ctrl, {"n_iterations": 2, "n_samples_per_batch": size, "stability_selection": 0, "epsilon": F(1, 2)}])
        return f

    def run(scores, invalid, steps=2):
        def f(w, s):
            w.scores, w.invalid, w.made = [F(x) for x in scores], invalid, []
            return m(w.ev, s, "search", n_epochs=steps, verbose=False)
        return f
    f = "Searcher.search after search"
    sets = [("good programs first", (9, 8, 7, 6, 5, 4)), ("poor programs first", (1, 2, 1, 2, 1, 2))]
    for (an, a), (bn, b) in itertools.product(sets, repeat=2):
        for inv in (False, True):
            for steps in (1, 2, 3):
                yield History(f, "%s then %s%s, %d batches" % (an, bn, ", none valid at first" if inv else "", steps), mk(2), run(a, inv, steps), run(b, False, 2), world), None
                yield History(f, "%s then %s, %s, none valid, %d batches" % (an, bn, "none" if inv else "all", steps), mk(2), run(a, inv, steps), run(b, True, 2), world), None


# ---------------------------------------------------------------------------- EqGPT
def eqgpt_cases(thorough):
    EQ = "kd.model.kd_eqgpt"

    def world(w):
        ev = w.ev
        gm, ct = ev.module("kd.model.eqgpt.gpt_model"), ev.module("kd.model.eqgpt.continue_train_GPT_all")
        dv = ev.module("kd.model.eqgpt._device")
        w2i, i2w = gm["word2id"], gm["id2word"]
        words = [x for x in ("u", "ux", "uxx", "u^2", "uxxx", "u^3", "uxxxx") if x in w2i]
        w.start, w.given = 0, []

        def step(ev, a, k, n):
            if len(a[-2]) > 3:
                return w2i["E"], None
            w.given.append(0)
            return w2i[words[(w.start + len(w.given) - 1) % len(words)]], None

        def gpt(ev, a, k, n):
            net = stub({"step": Native(step), "load_state_dict": w.note("load_state_dict"), "parameters": Native(lambda ev, a, k, n: [])}, "GPT")
            net.attrs["to"] = Native(lambda ev, a, k, n: net)
            return net
        gm["GPT"] = Native(gpt)

        def reward(ev, a, k, n):
            key = "".join(i2w[t] for t in list(a[0]) if t not in (w2i["S"], w2i["E"]))
            w.log.append(("calculate_reward", key, Canon(ev)(list(a[1:]))))
            return F(1 + words.index(key) if key in words else 1, 10), a[3], a[4]
        ct["calculate_reward"] = Native(reward)
        ct["train_step"] = NUL
        ct["MyDataSet"] = Native(lambda ev, a, k, n: stub({"padding_batch": NUL}))
        ct["get_mask_invalid"] = NUL
        dv["load_checkpoint"] = NUL
        ev.get(EQ, "KD_EqGPT").attrs["_load_surrogates"] = Native(lambda ev, a, k, n: ([], [], [], []))
        ev.handlers["pickle.load"] = lambda ev, a, k, n: {}

    def mk(w):
        return w.ev.call(w.ev.get(EQ, "KD_EqGPT"), [], dict(optimize_epochs=2, samples_per_epoch=2))

    def run(start):
        def f(w, o):
            w.start, w.given = start, []
            return m(w.ev, o, "fit_pretrained")
        return f
    for a, b in ((0, 0), (0, 3), (3, 0), (5, 1)):
        yield History("KD_EqGPT.fit_pretrained after fit_pretrained", "sentences from %d after sentences from %d" % (b, a), mk, run(a), run(b), world), ("e", b)
        yield History("KD_EqGPT.fit_pretrained after another estimator", "sentences from %d after sentences from %d" % (b, a), mk, other(mk, run(a)), run(b), world), ("e", b)


# ---------------------------------------------------------------------------- self-test
SELF = '''
class Clean:
    shared = []
    def __init__(self, opts=None):
        self.opts = opts
        self.out = "./log"
        self.scores = []
        self.options = {"a": 1, "b": 2}

    def train(self, X, **k):
        return X

    def fit(self, X, y):
        self.scores = []
        path = self.out + "/run"
        self.where = path
        self.train(X, **self.options)
        self.scores.append(1)
        return self

class Growing(Clean):
    def fit(self, X, y):
        self.scores.append(1)
        return self

class Nested(Clean):
    def fit(self, X, y):
        self.out = self.out + "/run"
        return Clean.fit(self, X, y)

class Consumed(Clean):
    def fit(self, X, y):
        o = self.options
        a = o.pop("a", None)
        self.train(X, a=a, **o)
        return self

class Shared(Clean):
    def fit(self, X, y):
        self.shared.append(X)
        self.n = len(self.shared)
        return self
'''


def selftest():
    from ..selftest import Overlay
    proj = Overlay(PROJECT(), "kd._kdsa_used", SELF)
    for cls, want in (("Clean", False), ("Growing", True), ("Nested", True), ("Consumed", True), ("Shared", True)):
        p = Probe()
        R = Runner(p, proj)
        R.rnd, R.fresh = Random(R.ev), {}
        def mk(w):
            o = w.ev.call(w.ev.get("kd._kdsa_used", cls), [], {})
            o.attrs["train"] = w.note("train")
            return o
        decide(R, History("x", "used", mk, arrays(5, 2, "A"), arrays(7, 3, "B")))
        if bool(p.found) != want or p.notes:
            raise AnalysisBroken("C03 self-test: %s gives %s (%s)" % (cls, sorted(p.found), p.notes[:3]))
        if cls == "Shared":
            p.found.clear()
            decide(R, History("x", "other", mk, other(mk, arrays(5, 2, "A")), arrays(7, 3, "B")))
            if not p.found:
                raise AnalysisBroken("C03 self-test: state of the class is not compared")


# ---------------------------------------------------------------------------- running
def start(sub):
    R = Runner(sub)
    R.rnd, R.fresh = Random(R.ev), {}
    finite.install(R.ev)
    R.ev.handlers["os.path.exists"] = R.ev.handlers["path.exists"] = lambda ev, a, k, n: True
    return R


def task(name, cases, part, parts, rank=False):
    def f(sub):
        R = start(sub)
        if rank:
            ranks.install(R.ev)
        for i, (h, key) in enumerate(cases()):
            if i % parts == part:
                R.ev.assume[:] = []
                decide(R, h, key)
    return ("%s %d/%d" % (name, part + 1, parts), f)


def tasks(thorough=False):
    fam = [("KD_Discover", lambda: discover_cases("KD_Discover", thorough), 4, False), ("KD_Discover_SPR", lambda: discover_cases("KD_Discover_SPR", thorough), 6, False),
           ("KD_Discover_Regression", regression_cases, 2, False), ("KD_DLGA", dlga_cases, 1, True), ("KD_SGA", lambda: sga_cases(thorough), 3, False),
           ("KD_PySR", pysr_cases, 1, False), ("Searcher", search_cases, 2, True), ("KD_EqGPT", lambda: eqgpt_cases(thorough), 1, True)]
    return [task(n, c, i, k, r) for n, c, k, r in fam for i in range(k)]


def run(ctx):
    ctx.rule("abstract interpretation of every estimator in two worlds that differ only in an earlier run: the state the last run leaves and what it "
             "hands to the trainers must be equal")
    selftest()
    todo = tasks(ctx.thorough)
    run_scenarios(ctx, todo)
    ctx.floor("histories_compared", 100)
    ctx.floor("runs_equal_to_a_fresh_one", 60)
    for n, _ in todo[::3]:
        ctx.sample(n)
