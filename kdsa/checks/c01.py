"""C01: caller-owned storage is never written."""
from ..worlds import *
from ..values import *
from .. import scenarios as S
from ..report import run_scenarios, drive

# attribute caches that a dataset object keeps on itself are not part of the caller's data
DS_CLASS = "kd.dataset._base:PDEDataset"


class An(Analysis):
    max_steps = 600_000

    def __init__(self, ctx, scen):
        self.ctx, self.scen = ctx, scen

    def mutate(self, eng, ls, what, node, st):
        fr = eng.frames[-1]
        f = fr.func
        if what.startswith("attribute store") and f is not None and f.cls is not None and \
                f.cls.qual == DS_CLASS and set(ls) == {"@dataset"}:
            return
        q = f.qual if f is not None else fr.mod
        names = sorted(x for x in ls)
        for n in names:
            base = n.split(".")[0]
            self.ctx.find("caller-data-written", "%s|%s" % (q, base),
                          "%s writes storage of the caller's %s (%s)" % (q, n[1:], what),
                          eng.where(node) + " in scenario " + self.scen + " via " + " > ".join(c.split(":")[-1] for c in eng.chain()[-5:-1]))

    def call_hook(self, eng, func, args, kwargs, st, node):
        return None


class AnFast(An):
    kctx = 2


SELF = '''
import numpy as np
def bad_view(a):
    b = np.asarray(a).reshape(-1, 1)
    np.random.shuffle(b)
def bad_aug(a):
    b = a[1:]
    b -= 1
def bad_pop(d):
    d.pop("k", None)
def ok(a, d):
    b = np.array(a, copy=True)
    b -= 1
    np.random.shuffle(b)
    e = dict(d)
    e.pop("k", None)
    c = a - 1
    c += 2
    return c
'''


def selftest(ctx):
    from ..selftest import run_snippet
    hits = {}

    class T(Analysis):
        def mutate(self, eng, ls, what, node, st):
            hits[eng.frames[-1].func.name] = ls

    w = run_snippet(T(), SELF)
    for n in ("bad_view", "bad_aug", "ok"):
        w.call(w.get("kdsa_self", n), [arr(["n"], "@a")] + ([w.dict({"k": C(1)}, "@d")] if n == "ok" else []), {}, n)
    w.call(w.get("kdsa_self", "bad_pop"), [w.dict({"k": C(1)}, "@d")], {}, "p")
    from ..report import AnalysisBroken
    if set(hits) != {"bad_view", "bad_aug", "bad_pop"}:
        raise AnalysisBroken("C01 self-test: flagged %s" % sorted(hits))


def run(ctx):
    ctx.rule("alias/effect analysis: every array, dict, list and dataset passed in at a public entry point carries an "
             "alias label; labels follow views (asarray, reshape, ravel, slices, attribute storage, containers) and are "
             "dropped by copies; any in-place operation (item/attribute store, augmented assignment, mutating method, "
             "out=, shuffle) on labelled storage is a violation")
    ctx.assumptions.append("external functions write only the arguments listed in kdsa/models.py (MUT_FUNCS, out=, in-place methods)")
    selftest(ctx)
    tasks = []

    def go(name, f, cls=An):
        tasks.append((name, lambda sub: drive(cls(sub, name), f, sub)))

    for dn, mkds in S.DATASETS.items():
        go("dataset:" + dn, lambda w, mkds=mkds: S.ds_methods(w, mkds(w)))
        go("sga:" + dn, lambda w, mkds=mkds: S.sga_fit(w, mkds(w)))
        go("discover:" + dn, lambda w, mkds=mkds: S.discover_fit(w, mkds(w)))
        if ctx.thorough or dn in ("legacy", "legacy_dict", "nd_txy"):
            go("spr:" + dn, lambda w, mkds=mkds: S.spr_fit(w, mkds(w)), An if ctx.thorough else (AnFast if dn == "nd_txy" else An))
        else:
            go("spr.import:" + dn, lambda w, mkds=mkds: S.spr_import(w, mkds(w)))
        go("dlga:" + dn, lambda w, mkds=mkds: S.dlga_fit_dataset(w, mkds(w)))
    go("dlga.fit", S.dlga_fit)
    go("spr.fit", S.spr_fit_xy)
    go("regression", S.regr_fit)
    go("pysr", S.pysr_fit)
    go("eqgpt", S.eqgpt_fit)
    go("sparse_data", S.sparse_data)
    go("regular_data", S.regular_data)
    go("dataset_fns", S.dataset_fns)
    go("discover.inner", S.discover_inner)
    go("discover.extra", lambda w: S.base_params(w, S.discover_extra(w, S.discover_fit(w, S.legacy_ds(w)))))
    go("sga.extra", lambda w: S.base_params(w, S.sga_extra(w, S.sga_fit(w, S.nd_ds(w)))))
    go("regr.extra", lambda w: S.base_params(w, S.discover_extra(w, S.regr_fit(w))))
    go("dlga.extra", lambda w: S.base_params(w, S.mk_dlga(w)))
    # plotting on fitted models
    go("viz:dlga", lambda w: S.viz_all(w, S.dlga_fit_dataset(w, S.legacy_ds(w))))
    go("viz:sga", lambda w: S.viz_all(w, S.sga_fit(w, S.legacy_ds(w))))
    go("viz:discover", lambda w: S.viz_all(w, S.discover_fit(w, S.legacy_ds(w))))
    go("viz:spr", lambda w: S.viz_all(w, S.spr_fit(w, S.legacy_ds(w))))
    go("viz:regression", lambda w: S.viz_all(w, S.regr_fit(w)))
    go("viz:pysr", lambda w: S.viz_all(w, S.pysr_fit(w)))
    run_scenarios(ctx, tasks)
    ctx.floor("functions", 400)
    for q in sorted(ctx.seen)[::40]:
        ctx.sample("analysed function " + q)
