"""C02: every random draw of a seeded estimator comes from a generator its seed was put into before."""
from ..worlds import *
from ..values import *
from .. import scenarios as S
from ..report import AnalysisBroken, Ctx, run_scenarios, drive

SEED = SYM("seed", frozenset(["seed"]))
PY, NP, TORCH = "random", "numpy.random", "torch"
# functions of the random modules that do not draw
QUIET = {"seed", "get_state", "set_state", "getstate", "setstate", "default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937", "Philox",
         "SFC64", "BitGenerator", "Random", "SystemRandom", "set_rng_state", "get_rng_state", "fork_rng", "manual_seed", "initial_seed", "mtrand", "bit_generator"}
TORCH_DRAWS = {"rand", "randn", "randint", "randperm", "normal", "multinomial", "bernoulli", "rand_like", "randn_like", "randint_like", "poisson", "dropout",
               "rrelu", "alpha_dropout", "feature_dropout"}
LAYERS = {"Linear", "LSTM", "GRU", "RNN", "LSTMCell", "GRUCell", "RNNCell", "Embedding", "EmbeddingBag", "Bilinear", "Conv1d", "Conv2d", "Conv3d",
          "ConvTranspose1d", "ConvTranspose2d", "MultiheadAttention", "Transformer", "TransformerEncoderLayer", "TransformerDecoderLayer", "LazyLinear"}
FIXED_INIT = {"zeros_", "ones_", "constant_", "eye_", "dirac_", "calculate_gain"}
INPLACE = {"uniform_", "normal_", "random_", "bernoulli_", "exponential_", "cauchy_", "geometric_", "log_normal_"}
MAKERS = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937",
          "numpy.random.Philox", "numpy.random.SFC64", "numpy.random.Generator", "random.Random", "numpy.random.mtrand.RandomState"}
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.process_time", "os.urandom", "os.getpid", "uuid.uuid4",
         "uuid.uuid1", "builtins.id", "secrets.randbits", "secrets.token_bytes", "datetime.datetime.now", "datetime.datetime.utcnow", "secrets.randbelow"}
# library functions that take their randomness from numpy's global generator unless told otherwise
BY_ARGUMENT = {"sklearn.model_selection.train_test_split", "sklearn.cluster.KMeans", "sklearn.utils.shuffle", "scipy.optimize.differential_evolution",
               "scipy.optimize.dual_annealing", "sklearn.model_selection.KFold", "sklearn.ensemble.RandomForestRegressor", "scipy.stats.qmc.LatinHypercube",
               "scipy.stats.qmc.Sobol", "scipy.stats.qmc.Halton"}
GLOBAL_NP = {"pyDOE.lhs", "pyDOE2.lhs", "pyDOE3.lhs", "scipy.random.rand"}


def governed(v):
    l = labels(v)
    return "seed" in l and "clock" not in l


class An(Analysis):
    max_steps = 900_000
    implicit_raise = False

    def __init__(self, sub, scen):
        self.ctx, self.scen = sub, scen
        self.draws = self.seeds = 0
        self.sites = set()
        self.used = set()
        self.pending = []

    # ------------------------------------------------------------ helpers
    def here(self, eng):
        fr = eng.frames[-1]
        return fr.func.qual if fr.func is not None else fr.mod

    def report(self, eng, src, node, why, st):
        q = self.here(eng)
        self.pending.append(("draw", "%s|%s" % (q, src), "%s %s" % (q, why),
                             eng.where(node) + " in scenario " + self.scen + " via " + " > ".join(c.split(":")[-1] for c in eng.chain()[-6:-1])))

    def flush(self):
        for rule, con, msg, where in self.pending:
            self.ctx.find(rule, con, msg, where)

    def drawn(self, eng, src, st, node, what):
        self.draws += 1
        self.sites.add((self.here(eng), getattr(node, "lineno", 0)))
        if ("ok", src) not in st.must:
            self.report(eng, src, node, "draws with %s from %s, which on some path has not been seeded from the user's seed before" %
                        (what, {PY: "Python's global generator", NP: "numpy's global generator", TORCH: "torch's global generator"}[src]), st)
            return False
        return True

    def seed(self, src, v, st):
        self.seeds += 1
        if v is not None and governed(v):
            st.must = st.must | {("ok", src)}
        else:
            st.must = st.must - {("ok", src)}

    def state(self, src, st):
        return TOP(frozenset(["rng:" + src] if ("ok", src) in st.must else ["raw:" + src]))

    def restore(self, src, v, st):
        l = labels(v) if v is not None else NOL
        if "rng:" + src in l and "raw:" + src not in l:
            st.must = st.must | {("ok", src)}
        else:
            st.must = st.must - {("ok", src)}

    def in_reach(self, eng, st):
        """a governed seed is at hand where a private generator is made"""
        fr = eng.frames[-1]
        for v in list(st.env.values()) if hasattr(st, "env") else []:
            if any("seed" in a.l for a in v if a.k in ("top", "const", "sym")):
                return True
        me = st.env.get("self") if hasattr(st, "env") else None
        for a in me or ():
            o = st.get(a.p) if a.k == "obj" else None
            if o is not None:
                for n, v in o.attrs.items():
                    if any("seed" in x.l for x in v if x.k in ("top", "const", "sym")):
                        return True
        return False

    def make(self, eng, name, args, kwargs, st, node):
        vals = list(args) + list(kwargs.values())
        if any(governed(v) for v in vals) or any("rng-ok" in labels(v) for v in vals):
            return EXT(name + "()", frozenset(["rng-ok", "seed"]))
        fixed = bool(vals) and all(consts(v) is not None and None not in consts(v) for v in vals) and not any("clock" in labels(v) for v in vals)
        if fixed and not self.in_reach(eng, st):
            return EXT(name + "()", frozenset(["rng-ok"]))
        return EXT(name + "()", frozenset(["rng-raw"]))

    # ------------------------------------------------------------ events
    def ext_call(self, eng, name, args, kwargs, st, node):
        a0 = args[0] if args else next(iter(kwargs.values()), None)
        if name in CLOCK:
            return TOP(frozenset(["clock"]))
        if name == "random.seed":
            self.seed(PY, a0, st)
            return NONE
        if name in ("numpy.random.seed",):
            self.seed(NP, a0, st)
            return NONE
        if name in ("torch.manual_seed", "torch.random.manual_seed"):
            self.seed(TORCH, a0, st)
            return EXT("torch.default_generator")
        if name in ("torch.seed", "torch.random.seed"):
            self.seed(TORCH, None, st)
            return TOP(frozenset(["clock"]))
        if name == "random.getstate":
            return self.state(PY, st)
        if name == "numpy.random.get_state":
            return self.state(NP, st)
        if name in ("torch.get_rng_state", "torch.random.get_rng_state"):
            return self.state(TORCH, st)
        if name == "random.setstate":
            self.restore(PY, a0, st)
            return NONE
        if name == "numpy.random.set_state":
            self.restore(NP, a0, st)
            return NONE
        if name in ("torch.set_rng_state", "torch.random.set_rng_state"):
            self.restore(TORCH, a0, st)
            return NONE
        if name == "torch.random.fork_rng":
            st.must = frozenset(t for t in st.must if t[0] != "forked") | {("forked", ("ok", TORCH) in st.must)}
            return EXT("torch.random.fork_rng()")
        if name in MAKERS:
            return self.make(eng, name, args, kwargs, st, node)
        if name == "torch.Generator":
            return EXT("torch.Generator()", frozenset(["gen"]))
        if name == "torch.Generator().manual_seed":
            self.seed("torch.Generator", a0, st)
            return EXT("torch.Generator()", frozenset(["gen"]))
        base, _, last = name.rpartition(".")
        if base.endswith("()") and base[:-2] in MAKERS:
            if last in ("seed",):
                return None
            if last in ("spawn", "bit_generator"):
                return EXT(base, eng.callee.l)
            self.draws += 1
            self.sites.add((self.here(eng), getattr(node, "lineno", 0)))
            if "rng-raw" in eng.callee.l:
                self.report(eng, base[:-2], node, "draws with .%s() from a generator of its own that was not seeded from the user's seed" % last, st)
            return None
        gen = kwargs.get("generator")
        if gen is not None and any(a.k == "ext" for a in gen):
            src_ok = ("ok", "torch.Generator") in st.must
            if base == "torch" or base.startswith("torch.nn.init") or name == "torch.utils.data.DataLoader":
                self.draws += 1
                if not src_ok:
                    self.report(eng, "torch.Generator", node, "draws from a torch generator that was not seeded from the user's seed", st)
                return None
        if base == "random" and last not in QUIET:
            self.drawn(eng, PY, st, node, name)
        elif base == "numpy.random" and last not in QUIET:
            self.drawn(eng, NP, st, node, name)
        elif name in GLOBAL_NP or (base.startswith("scipy.stats.") and last == "rvs" and "random_state" not in kwargs):
            self.drawn(eng, NP, st, node, name)
        elif name in BY_ARGUMENT:
            v = kwargs.get("random_state", kwargs.get("seed", kwargs.get("rng")))
            if v is None or not governed(v):
                if v is None or consts(v) is None or None in consts(v) or self.in_reach(eng, st):
                    self.drawn(eng, NP, st, node, name)
        elif base in ("torch", "torch.nn.functional") and last in TORCH_DRAWS:
            self.drawn(eng, TORCH, st, node, name)
        elif base == "torch.nn.init" and last not in FIXED_INIT:
            self.drawn(eng, TORCH, st, node, name)
        elif name == "torch.utils.data.DataLoader":
            v = kwargs.get("shuffle")
            if v is not None and not (consts(v) is not None and not any(consts(v))):
                self.drawn(eng, TORCH, st, node, name)
        elif base == "torch.nn" and last in LAYERS:
            self.draws += 1
            self.sites.add((self.here(eng), getattr(node, "lineno", 0)))
            if ("ok", TORCH) not in st.must:
                st.may = st.may | {("raw", last, self.here(eng), getattr(node, "lineno", 0), self.chain_classes(eng))}
                self.where[(self.here(eng), getattr(node, "lineno", 0))] = eng.where(node) + " in scenario " + self.scen + " via " + \
                    " > ".join(c.split(":")[-1] for c in eng.chain()[-6:-1])
        elif base == "torch.nn.init" and last in FIXED_INIT:
            pass
        elif base == "torch" and last == "nn":
            pass
        elif name.startswith("torch.nn.") and name.endswith("()") and name[9:-2] in LAYERS:
            self.use(name[9:-2], st)
        elif last == "load_state_dict":
            self.loaded(st, None)
        elif last in INPLACE and not name.startswith("numpy"):
            self.drawn(eng, TORCH, st, node, "." + last + "()")
        return None

    where = {}

    def chain_classes(self, eng):
        return tuple(sorted({fr.func.cls.qual for fr in eng.frames if fr.func is not None and fr.func.cls is not None and fr.func.name == "__init__"}))

    def use(self, layer, st):
        for t in st.may:
            if t[0] == "raw" and t[1] == layer and t not in self.used:
                self.used.add(t)
                self.pending.append(("draw", "%s|%s" % (t[2], TORCH), "%s takes the initial weights of a %s from torch's global generator before the user's seed is put into it" %
                                     (t[2], layer), self.where.get((t[2], t[3]), "")))

    def loaded(self, st, cls):
        """stored weights replace the drawn ones"""
        st.may = frozenset(t for t in st.may if not (t[0] == "raw" and (cls is None or cls in t[4])))

    def method_hook(self, eng, base, name, args, kwargs, st, node):
        if name in INPLACE and base.k in ("top", "arr"):
            self.drawn(eng, TORCH, st, node, "." + name + "()")
        elif name == "load_state_dict":
            self.loaded(st, None)
        return None

    def ext_exit(self, eng, manager, st, node):
        if manager.p == "torch.random.fork_rng()":
            was = ("forked", True) in st.must
            st.must = frozenset(t for t in st.must if t[0] != "forked") - {("ok", TORCH)} | ({("ok", TORCH)} if was else set())


def between(w):
    """time passes: other code draws from and reseeds the global generators"""
    w.st.must = frozenset()
    w.st.may = frozenset(t for t in w.st.may if t[0] == "raw")


SELF = '''
import random, time
import numpy as np
import torch
import torch.nn as nn
class Net(nn.Module):
    def __init__(self):
        super().__init__()
        self.fc = nn.Linear(2, 2)
    def forward(self, x):
        return self.fc(x)
def bad_late(seed):
    net = Net()
    torch.manual_seed(seed)
    return net(torch.zeros(2))
def bad_branch(seed, flag):
    if flag:
        np.random.seed(seed)
    return np.random.choice(5)
def bad_other(seed):
    np.random.seed(seed)
    return random.random()
def bad_const(seed):
    np.random.seed(0)
    return np.random.rand()
def bad_clock(seed):
    np.random.seed(seed + int(time.time()))
    return np.random.rand()
def bad_private(seed):
    rng = np.random.default_rng()
    return rng.normal()
def bad_private_const(seed):
    rng = np.random.default_rng(7)
    return rng.normal()
def bad_fork(seed):
    with torch.random.fork_rng():
        torch.manual_seed(seed)
        a = torch.rand(2)
    return a + torch.rand(2)
def ok_all(seed, path):
    for f in (np.random.seed, random.seed, torch.manual_seed):
        f(seed)
    net = Net()
    rng = np.random.RandomState(seed)
    state = np.random.get_state()
    x = np.random.rand(3)
    np.random.set_state(state)
    return net(torch.rand(2)), rng.choice(4), np.random.rand(), random.random(), x
def ok_loaded(seed, path):
    net = Net()
    net.load_state_dict(torch.load(path))
    return net(torch.zeros(2))
'''


def selftest():
    from ..selftest import run_snippet
    got = set()
    names = [l.split("(")[0][4:] for l in SELF.splitlines() if l.startswith("def ")]
    for n in names:
        sub = Ctx("C02")
        an = An(sub, "self")
        w = run_snippet(an, SELF)
        w.call(w.get("kdsa_self", n), [SEED] + ([BOOL] if n == "bad_branch" else [TOP()] if n.startswith("ok") else []), {}, n)
        an.flush()
        if sub.findings:
            got.add(n)
    need = {n for n in names if n.startswith("bad")}
    if got != need:
        raise AnalysisBroken("C02 self-test: missed %s, extra %s" % (sorted(need - got), sorted(got - need)))


def run(ctx):
    ctx.rule("typestate of the global generators (random, numpy.random, torch): a generator is governed from the moment it is seeded with a value computed from the "
             "estimator's seed or random_state (and not from the clock) until it is reseeded with something else or restored to an earlier state; at every "
             "random draw reached from a public entry point the generator drawn from is governed on every path; initial weights of a layer count as a draw "
             "unless stored weights are loaded over them before the layer is used")
    ctx.rule("a private generator is made from the seed; one with a fixed seed is accepted only where no seed of the user is at hand")
    selftest()
    tasks = []

    def go(name, f, must=True):
        def task(sub):
            an = An(sub, name)
            an.where = {}
            drive(an, f, sub)
            an.flush()
            sub.count("draw_evaluations", an.draws)
            sub.count("seeding_calls", an.seeds)
            sub.facts = {"sites": sorted(an.sites)}
            for s in sorted(an.sites)[::5]:
                sub.sample("%s: draw at line %d in %s" % (name, s[1], s[0]))
            if must and not (an.draws and (an.seeds or "adapter" in name)):
                raise AnalysisBroken("scenario %s reached no seeded draw" % name)
        tasks.append((name, task))

    def one(mk, ops, name):
        def f(w):
            m = mk(w)
            between(w)
            ops(w, m)
            between(w)
            ops(w, m)
        return f

    for dn, mkds in S.DATASETS.items():
        own = {"own": False}
        go("discover:" + dn, lambda w, d=mkds: one(lambda w: mk_disc(w), lambda w, m: S.discover_fit(w, d(w, **own), m), "")(w))
        go("sga:" + dn, lambda w, d=mkds: one(lambda w: S.mk_sga(w, seed=SEED), lambda w, m: S.sga_fit(w, d(w, **own), m), "")(w))
        if ctx.thorough or dn in ("legacy", "nd_xt", "nd_txy"):
            go("spr:" + dn, lambda w, d=mkds: (lambda m: (between(w), S.spr_fit(w, d(w, **own), m, random_state=SEED)))(mk_disc(w, "KD_Discover_SPR")))
        else:
            go("spr.import:" + dn, lambda w, d=mkds: (lambda m: (between(w), S.spr_import(w, d(w, **own), m, random_state=SEED)))(mk_disc(w, "KD_Discover_SPR")))
    go("discover.import+train", lambda w: step_by_step(w))
    go("discover.inner", lambda w: (lambda m: (between(w), S.discover_inner(w, m), w.method(m, "train", [], {"n_epochs": ANY}, "train")))(mk_disc(w)))
    go("spr.fit", lambda w: (lambda m: (between(w), S.spr_fit_xy(w, m)))(mk_disc(w, "KD_Discover_SPR")))
    go("regression", lambda w: (lambda m: (between(w), S.regr_fit(w, m), between(w), S.regr_fit(w, m)))(mk_disc(w, "KD_Discover_Regression")))
    go("eqgpt", lambda w: (lambda m: (between(w), S.eqgpt_fit(w, m)))(S.mk_eqgpt(w)))
    for dn, mkds in S.DATASETS.items():
        for sp in (False, True):
            go("sparse adapter:%s:%s" % (dn, sp), lambda w, d=mkds, sp=sp: adapter(w, d(w, own=False), sp), must=False)
    facts = run_scenarios(ctx, tasks)
    sites = {tuple(s) for f in facts if f for s in f.get("sites", ())}
    ctx.counts["draw_sites"] = len(sites)
    ctx.floor("functions", 300)
    ctx.floor("draw_sites", 25)
    ctx.floor("seeding_calls", 20)
    ctx.assumptions.append("library functions draw from the generators listed in kdsa/checks/c02.py; the order in which sets are iterated and results of worker processes are not followed")


ANY = TOP()


def mk_disc(w, cls="KD_Discover"):
    return S.mk_discover(w, cls, ops=not cls.endswith("SPR"), over={"seed": SEED})


def step_by_step(w):
    m = mk_disc(w)
    between(w)
    w.method(m, "import_dataset", [S.legacy_ds(w, own=False)], {}, "import")
    w.method(m, "train_one_step", [], {"epoch": ANY, "verbose": BOOL}, "one_step")
    w.method(m, "train", [], {"n_epochs": ANY}, "train")


def adapter(w, ds, sp):
    A = w.get("kd.model.discover.adapter", "DiscoverSparseAdapter")
    kw = dict(sample=NONE | ANY, sample_ratio=ANY, colloc_num=NONE | ANY, random_state=SEED, noise_level=NONE | ANY, data_ratio=NONE | ANY,
              spline_sample=C(sp), cut_quantile=NONE | ANY)
    a = w.call(A, [ds], kw, "adapter")
    if a is not None:
        w.method(a, "get_data", [], {}, "get_data")
