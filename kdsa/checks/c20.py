"""C20: the best candidate found is never lost, and what is reported belongs together.

A search treats the scores of its candidates only through their order, so scores are abstracted to ranks and every order of them
is followed (kdsa.ranks), through the selection code of every model, by abstract interpretation of the source.  The candidates,
the regression that scores them and the random variation are opaque."""
from ..gridcheck import *
from ..worlds import PROJECT
from ..report import AnalysisBroken, run_scenarios
from .. import gridlib, ranks
from ..ranks import Scores, vec, consts
from ..grid import low, Method
from .c09 import Draws

SOLVER, PDE, DLGA = "kd.model.sga.sgapde.solver", "kd.model.sga.sgapde.pde", "kd.model.dlga"


class Tokens:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return "T%d" % self.n


def value(v):
    v = low(v)
    if isinstance(v, Arr) and all(d.const() == 1 for d in v.dims):
        v = low(v.at(tuple(Poly.c(0) for _ in v.dims)))
    return v


class Judge:
    """collects what a search hands back and compares it with the scores that were given out"""
    def __init__(self, R, name, better):
        self.R, self.name, self.better, self.of = R, name, better, {}

    def find(self, rule, what):
        self.R.sub.find(rule, self.name, "%s: %s" % (self.name, what), self.name)

    def pair(self, what, key, score):
        sub, of = self.R.sub, self.of
        sub.count("pairs_judged")
        score = value(score)
        if not isinstance(score, (int, float, ranks.F)):
            return self.R.undecided(self.name, "the score of %s is %r" % (what, score))
        if key is None:
            return
        if key not in of:
            return self.R.undecided(self.name, "%s was never scored" % (what,))
        if of[key] != score:
            owner = [k for k in of if of[k] == score]
            self.find("score-of-another", "%s is reported with the score of %s" % (what, owner[0] if owner else "no candidate"))

    def best(self, what, score):
        sub, of = self.R.sub, self.of
        sub.count("best_judged")
        score = value(score)
        xs = list(of.values())
        if not isinstance(score, (int, float, ranks.F)) or not xs:
            return self.R.undecided(self.name, "%s: score %r" % (what, score))
        top = self.better(xs)
        if score != top:
            lost = [k for k in of if of[k] == top]
            self.find("best-lost", "%s is not the best candidate evaluated: %s scored better" % (what, lost[0]))


# -- SGA

def sga_world(ev, sc, tok, dr):
    """PDE terms are opaque; every candidate's score is a rank"""
    m, s = ev.module(PDE), ev.module(SOLVER)

    def key(pde):
        return " + ".join(ev.getattr(t, "inorder") for t in ev.getattr(pde, "elements"))

    def tree(ev, a, k, n):
        t = stub({"preorder": tok()}, "Tree")
        t.attrs["inorder"] = t.attrs["preorder"]

        def mutate(ev, a, k, n):
            t2 = a[0]
            t2.attrs["preorder"] = t2.attrs["inorder"] = tok()
        t.cls.attrs["mutate"] = Method(mutate)
        return t

    def evaluate(ev, a, k, n):
        pde = a[0] if a else k["a_pde"]
        if isinstance(pde, list):
            w = Arr(ev, [len(pde), 1], lambda pos: Poly.atom(("v", "w")))
            return (pde, w, None) if k.get("return_matrix") else (pde, w)
        return sc(key(pde)), Poly.atom(("v", "w"))
    if "Tree" not in m or "evaluate_mse" not in m:
        raise Unmodelled("no Tree or evaluate_mse in %s" % PDE)
    m["Tree"] = Native(tree)
    m["evaluate_mse"] = Native(evaluate)
    if "evaluate_mse" in s:
        s["evaluate_mse"] = m["evaluate_mse"]
    m["PDE"].attrs["concise_visualize"] = Native(lambda ev, a, k, n: "")
    return key


def sga_case(name, width, num, ties, act, p_cro=0.5, wide=None):
    name = "SGA %s: %d equations of up to %d terms%s" % (name, num, width, ", ties" if ties else "")

    def f(sub, proj=None):
        R = Runner(sub, proj)
        R.maxpaths = 20000
        ev = R.ev
        sc, tok, dr = Scores(ev, ties), Tokens(), Draws(ev)
        dr.install()
        ranks.install(ev)
        ranks.shuffles(ev)
        if wide is not None:
            pick = dr.pick
            dr.wide = 0

            def narrowed(n, node):
                dr.wide += 1
                return n - 1 if dr.wide <= wide else 0      # the first draws give every equation all its terms
            dr.pick = narrowed
        J = Judge(R, name, min)

        def th():
            sc.reset()
            dr.reset()
            dr.wide = 0
            tok.n = 0
            key = sga_world(ev, sc, tok, dr)
            ctx = stub({}, "Context")
            g = ev.call(ev.get(SOLVER, "SGA"), [], dict(context=ctx, num=num, depth=2, width=width, p_var=0.5, p_mute=0.5,
                                                        p_rep=0.5, p_cro=p_cro, pde_lib=[], err_lib=[]))
            out = act(ev, g, key)
            return dict(sc.of), out
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                J.find("search-fails", "raises %s at %s" % (v, where(v)))
                continue
            J.of, (g, key, out) = v
            sub.count("histories_judged")
            eqs, mses = ev.getattr(g, "eqs"), ev.getattr(g, "mses")
            ms = consts(mses)
            if not isinstance(eqs, list) or ms is None:
                R.undecided(name, "population is %r with scores %r" % (eqs, mses))
                continue
            if len(eqs) != len(ms) or len(eqs) != num:
                J.find("population-size", "%d equations and %d scores are kept of %d" % (len(eqs), len(ms), num))
                continue
            for e, x in zip(eqs, ms):
                J.pair("an equation of the population", key(e), x)
            J.best("the best of the population", min(ms))
            if out is not None:
                J.pair("the equation returned", key(out[0]) if isinstance(out[0], Inst) else out[0], out[1])
                J.best("the equation returned", out[1])
    return (name, f)


def sga_init(ev, g, key):
    return g, key, ev.call(ev.getattr(g, "the_best"), [])


def sga_op(op, *args):
    def f(ev, g, key):
        ev.call(ev.getattr(g, op), list(args))
        return g, key, ev.call(ev.getattr(g, "the_best"), [])
    return f


def sga_run(gens):
    def f(ev, g, key):
        return g, key, ev.call(ev.getattr(g, "run"), [gens])
    return f


def sga_solver(proj_name="SGA solver: text and score returned"):
    def f(sub, proj=None):
        R = Runner(sub, proj)
        ev = R.ev
        sc, tok, dr = Scores(ev, False), Tokens(), Draws(ev)
        dr.install()
        ranks.install(ev)
        ranks.shuffles(ev)
        J = Judge(R, proj_name, min)

        def th():
            sc.reset()
            dr.reset()
            tok.n = 0
            key = sga_world(ev, sc, tok, dr)
            ev.module(SOLVER)["extract_equation_details"] = Native(lambda ev, a, k, n: ("details of", key(a[0])))
            cfg = stub(dict(seed=0, num=2, depth=2, width=1, p_var=0.5, p_mute=0.5, p_rep=0.5, p_cro=0.5, sga_run=1), "Config")
            s = ev.call(ev.get(SOLVER, "SGAPDE_Solver"), [cfg])
            out = ev.call(ev.getattr(s, "run"), [stub({}, "Context")])
            return dict(sc.of), s, out
        for kind, v, taken in R.paths(proj_name, th):
            if kind == "raise":
                J.find("search-fails", "raises %s at %s" % (v, where(v)))
                continue
            J.of, s, out = v
            sub.count("histories_judged")
            if not isinstance(out, tuple) or len(out) != 2 or not isinstance(out[0], str):
                R.undecided(proj_name, "returns %r" % (out,))
                continue
            J.pair("the equation text returned", out[0], out[1])
            J.best("the equation text returned", out[1])
            det = ev.getattr(s, "best_equation_details_")
            if isinstance(det, tuple) and det[1] != out[0]:
                J.find("score-of-another", "the equation details describe %s, the text returned is %s" % (det[1], out[0]))
    return (proj_name, f)


# -- DLGA

def gene(ch):
    return "/".join("*".join(str(g) for g in m) for m in ch)


def files(ev):
    """pickle through files: what is read back is a copy of what was written"""
    disk = {}

    def open_(ev, a, k, n):
        p = a[0]
        o = stub({"path": p}, "File")
        o.cls.attrs.update(__enter__=Native(lambda ev, a, k, n: a[0]), __exit__=Native(lambda ev, a, k, n: None),
                           write=Native(lambda ev, a, k, n: None), close=Native(lambda ev, a, k, n: None))
        return o

    def dump(ev, a, k, n):
        disk[a[1].attrs["path"]] = gridlib.dcopy(ev, a[0], True)

    def load(ev, a, k, n):
        p = a[0].attrs["path"]
        if p not in disk:
            raise Unmodelled("reads %r, which was not written" % (p,))
        return gridlib.dcopy(ev, disk[p], True)
    ev.handlers.update({"builtins.open": open_, "pickle.dump": dump, "pickle.load": load})
    return disk


def dlga_world(ev, sc, tok, vary=True, mod=DLGA):
    m = ev.module(mod)
    D = m["DLGA"]

    def fitness(ev, a, k, n):
        g = a[-2]
        return "coefficients of " + g, sc(g), sc(g), "name of " + g

    def fresh(ev, a, k, n):
        return [[tok()]]

    def shake(ev, a, k, n):
        pop = ev.getattr(a[0], "Chrom")
        for ch in pop:
            for mod in ch:
                mod[0] = tok()
        return pop
    same = Method(lambda ev, a, k, n: ev.getattr(a[0], "Chrom"))
    D.attrs.update(translate_DNA=Method(lambda ev, a, k, n: (gene(a[-1]), 1)), get_fitness=Method(fitness), random_genome=Method(fresh))
    if vary:
        D.attrs.update(mutation=Method(shake), cross_over=same, delete_duplicates=same)
    return D


def dlga_select(size, ties, over=0):
    name = "DLGA selection: %d chromosomes%s%s" % (size, ", ties" if ties else "", ", the same one twice" if over else "")

    def f(sub, proj=None):
        R = Runner(sub, proj)
        R.maxpaths = 20000
        ev = R.ev
        sc, tok = Scores(ev, ties), Tokens()
        ranks.install(ev)
        J = Judge(R, name, min)

        def th():
            sc.reset()
            tok.n = 0
            D = dlga_world(ev, sc, tok)
            d = Inst(D)
            pop = [[["G%d" % (k % (size - over))]] for k in range(size)]
            d.attrs.update(Chrom=pop, pop_size=size, fitness_history=[], evolution_history=[], Fitness=[], epi=1)
            ev.call(ev.getattr(d, "select"), [])
            return dict(sc.of), d
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                J.find("search-fails", "raises %s at %s" % (v, where(v)))
                continue
            J.of, d = v
            sub.count("histories_judged")
            pop, fit, coef, nm = (ev.getattr(d, x) for x in ("Chrom", "Fitness", "coef", "name"))
            if not all(isinstance(x, list) for x in (pop, fit, coef, nm)) or not fit:
                R.undecided(name, "population %r with fitness %r" % (pop, fit))
                continue
            if len(pop) != size:
                J.find("population-size", "%d chromosomes are kept of %d" % (len(pop), size))
            for k in range(len(fit)):
                g = gene(pop[k])
                J.pair("chromosome %d" % k, g, fit[k])
                for what, v in (("coefficients", coef), ("name", nm)):
                    if v[k] != "%s of %s" % (what, g):
                        J.find("score-of-another", "chromosome %d comes with the %s" % (k, v[k]))
            J.best("the first chromosome", fit[0])
    return (name, f)


def dlga_evolve(size, gens, ties, mod=DLGA):
    name = "DLGA evolution: %d chromosomes, %d generations%s" % (size, gens, ", ties" if ties else "")

    def f(sub, proj=None):
        R = Runner(sub, proj)
        R.maxpaths = 20000
        ev = R.ev
        sc, tok = Scores(ev, ties), Tokens()
        ranks.install(ev)
        disk = files(ev)
        J = Judge(R, name, min)

        def th():
            sc.reset()
            disk.clear()
            tok.n = 0
            D = dlga_world(ev, sc, tok, mod=mod)
            d = Inst(D)
            d.attrs.update(pop_size=size, n_generations=gens, fitness_history=[], evolution_history=[], epi=1)
            out = ev.call(ev.getattr(d, "evolution"), [])
            return dict(sc.of), out
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                J.find("search-fails", "raises %s at %s" % (v, where(v)))
                continue
            J.of, out = v
            sub.count("histories_judged")
            if not isinstance(out, tuple) or len(out) != 4:
                R.undecided(name, "returns %r" % (out,))
                continue
            ch, coef, fit, nm = out
            g = gene(ch)
            J.pair("the chromosome returned", g, fit)
            J.best("the chromosome returned", fit)
            for what, v in (("coefficients", coef), ("name", nm)):
                if v != "%s of %s" % (what, g):
                    J.find("score-of-another", "the chromosome returned comes with the %s" % (v,))
    return (name, f)


# -- EqGPT

EQ = "kd.model.kd_eqgpt"


def eqgpt(epochs, samples, ties, again=False):
    name = "EqGPT search: %d rounds of %d sentences%s%s" % (epochs, samples, ", ties" if ties else "",
                                                          ", a sentence sampled again" if again else "")

    def f(sub, proj=None):
        R = Runner(sub, proj)
        R.maxpaths = 20000
        ev = R.ev
        sc = Scores(ev, ties)
        ranks.install(ev)
        J = Judge(R, name, max)
        nul = Native(lambda ev, a, k, n: None)

        def th():
            sc.reset()
            gm, ct = ev.module("kd.model.eqgpt.gpt_model"), ev.module("kd.model.eqgpt.continue_train_GPT_all")
            dv = ev.module("kd.model.eqgpt._device")
            w2i, i2w = gm["word2id"], gm["id2word"]
            words = [w for w in ("u", "ux", "uxx", "u^2", "uxxx", "u^3", "uxxxx") if w in w2i]
            given = []

            def step(ev, a, k, n):
                sent = a[-2]
                if len(sent) > 3:
                    return w2i["E"], None
                given.append(0)
                i = len(given) - 1
                return w2i[words[(i % (epochs * samples - 1) if again else i) % len(words)]], None
            net = stub({"step": Native(step), "load_state_dict": nul, "parameters": Native(lambda ev, a, k, n: [])}, "GPT")
            net.attrs["to"] = Native(lambda ev, a, k, n: net)
            gm["GPT"] = Native(lambda ev, a, k, n: net)

            def reward(ev, a, k, n):
                sent = list(a[0])
                key = "".join(i2w[t] for t in sent if t not in (w2i["S"], w2i["E"]))
                return sc(key), a[3], a[4]
            ct["calculate_reward"] = Native(reward)
            ct["train_step"] = nul
            ct["MyDataSet"] = Native(lambda ev, a, k, n: stub({"padding_batch": nul}))
            ct["get_mask_invalid"] = nul
            dv["load_checkpoint"] = nul
            C = ev.get(EQ, "KD_EqGPT")
            C.attrs["_load_surrogates"] = Native(lambda ev, a, k, n: ([], [], [], []))
            ev.handlers["path.exists"] = lambda ev, a, k, n: True
            ev.handlers["pickle.load"] = lambda ev, a, k, n: {}
            m = ev.call(C, [], dict(optimize_epochs=epochs, samples_per_epoch=samples))
            out = ev.call(ev.getattr(m, "fit_pretrained"), [])
            return dict(sc.of), out
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                J.find("search-fails", "raises %s at %s" % (v, where(v)))
                continue
            J.of, out = v
            if not isinstance(out, dict) or not {"equations", "rewards", "best_equation", "best_reward"} <= set(out):
                R.undecided(name, "returns %r" % (out,))
                continue
            sub.count("histories_judged")
            eqs, rs = out["equations"], consts(out["rewards"])
            if not isinstance(eqs, list) or rs is None or len(eqs) != len(rs):
                J.find("score-of-another", "%s equations come with %s rewards" % (eqs, rs)) if isinstance(eqs, list) and rs is not None \
                    else R.undecided(name, "returns %r" % (out,))
                continue
            for e, r in zip(eqs, rs):
                J.pair("equation %r" % e, e, r)
            J.pair("the best equation", out["best_equation"], out["best_reward"])
            J.best("the best equation", out["best_reward"])
            if any(a < b for a, b in zip(rs, rs[1:])):
                J.find("not-sorted", "the rewards are not listed best first")
    return (name, f)


def unscorable(cases):
    """a candidate whose terms are NaN for every surrogate gets a score that loses"""
    name = "EqGPT reward of a candidate that cannot be evaluated: %d surrogates" % cases

    def f(sub, proj=None):
        R = Runner(sub, proj)
        ev = R.ev
        J = Judge(R, name, max)

        def th():
            ct = ev.module("kd.model.eqgpt.continue_train_GPT_all")
            w2i = ct["word2id"]
            n = N("t")

            def terms(ev, a, k, nd):
                word = a[0]
                nm = "undefined" if word == "u" else "term " + word
                return Arr(ev, [n, 1], lambda pos: Poly.atom(("s", nm, (pos[0],))))
            ct["calculate_terms"] = Native(terms)
            for helper in ("delete_dulplicate_A_column",):
                ct[helper] = Native(lambda ev, a, k, nd: a[0])
            H = ev.handlers

            def table(ev, a, k, nd):
                return stub({"isin": Native(lambda ev, a, k, nd: Unk("rows"))}, "DataFrame")
            H["pandas.DataFrame"] = table
            H["numpy.delete"] = lambda ev, a, k, nd: a[0]

            def undefined(arr):
                for c in range(1 if len(arr.dims) == 1 else int(arr.dims[1].const())):
                    v = low(arr.at((Poly.c(0), Poly.c(c))[:len(arr.dims)]))
                    if any(at[0] == "s" and at[1] == "undefined" for at in v.atoms()):
                        return True
                return False
            H["numpy.isnan"] = lambda ev, a, k, nd: [undefined(a[0])]

            def average(ev, a, k, nd):
                x = a[0]
                empty = x == [] if isinstance(x, list) else isinstance(x, Arr) and any(d.const() == 0 for d in x.dims)
                return "nan" if empty else Unk("mean")
            H["numpy.mean"] = average
            ids = [w2i["ut"], w2i["+"], w2i["u"], w2i["+"], w2i["ux"], w2i["E"]]
            nets = [stub({}, "Net") for _ in range(cases)]
            return ev.call(ct["calculate_reward"], [ids, nets, nets, {}, {}, ["t", "x"], [N("x")] * cases, [n] * cases])
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                J.find("search-fails", "raises %s at %s" % (v, where(v)))
                continue
            score = value(v[0]) if isinstance(v, tuple) and v else v
            if score == "nan":
                J.find("unscored", "the score is the mean of nothing, NaN, which is neither better nor worse than another")
            elif isinstance(score, (int, float, ranks.F)):
                sub.count("histories_judged")
            else:
                R.undecided(name, "the reward is %r" % (v,))
    return (name, f)


# -- DISCOVER

SEARCH = "kd.model.discover.searcher"


def discover(steps, batch, epsilon, ties, invalid, via="search"):
    name = "DISCOVER search: %d batches of %d programs, epsilon %s%s%s" % (
        steps, batch, epsilon, ", ties" if ties else "", ", programs may be invalid" if invalid else "")

    def f(sub, proj=None):
        R = Runner(sub, proj)
        R.maxpaths = 30000
        ev = R.ev
        sc = Scores(ev, ties)
        ranks.install(ev)
        J = Judge(R, name, max)
        nul = Native(lambda ev, a, k, n: None)

        def th():
            sc.reset()
            m = ev.module(SEARCH)
            made = []

            def program(ev, a, k, n):
                nm = "P%d" % len(made)
                bad = invalid and ev.choose("invalid")
                p = stub({"r_ridge": 0 if bad else sc(nm), "invalid": bad, "str_expression": nm, "str": nm, "traversal": ["add", nm],
                          "originally_on_policy": True, "print_stats": nul, "STRidge": None}, "Program")
                p.cls.attrs["__repr__"] = Native(lambda ev, a, k, n: "repr of " + nm)
                made.append(p)
                return p
            if "from_tokens" not in m:
                raise Unmodelled("no from_tokens in %s" % SEARCH)
            m["from_tokens"] = Native(program)
            m["make_queue"] = Native(lambda ev, a, k, n: queue)
            queue = stub({"push_batch": nul, "sample_batch": nul, "iter_in_order": Native(lambda ev, a, k, n: [])}, "Queue")
            queue.cls.attrs["__len__"] = Native(lambda ev, a, k, n: 0)
            m["Plotter"] = Native(lambda ev, a, k, n: stub({}))

            def episodes(ev, a, k, n):
                def arr(nm, *more):
                    return Arr(ev, [batch] + list(more), lambda pos: Poly.atom(("s", nm, tuple(pos))))
                acts = arr("actions", 5)
                acts.torch = True
                return acts, arr("obs", 3, 5), arr("priors", 5, 4), None, None
            ctrl = stub({"pqt_k": 10, "pqt_batch_size": 1, "max_length": 5, "sample_episodes": Native(episodes), "train_step": nul},
                        "Controller")
            s = ev.call(ev.get(SEARCH, "Searcher"), [ctrl, {"n_iterations": steps, "n_samples_per_batch": batch,
                                                            "stability_selection": 0, "epsilon": epsilon}])
            out = ev.call(ev.getattr(s, "search"), [], {"n_epochs": steps, "verbose": False})
            return dict(sc.of), s, out
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                J.find("search-fails", "raises %s at %s" % (v, where(v)))
                continue
            J.of, s, out = v
            if not isinstance(out, dict) or not {"r", "expression", "program"} <= set(out):
                R.undecided(name, "returns %r" % (out,))
                continue
            sub.count("histories_judged")
            if not J.of:
                continue        # no valid program was sampled
            J.pair("the expression returned", out["expression"], out["r"])
            J.best("the expression returned", out["r"])
            J.best("best_reward", ev.getattr(s, "best_reward"))
            p = out["program"]
            if ev.getattr(p, "str_expression") != out["expression"] or out.get("traversal", "repr of " + out["expression"]) != "repr of " + out["expression"]:
                J.find("score-of-another", "the program returned is %s, its traversal %s, its expression %s" % (
                    ev.getattr(p, "str_expression"), out.get("traversal"), out["expression"]))
            bp = ev.getattr(s, "best_p")
            J.pair("best_p", ev.getattr(bp, "str_expression"), ev.getattr(bp, "r_ridge"))
    return (name, f)


# -- self-test

SELF = """
import numpy as np

class %(cls)s:
    def evolution(self):
        self.Chrom = [self.random_genome() for i in range(self.pop_size)]
        best = None
        for generation in range(self.n_generations + 1):
            scored = []
            for c in self.Chrom:
                g, n = self.translate_DNA(c)
                scored.append((self.get_fitness(g, n), [list(m) for m in c]))
            order = np.argsort([x[0][2] for x in scored])
            first = scored[order[0]]
            if %(keep)s:
                best = first
            self.mutation()
        coef, err, fit, name = best[0]
        return %(out)s, coef, fit, name
"""


def selftest():
    from ..selftest import Overlay
    from ..report import Ctx
    for keep, out, want in (("best is None or first[0][2] < best[0][2]", "best[1]", None), ("True", "best[1]", "is not the best"),
                            ("best is None or first[0][2] < best[0][2]", "self.Chrom[0]", "comes with the")):
        mod = "kd._kdsa_search"
        proj = Overlay(PROJECT(), mod, SELF % dict(cls="DLGA", keep=keep, out=out))
        sub = Ctx("C20")
        sub.seen = set()
        dlga_evolve(2, 1, False, mod)[1](sub, proj)
        msgs = [v["message"] for v in sub.findings.values()]
        notes = [n for n in sub.notes if "was never scored" not in n]
        if notes or bool(msgs) != bool(want) or want and not any(want in m for m in msgs):
            raise AnalysisBroken("C20 self-test: wanted %r, got %s %s" % (want, msgs[:3], sub.notes[:2]))


def tasks(thorough):
    t = [sga_case("first population", 1, 3, True, sga_init),
         sga_case("crossover", 2, 2, False, sga_op("cross_over", 0.5)),
         sga_case("crossover of all", 2, 2, False, sga_op("cross_over", 1), wide=2),
         sga_case("crossover", 1, 2, True, sga_op("cross_over", 1)),
         sga_case("mutation", 1, 3, True, sga_op("change", 0.5, 0.5)),
         sga_case("run", 1, 2, False, sga_run(1)),
         sga_solver(),
         dlga_select(4, True), dlga_select(6, False), dlga_select(4, True, 1),
         dlga_evolve(2, 2, True), unscorable(1), unscorable(2),
         eqgpt(1, 3, True), eqgpt(2, 2, True), eqgpt(2, 2, True, True), eqgpt(3, 2, False),
         discover(2, 2, 0.5, True, False), discover(2, 2, 0.5, False, True), discover(1, 4, 0.25, True, False), discover(3, 1, 0.02, True, True)]
    if thorough:
        t += [dlga_evolve(4, 1, False), sga_case("run", 1, 2, True, sga_run(2)), sga_case("mutation", 1, 3, True, sga_op("change", 1, 1)),
              sga_case("crossover", 1, 4, False, sga_op("cross_over", 0.5)), dlga_select(6, False, 2), eqgpt(2, 3, False), eqgpt(1, 5, False),
              discover(3, 2, 0.5, False, True), discover(2, 3, 0.4, True, False), discover(1, 5, 0.25, True, False)]
    return t


def run(ctx):
    ctx.rule("a score is a rank: each newly scored candidate is inserted at every position among those already scored (and, where stated, as an "
             "equal of each), so every order of the scores of the enumerated histories is followed through the source of the search")
    ctx.rule("at the end, every candidate the search keeps or reports must carry the score that candidate was given, the coefficients, name and "
             "text reported must be that candidate's, the population must have its size, and the candidate reported must have the best score given out")
    ctx.rule("EqGPT: the reward of a sentence none of whose surrogates can evaluate it must be a number")
    ctx.assumptions += ["a candidate evaluated twice scores the same", "the random variation produces any new candidates; populations and histories "
                        "up to the enumerated size stand for all, the code looks at scores only through comparisons",
                        "stability selection in DISCOVER (off by default) re-ranks by another score and is not analysed; PySR keeps its own "
                        "hall of fame outside this repository", "rewards of DISCOVER programs are positive or the program is invalid"]
    selftest()
    ts = tasks(ctx.thorough)
    run_scenarios(ctx, ts)
    ctx.floor("histories_judged", 1500)
    ctx.floor("pairs_judged", 4000)
    ctx.floor("best_judged", 2500)
    for n, _ in ts:
        ctx.sample(n)
