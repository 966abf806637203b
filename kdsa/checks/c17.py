"""C17: hard constraints on the search space cannot be outvoted.

Token numbers, parents, siblings and counters are finite, so the verdicts of the constraints are tabulated over every prefix of an
expression up to a length (and, for the length limits, over every state of length and open places up to the configured maximum), and
compared with what each constraint says.  The sampler is followed with symbolic network outputs."""
import itertools
from ..gridcheck import *
from ..worlds import PROJECT
from ..report import AnalysisBroken, run_scenarios
from ..grid import low, Cond
from ..algebra import F, _ONE
from .. import gridlib, ranks, finite
from ..finite import table, arr

PRIOR, LIBRARY, TASK, CONTROLLER, PROGRAM = ("kd.model.discover." + m for m in ("dso.prior", "library", "task.task", "controller", "program"))
BAN = -ranks.BIG / 2

# name, arity, kind
FULL = [("add", 2, "op"), ("mul", 2, "op"), ("n2", 1, "op"), ("sqrt", 1, "op"), ("sin", 1, "op"), ("Diff", 2, "op"), ("u1", 0, "state"),
        ("x1", 0, "input"), ("const", 0, "const")]
SMALL = [("u1", 0, "state"), ("add", 2, "op"), ("x1", 0, "input"), ("Diff", 2, "op"), ("n2", 1, "op")]
LAP = [("u1", 0, "state"), ("u2", 0, "state"), ("add", 2, "op"), ("laplacian", 1, "op"), ("adv", 1, "op"), ("ddx", 1, "op"), ("ddy", 1, "op"),
       ("lap_t", 1, "op"), ("sub", 2, "op")]
ORDERS = [lambda t: t, lambda t: sorted(t, key=lambda x: x[1])]


class Lib:
    def __init__(self, toks):
        self.toks, self.L = toks, len(toks)
        self.ar = [t[1] for t in toks]
        self.names = [t[0] for t in toks]

    def ids(self, pred):
        return [i for i, t in enumerate(self.toks) if pred(*t)]

    def named(self, *names):
        return [i for i, t in enumerate(self.toks) if t[0] in names]

    def diffs(self):
        return self.ids(lambda n, a, k: "diff" in n.lower())

    def prefixes(self, longest, rules):
        """the prefixes of unfinished expressions with 1..longest tokens, none of them forbidden where it was drawn"""
        level = [((i,), self.ar[i]) for i in range(self.L)]
        for n in range(1, longest + 1):
            level = [(p, d) for p, d in level if d > 0]
            yield n, level
            if n < longest:
                more = []
                for p, d in level:
                    par, sib, anc = next_place(self, p)
                    bad = {t for f in rules for t in f(self, p, par, sib, anc, d)}
                    more += [(p + (i,), d + self.ar[i] - 1) for i in range(self.L) if i not in bad]
                level = more


def next_place(lib, p):
    """parent, left neighbour under the same parent, and ancestors of the place the next token fills"""
    open_ = []      # [token, operands still missing, last finished operand]
    for t in p:
        if open_:
            open_[-1][1] -= 1
            open_[-1][3].append(t)
        if lib.ar[t]:
            open_.append([t, lib.ar[t], None, []])
        else:
            while open_ and open_[-1][1] == 0:
                open_.pop()
    if not open_:
        return None, None, []
    top = open_[-1]
    return top[0], (top[3][-1] if top[3] else None), [o[0] for o in open_]


# -- what each constraint says

def relation(rel, targets, effectors):
    def f(lib, p, par, sib, anc, d):
        T, E = targets(lib), effectors(lib)
        if rel == "child":
            return T if par in E else []
        if rel == "lchild":
            return T if par in E and sib is None else []
        if rel == "rchild":
            return T if par in E and sib is not None else []
        if rel == "descendant":
            return T if any(a in E for a in anc) else []
        if rel == "sibling":
            return (T if sib in E else []) + (E if sib in T else [])
        if rel == "uchild":
            one = par in E and lib.ar[par] == 1
            return T if one or sib in T and par in E else []
        raise AssertionError(rel)
    return f


def names(*ns):
    return lambda lib: lib.named(*ns)


def trig(lib):
    return lib.ids(lambda n, a, k: n in ("sin", "cos", "tan", "csc", "sec", "cot") or n.startswith("arc") or "diff" in n.lower())


def inverse(lib, p, par, sib, anc, d):
    pair = {"exp": "log", "log": "exp", "sqrt": "n2", "n2": "sqrt", "inv": "inv", "neg": "neg"}
    return lib.named(pair[lib.names[par]]) if par is not None and lib.names[par] in pair else []


def repeat(tokens, most):
    def f(lib, p, par, sib, anc, d):
        T = lib.named(*tokens)
        return T if sum(t in T for t in p) >= most else []
    return f


def no_inputs(lib, p, par, sib, anc, d):
    state = lib.ids(lambda n, a, k: k == "state")
    return [i for i in range(lib.L) if lib.ar[i] == 0 and i not in state] if d == 1 and not any(t in state for t in p) else []


def length(lo, hi):
    def f(lib, p, par, sib, anc, d):
        out, n = [], len(p)
        for i in range(lib.L):
            a = lib.ar[i]
            if hi is not None and a and n + d + a > hi:
                out.append(i)
            if lo is not None and a == 0 and d == 1 and n + 1 < lo:
                out.append(i)
        return out
    return f


def inputs_or_const(lib):
    return lib.ids(lambda n, a, k: k in ("input", "const"))


def not_input(lib):
    return lib.ids(lambda n, a, k: k != "input")


def strict_left(lib):
    return lib.ids(lambda n, a, k: k != "state" and "diff" not in n.lower())


DIFFS = Lib.diffs
ops = lambda lib: lib.ids(lambda n, a, k: a > 0)
PACKAGED = {"length": dict(min_=3, max_=64), "repeat": dict(tokens="add", min_=None, max_=5), "inverse": {}, "trig": {},
            "soft_length": dict(loc=10, scale=5), "diff_left": {}, "diff_right": {}, "diff_descedent": {}}
ADDS = names("add", "sub", "add_t", "sub_t", "const")
RULES = {
    "trig": relation("descendant", trig, trig), "inverse": inverse, "const": relation("uchild", names("const"), ops),
    "diff_left": relation("lchild", inputs_or_const, DIFFS), "diff_left_strict": relation("lchild", strict_left, DIFFS),
    "diff_right": relation("rchild", not_input, DIFFS), "diff_descedent": relation("descendant", ADDS, DIFFS),
    "diff_descedent2": relation("descendant", names("n2", "n3", "n4", "mul", "div", "exp", "log", "sin", "cos", "const"), DIFFS),
    "no_inputs": no_inputs}

# scenario: configuration of the priors, tokens, longest prefix (quick, thorough), rules that have to be enforced
CASES = [(k, {k: {}}, SMALL if k == "diff_left_strict" else FULL, (3, 4), [RULES[k]]) for k in RULES]
CASES += [("%s, deep" % k, {k: {}}, SMALL, (5, 6), [RULES[k]]) for k in ("trig", "diff_descedent", "diff_left", "diff_right")]
CASES += [("relational %s" % r, {"relational": dict(targets=["x1", "n2"], effectors=e, relationship=r)}, SMALL, (4, 5),
           [relation(r, names("x1", "n2"), names(*e))])
          for r, e in (("child", ["add", "n2"]), ("descendant", ["add"]), ("sibling", ["u1"]), ("uchild", ["add", "n2"]), ("lchild", ["add"]),
                       ("rchild", ["Diff", "add"]))]
CASES += [("two relational constraints", {"relational": [dict(targets=["x1"], effectors=["n2"], relationship="child"),
                                                         dict(targets=["u1"], effectors=["Diff"], relationship="descendant")]}, SMALL, (3, 4),
           [relation("child", names("x1"), names("n2")), relation("descendant", names("u1"), names("Diff"))])]
CASES += [("repeat", {"repeat": dict(tokens=["add", "n2"], min_=None, max_=2)}, SMALL, (4, 5), [repeat(("add", "n2"), 2)]),
          ("subgrid", {"subgrid_des_constraint": {}, "subgrid_des_constraint2": {}}, LAP, (3, 4),
           [relation("descendant", names("add"), names("laplacian", "adv", "ddx", "ddy")), relation("descendant", names("laplacian"), names("adv"))]),
          ("laplace_child", {"laplace_child": dict(extras=["u2"])}, LAP, (3, 3),
           [relation("uchild", lambda lib: lib.ids(lambda n, a, k: k != "state" or n == "u2"), lambda lib: lib.ids(lambda n, a, k: "lap" in n))]),
          ("the packaged priors together", PACKAGED, FULL, (3, 3),
           [RULES[k] for k in ("inverse", "trig", "diff_left", "diff_right", "diff_descedent")] + [length(3, 64), repeat(("add",), 5)]),
          ("the packaged priors together, deep", dict(PACKAGED, repeat=dict(tokens="add", min_=None, max_=2), length=dict(min_=4, max_=7),
                                                      uniform_arity={}), SMALL, (5, 6),
           [RULES[k] for k in ("inverse", "trig", "diff_left", "diff_right", "diff_descedent")] + [length(4, 7), repeat(("add",), 2)])]


class World:
    """the project's library, priors and task over a set of tokens"""
    def __init__(self, sub, toks, proj=None, prior=PRIOR):
        self.R, self.module = Runner(sub, proj or PROJECT()), prior
        self.ev, self.lib = self.R.ev, Lib(toks)
        ranks.install(self.ev)
        finite.install(self.ev)
        self.ev.handlers["warnings.warn"] = lambda ev, a, k, node: None

    def library(self):
        ev = self.ev
        Token, Library = ev.get(LIBRARY, "Token"), ev.get(LIBRARY, "Library")
        toks = []
        for n, a, k in self.lib.toks:
            f = Native(lambda ev, a, k, node: None) if k in ("op", "const") else None
            kw = {"input_var": 0} if k == "input" else {"state_var": 0} if k == "state" else {}
            toks.append(ev.call(Token, [f, n, a, 1], kw))
        lib = ev.call(Library, [toks], {})
        P_ = ev.get(PROGRAM, "Program")
        P_.attrs["n_objects"], P_.attrs["library"] = 1, lib
        return lib

    def config(self, cfg):
        out = {}
        for k, v in cfg.items():
            one = [dict(x, on=True) for x in (v if isinstance(v, list) else [v])]
            out[k] = one if isinstance(v, list) else one[0]
        return out

    def prior(self, lib, cfg):
        return self.ev.call(self.ev.get(self.module, "make_prior"), [lib, cfg], {})

    def task(self, lib, prior):
        T = self.ev.get(TASK, "HierarchicalTask")
        t = Inst(T)
        t.attrs.update(library=lib)
        self.ev.call(self.ev.getattr(t, "reset_task"), [prior], {})
        return t

    def step(self, task, rows, before):
        """(next observation, prior) after the prefixes `rows`, where `before` places were open before the last token"""
        ev = self.ev
        acts = arr(ev, (len(rows), len(rows[0])), [t for r in rows for t in r], False)
        obs = arr(ev, (len(rows), 4), [x for b in before for x in (0, 0, 0, b)], False)
        return ev.call(ev.getattr(task, "get_next_obs"), [acts, obs], {})


def tabled(v, shape, what):
    t = table(v) if isinstance(v, Arr) else None
    if t is None or t[0] != tuple(shape) or any(isinstance(x, Cond) for x in t[1]):
        raise Unmodelled("%s is %r" % (what, v))
    n = shape[-1]
    return [t[1][k:k + n] for k in range(0, len(t[1]), n)]


def banned(x):
    x = P(x)
    c = x.const()
    if c is None:       # a number plus symbols
        c = x.t.get(_ONE, 0)
    return c < BAN


def judge(sub, W, name, rows, opens, got, rules, where_):
    lib = W.lib
    for r, d, verdict in zip(rows, opens, got):
        par, sib, anc = next_place(lib, r)
        want = set()
        for f in rules:
            want |= set(f(lib, r, par, sib, anc, d))
        have = {i for i in range(lib.L) if banned(verdict[i])}
        sub.count("places_judged")
        if want - have:
            sub.find("forbidden-token-possible", where_, "%s: after %s the token %s may still be drawn" % (
                name, " ".join(lib.names[t] for t in r), lib.names[min(want - have)]), "kd/model/discover/dso/prior.py")
            return
        if have - want:
            sub.find("allowed-token-impossible", where_, "%s: after %s the token %s is ruled out although no constraint forbids it" % (
                name, " ".join(lib.names[t] for t in r), lib.names[min(have - want)]), "kd/model/discover/dso/prior.py")
            return


def constraint_case(case, order, ctx_thorough, proj=None, module=PRIOR):
    name, cfg, toks, (quick, deep), rules = case

    def f(sub):
        W = World(sub, order(toks), proj, module)
        lib = W.lib

        def th():
            L = W.library()
            prior = W.prior(L, W.config(cfg))
            first = low(W.ev.call(W.ev.getattr(prior, "initial_prior"), [], {}))
            task = W.task(L, prior)
            out = []
            for n, level in lib.prefixes(deep if ctx_thorough else quick, rules):
                rows = [p for p, d in level]
                before = [d + 1 - lib.ar[p[-1]] for p, d in level]
                obs, pr = W.step(task, rows, before)
                out.append((rows, [d for p, d in level], tabled(pr, (len(rows), lib.L), "the prior"), tabled(obs, (len(rows), 4), "the observation")))
            return tabled(first, (lib.L,), "the initial prior"), out
        for kind, v, taken in W.R.paths(name, th):
            if kind == "raise":
                sub.find("prior-fails", name, "raises %s at %s" % (v, where(v)), "kd/model/discover/dso/prior.py")
                continue
            first, out = v
            for rows, opens, got, obs in out:
                judge(sub, W, name, rows, opens, got, rules, "constraint %s" % name.split(",")[0])
                for r, d, o in zip(rows, opens, obs):
                    if low(o[3]) != d:
                        sub.find("open-places-wrong", "observation", "after %s the number of open places is %s instead of %d" % (
                            " ".join(lib.names[t] for t in r), o[3], d), "kd/model/discover/task/task.py")
                        break
    return "constraint: %s" % name, f


def length_case(lo, hi):
    """every state of `n` tokens chosen and `d` places open: reached by binary operators, then unary ones"""
    def f(sub):
        W = World(sub, SMALL)
        lib = W.lib
        b, u = lib.named("add")[0], lib.named("n2")[0]

        def th():
            L = W.library()
            prior = W.prior(L, W.config({"length": dict(min_=lo, max_=hi)}))
            task = W.task(L, prior)
            first = tabled(W.ev.call(W.ev.getattr(prior, "initial_prior"), [], {}), (lib.L,), "the initial prior")[0]
            out = []
            for n in range(1, hi):
                ds = [d for d in range(1, n + 2) if n + d <= hi]
                rows = [(b,) * (d - 1) + (u,) * (n - d + 1) for d in ds]
                if n > 1:       # the same states, the last token a leaf: one operator more
                    more = [d for d in ds if n >= d + 1]
                    rows += [(b,) * d + (u,) * (n - d - 1) + (lib.named("u1")[0],) for d in more]
                    ds = ds + more
                before = [d + 1 - lib.ar[r[-1]] for r, d in zip(rows, ds)]
                obs, pr = W.step(task, rows, before)
                out.append((rows, ds, tabled(pr, (len(rows), lib.L), "the prior")))
            return first, out
        for kind, v, taken in W.R.paths("length %s..%s" % (lo, hi), th):
            if kind == "raise":
                sub.find("prior-fails", "length", "raises %s at %s" % (v, where(v)), "kd/model/discover/dso/prior.py")
                continue
            first, out = v
            if lo is not None and lo > 1 and not all(banned(first[i]) for i in range(lib.L) if lib.ar[i] == 0):
                sub.find("forbidden-token-possible", "constraint length", "an expression may begin (and end) with a leaf although %d tokens are required" % lo,
                         "kd/model/discover/dso/prior.py")
            for rows, opens, got in out:
                judge(sub, W, "length %s..%s" % (lo, hi), rows, opens, got, [length(lo, hi)], "constraint length")
    return "length %s..%s" % (lo, hi), f


def joint(sub):
    """a verdict stands whatever the other priors answer"""
    W = World(sub, SMALL)
    lib = W.lib

    def th():
        L = W.library()
        B, seen, stubs = 3, [], []
        for j in range(3):
            def call(ev, a, k, node, j=j):
                names_ = ("actions", "parent", "sibling", "dangling")
                a = list(a) + [k[n] for n in names_[len(a):] if n in k]
                seen.append((j, [table(x) for x in a]))
                return arr(ev, (B, lib.L), [-ranks.BIG if i == j and r != j else Poly.atom(("v", "q%d_%d_%d" % (j, r, i)))
                                            for r in range(B) for i in range(lib.L)], False)

            def init(ev, a, k, node, j=j):
                return arr(ev, (lib.L,), [-ranks.BIG if i == j else Poly.atom(("v", "s%d_%d" % (j, i))) for i in range(lib.L)], False)
            s = stub({"__call__": Native(call), "initial_prior": Native(init), "library": L, "describe": Native(lambda ev, a, k, n: "p")}, "Stub")
            stubs.append(s)
        jp = W.ev.call(W.ev.get(PRIOR, "JointPrior"), [L, stubs], {})
        first = tabled(W.ev.call(W.ev.getattr(jp, "initial_prior"), [], {}), (lib.L,), "the initial prior")[0]
        rows = [(1, 0), (3, 1), (4, 4)]
        obs, pr = W.step(W.task(L, jp), rows, [2, 2, 1])
        return first, tabled(pr, (B, lib.L), "the joint prior"), list(seen), [low(x) for x in table(W.ev.getattr(L, "parent_adjust"))[1]]
    for kind, v, taken in W.R.paths("joint prior", th):
        if kind == "raise":
            sub.find("prior-fails", "joint prior", "raises %s at %s" % (v, where(v)), "kd/model/discover/dso/prior.py")
            continue
        first, pr, seen, adj = v
        for i in range(3):
            sub.count("verdicts_combined", 4)
            if not banned(first[i]):
                sub.find("outvoted", "joint prior", "the initial verdict of one prior is lost when the others answer too", "kd/model/discover/dso/prior.py")
            for r in range(3):
                if r != i and not banned(pr[r][i]):
                    sub.find("outvoted", "joint prior", "the verdict of one prior is lost when the others answer too", "kd/model/discover/dso/prior.py")
        if any(banned(pr[r][i]) for r in range(3) for i in range(lib.L) if i > 2 or r == i):
            sub.find("outvoted", "joint prior", "a token no prior forbids is ruled out", "kd/model/discover/dso/prior.py")
        asked = sorted(j for j, a in seen)
        if asked != [0, 1, 2]:
            sub.find("not-consulted", "joint prior", "the priors consulted in one step are %s instead of each once" % asked, "kd/model/discover/dso/prior.py")
    return


def again(sub):
    """every enabled prior is built, a disabled one is not, and building leaves the configuration usable"""
    W = World(sub, FULL)

    def th():
        L = W.library()
        cfg = W.config(PACKAGED)
        cfg["const"] = {"on": False}
        cfg["no_inputs"] = {}
        cfg["subgrid_des_constraint"] = {"on": True}        # its tokens are not offered
        keep = {k: dict(v) for k, v in cfg.items()}
        out = []
        for _ in range(2):
            p = W.prior(L, cfg)
            out.append(sorted(x.cls.name for x in W.ev.getattr(p, "priors")))
        return out, cfg == keep
    for kind, v, taken in W.R.paths("make_prior", th):
        if kind == "raise":
            sub.find("prior-fails", "make_prior", "raises %s at %s" % (v, where(v)), "kd/model/discover/dso/prior.py")
            continue
        out, same = v
        sub.count("configurations_built", 2)
        want = len(PACKAGED)
        if len(out[0]) != want:
            sub.find("constraint-dropped", "make_prior", "%d of the %d enabled priors are built: %s" % (len(out[0]), want, out[0]), "kd/model/discover/dso/prior.py")
        elif out[1] != out[0]:
            sub.find("constraint-dropped", "make_prior, same configuration again", "the same configuration gives %d priors the first time and %d the second"
                     % (len(out[0]), len(out[1])), "kd/model/discover/dso/prior.py")


def sampler(sub):
    """the network's answer plus the verdict of the same step, for the same row, decides the draw"""
    for B, M in ((2, 3), (3, 5)):
        W = World(sub, SMALL)
        ev, lib = W.ev, W.lib
        draws, nets, asked, soft = [], [], [], {}

        def softmax(ev, a, k, node):
            x = a[0]
            t = table(x) if isinstance(x, Arr) else None
            if t is None:
                return Unk("softmax")
            r = arr(ev, t[0], [Poly.atom(("v", "prob%d_%d" % (len(soft), i))) for i in range(len(t[1]))], False, True)
            soft[id(r)] = (t, r)
            return r

        def draw(t):
            if t is None or len(t[0]) != 2:
                raise Unmodelled("draw from an unknown distribution")
            draws.append(t)
            return arr(ev, (t[0][0], 1), [(b + len(draws)) % lib.L for b in range(t[0][0])], False, True)

        def multinomial(ev, a, k, node):
            src = soft.get(id(a[0]))
            return draw(src[0] if src else None)

        def categorical(ev, a, k, node):
            lg, pr = k.get("logits", a[1] if len(a) > 1 else None), k.get("probs", a[0] if a else None)
            t = table(lg) if isinstance(lg, Arr) else (soft[id(pr)][0] if id(pr) in soft else None)
            return stub({"sample": Native(lambda ev, a, k, node: gridlib.getview(ev, draw(t), (slice(None), 0), None))}, "Categorical")

        def net(ev, a, k, node):
            if a and isinstance(a[0], Arr):
                nets.append(table(a[0]))
            j = len(nets) - 1
            return (arr(ev, (B, lib.L), [Poly.atom(("v", "net%d_%d_%d" % (j, b, i))) for b in range(B) for i in range(lib.L)], False, True),
                    Unk("cell state"))
        for n in ("torch.softmax", "torch.nn.functional.softmax", "arr.softmax"):
            ev.handlers[n] = softmax
        ev.handlers["torch.multinomial"] = ev.handlers["arr.multinomial"] = multinomial
        ev.handlers["torch.distributions.Categorical"] = ev.handlers["torch.distributions.categorical.Categorical"] = categorical

        def th():
            for x in (draws, nets, asked):
                del x[:]
            soft.clear()
            L = W.library()

            def verdict(ev, a, k, node):
                names_ = ("actions", "parent", "sibling", "dangling")
                a = list(a) + [k[n] for n in names_[len(a):] if n in k]
                asked.append(table(a[0]))
                j = len(asked)
                return arr(ev, (B, lib.L), [Poly.atom(("v", "prior%d_%d_%d" % (j, b, i))) for b in range(B) for i in range(lib.L)], False)
            lim = Inst(ev.get(PRIOR, "LengthConstraint"))
            lim.attrs.update(max=M, min=None)
            prior = stub({"__call__": Native(verdict), "priors": [lim], "library": L,
                          "initial_prior": Native(lambda ev, a, k, n: arr(ev, (lib.L,), [Poly.atom(("v", "prior0_%d" % i)) for i in range(lib.L)], False))},
                         "Prior")
            T = ev.get(TASK, "HierarchicalTask")
            task = Inst(T)
            task.attrs.update(library=L)
            Pr = ev.get(PROGRAM, "Program")
            Pr.attrs["task"] = task
            same = Native(lambda ev, a, k, n: a[0])
            sm = stub({"setup_manager": Native(lambda ev, a, k, n: None), "get_tensor_input": same, "process_state": same}, "StateManager")
            cell = stub({"__call__": Native(net), "parameters": Native(lambda ev, a, k, n: [])}, "Cell")
            m = ev.module(CONTROLLER)
            built = [n for n, c in m.items() if isinstance(c, Cls) and n != "Controller" and c.find("forward") is not None]
            for n in built:
                m[n] = Native(lambda ev, a, k, node: cell)
            c = ev.call(ev.get(CONTROLLER, "Controller"), [prior, sm], {"max_length": 40})
            out = ev.call(ev.getattr(c, "sample_episodes"), [B], {})
            return list(draws), list(nets), list(asked), [table(x) if isinstance(x, Arr) else None for x in out]
        for kind, v, taken in W.R.paths("sampling, %d rows, at most %d tokens" % (B, M), th):
            here = "kd/model/discover/controller.py"
            if kind == "raise":
                sub.find("sampler-fails", "sample_episodes", "raises %s at %s" % (v, where(v)), here)
                continue
            ds, ns, asks, out = v
            if len(ds) != M:
                sub.find("too-long", "sample_episodes", "%d tokens are drawn although the longest expression allowed has %d" % (len(ds), M), here)
                continue
            hist = []
            for k, t in enumerate(ds):
                sub.count("draws_followed")
                for b in range(B):
                    for i in range(lib.L):
                        x = P(t[1][b * lib.L + i])
                        y = P(Poly.atom(("v", "net%d_%d_%d" % (k, b, i)))) + Poly.atom(("v", "prior%d_%d_%d" % (k, b, i) if k else "prior0_%d" % i))
                        if x - y != Poly.c(0):
                            sub.find("verdict-ignored", "sample_episodes", "draw %d of row %d uses %s for token %d instead of the network's answer plus the "
                                     "verdict of the same step" % (k + 1, b, show(x), i), here)
                            break
                hist.append([(b + k + 1) % lib.L for b in range(B)])
                if k < len(asks):
                    want = [hist[j][b] for b in range(B) for j in range(k + 1)]
                    if asks[k] is None or [low(x) for x in asks[k][1]] != want or asks[k][0] != (B, k + 1):
                        sub.find("verdict-ignored", "get_next_obs", "the priors are asked about other tokens than the ones drawn so far (step %d)" % (k + 1), here)
            if out[0] is None or len(out) < 3 or out[2] is None:
                W.R.undecided("sampled batch", "result %r" % (out[:3],))
                continue
            if out[0][0] != (B, M) or [low(x) for x in out[0][1]] != [hist[k][b] for b in range(B) for k in range(M)]:
                sub.find("batch-mixed", "sample_episodes", "the tokens returned are not the tokens drawn", here)
            wantp = [Poly.atom(("v", "prior%d_%d_%d" % (k, b, i) if k else "prior0_%d" % i)) for b in range(B) for k in range(M) for i in range(lib.L)]
            if out[2][0] != (B, M, lib.L) or any(P(x) != P(y) for x, y in zip(out[2][1], wantp)):
                sub.find("batch-mixed", "sample_episodes", "the verdicts returned for training are not those of the same row and step", here)


def training(sub):
    """the likelihoods trained on contain the verdicts of the batch, row by row and step by step"""
    W = World(sub, SMALL)
    ev, lib, B, T = W.ev, W.lib, 2, 3
    rec = []

    def soft(ev, a, k, node):
        t = table(a[0]) if isinstance(a[0], Arr) else None
        rec.append(t)
        return arr(ev, t[0], [Poly.atom(("v", "lp%d_%d" % (len(rec), i))) for i in range(len(t[1]))], False, True) if t else Unk("softmax")
    for n in ("torch.softmax", "torch.log_softmax", "torch.nn.functional.softmax", "torch.nn.functional.log_softmax", "arr.softmax", "arr.log_softmax"):
        ev.handlers[n] = soft

    def sym(name, *sh):
        n = 1
        for d in sh:
            n *= d
        return arr(ev, sh, [Poly.atom(("v", "%s_%d" % (name, i))) for i in range(n)], False, True)

    def th():
        del rec[:]
        W.library()
        c = Inst(ev.get(CONTROLLER, "Controller"))
        same = Native(lambda ev, a, k, n: a[0])
        net = stub({"__call__": Native(lambda ev, a, k, n: (sym("net", B, T, lib.L), Unk("state")))}, "Cell")
        c.attrs.update(state_manager=stub({"get_tensor_input": Native(lambda ev, a, k, n: sym("in", B, T, 4))}, "SM"), cell=net, max_length=T, n_choices=lib.L,
                       entropy_gamma_decay=arr(ev, (T,), [1] * T, False))
        batch = stub({"obs": sym("obs", B, 4, T), "priors": sym("prior", B, T, lib.L), "lengths": arr(ev, (B,), [T] * B, False, True),
                      "actions": arr(ev, (B, T), [0] * (B * T), False, True)}, "Batch")
        try:
            ev.call(ev.getattr(c, "make_neglogp_and_entropy"), [batch], {})
        except (Unmodelled, PyRaise):
            pass
        return list(rec)
    for kind, v, taken in W.R.paths("training likelihoods", th):
        if kind == "raise":
            continue
        if not v or any(t is None for t in v):
            W.R.undecided("training likelihoods", "softmax of an unknown array")
            continue
        for t in v:
            sub.count("likelihoods_followed")
            want = [Poly.atom(("v", "net_%d" % i)) + Poly.atom(("v", "prior_%d" % i)) for i in range(B * T * lib.L)]
            if len(t[1]) != len(want) or any(P(x) != y for x, y in zip(t[1], want)):
                sub.find("verdict-ignored", "make_neglogp_and_entropy", "the likelihoods used in training are not those of the network's answer plus the verdicts",
                         "kd/model/discover/controller.py")


SELF = """
import numpy as np


class Joint:
    def __init__(self, library, rules):
        self.library, self.rules = library, rules

    def initial_prior(self):
        return np.zeros(self.library.L)

    def __call__(self, actions, parent, sibling, dangling):
        out = np.zeros((actions.shape[0], self.library.L))
        for targets, effectors in self.rules:
            targets = self.library.actionize(targets)
            effectors = self.library.parent_adjust[self.library.actionize(effectors)]
            mask = np.logical_and(np.isin(parent, effectors), %(side)s)
            for t in targets:
                out[mask, t] += %(value)s
        return %(result)s


def make_prior(library, config):
    return Joint(library, [(c["targets"], c["effectors"]) for c in config["relational"] if c["on"]])
"""


def selftest():
    from ..selftest import Overlay
    from ..report import Ctx
    case = ("self-test", {"relational": [dict(targets=["x1"], effectors=["add"])]}, SMALL, (3, 3), [relation("rchild", names("x1"), names("add"))])
    good = dict(side="np.less(sibling, self.library.L)", value="-np.inf", result="out")
    for change, want in (({}, None), ({"side": "np.equal(sibling, self.library.L)"}, "forbidden-token-possible"), ({"value": "-30.0"}, "forbidden-token-possible"),
                         ({"side": "np.less_equal(sibling, self.library.L)"}, "allowed-token-impossible"),
                         ({"result": "np.where(out < -20.0, -20.0, out)"}, "forbidden-token-possible"), ({"result": "self.nothing(out)"}, "?")):
        mod = "kd._kdsa_prior"
        sub = Ctx("C17")
        sub.seen = set()
        constraint_case(case, ORDERS[0], False, Overlay(PROJECT(), mod, SELF % dict(good, **change)), mod)[1](sub)
        rules = {v["rule"] for v in sub.findings.values()}
        und = bool(sub.counts.get("undecided"))
        if want == "?" and (rules or not und) or want is None and (rules or und) or want not in (None, "?") and want not in rules:
            raise AnalysisBroken("C17 self-test %r: wanted %r, got %s %s" % (change, want, sorted(rules), sub.notes[:2]))


def tasks(thorough):
    out = []
    for case in CASES:
        for k, o in enumerate(ORDERS if thorough or case[2] is SMALL else ORDERS[:1] if CASES.index(case) % 2 else ORDERS[1:]):
            n, f = constraint_case(case, o, thorough)
            out.append(("%s [%d]" % (n, k), f))
    for lo, hi in [(3, 64), (4, 20), (1, 9), (None, 12), (5, 33)] + ([(3, 40), (6, 21), (2, 128), (4, 30), (10, 25)] if thorough else []):
        out.append(length_case(lo, hi))
    out += [("joint prior", joint), ("make_prior", again), ("sampler", sampler), ("training", training)]
    return out


def run(ctx):
    ctx.rule("a token has the verdict minus infinity after a prefix exactly when an enabled constraint forbids it there, for every reachable prefix up to the "
             "length stated, whatever the other priors answer, and for every state of length and open places under a length limit")
    ctx.rule("every enabled prior whose tokens are offered is built, also when the same configuration is used again; each is consulted once per step about "
             "the tokens drawn so far and the place to fill")
    ctx.rule("a draw uses the network's answer plus the verdict of the same row and step, no more tokens than the maximum are drawn, and training uses the "
             "same sum")
    ctx.assumptions += ["prefixes up to the enumerated length over token tables with each kind of token stand for all",
                        "minus infinity is modelled as a number below all others"]
    selftest()
    T = tasks(ctx.thorough)
    run_scenarios(ctx, T)
    ctx.floor("places_judged", 8000)
    ctx.floor("draws_followed", 8)
    ctx.floor("verdicts_combined", 12)
    for n, _ in T[::5]:
        ctx.sample(n)
