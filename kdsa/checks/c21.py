"""C21: a reported coefficient, score and prediction belong to the terms they are reported with.

The regressions are evaluated abstractly on opaque samples.  The solution of a least squares problem is named by the problem it solves
(kdsa.fits): coefficient of which vector, fitted together with which others to which target.  So it can be followed through scaling,
thresholding, refitting and dropping, and compared with the term it ends up next to, whatever the numbers are."""
import itertools
import re
from ..gridcheck import *
from ..report import AnalysisBroken, run_scenarios
from ..grid import low, Cond, Method
from ..gridlib import fshape
from ..algebra import fn, F
from .. import fits, finite, gridlib
from .c09 import GENERIC

FIND, PDE, EQN = "kd.model.sga.sgapde.PDE_find", "kd.model.sga.sgapde.pde", "kd.model.sga.sgapde.equation"
DLGA, STR, PROG = "kd.model.dlga", "kd.model.discover.stridge", "kd.model.discover.program"
EQL = "kd.viz.dlga_eq2latex"


def samples(name, n):
    return [Poly.atom(("s", name, (P(i),))) for i in range(n)]


class World:
    """n samples of d opaque terms and of a target"""

    def __init__(self, ev, d, n=4, target="u_t", names=None):
        self.ev, self.n = ev, n
        self.names = list(names or ["term%d" % (j + 1) for j in range(d)])
        self.X = {a: samples(a, n) for a in self.names}
        self.y = samples(target, n)
        self.target = target
        self.fits = fits.install(ev)
        self.fits.named = dict(self.X)
        self.fits.named[target] = self.y

    def R(self):
        return fits.table(self.ev, [[self.X[a][i] for a in self.names] for i in range(self.n)])

    def Y(self):
        return fits.vec(self.ev, self.y, True)

    def coef(self, a, among, y=None):
        return self.fits.coef(a, among, y or self.target)


def entries(w, d=None):
    """the elements of a column, a vector or a list, or None"""
    if isinstance(w, (list, tuple)):
        out = []
        for x in w:
            e = entries(x) if isinstance(x, Arr) else [low(x)]
            if e is None or len(e) != 1:
                return None
            out += e
        return [P(x) for x in out]
    if not isinstance(w, Arr):
        return None
    sh = fshape(w)
    if sh is None or sum(m != 1 for m in sh) > 1:
        return None
    return [P(low(w.at(tuple(Poly.c(i) for i in p)))) for p in itertools.product(*[range(m) for m in sh])]


def judged(R, name, what, got, want, sub):
    """elementwise comparison of two lists of expressions"""
    sub.count("values_judged", len(want))
    if got is None:
        R.undecided(name, "%s is not a table" % what)
        return False
    if len(got) != len(want):
        sub.find("misplaced", what, "%s: %d values for %d terms" % (name, len(got), len(want)), name)
        return False
    for k, (g, w) in enumerate(zip(got, want)):
        if not (P(g) == P(w)):
            sub.find("misplaced", what, "%s: value %d is %s, it should be %s" % (name, k + 1, show(P(g))[:160], show(P(w))[:160]), name)
            return False
    return True


# ---------------------------------------------------------------- SGA
def stridge(d, iters, normalize, lam=0, tol=1):
    name = "SGA regression of %d terms, %d rounds%s%s" % (d, iters, ", normalised" if normalize else "", "" if not lam else ", damped")

    def f(sub, proj=None, mod=FIND):
        R = Runner(sub, proj)
        ev = R.ev
        W = World(ev, d)
        finite.install(ev)
        W.fits.ridge = True

        def th():
            W.fits.reset()
            return ev.call(ev.get(mod, "STRidge"), [W.R(), W.Y(), lam, iters, tol], {"normalize": normalize})
        for kind, w, taken in R.paths(name, th):
            if kind == "raise":
                sub.find("misplaced", "regression raises", "%s: %s" % (name, w), where(w))
                continue
            es = entries(w)
            sub.count("regressions_judged")
            if es is None:
                R.undecided(name, "the result is not a column")
                continue
            kept = [a for a, e in zip(W.names, es) if e.const() != 0]
            if len(es) == d and len(kept) == d:
                # every coefficient below the threshold: the result is only a probe that is never better than the full fit
                full = [W.coef(a, W.names) for a in W.names]
                if not all(e == x for e, x in zip(es, full)) and everycut(W):
                    sub.count("probes")
                    continue
            want = [W.coef(a, kept) if a in kept else P(0) for a in W.names]
            judged(R, name, "coefficients of the sparse regression", es, want, sub)
    return (name, f)


def everycut(W):
    """on this path the first threshold is above every coefficient"""
    seen = list(W.fits.known.items())
    return sum(1 for k, v in seen if v) >= len(W.names)


def trained(d, rounds, ratio):
    name = "SGA training on %d terms, %d tolerances, weight %s" % (d, rounds, ratio)

    def f(sub, proj=None, mod=FIND):
        R = Runner(sub, proj)
        ev = R.ev
        W = World(ev, d)
        finite.install(ev)
        tried = []

        def probe(ev_, a, k, n):
            j = len(tried)
            ws = [Poly.atom(("s", "w%d" % (j + 1), (P(i),))) if (i + j) % d or d == 1 else P(0) for i in range(d)]
            tried.append(ws)
            return fits.vec(ev, ws, True)

        def scores(ws):
            res = [W.y[i] - sum((W.X[a][i] * w for a, w in zip(W.names, ws)), P(0)) for i in range(W.n)]
            err = Poly.atom(("f", "norm2", tuple(res)))
            mse = sum((r * r for r in res), P(0)) * F(1, W.n)
            k = sum(1 for w in ws if w.const() != 0)
            return err, mse, fn("log", mse) * 2 + P(F(str(ratio)) * 2 * k)

        def th():
            W.fits.reset()
            del tried[:]
            m = ev.module(mod)
            if "STRidge" not in m:
                raise Unmodelled("no sparse regression in %s" % mod)
            m["STRidge"] = Native(probe)
            r = ev.call(ev.get(mod, "Train"), [W.R(), W.Y(), 0, 1, low(P(F(str(ratio))))], {"maxit": rounds})
            ws = [W.coef(a, W.names) for a in W.names]
            best = (ws,) + scores(ws)
            for t in list(tried):
                now = (t,) + scores(t)
                if ev.truth(Cond("less", "LtE", now[3], best[3]), "less", None):
                    best = now
            return r, best, len(tried)
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                sub.find("misplaced", "training raises", "%s: %s" % (name, v), where(v))
                continue
            r, best, nt = v
            sub.count("trainings_judged")
            if not isinstance(r, (tuple, list)) or len(r) != 4:
                R.undecided(name, "the result of the training is not weights, error, mean square and score")
                continue
            if nt == 0:
                R.undecided(name, "no tolerance was tried")
                continue
            judged(R, name, "weights of the training", entries(r[0]), best[0], sub)
            for what, g, w in zip(("error of the training", "mean square of the training", "score of the training"), r[1:], best[1:]):
                g = g.at(()) if isinstance(g, Arr) and not g.dims else g
                if isinstance(g, (Unk, Cond)) or not is_number(g):
                    R.undecided(name, "%s is %r" % (what, g))
                    continue
                judged(R, name, what, [P(low(g))], [w], sub)
    return (name, f)


def is_number(x):
    try:
        P(low(x))
        return True
    except Exception:
        return False


def single(name, cache):
    """a tree of one node"""
    node = stub({"name": name, "child_num": 0, "child_st": None, "cache": cache, "var": cache}, "Node")
    return stub({"tree": [[node]], "inorder": name, "preorder": name}, "Tree")


def equation(defaults, terms, zero, coefs, what):
    """terms in `zero` vanish on the data and are dropped; coefs: the coefficient the regression finds for each column"""
    name = "SGA %s of %s with %s" % (what, "+".join("%s%s" % (coefs[a], a) for a in defaults + terms if a not in zero),
                                     "no term dropped" if not zero else "%s dropped" % ",".join(zero))

    def f(sub, proj=None, mod=PDE, eqn=EQN):
        R = Runner(sub, proj)
        ev = R.ev
        W = World(ev, 0, names=defaults + terms)
        finite.install(ev)
        bad = []

        def train(ev_, a, k, n):
            M = a[0] if a else k.get("R")
            y = a[1] if len(a) > 1 else k.get("Ut")
            sh = fshape(M)
            ws = []
            if W.fits.name(entries(y) or [])[0] != W.target:
                bad.append("the target of the regression is not the left-hand side")
            for j in range(sh[1]):
                nm, s = W.fits.name(fits.column(M, j, sh[0]))
                if nm not in coefs:
                    bad.append("column %d of the regression matrix is none of the terms" % j)
                    ws.append(P(0))
                    continue
                ws.append(P(F(coefs[nm])) / s)
            return fits.vec(ev, ws, True), Poly.atom(("v", "loss")), Poly.atom(("v", "mse")), Poly.atom(("v", "aic"))

        def grid(xs):
            def at(pos):
                i, j = P(pos[0]).const(), P(pos[1]).const()
                if i is None or j is None:
                    raise Undecided("symbolic position")
                return xs[int(i) * 2 + int(j)]
            return Arr(ev, [2, 2], at)

        def nonzero(ev_, a, k, n):
            sh = fshape(a[0]) if isinstance(a[0], Arr) else None
            if sh is None:
                return gridlib.call(ev, "builtins.any", a, k, n)
            return any(P(low(a[0].at(tuple(Poly.c(i) for i in p)))).const() != 0 for p in itertools.product(*[range(m) for m in sh]))

        def th():
            W.fits.reset()
            del bad[:]
            ctx = stub({"ut": grid(W.y), "num_default": len(defaults), "default_names": list(defaults), "lhs_axis": "t",
                        "default_terms": fits.table(ev, [[W.X[a][i] for a in defaults] for i in range(W.n)]),
                        "axis_map": {"t": 0, "x": 1}, "delta": {"t": Poly.atom(("d", "t")), "x": Poly.atom(("d", "x"))},
                        "config": stub({"aic_ratio": 1, "lhs_axis": "t", "target_field": "u"}, "Config")}, "Context")
            m = ev.module(mod)
            if "Train" not in m:
                raise Unmodelled("no regression in %s" % mod)
            m["Train"] = Native(train)
            ts = [single(a, grid([P(0)] * W.n if a in zero else W.X[a])) for a in terms]
            ev.handlers.update(GENERIC)
            ev.handlers["builtins.any"] = ev.handlers["numpy.any"] = ev.handlers["arr.any"] = ev.handlers["numpy.count_nonzero"] = nonzero
            try:
                cls = m["PDE"]
                p = Inst(cls)
                p.attrs.update({"elements": ts, "W": len(ts)})
                if what == "text":
                    return ev.call(ev.getattr(p, "concise_visualize"), [ctx]), None
                d = ev.call(ev.get(eqn, "extract_equation_details"), [p, ctx])
                if what == "details":
                    return d, None
                return ev.call(ev.get(eqn, "sga_equation_to_latex"), [d]), None
            finally:
                for h in list(GENERIC) + ["arr.any", "numpy.count_nonzero"]:
                    ev.handlers.pop(h, None)
        want = [(a, F(coefs[a])) for a in defaults + terms if a not in zero and abs(F(coefs[a])) >= F(1, 10 ** 4)]
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                sub.find("misplaced", "%s raises" % what, "%s: %s %s" % (name, v, v.msg or ""), where(v))
                continue
            sub.count("equations_judged")
            for b in bad:
                sub.find("misplaced", "%s|target" % what, "%s: %s" % (name, b), name)
            v = v[0]
            if what == "details":
                got = []
                for t in gridlib.iterate(ev, ev.getattr(v, "terms"), None):
                    got.append((ev.getattr(t, "label"), ev.getattr(t, "coefficient"), ev.getattr(t, "source"), ev.getattr(t, "tree")))
                compare_pairs(sub, name, what, [(a, P(low(c)).const()) for a, c, _, _ in got], want)
                for a, c, s, t in got:
                    if (s == "default") != (a in defaults):
                        sub.find("misplaced", "details|source", "%s: %s is called %s" % (name, a, s), name)
                    if t is not None and ev.getattr(t, "inorder") != a:
                        sub.find("misplaced", "details|tree", "%s: %s carries the tree of another term" % (name, a), name)
                pred = ev.getattr(v, "predicted_rhs")
                flat = None
                if isinstance(pred, Arr) and fshape(pred) == (2, 2):
                    flat = [P(low(pred.at((P(i), P(j))))) for i in range(2) for j in range(2)]
                elif pred is not None:
                    sub.count("values_judged")
                    if isinstance(pred, Arr) and fshape(pred) is not None:
                        sub.find("misplaced", "predicted right-hand side", "%s: has the shape %s, the left-hand side (2, 2)" % (name, fshape(pred)), name)
                        continue
                alls = [(a, F(coefs[a])) for a in defaults + terms if a not in zero]
                judged(R, name, "predicted right-hand side", flat, [sum((W.X[a][i] * P(c) for a, c in alls), P(0)) for i in range(W.n)], sub)
                continue
            if not isinstance(v, str):
                R.undecided(name, "the %s is %r" % (what, v))
                continue
            compare_pairs(sub, name, what, terms_of(v, defaults + terms), want)
    return (name, f)


def terms_of(text, names):
    """[(name, signed coefficient)] read from 'c name + c name', in TeX or plain text"""
    out = []
    t = text.split("=", 1)[1] if "=" in text else text
    t = t.replace("\\,", "").replace("*", "").replace("\\cdot", "").replace(" ", "")
    t = t.replace("+-", "-").replace("-+", "-").replace("--", "+")
    for m in re.finditer(r"([+-]?)(\d+(?:\.\d*)?(?:e[+-]?\d+)?)?(%s)" % "|".join(sorted(map(re.escape, names), key=len, reverse=True)), t):
        c = F(m.group(2)) if m.group(2) else F(1)
        out.append((m.group(3), -c if m.group(1) == "-" else c))
    return out


def compare_pairs(sub, name, what, got, want, digits=4):
    sub.count("values_judged", len(want))
    g, w = dict(got), dict(want)
    if len(g) != len(got):
        sub.find("misplaced", what + "|twice", "%s: a term is written twice: %s" % (name, fmt(got)), name)
        return
    for a in w:
        if a not in g:
            sub.find("misplaced", what + "|missing", "%s: %s is missing, the equation has %s; written: %s" % (name, a, fmt(want), fmt(got)), name)
            return
        if g[a] is None or abs(g[a] - w[a]) > F(6, 10 ** (digits + 1)) * max(1, abs(w[a])):
            sub.find("misplaced", what, "%s: %s is written with %s, its coefficient is %s" % (name, a, num(g[a]), num(w[a])), name)
            return
    for a in g:
        if a not in w and abs(g[a] or 0) > F(1, 10 ** 3):
            sub.find("misplaced", what + "|extra", "%s: %s is not in the equation %s" % (name, a, fmt(want)), name)


def num(x):
    return "?" if x is None else "%g" % float(x)


def fmt(ps):
    return " + ".join("%s %s" % (num(c), a) for a, c in ps)


# ---------------------------------------------------------------- DLGA
class GA:
    """a DLGA whose candidate columns are opaque"""
    NAMES = ("u", "u_x", "u_xx", "u_xxx")

    def __init__(self, ev, mod):
        self.ev, self.mod = ev, mod
        self.cols = {a: samples(a, 3) for a in self.NAMES}
        self.ut, self.utt = samples("u_t", 3), samples("u_tt", 3)

    def make(self):
        ev = self.ev
        o = Inst(ev.get(self.mod, "DLGA"))
        th = fits.table(ev, [[self.cols[a][i] for a in self.NAMES] for i in range(3)])
        th.torch = True
        o.attrs.update({"Theta": th, "u_t": fits.vec(ev, self.ut, True), "u_tt": fits.vec(ev, self.utt, True),
                        "epi": Poly.atom(("v", "epi")), "verbose": False})
        return o

    def product(self, module):
        out = [P(1)] * 3
        for g in module:
            out = [x * y for x, y in zip(out, self.cols[self.NAMES[g]])]
        return out


def chromosome(chrom):
    name = "DLGA fitness of %s" % (chrom,)

    def f(sub, proj=None, mod=DLGA):
        R = Runner(sub, proj)
        ev = R.ev
        g = GA(ev, mod)
        ft = fits.install(ev)
        finite.install(ev)
        mods = {"module%d" % (k + 1): g.product(m) for k, m in enumerate(chrom)}
        ft.named = dict(mods, u_t=g.ut, u_tt=g.utt)

        def th():
            ft.reset()
            o = g.make()
            tr = ev.call(ev.getattr(o, "translate_DNA"), [[list(m) for m in chrom]])
            ft_ = ev.call(ev.getattr(o, "get_fitness"), list(tr))
            return tr, ft_, dict(ft.known)
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                sub.find("misplaced", "fitness raises", "%s: %s %s" % (name, v, v.msg or ""), where(v))
                continue
            tr, r, known = v
            sub.count("chromosomes_judged")
            M, pen = tr
            cols = [fits.column(M, j, 3) for j in range(fshape(M)[1])] if isinstance(M, Arr) and fshape(M) else None
            if cols is None:
                R.undecided(name, "the translation is no table")
                continue
            if len(cols) != len(chrom):
                sub.find("misplaced", "translated columns", "%s: %d columns for %d modules" % (name, len(cols), len(chrom)), name)
                continue
            for k, (c, m) in enumerate(zip(cols, mods.values())):
                judged(R, name, "translated column", c, m, sub)
            if low(pen) != sum(len(m) for m in chrom):
                sub.find("misplaced", "length of the candidate", "%s: %s genes counted, it has %d" % (name, pen, sum(len(m) for m in chrom)), name)
            if not isinstance(r, (tuple, list)) or len(r) != 4:
                R.undecided(name, "the fitness is not coefficients, fitness, error and name")
                continue
            coef, fit, err, left = r
            if left not in ("u_t", "u_tt"):
                sub.find("misplaced", "name of the left-hand side", "%s: %r" % (name, left), name)
                continue
            es = entries(coef)
            if es is None or len(es) != len(chrom):
                judged(R, name, "coefficients of a chromosome", es, [P(0)] * len(chrom), sub)
                continue
            ys = g.ut if left == "u_t" else g.utt
            tag = ",".join([left] + list(mods))
            r_ = min(3, len(chrom) + 1)
            v0 = Poly.atom(("s", "singular%d(%s | %s)" % (r_ - 1, left, tag), ()))
            okay = True
            for k, e in enumerate(es):
                vk = Poly.atom(("s", "singular%d(%s | %s)" % (r_ - 1, "module%d" % (k + 1), tag), ()))
                sub.count("values_judged")
                # the solver's guard against a division by zero is left out
                if not same_ratio(e, vk, v0):
                    sub.find("misplaced", "coefficients of a chromosome", "%s: coefficient %d with %s is %s" % (name, k + 1, left, show(e)[:160]), name)
                    okay = False
                    break
            if not okay:
                continue
            res = [ys[i] - sum((es[k] * c[i] for k, c in enumerate(mods.values())), P(0)) for i in range(3)]
            mse = sum((x * x for x in res), P(0)) * F(1, 3)
            judged(R, name, "error of a chromosome", [P(low(err))] if is_number(err) else None, [mse], sub)
            judged(R, name, "fitness of a chromosome", [P(low(fit))] if is_number(fit) else None,
                   [mse + Poly.atom(("v", "epi")) * sum(len(m) for m in chrom)], sub)
            # the left-hand side with the smaller error
            pair = [(k, b) for k, b in known.items()]
            if len(pair) != 1:
                R.undecided(name, "%d comparisons" % len(pair))
                continue
            (a, b), less = pair[0]
            small = a if less else b
            sub.count("values_judged")
            if not (P(small) == mse or P(small) == P(low(fit))):
                sub.find("misplaced", "choice of the left-hand side", "%s: the other left-hand side has the smaller error" % name, name)
    return (name, f)


def same_ratio(e, vk, v0):
    """e = -vk / (v0 + c) for a negligible constant c"""
    for c in ("0", "1e-8", "1e-10", "1e-12", "1e-6", "1e-9"):
        try:
            if e == P(0) - vk / (v0 + P(F(c))):
                return True
        except Exception:
            pass
    return False


def chromtext(chrom, coefs, how):
    name = "DLGA %s of %s with %s" % (how, chrom, coefs)

    def f(sub, proj=None, mod=DLGA, eql=EQL):
        R = Runner(sub, proj)
        ev = R.ev
        finite.install(ev)
        names = ["u", "ux", "uxx", "uxxx"]

        def th():
            col = fits.vec(ev, [P(F(c)) for c in coefs], True)
            if how == "text":
                o = GA(ev, mod).make()
                return ev.call(ev.getattr(o, "convert_chrom_to_eq"), [[list(m) for m in chrom], "u_t", col])
            return ev.call(ev.get(eql, "dlga_eq2latex"), [[list(m) for m in chrom], col, "u_t"])
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                sub.find("misplaced", "%s raises" % how, "%s: %s %s" % (name, v, v.msg or ""), where(v))
                continue
            if not isinstance(v, str):
                R.undecided(name, "the %s is %r" % (how, v))
                continue
            sub.count("equations_judged")
            got = []
            t = v.split("=", 1)[1].replace(" ", "").replace("+-", "-").replace("--", "+")
            for part in re.findall(r"[+-]?[^+-]+(?:e[+-]\d+[^+-]*)?", t):
                m = re.match(r"([+-]?)(\d+(?:\.\d*)?(?:e[+-]?\d+)?)?\*?(.*)", part)
                c = F(m.group(2)) if m.group(2) else F(1)
                got.append((tuple(sorted(factors(m.group(3)))), -c if m.group(1) == "-" else c))
            want = [(tuple(sorted(names[g] for g in m)), F(c)) for m, c in zip(chrom, coefs) if abs(F(c)) > F(1, 10 ** 4)]
            compare_pairs(sub, name, "DLGA " + how, [("*".join(a), c) for a, c in got], [("*".join(a), c) for a, c in want])
    return (name, f)


def factors(s):
    """the factors of a product such as u*ux, u u_{x}^{2}"""
    s = s.replace("\\cdot", "").replace("\\,", "").replace("*", "")
    out = []
    for m in re.finditer(r"u(?:_\{(x+)\}|_(x)|(x*))(?:\^\{?(\d)\}?)?", s):
        out += ["u" + (m.group(1) or m.group(2) or m.group(3) or "")] * int(m.group(4) or 1)
    return out


# ---------------------------------------------------------------- DISCOVER
def calculated(d, const, drop=()):
    name = "DISCOVER regression of %d terms%s%s" % (d, " and a constant" if const else "",
                                                     ", %s refused" % ",".join("term%d" % (k + 1) for k in drop) if drop else "")

    def f(sub, proj=None, mod=STR):
        R = Runner(sub, proj)
        ev = R.ev
        W = World(ev, d)
        finite.install(ev)
        W.fits.named["1"] = [P(1)] * W.n

        def th():
            W.fits.reset()
            o = Inst(ev.get(mod, "STRidge"))
            tokens = [["tokens of " + a] for a in W.names]
            trees = ["tree of " + a for a in W.names]
            o.attrs.update({"terms_token": tokens, "terms": trees, "traversal_copy": [], "depth": [1] * d, "add_const": const,
                            "noise_level": 0, "cut_ratio": Poly.atom(("v", "cut")), "full_sized_terms": [], "omit_terms": [],
                            "regulation": stub({"apply_regulations": Native(lambda ev_, a, k, n: ([x for x in drop], []))}, "Regulations")})

            def execute(ev_, a, k, n):
                nm = a[0][0][len("tokens of "):]
                return fits.vec(ev, W.X[nm]), False, None, None
            r = ev.call(ev.getattr(o, "calculate"), [[Unk("field")], [Unk("coordinates")], W.Y()], {"execute_function": Native(execute)})
            return r, ev.getattr(o, "terms"), ev.getattr(o, "terms_token")
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                sub.find("misplaced", "regression raises", "%s: %s %s" % (name, v, v.msg or ""), where(v))
                continue
            r, trees, tokens = v
            if not isinstance(r, (tuple, list)) or len(r) < 3 or isinstance(r[2], (Unk, Cond)):
                R.undecided(name, "the result of the regression is %r" % (r,))
                continue
            if r[2] is True:
                sub.count("refused")
                continue
            sub.count("programs_judged")
            left = [a for k, a in enumerate(W.names) if k not in drop]
            if [str(t) for t in trees] != ["tree of " + a for a in left] or [t[0] for t in tokens] != ["tokens of " + a for a in left]:
                sub.find("misplaced", "terms kept", "%s: keeps %s with the tokens %s; it should keep %s" % (
                    name, trees, [t[0] for t in tokens], left), name)
                continue
            es = entries(r[1])
            if es is None:
                R.undecided(name, "the coefficients are %r" % (r[1],))
                continue
            full = left + (["1"] if const else [])
            among = left if const and len(es) == len(left) else full
            if not judged(R, name, "coefficients of a program", es, [W.coef(a, among) for a in among], sub):
                continue
            yh = entries(r[0])
            cols = dict(W.X, **{"1": [P(1)] * W.n})
            judged(R, name, "prediction of a program", yh, [sum((W.coef(a, among) * cols[a][i] for a in among), P(0)) for i in range(W.n)], sub)
            if len(r) > 5 and isinstance(r[5], Arr) and fshape(r[5]):
                m = r[5]
                for j, a in enumerate(among):
                    if fshape(m)[1] != len(among):
                        sub.find("misplaced", "matrix of a program", "%s: %d columns for %d coefficients" % (name, fshape(m)[1], len(among)), name)
                        break
                    judged(R, name, "matrix of a program", fits.column(m, j, W.n), cols[a], sub)
    return (name, f)


def residual(d, how):
    name = "DISCOVER residual of %d terms, coefficients as a %s" % (d, how)

    def f(sub, proj=None, mod=STR):
        R = Runner(sub, proj)
        ev = R.ev
        W = World(ev, d)
        finite.install(ev)
        cs = [Poly.atom(("s", "c%d" % (j + 1), ())) for j in range(d)]

        def th():
            W.fits.reset()
            o = Inst(ev.get(mod, "STRidge"))
            o.attrs.update({"terms_token": [["tokens of " + a] for a in W.names], "terms": ["tree of " + a for a in W.names]})

            def execute(ev_, a, k, n):
                r = fits.vec(ev, W.X[a[0][0][len("tokens of "):]], True)
                r.torch = True
                return r, False, None, None
            ut = W.Y()
            ut.torch = True

            def weigh(ev_, a, k, n):
                from ..gridlib import binop
                tot = 0
                for c, x in zip(cs, a[0]):
                    tot = binop(ev, "Add", tot, binop(ev, "Mult", c, x, n), n)
                return tot
            return ev.call(ev.getattr(o, "calculate_RHS"), [[Unk("field")], [Unk("coordinates")], ut, list(cs) if how == "list" else Native(weigh), Native(execute)])
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                sub.find("misplaced", "residual raises", "%s: %s %s" % (name, v, v.msg or ""), where(v))
                continue
            sub.count("residuals_judged")
            judged(R, name, "residual of a program", entries(v), [W.y[i] - sum((c * W.X[a][i] for c, a in zip(cs, W.names)), P(0)) for i in range(W.n)], sub)
    return (name, f)


def progtext(d, const):
    name = "DISCOVER text of %d terms%s" % (d, " and a constant" if const else "")

    def f(sub, proj=None, mod=PROG):
        R = Runner(sub, proj)
        ev = R.ev
        coefs = [F(x) for x in ("0.5", "-2.25", "3", "-0.125")][:d + (1 if const else 0)]

        def th():
            o = Inst(ev.get(mod, "Program"))
            terms = [stub({"__repr__": Native(lambda ev_, a, k, n, j=j: "term%d" % (j + 1))}, "Node") for j in range(d)]
            for t in terms:
                t.cls.attrs["__repr__"] = Static(t.attrs["__repr__"], "static")
            o.attrs.update({"STRidge": stub({"terms": terms}, "STRidge"), "w": [P(c) for c in coefs], "cached_terms": None})
            return ev.getattr(o, "str_expression")
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                sub.find("misplaced", "program text raises", "%s: %s %s" % (name, v, v.msg or ""), where(v))
                continue
            if not isinstance(v, str):
                R.undecided(name, "the text is %r" % (v,))
                continue
            sub.count("equations_judged")
            want = [("term%d" % (j + 1), c) for j, c in enumerate(coefs[:d])]
            compare_pairs(sub, name, "program text", terms_of(v, [a for a, _ in want]), want)
            if const:
                t = v.replace(" ", "").replace("+-", "-")
                m = re.search(r"([+-]?\d+(?:\.\d*)?)$", t)
                sub.count("values_judged")
                if not m or abs(F(m.group(1)) - coefs[-1]) > F(1, 10 ** 4):
                    sub.find("misplaced", "program text|constant", "%s: the constant %s is not at the end of %r" % (name, num(coefs[-1]), v), name)
    return (name, f)


# ---------------------------------------------------------------- EqGPT
GPT = "kd.model.eqgpt.continue_train_GPT_all"


def rewarded(words, monomials, nets):
    """the reward of a sentence: its first term fitted with the others, on every surrogate"""
    name = "EqGPT reward of %s on %d surrogates" % (" ".join(words), nets)

    def f(sub, proj=None, mod=GPT):
        R = Runner(sub, proj)
        ev = R.ev
        ft = fits.install(ev)
        finite.install(ev)
        n = 3
        seen = {}

        def cell(w, k):
            key = "%s on surrogate %d" % (w, k + 1)
            return seen.setdefault(key, samples(key, n))

        def mono(m, k):
            out = [P(1)] * n
            for w, up in m:
                c = cell(w, k)
                out = [x * y if up else x / y for x, y in zip(out, c)]
            return out
        for k in range(nets):
            for j, m in enumerate(monomials):
                ft.named["term%d of surrogate %d" % (j + 1, k + 1)] = mono(m, k)

        def th():
            ft.reset()
            ct = ev.module(mod)
            w2i = ct["word2id"]

            def terms(ev_, a, k, nd):
                net = a[1]
                if low(ev.getattr(a[2], "k")) != low(ev.getattr(net, "k")):
                    raise PyRaise("_pairing", nd)
                kk = int(low(ev.getattr(net, "k")))
                if [low(x) for x in a[4:6]] != [10 + kk, 20 + kk]:
                    raise PyRaise("_pairing", nd)
                return fits.vec(ev, cell(a[0], kk), True)
            if "calculate_terms" not in ct:
                raise Unmodelled("no calculate_terms")
            ct["calculate_terms"] = Native(terms)
            H = ev.handlers
            H["pandas.DataFrame"] = lambda ev_, a, k, nd: stub({"isin": Native(lambda *z: Unk("rows"))}, "DataFrame")
            H["numpy.delete"] = lambda ev_, a, k, nd: a[0]
            H["numpy.isnan"] = lambda ev_, a, k, nd: [False]
            ids = [w2i[w] for w in words]
            objs = [stub({"k": k}, "Net") for k in range(nets)]
            dbs = [stub({"k": k}, "Database") for k in range(nets)]
            return ev.call(ct["calculate_reward"], [ids, objs, dbs, {}, {}, ["t", "x"], [10 + k for k in range(nets)], [20 + k for k in range(nets)]])
        for kind, v, taken in R.paths(name, th):
            if kind == "raise":
                sub.find("misplaced", "reward raises", "%s: %s %s" % (name, v, v.msg or ""), where(v))
                continue
            r = v[0] if isinstance(v, tuple) and v else v
            sub.count("sentences_judged")
            if not is_number(r):
                R.undecided(name, "the reward is %r" % (r,))
                continue
            plain, weight = P(0), P(0)
            for k in range(nets):
                nm = ["term%d of surrogate %d" % (j + 1, k + 1) for j in range(len(monomials))]
                cols = [ft.named[x] for x in nm]
                lhs = [P(0) - x for x in cols[0]]
                rhs = [sum((P(0) - ft.coef(a, nm[1:], nm[0]) * c[i] for a, c in zip(nm[1:], cols[1:])), P(0)) for i in range(n)]
                mean = sum(lhs, P(0)) * F(1, n)
                r2 = P(1) - sum(((a - b) * (a - b) for a, b in zip(lhs, rhs)), P(0)) / sum(((a - mean) * (a - mean) for a in lhs), P(0))
                plain = plain + r2 * F(1, nets)
            # the weight of the length is a matter of tuning
            weight = plain * fn("log10", P(len(monomials)))
            wants = [plain - weight * F(str(c)) for c in (0.02, 0.01, 0.03, 0.05, 0.07, 0.1, 0.2, 0.3, 0)]
            judged(R, name, "reward of a sentence", [P(low(r))], [next((w for w in wants if P(low(r)) == w), wants[0])], sub)
    return (name, f)


def tasks(thorough):
    T = [stridge(1, 2, 2), stridge(2, 1, 2), stridge(2, 2, 2), stridge(2, 2, 0), stridge(3, 2, 2), stridge(2, 3, 1)]
    T += [trained(2, 2, 1), trained(3, 3, 1), trained(2, 4, "0.5"), trained(1, 2, 1)]
    c = {"pA": "0.5", "pB": "-1.25", "qC": "2.75", "qD": "-3", "qE": "1", "qF": "0.0000001"}
    for what in ("text", "details", "TeX"):
        for defaults, terms, zero in ((["pA", "pB"], ["qC", "qD"], []), (["pA"], ["qC", "qD"], ["qC"]), (["pB", "pA"], ["qE", "qD", "qC"], ["qD"]),
                                      (["pA"], ["qF", "qD"], []), (["pA", "pB"], ["qC", "qD", "qE"], ["qC", "qD"]), (["qF", "pB"], ["qC"], []),
                                      ([], ["qD", "qE"], ["qD"]) if thorough else (["pB"], ["qE"], [])):
            T.append(equation(defaults, terms, zero, c, what))
    for ch in ([[0]], [[0], [1]], [[0, 1], [2]], [[1, 1], [3]]):
        T.append(chromosome(ch))
    for how in ("text", "TeX"):
        for ch, co in (([[0]], ["-0.5"]), ([[0, 1], [2]], ["-1.5", "0.25"]), ([[3], [0, 0], [1]], ["2", "-3.125", "0.75"]),
                       ([[2], [0, 1]], ["0.1234", "-0.0025"]), ([[1, 1, 0], [0]], ["4", "-1"])):
            T.append(chromtext(ch, co, how))
    for d in (1, 2, 3):
        for const in (False, True):
            T.append(calculated(d, const))
            T.append(progtext(d, const))
        T += [residual(d, "list"), residual(d, "function")]
    T += [calculated(3, False, (1,)), calculated(3, True, (0,)), calculated(3, False, (0, 2))]
    one = lambda *ws: [(w, True) for w in ws]
    S = (["ut", "+", "ux", "E"], [one("ut"), one("ux")]), (["ut", "+", "u", "*", "ux", "+", "uxx", "E"], [one("ut"), one("u", "ux"), one("uxx")]), \
        (["ut", "+", "ux", "*", "ux", "+", "u", "E"], [one("ut"), one("ux", "ux"), one("u")]), \
        (["ut", "+", "uxx", "+", "u", "+", "uxx", "E"], [one("ut"), one("uxx"), one("u")])
    for k, (ws, ms) in enumerate(S):
        for nets in (1, 2) if thorough or k == 1 else (1,):
            T.append(rewarded(ws, ms, nets))
    if thorough:
        T += [stridge(4, 3, 2), stridge(3, 4, 2), trained(3, 6, 2), trained(2, 7, 1), calculated(4, True, (1, 2)), stridge(2, 2, 2, 1)]
    return T


def run(ctx):
    ctx.rule("the solution of a least squares problem is named by the vectors it fits and the target, and follows the scale of its columns; it is "
             "followed to the place where it is returned, scored or written, and must stand there with the vector it was fitted to")
    ctx.rule("SGA: whatever a threshold cuts, the kept coefficients are the fit of the kept terms alone, in units of the terms, the others are zero; of the "
             "weights tried, those with the smallest score are returned, with their own error, mean square and score; texts, details and TeX write every "
             "coefficient with its own term, whatever terms were dropped, and the predicted right-hand side is the sum of these terms")
    ctx.rule("DLGA: column k of the library is the product of the genes of module k; coefficients, error, fitness and name belong to one left-hand side, the "
             "one with the smaller error; text and TeX write coefficient k with module k")
    ctx.rule("DISCOVER: coefficient k is the fit of the term kept at place k (the constant last), also after terms or the constant are dropped; the prediction and "
             "the matrix returned are those of these terms; the text writes coefficient k with term k")
    ctx.rule("EqGPT: the reward of a sentence is the determination of its first term by its other terms, each the product it spells, on every surrogate with "
             "that surrogate's own data, averaged")
    ctx.assumptions += ["samples are generic: no two different values are equal, no two different terms are multiples of each other",
                        "a threshold that cuts every coefficient at once gives a probe which the score never prefers to the full fit",
                        "np.linalg.lstsq and svd do what they document"]
    T = tasks(ctx.thorough)
    run_scenarios(ctx, T)
    ctx.floor("regressions_judged", 40)
    ctx.floor("trainings_judged", 30)
    ctx.floor("equations_judged", 35)
    ctx.floor("chromosomes_judged", 8)
    ctx.floor("programs_judged", 12)
    ctx.floor("sentences_judged", 8)
    ctx.floor("residuals_judged", 6)
    ctx.floor("values_judged", 500)
    for n, _ in T[::5]:
        ctx.sample(n)
