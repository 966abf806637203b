"""C06: constructor parameters can be read back and set."""
import ast
from ..worlds import *
from ..values import *
from ..report import AnalysisBroken
from ..selftest import Overlay
from .c19 import literal

KINDS = ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD")


class Sig(Analysis):
    """models inspect.signature of shipped functions exactly; records explicit raises and missing attributes"""
    implicit_raise = False

    def __init__(self):
        self.n, self.problems, self.raises = 0, [], []

    def raw_attr(self, eng, a, name, st, node):
        if a.k == "ext" and name in KINDS and a.p in ("inspect.Parameter", "inspect._ParameterKind"):
            return C("kind:" + name)
        if a.k == "ext" and name == "empty" and a.p in ("inspect.Parameter", "inspect.Signature"):
            return EXT("inspect._empty")
        return None

    def inst(self, st, attrs, kind="inst", extra=()):
        self.n += 1
        o = HObj(kind, None, NOL)
        o.attrs = dict(attrs)
        oid = ("sig", self.n)
        st.new(oid, o)
        return mk("obj", oid)

    def ext_call(self, eng, name, args, kwargs, st, node):
        if name in ("inspect.signature", "inspect.Signature.from_callable", "inspect.getfullargspec") and args:
            fns = []
            for a in args[0]:
                if a.k == "bound":
                    if hasattr(a.p[1], "node"):
                        fns.append((a.p[1], 1))
                elif a.k == "fn":
                    fns.append((a.p, 0))
                elif a.k == "cls":
                    f = eng.find_method(a.p, "__init__", st)
                    if f is not None:
                        fns.append((f, 1))
            if len(fns) != 1 or len(args[0]) != 1:
                return None
            f, skip = fns[0]
            g = f.node.args
            if name.endswith("getfullargspec"):
                lst = lambda xs: self.lst(st, [C(x.arg) for x in xs])
                return self.inst(st, {"args": lst(g.posonlyargs + g.args), "kwonlyargs": lst(g.kwonlyargs),
                                      "varargs": C(g.vararg.arg) if g.vararg else NONE, "varkw": C(g.kwarg.arg) if g.kwarg else NONE})
            ps = {}
            seq = [(x, "POSITIONAL_ONLY") for x in g.posonlyargs] + [(x, "POSITIONAL_OR_KEYWORD") for x in g.args]
            seq = seq[skip:]
            if g.vararg:
                seq.append((g.vararg, "VAR_POSITIONAL"))
            seq += [(x, "KEYWORD_ONLY") for x in g.kwonlyargs]
            if g.kwarg:
                seq.append((g.kwarg, "VAR_KEYWORD"))
            for x, k in seq:
                at = {"name": C(x.arg), "kind": C("kind:" + k), "default": TOP(), "annotation": TOP()}
                at.update({q: C("kind:" + q) for q in KINDS})
                ps[x.arg] = self.inst(st, at)
            return self.inst(st, {"parameters": self.inst(st, ps, "dict")})
        return None

    def lst(self, st, elems):
        self.n += 1
        o = HObj("list", None, NOL)
        o.elems = list(elems)
        st.new(("sig", self.n), o)
        return mk("obj", ("sig", self.n))

    def missing_attr(self, eng, what, name, node, st):
        self.problems.append((what, name, eng.where(node)))
        raise PathDead()

    def raised(self, eng, exc, node, st):
        self.raises.append((describe(exc), eng.where(node)))


def init_params(w, cls):
    """[(name, kind, default value or None, annotation)] of the constructor"""
    for a in cls:
        if a.k != "cls":
            continue
        f = w.eng.find_method(a.p, "__init__", w.st)
        if f is not None:
            g = f.node.args
            out = []
            pos = (g.posonlyargs + g.args)[1:]
            d = [None] * (len(pos) - len(g.defaults)) + list(g.defaults)[-len(pos):] if pos else []
            for x, y in zip(pos, d):
                out.append((x.arg, "pos", y, x.annotation))
            for x, y in zip(g.kwonlyargs, g.kw_defaults):
                out.append((x.arg, "kw", y, x.annotation))
            return f, out, (g.vararg.arg if g.vararg else None), (g.kwarg.arg if g.kwarg else None)
    return None, None, None, None


def candidates(name, default, ann):
    """literals to construct with: the default first"""
    txt = ast.unparse(ann).lower() if ann is not None else ""
    try:
        d = ast.literal_eval(default) if default is not None else "required"
    except ValueError:
        d = "unknown"
    if d == "required" or d == "unknown":
        if "list" in txt or "operators" in name:
            return [["u", "u_x"], ["u"], []]
        if "float" in txt or name == "epi":
            return [0.375, 0.0, 1e6, -2.5]
        if "str" in txt:
            return ["zz", ""]
        if "dict" in txt:
            return [{"k": 1}]
        return [3, 0, 1000003, -1]
    if isinstance(d, bool):
        return [d, not d]
    if isinstance(d, int):
        return [d, 37, 0, 1000003, -1, None]
    if isinstance(d, float):
        return [d, 0.375, 0.0, 1e6, -2.5, None]
    if isinstance(d, str):
        return [d, "all", "zz", "", None]
    if isinstance(d, (list, tuple)):
        return [list(d), ["add", "n2"], ["add"], []]
    if isinstance(d, dict):
        return [d, {"k": 1}]
    if d is None:
        if "list" in txt:
            return [None, ["add"], ["add", "n2"], []]
        if "dict" in txt or "config" in name or "kwargs" in name:
            return [None, {"task": {"eq_num": 1}}, {}]
        if "int" in txt:
            return [None, 37, 0, 1000003]
        if "float" in txt:
            return [None, 0.375, 0.0, 1e6]
        return [None, "zz", "", 37, 0]
    return [d]


def absval(w, x, tag):
    if isinstance(x, list):
        return w.list([absval(w, y, tag) for y in x], None, tag)
    if isinstance(x, dict):
        return w.dict({k: absval(w, y, tag) for k, y in x.items()}, None, tag)
    return C(x)


def norm(x):
    return None if x in ({}, []) else x


class Cls:
    def __init__(self, ctx, an, w, name, cls):
        self.ctx, self.an, self.w, self.name, self.cls = ctx, an, w, name, cls
        self.fn, self.params, self.vararg, self.kwarg = init_params(w, cls)
        self.st0 = w.clean
        self.where = ""

    def find(self, rule, what, msg):
        self.ctx.find(rule, "%s|%s" % (self.name, what), "%s: %s" % (self.name, msg), self.where)

    def make(self, over, tag):
        """construct in a fresh copy of the state after importing the package"""
        self.w.st = self.st0.fork()
        kw = {}
        for n, k, d, ann in self.params:
            if n in over:
                kw[n] = over[n] if isinstance(over[n], frozenset) else absval(self.w, over[n], "arg")
            elif d is None:
                kw[n] = absval(self.w, candidates(n, d, ann)[0], "req")
        self.ctx.count("constructions")
        return self.w.call(self.cls, [], kw, tag)

    def attr(self, obj, n):
        """value of obj.n including class attributes and properties, or None"""
        k = len(self.an.problems)
        try:
            v = self.w.eng.getattr(obj, n, self.w.st, self.w.nd("read"))
        except PathDead:
            return None
        if len(self.an.problems) > k:
            return None
        if any(a.k in ("meth", "unbound") for a in v):
            return None
        return v

    def check(self, base):
        ctx, w = self.ctx, self.w
        if self.params is None:
            ctx.notes.append("%s: constructor not shipped" % self.name)
            return
        self.where = "%s:%d" % (w.eng.proj.mod(self.fn.mod).rel, self.fn.node.lineno)
        ctx.count("estimators")
        if self.vararg:
            self.find("positional-catch-all", "*" + self.vararg, "the constructor takes *%s, so its parameters cannot be listed" % self.vararg)
        if self.kwarg:
            self.find("keyword-catch-all", "**" + self.kwarg, "the constructor takes **%s; what is passed there is not a named parameter and cannot be read back" % self.kwarg)
        names = [p[0] for p in self.params]
        # (a) unknown values: the attribute is the parameter and nothing else
        m = self.make({n: mk("top", None, frozenset(["p:" + n])) for n, k, d, ann in self.params if self.scalar(n, d, ann)}, "sym")
        if m is not None:
            for n, k, d, ann in self.params:
                v = self.attr(m, n)
                ctx.count("parameters")
                if v is None:
                    self.find("parameter-not-stored", n, "parameter %s is not available as an attribute after construction" % n)
                    continue
                if self.scalar(n, d, ann):
                    got = {l[2:] for l in dep(labels(v)) if l.startswith("p:")}
                    if n not in got or got - {n}:
                        self.find("parameter-mixed-up", n, "attribute %s is computed from %s" % (n, sorted(got) or "nothing the caller gave"))
        # (b) known values: what is read back is what was given
        insts = []
        for n, k, d, ann in self.params:
            for i, c in enumerate(candidates(n, d, ann)):
                r = self.make({n: c}, "%s.%d" % (n, i))
                if r is None:
                    ctx.count("refused_values")
                    continue
                v = self.attr(r, n)
                if v is None:
                    continue
                insts.append(n)
                if base:
                    self.read_back(r, names, n, c)
                try:
                    got = literal(w, v)
                except ValueError:
                    ctx.count("values_not_constant")
                    continue
                ctx.count("values_read_back")
                if not same(got, c):
                    self.find("parameter-changed", n, "given %s=%r, the attribute is %r" % (n, c, got))
                if i == 0 and d is not None:
                    r0 = self.make({}, "dflt")
                    dv = self.attr(r0, n) if r0 else None
                    try:
                        if dv is not None and not same(literal(w, dv), c):
                            self.find("parameter-changed", n, "default %r, the attribute is %r" % (c, literal(w, dv)))
                    except ValueError:
                        pass
        self.together(names, base)
        if not base:
            return
        if insts:
            self.settable(insts, names)

    def together(self, names, base):
        """every parameter away from its default at once; clone from what is read back"""
        w, ctx = self.w, self.ctx
        for j in (1, 2):
            over = {}
            for n, k, d, ann in self.params:
                cs = [c for c in candidates(n, d, ann) if c is not None]
                if cs:
                    over[n] = cs[min(j, len(cs) - 1)]
            r = self.make(over, "all%d" % j)
            if r is None:
                ctx.count("refused_values")
                continue
            self.compare(r, over, "given together")
            if base:
                p = w.method(r, "get_params", [], {"deep": C(False)}, "cl")
                o = [w.st.get(a.p) for a in p or () if a.k == "obj"]
                if len(o) == 1 and o[0].kind == "dict" and o[0].complete and not o[0].summ:
                    q = w.call(self.cls, [], {k: v for k, v in o[0].attrs.items() if isinstance(k, str)}, "clone")
                    ctx.count("clones")
                    if q is None:
                        self.find("clone-fails", "clone", "constructing from the parameters read back raises")
                    else:
                        self.compare(q, over, "clone of")

    def compare(self, r, want, how):
        for n, c in want.items():
            v = self.attr(r, n)
            if v is None:
                continue
            try:
                if not same(literal(self.w, v), c):
                    self.find("parameter-changed", n, "%s %s=%r, the attribute is %r" % (how, n, c, literal(self.w, v)))
                self.ctx.count("values_read_back")
            except ValueError:
                pass

    def scalar(self, n, d, ann):
        c = candidates(n, d, ann)
        return not any(isinstance(x, (list, dict)) for x in c)

    def read_back(self, r, names, n, c):
        ctx, w = self.ctx, self.w
        st1 = w.st
        for deep in (C(False), C(True)):
            w.st = st1.fork()
            p = w.method(r, "get_params", [], {"deep": deep}, "gp")
            ctx.count("get_params_calls")
            if p is None:
                self.find("read-back-fails", "get_params", "get_params() raises")
                return
            for a in p:
                o = w.st.get(a.p) if a.k == "obj" else None
                if o is None or o.kind != "dict":
                    self.find("read-back-fails", "get_params", "get_params() returns %s" % describe(p))
                    return
                keys = {k for k in o.attrs if isinstance(k, str)}
                if o.summ or not o.complete:
                    ctx.count("get_params_not_exact")
                    continue
                for x in set(names) - keys:
                    self.find("read-back-fails", x, "get_params() does not report %s" % x)
                for x in keys - set(names):
                    if "__" not in x:
                        self.find("read-back-fails", x, "get_params() reports %s, which is not a constructor parameter" % x)
                if n in o.attrs:
                    try:
                        got = literal(w, frozenset(z for z in o.attrs[n] if z.k != "unbound"))
                        if not same(got, c):
                            self.find("read-back-fails", n, "given %s=%r, get_params() reports %r" % (n, c, got))
                        ctx.count("get_params_values")
                    except ValueError:
                        pass
        w.st = st1.fork()
        s = w.method(r, "__repr__", [], {}, "repr")
        w.st = st1
        ctx.count("repr_calls")
        if s is None:
            self.find("print-fails", "repr", "printing the estimator raises")
        elif NONE & s:
            self.find("print-fails", "repr", "printing the estimator gives no text")

    def others(self, r, n):
        """setting n left the other parameters at their defaults"""
        for m, k, d, ann in self.params:
            if m == n or d is None:
                continue
            v = self.attr(r, m)
            try:
                want = ast.literal_eval(d)
                if v is not None and not same(literal(self.w, v), want):
                    self.find("set-fails", m, "set_params(%s=...) changes %s" % (n, m))
            except ValueError:
                pass

    def settable(self, insts, names):
        ctx, w = self.ctx, self.w
        for n, k, d, ann in self.params:
            for c in candidates(n, d, ann):
                r = self.make({}, "set:" + n)
                if r is None:
                    continue
                val = absval(w, c, "sv")
                q = w.method(r, "set_params", [], {n: val}, "set")
                ctx.count("set_params_calls")
                if q is None:
                    self.find("set-fails", n, "set_params(%s=%r) raises" % (n, c))
                    continue
                if not ({(a.k, a.p) for a in q} & {(a.k, a.p) for a in r}):
                    self.find("set-fails", n, "set_params(%s=%r) does not return the estimator" % (n, c))
                v = self.attr(r, n)
                try:
                    if v is not None and same(literal(w, v), c):
                        self.others(r, n)
                    else:
                        self.find("set-fails", n, "after set_params(%s=%r) the attribute is %s" % (n, c, v and describe(v)))
                except ValueError:
                    pass
        # several at once: one changed among unchanged ones, first and last; all changed
        cur = {}
        for n, k, d, ann in self.params:
            cs = candidates(n, d, ann)
            cur[n] = (cs[0], next((c for c in cs[1:] if c is not None), cs[0]))
        plans = [{n: v[1] for n, v in cur.items()}]
        for n in cur:
            rest = {m: v[0] for m, v in cur.items() if m != n}
            plans.append({n: cur[n][1], **rest})
            plans.append({**rest, n: cur[n][1]})
        for i, plan in enumerate(plans):
            r = self.make({}, "many")
            if r is None:
                continue
            q = w.method(r, "set_params", [], {n: absval(w, c, "sv") for n, c in plan.items()}, "many")
            ctx.count("set_params_calls")
            if q is None:
                self.find("set-fails", "several", "set_params(%s) raises" % ", ".join(plan))
                break
            for n, c in plan.items():
                v = self.attr(r, n)
                try:
                    if v is None or not same(literal(w, v), c):
                        self.find("set-fails", n, "after set_params(%s) %s is %s" % (", ".join("%s=%r" % z for z in plan.items()), n, v and describe(v)))
                except ValueError:
                    ctx.count("values_not_constant")
        r = self.make({}, "bad")
        if r is not None:
            q = w.method(r, "set_params", [], {"no_such_parameter": C(1)}, "setbad")
            if q is not None:
                self.find("set-fails", "unknown", "set_params accepts a parameter that does not exist")


def same(got, c):
    if type(got) is not type(c) and not (norm(got) is None and norm(c) is None):
        if not (isinstance(got, (list, tuple)) and isinstance(c, (list, tuple)) and list(got) == list(c)):
            return False
        return True
    return got == c or (norm(got) is None and norm(c) is None)


SELF = """
from kd.base import BaseEstimator
class Renamed(BaseEstimator):
    def __init__(self, alpha=1, beta=2):
        self.alpha_value = alpha
        self.beta = beta
class Swapped(BaseEstimator):
    def __init__(self, alpha=1, beta=2):
        self.alpha = beta
        self.beta = beta
class Catch(BaseEstimator):
    def __init__(self, *args, **kw):
        pass
class Coerced(BaseEstimator):
    def __init__(self, alpha=None, beta=5):
        self.alpha = alpha
        self.beta = beta or 10
        if beta > 20:
            self.beta = 20
"""


def world(proj=None):
    an = Sig()
    w = World(an, proj)
    w.enter("kd")
    w.clean = w.st
    return an, w


def is_base(w, cls):
    for a in cls:
        if a.k == "cls" and any(k.qual.endswith(":BaseEstimator") or k.name == "BaseEstimator" for k in a.p.mro()):
            return True
    return False


RULES = [
    "the constructor has no catch-all arguments (positional-catch-all, keyword-catch-all)",
    "with unknown arguments, the attribute named like each parameter exists on every path and depends on that parameter only (parameter-not-stored, parameter-mixed-up)",
    "with literal arguments (default, other values, None) the attribute equals what was given (parameter-changed); empty and absent collections count as equal",
    "get_params, repr and set_params of the common base class, interpreted on each such instance, report exactly the constructor's parameters with these values, and setting takes effect and refuses unknown names (read-back-fails, print-fails, set-fails)",
]


def run(ctx):
    from ..worlds import PROJECT
    for r in RULES:
        ctx.rule(r)
    from ..report import Ctx
    an, w = world(Overlay(PROJECT(), "kdsa_self", SELF))
    c = Ctx("C06")
    for n in ("Renamed", "Swapped", "Catch", "Coerced"):
        Cls(c, an, w, n, w.get("kdsa_self", n)).check(True)
    rules = {f["rule"] + ":" + f["construct"].split("|")[0] for f in c.findings.values()}
    need = {"parameter-not-stored:Renamed", "parameter-mixed-up:Swapped", "positional-catch-all:Catch", "parameter-changed:Coerced", "read-back-fails:Renamed"}
    if not need <= rules:
        raise AnalysisBroken("self-test: %s did not fire" % sorted(need - rules))
    ctx.count("self_test_rules_fired", len(need))
    # the public estimators
    an, w = world()
    v = w.get("kd.model", "__all__")
    names = []
    try:
        names = literal(w, v)
    except ValueError:
        pass
    if len(names) < 5:
        raise AnalysisBroken("kd.model.__all__ is not a list of names")
    from .. import report
    tasks = [("estimator:" + n, lambda sub, n=n: one(sub, n)) for n in names]
    report.run_scenarios(ctx, tasks)
    ctx.floor("estimators", 6)
    ctx.floor("parameters", 30)
    ctx.floor("get_params_values", 20)


def one(sub, n):
    an, w = world()
    cls = w.get("kd.model", n)
    c = Cls(sub, an, w, n, cls)
    if not any(a.k == "cls" for a in cls):
        raise AnalysisBroken("kd.model.%s is not a class" % n)
    c.check(is_base(w, cls))
    sub.seen |= w.eng.funcs_seen
