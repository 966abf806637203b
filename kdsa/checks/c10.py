"""C10: the plotting facade answers every request."""
import ast
from ..values import *
from ..worlds import PROJECT
from ..interp import PathDead
from ..plots import *
from ..report import AnalysisBroken, run_scenarios, drive
from ..selftest import Overlay

CLIENT = '''
import kd.viz as viz
from kdsa_probe import probe

class Target:
    pass

class Unregistered:
    pass

class Recorder:
    capabilities = %r

    def render(self, request, ctx):
        probe(request.kind, request.target, request.options, ctx.options)
        return viz.core.VizResult(intent=request.kind, paths=["x"])

def install():
    viz.register_adapter(Target, Recorder())
'''
FUNCS = ["plot_training_curve", "plot_validation_curve", "plot_search_evolution", "plot_optimization", "plot_time_slices", "render_equation",
         "plot_residuals", "plot_field_comparison", "plot_derivative_relationships", "plot_parity"]


class An(PlotAn):
    def __init__(self):
        super().__init__()
        self.out = []
        self.probes = []
        self.missing = []

    def escaped(self, eng, exc, node, st):
        self.out.append((describe(exc), eng.where(node)))

    def ext_call(self, eng, name, args, kwargs, st, node):
        if name == "kdsa_probe.probe":
            self.probes.append((args, st.fork()))
            return NONE
        return super().ext_call(eng, name, args, kwargs, st, node)

    used = False
    attr_fails = True

    def raw_attr(self, eng, a, name, node, st):
        if self.used and a.k == "cls":
            # class-level state a fitted model shares (set during its run)
            v = eng.find_class_attr(a.p, name, st)
            if v is not None and any(x.k == "const" and x.p[1] is None for x in v):
                return v | TOP()
        if a.k == "const" and a.p[1] is None and not hasattr(None, name):
            self.missing.append(("None has no attribute %s" % name, eng.where(node)))
            eng.do_raise(EXT("builtins.AttributeError"), node, st)
            return EMPTY
        return None

    def missing_attr(self, eng, what, name, node, st):
        self.missing.append(("%s has no attribute %s" % (what, name), eng.where(node)))


def public_functions(proj):
    """plotting functions the package offers: functions of kd.viz named plot_* or render_* that come from its facade"""
    w = session(An())
    v = w.get("kd.viz", "__all__")
    names = []
    for a in v:
        for e in w.eng.exact_atom(a, w.st) or []:
            n = const1(e)
            if isinstance(n, str) and (n.startswith("plot_") or n.startswith("render_")):
                f = w.get("kd.viz", n)
                if any(x.k == "fn" for x in f):
                    names.append(n)
    return names


def fkw(w, f):
    """keyword arguments for a facade function, each carrying its own name as a label"""
    for a in f:
        if a.k == "fn":
            g = a.p.node.args
            pos = [x.arg for x in g.posonlyargs + g.args]
            kw = [x.arg for x in g.kwonlyargs] + pos[1:]
            vals = arrays(0)
            out = {}
            for k in kw:
                if k == "show_info":
                    continue
                out[k] = vals.get(k, TOP(frozenset(["o:" + k])))
                out[k] = relabel(out[k], frozenset(["o:" + k]))
            if g.kwarg:
                out["output_dir"] = C(OUT, frozenset(["o:output_dir"]))
                out["some_option"] = TOP(frozenset(["o:some_option"]))
            return out
    return {}


def norm(n):
    for p in ("plot_", "render_"):
        if n.startswith(p):
            n = n[len(p):]
    return n.rstrip("s")


def result_rules(sub, w, an, r, kind, what, need, where):
    """need: 'warning' (must warn, never claim content), 'any' (content or a warning), 'content' (some path gives content)"""
    if r is None:
        sub.find("no-answer", what, "%s never returns%s" % (what, "; " + "; ".join(m for m, _ in an.missing[:3]) if an.missing else ""), where)
        return
    for exc, wh in an.out:
        sub.find("exception", what, "%s can end with an exception (%s)" % (what, exc), wh)
    can = False
    for o, a in results(w, r):
        if o is None or o.cls is None or "intent" not in o.attrs:
            sub.find("no-result", what, "%s does not return a plot result on every path (%s)" % (what, describe(frozenset([a]))), where)
            continue
        sub.count("results")
        it = consts(o.attrs["intent"])
        if it is None or set(it) != {kind}:
            sub.find("intent", what, "%s returns a result named %s instead of %r" % (what, describe(o.attrs["intent"]), kind), where)
        pm, pM = nonempty(w, o.attrs.get("paths", EMPTY))
        fig = o.attrs.get("figure", NONE)
        fm = any(x != y for x in fig for y in NONE)
        wm, wM = nonempty(w, o.attrs.get("warnings", EMPTY))
        can |= pm or fm
        if need == "warning":
            if not wM:
                sub.find("no-warning", what, "%s can return a result without a warning although the request is not supported" % what, where)
            if pm or fm:
                sub.find("unadvertised", what, "%s produces a plot although the adapter does not advertise it" % what, where)
        elif not (pM or wM or (fm and NONE.isdisjoint(fig))):
            sub.find("empty-result", what, "%s can return a result with neither a plot nor a warning" % what, where)
    if need == "content" and not can:
        sub.find("unimplemented", what, "%s is advertised but no path of its handler produces a plot" % what, where)


def kinds_of(w, m, tag):
    r = w.call(w.get("kd.viz", "list_capabilities"), [m], {}, "caps" + tag)
    out = set()
    for a in r or ():
        for e in w.eng.exact_atom(a, w.st) or []:
            cs = consts(e)
            if cs is None:
                raise AnalysisBroken("capabilities of %s are not constant" % tag)
            out |= set(cs)
    return out


def universe(proj):
    """every string an adapter module or the facade could use as the name of a plot"""
    out = set()
    for mn in sorted(proj.index):
        if mn == "kd.viz" or mn.startswith("kd.viz."):
            t = proj.mod(mn).tree
            for n in ast.walk(t):
                if isinstance(n, ast.Dict):
                    out |= {k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)}
                elif isinstance(n, ast.Compare):
                    out |= {c.value for c in [n.left] + n.comparators if isinstance(c, ast.Constant) and isinstance(c.value, str)}
                elif isinstance(n, ast.Call):
                    out |= {c.value for c in n.args[:1] if isinstance(c, ast.Constant) and isinstance(c.value, str)}
                elif isinstance(n, ast.keyword) and n.arg in ("kind", "intent") and isinstance(n.value, ast.Constant):
                    out.add(n.value.value)
    return {x for x in out if isinstance(x, str) and x.replace("_", "").isalnum() and x == x.lower() and len(x) < 40}


def setup(name, proj=None, cls=None):
    an = (cls or An)()
    w = session(an, proj)
    an.implicit_raise = False
    if name in ("none", "object"):
        m = NONE if name == "none" else w.call(w.get("kdsa_client", "Unregistered"), [], {}, "unreg")
    else:
        m = make_model(w, name)
        if m is None:
            raise AnalysisBroken("model %s cannot be built" % name)
        w.call(w.get("kd.viz.registry", "get_adapter"), [m], {}, "resolve")
    caps = kinds_of(w, m, name)
    an.implicit_raise = True
    an.out, an.missing = [], []
    return an, w, m, caps


def request(w, an, m, kind, extra, tag):
    an.out, an.missing, an.writes = [], [], []
    w.eng.memo.clear()
    req = w.call(w.get("kd.viz.core", "VizRequest"), [], {"kind": C(kind), "target": m, "options": extra}, "req" + tag)
    return w.call(w.get("kd.viz.core", "render"), [req], {}, "render" + tag)


def where_of(w, name):
    return "kd/viz (target %s)" % name


def facade(sub, proj, kinds):
    """arguments reach the adapter under their own names, one kind per function"""
    an = An()
    names = public_functions(proj)
    ov = Overlay(proj, "kdsa_client", CLIENT % (sorted(kinds),))
    w = session(an, ov)
    w.call(w.get("kdsa_client", "install"), [], {}, "install")
    m = w.call(w.get("kdsa_client", "Target"), [], {}, "target")
    base = w.st
    seen = {}
    for n in names:
        w.st = base.fork()
        w.eng.memo.clear()
        an.probes, an.out, an.missing = [], [], []
        f = w.get("kd.viz", n)
        kw = fkw(w, f)
        r = w.call(f, [m], kw, "api." + n)
        sub.count("facade_functions")
        if r is None or not an.probes:
            sub.find("facade", n, "kd.viz.%s never reaches the adapter of its target" % n)
            continue
        for args, st in an.probes:
            ks = consts(args[0])
            if ks is None or len(set(ks)) != 1:
                sub.find("facade-kind", n, "kd.viz.%s requests no single kind of plot (%s)" % (n, describe(args[0])))
                continue
            kind = ks[0]
            seen.setdefault(kind, set()).add(n)
            own = [k for k in kinds if norm(k) == norm(n)]
            if own and kind not in own:
                sub.find("facade-kind", n, "kd.viz.%s requests a %r plot" % (n, kind))
            if args[1] != m:
                sub.find("facade-target", n, "kd.viz.%s hands the adapter another target" % n)
            for k, v in kw.items():
                for which in (2, 3):
                    got = EMPTY
                    for a in args[which]:
                        o = st.get(a.p) if a.k == "obj" else None
                        if o is not None and o.kind == "dict":
                            got = got | o.attrs.get(k, EMPTY)
                    sub.count("facade_arguments")
                    if "o:" + k not in labels(got) or any(l.startswith("o:") and l != "o:" + k for l in labels(got)):
                        sub.find("facade-argument", "%s %s" % (n, k), "argument %s of kd.viz.%s does not reach the adapter as option %r" % (k, n, k))
        result_rules(sub, w, an, r, sorted(ks)[0] if ks else None, "kd.viz.%s on a supporting model" % n, "any", "kd/viz")
    for k, ns in seen.items():
        if len(ns) > 1:
            sub.find("facade-kind", k, "kd.viz functions %s all request %r plots" % (", ".join(sorted(ns)), k))


def target_task(name, proj, kinds, uni, capmap):
    def task(sub):
        ov = Overlay(proj, "kdsa_client", CLIENT % (sorted(kinds),))
        an, w, m, caps = setup(name, ov)
        sub.facts["caps"] = sorted(caps)
        base = w.st
        mine = base.fork()
        # through the public functions, whatever the target
        for n in public_functions(proj):
            w.st = base.fork()
            w.eng.memo.clear()
            an.out, an.missing = [], []
            f = w.get("kd.viz", n)
            r = w.call(f, [m], fkw(w, f), "api." + n)
            kind = capmap[n]
            if kind in caps:
                an.out = []         # arbitrary data may be refused by the computation itself
            sub.count("requests")
            result_rules(sub, w, an, r, kind, "%s on %s" % (n, name), "any" if kind in caps else "warning", where_of(w, name))
        # a fresh model of a supporting class, then one with unknown state
        for state in ("fresh", "used"):
            for k in sorted(caps):
                w.st = base.fork()
                an.open_objs = frozenset(a.p for a in m if a.k == "obj") if state == "used" else frozenset()
                an.used = state == "used"
                r = request(w, an, m, k, options(w, {"output_dir": C(OUT)}, rest=state == "used", tag="opt" + k + state), k + state)
                sub.count("requests")
                if state == "used":
                    an.out = []
                result_rules(sub, w, an, r, k, "a %s request on a %s %s" % (k, state, name), "any" if state == "fresh" else "content", where_of(w, name))
        an.open_objs, an.used = frozenset(), False
        # every other name
        for k in sorted(uni | kinds | {"no_such_plot"}):
            if k in caps:
                continue
            w.st = base.fork()
            r = request(w, an, m, k, options(w, {"output_dir": C(OUT)}, rest=False, tag="optx" + k), "x" + k)
            sub.count("requests")
            result_rules(sub, w, an, r, k, "an unsupported %s request on %s" % (k, name), "warning", where_of(w, name))
        # what an adapter does for names it does not advertise
        if caps:
            w.st = base.fork()
            ad = w.call(w.get("kd.viz.registry", "get_adapter"), [m], {}, "ad")
            ad = frozenset(x for x in ad if x.k == "obj")
            cfg = w.call(w.get("kd.viz._style", "get_config"), [], {}, "cfg")
            b2 = w.st
            an.open_objs = frozenset(a.p for a in m if a.k == "obj")
            for k in sorted(uni | kinds):
                if k in caps:
                    continue
                w.st = b2.fork()
                w.eng.memo.clear()
                an.out, an.missing = [], []
                o = options(w, {"output_dir": C(OUT)}, rest=True, tag="opty" + k)
                req = w.call(w.get("kd.viz.core", "VizRequest"), [], {"kind": C(k), "target": m, "options": o}, "reqy" + k)
                ctx = w.call(w.get("kd.viz.core", "VizContext"), [], {"config": cfg, "backend": C("agg"), "options": o}, "ctxy" + k)
                r = w.method(ad, "render", [req, ctx], {}, "rendery" + k)
                sub.count("requests")
                result_rules(sub, w, an, r, k, "the adapter of %s asked for %s" % (name, k), "warning", where_of(w, name))
        sub.seen |= w.eng.funcs_seen
        sub.sites |= w.eng.sites
        sub.count("call_evaluations", w.eng.ncalls)
    return task


def kinds_by_function(proj):
    """function -> kind it requests, from the answer to a target without adapter"""
    out = {}
    an = An()
    w = session(an, Overlay(proj, "kdsa_client", CLIENT % ([],)))
    m = w.call(w.get("kdsa_client", "Unregistered"), [], {}, "unreg")
    base = w.st
    for n in public_functions(proj):
        w.st = base.fork()
        r = w.call(w.get("kd.viz", n), [m], fkw(w, w.get("kd.viz", n)), "k." + n)
        ks = set()
        for o, a in results(w, r or EMPTY):
            if o is not None and "intent" in o.attrs:
                ks |= set(consts(o.attrs["intent"]) or [])
        out[n] = sorted(ks)[0] if len(ks) == 1 else None
    return out


def run(ctx):
    ctx.rule("every plotting function and every plot name is requested abstractly of every estimator (fresh, and with arbitrary state), None and a foreign object: "
             "no path ends with an exception for a fresh or unsupported target, every path returns a result whose name is the requested plot, an unsupported request "
             "always carries a warning and no plot, a supported one a plot or a warning")
    ctx.rule("capabilities of an adapter = the plot names for which some path of it produces a plot")
    ctx.rule("every argument of a plotting function reaches the adapter as the option of that name; no two functions request the same plot")
    proj = PROJECT()
    selftest()
    capmap = kinds_by_function(proj)
    for n, k in capmap.items():
        if k is None:
            ctx.find("facade-kind", n, "kd.viz.%s does not answer a target without adapter with a result for one kind of plot" % n)
    names = MODELS + ["none", "object"]
    kinds = {k for k in capmap.values() if k}
    for nm in MODELS:
        an, w, m, caps = setup(nm)
        kinds |= caps
    uni = universe(proj)
    tasks = [(nm, target_task(nm, proj, kinds, uni, capmap)) for nm in names]
    tasks.append(("facade", lambda sub: facade(sub, proj, kinds)))
    facts = run_scenarios(ctx, tasks)
    ctx.counts["plot_names"] = len(kinds)
    caps = {nm: (f or {}).get("caps", []) for nm, f in zip(names, facts)}
    ctx.notes.append("advertised plots: %s" % caps)
    if ctx.failed:
        raise AnalysisBroken("; ".join(ctx.failed))
    if sum(1 for c in caps.values() if c) < 4:
        ctx.find("registry", "models", "fewer than four estimators have an adapter: %s" % {k: len(v) for k, v in caps.items()})
    ctx.floor("requests", 200)
    ctx.floor("results", 200)
    ctx.floor("facade_functions", 8)
    ctx.floor("facade_arguments", 20)


SELF = '''
import kd.viz as viz
from kd.viz.core import VizResult

class Target:
    data = None

class Bad:
    capabilities = ["raises", "none", "wrong", "silent", "fine", "stub", "lookup"]

    def render(self, request, ctx):
        k = request.kind
        t = request.target
        if k == "raises":
            raise ValueError("no")
        if k == "none":
            return None
        if k == "wrong":
            return VizResult(intent="other", warnings=["x"])
        if k == "silent":
            return VizResult(intent=k)
        if k == "fine":
            return VizResult(intent=k, paths=["a"])
        if k == "stub":
            return VizResult(intent=k, warnings=["later"])
        if k == "lookup":
            return VizResult(intent=k, paths=[t.data.shape])
        if k == "hidden":
            return VizResult(intent=k, paths=["b"])
        return VizResult(intent=k, warnings=["unsupported"])

def install():
    viz.register_adapter(Target, Bad())
'''


def selftest():
    from ..report import Ctx
    sub = Ctx("C10")
    an = An()
    w = session(an, Overlay(PROJECT(), "kdsa_client", SELF))
    w.call(w.get("kdsa_client", "install"), [], {}, "install")
    m = w.call(w.get("kdsa_client", "Target"), [], {}, "target")
    base = w.st
    ad = w.call(w.get("kd.viz.registry", "get_adapter"), [m], {}, "ad")
    for k in ("raises", "none", "wrong", "silent", "fine", "stub", "lookup", "hidden"):
        w.st = base.fork()
        an.out, an.missing = [], []
        w.eng.memo.clear()
        o = options(w, {}, rest=False, tag="o" + k)
        req = w.call(w.get("kd.viz.core", "VizRequest"), [], {"kind": C(k), "target": m, "options": o}, "q" + k)
        cfg = w.call(w.get("kd.viz._style", "get_config"), [], {}, "c" + k)
        ctx = w.call(w.get("kd.viz.core", "VizContext"), [], {"config": cfg, "backend": C("agg"), "options": o}, "x" + k)
        r = w.method(ad, "render", [req, ctx], {}, "r" + k)
        result_rules(sub, w, an, r, k, k, "warning" if k == "hidden" else "content" if k == "stub" else "any", "")
    need = {"no-answer|raises", "no-result|none", "intent|wrong", "empty-result|silent", "unimplemented|stub", "no-answer|lookup", "no-warning|hidden", "unadvertised|hidden"}
    got = set(sub.findings)
    if need != got:
        raise AnalysisBroken("C10 self-test: missed %s, extra %s" % (sorted(need - got), sorted(got - need)))
