"""C15: every figure a plotting call opens is closed or handed back."""
import ast
from ..values import *
from ..worlds import PROJECT
from ..plots import *
from .c10 import An, setup as model_setup
from ..report import AnalysisBroken, run_scenarios, Ctx
from ..selftest import Overlay

CLIENT = '''
from kdsa_probe import failed, done

def attempt(f, args, kwargs):
    try:
        r = f(*args, **kwargs)
    except BaseException:
        failed()
        return None
    done(r)
    return r

def attempt_render(request):
    import kd.viz.core as core
    try:
        r = core.render(request)
    except BaseException:
        failed()
        return None
    done(r)
    return r
'''
# modules whose public functions are plotting calls of their own
PLACES = ("kd.viz", "kd.dataset", "kd.data", "kd.runner", "app", "kd.model.sga.sgapde.visualizer", "kd.model.discover.plotter", "kd.model.discover.searcher")


class FigAn(An):
    def __init__(self):
        super().__init__()
        self.leaks = []
        self.ends = 0
        self.fails = 0

    def open_figs(self, st):
        return {t for t in st.may if t[0] == "fig"}

    def ext_call(self, eng, name, args, kwargs, st, node):
        if name == "kdsa_probe.failed":
            self.fails += 1
            for t in self.open_figs(st):
                self.leaks.append(("after a failure", t[2]))
            return NONE
        if name == "kdsa_probe.done":
            self.ends += 1
            back = set()
            for v in args:
                back |= figures_in(self.w, v)
            for t in self.open_figs(st):
                if figkey(t) not in back:
                    self.leaks.append(("on return", t[2]))
            return NONE
        if name == "tempfile.TemporaryDirectory":
            return C("/kd-temporary")
        return super().ext_call(eng, name, args, kwargs, st, node)


def opens(node):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("figure", "subplots", "gcf", "subplot_mosaic") for n in ast.walk(node))


def in_places(m):
    return any(m == p or m.startswith(p + ".") for p in PLACES) or (m.startswith("kd.model.kd_"))


def entries(proj):
    """(module, class or None, function node) of the public functions and methods that are plotting calls: they open a figure
    or are named after one, and live in the plotting modules, the estimators, the datasets, the runner or the web app"""
    out = []
    for mn in sorted(proj.index):
        if not in_places(mn):
            continue
        for n in proj.mod(mn).tree.body:
            if isinstance(n, ast.FunctionDef):
                fs = [(None, n)]
            elif isinstance(n, ast.ClassDef) and not n.name.startswith("_"):
                fs = [(n, x) for x in n.body if isinstance(x, ast.FunctionDef)]
            else:
                continue
            for c, f in fs:
                nm = f.name
                if nm.startswith("_") and not (mn == "app" and opens(f)):
                    continue
                plotty = any(p in nm for p in ("plot", "render", "draw", "viz", "figure"))
                if opens(f) or plotty:
                    out.append((mn, c.name if c else None, f))
    return out


def arguments(w, f, method):
    """an argument tuple/dict for a function: unknown values, every flag both ways, an output directory or none"""
    a = f.args
    names = [x.arg for x in a.posonlyargs + a.args][1 if method else 0:]
    kw = [x.arg for x in a.kwonlyargs]
    out = {}
    for n in names + kw:
        out[n] = C(OUT) | NONE if n in ("output_dir", "output_path", "save_path") else C("density") | C("evolution") | C("tree") if n == "fig_type" else TOP()
    return names, kw, out


def entry_task(proj, mn, cn, f):
    what = "%s%s.%s" % (mn, "." + cn if cn else "", f.name)

    def task(sub):
        an = FigAn()
        w = session(an, Overlay(proj, "kdsa_client", CLIENT))
        an.w = w
        an.used = True
        an.implicit_raise = False
        target = w.get(mn, cn) if cn else w.get(mn, f.name)
        names, kw, vals = arguments(w, f, cn is not None)
        args = [vals[n] for n in names]
        if cn:
            (c,) = [a for a in target if a.k == "cls"] or [None]
            if c is None:
                return
            inst = instance(w, c, mn, cn)
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list)
            target = w.eng.getattr(inst, f.name, w.st, f) if not static else w.eng.find_class_attr(c.p, f.name, w.st)
            an.open_objs = frozenset(a.p for a in inst if a.k == "obj")
        an.implicit_raise = True
        base = w.st
        w.eng.memo.clear()
        w.call(w.get("kdsa_client", "attempt"), [target, TUP(args), w.dict({k: vals[k] for k in kw}, tag="kw")], {}, "entry")
        sub.count("plotting_functions")
        sub.count("figures_opened", an.made)
        sub.count("figures_closed", an.closed)
        for how, site in an.leaks:
            if how == "on return":
                sub.find("figure-left-open", "%s|%s" % (what, site.split(" in ")[-1]), "%s can return with the figure opened at %s still open and not handed back" % (what, site), site)
        if not an.ends and opens(f):
            sub.notes.append("%s: no path returns under the abstract arguments" % what)
        collect(sub, w)
    return task


def instance(w, c, mn, cn):
    """an object of the class in unknown state"""
    from ..interp import HObj
    o = HObj("inst", c.p)
    oid = ("kdsa-self", mn, cn)
    if cn == "Searcher":
        pl = w.get("kd.model.discover.plotter", "Plotter")
        for a in pl:
            if a.k == "cls":
                o.attrs["plotter"] = w.call(pl, [], {}, "plotter")
    w.st.new(oid, o)
    return mk("obj", oid)


def collect(sub, w):
    sub.seen |= w.eng.funcs_seen
    sub.sites |= w.eng.sites
    sub.count("call_evaluations", w.eng.ncalls)


def facade_task(name, proj):
    def task(sub):
        an, w, m, caps = model_setup(name, Overlay(proj, "kdsa_client", CLIENT), FigAn)
        an.w = w
        base = w.st
        an.open_objs = frozenset(a.p for a in m if a.k == "obj")
        an.used = True
        for k in sorted(caps):
            for before in (False, True):
                w.st = base.fork()
                w.eng.memo.clear()
                an.leaks, an.ends = [], 0
                mine = set()
                if before:      # the user already has a figure of their own
                    an.open_fig(w.eng, w.st, w.eng.proj.mod("kdsa_client").tree)
                    mine = an.open_figs(w.st)
                req = w.call(w.get("kd.viz.core", "VizRequest"), [], {"kind": C(k), "target": m, "options": options(w, {"output_dir": C(OUT)}, tag="o" + k)}, "q" + k)
                w.call(w.get("kdsa_client", "attempt_render"), [req], {}, "r" + k)
                sub.count("facade_requests")
                sites = {t[2] for t in mine}
                for how, site in an.leaks:
                    if site in sites:
                        continue
                    sub.find("figure-left-open", "%s plot of %s %s|%s" % (k, name, how, site.split(" in ")[-1]),
                             "a %s plot of %s leaves the figure opened at %s open %s" % (k, name, site, how), site)
                if mine and mine - an.open_figs(w.st):
                    sub.find("foreign-figure-closed", "%s plot of %s" % (k, name), "a %s plot of %s closes a figure that was open before the call" % (k, name))
                if not an.ends:
                    sub.find("no-return", "%s plot of %s" % (k, name), "a %s plot of %s never returns" % (k, name))
        sub.count("figures_opened", an.made)
        sub.count("figures_closed", an.closed)
        sub.count("failure_paths", an.fails)
        collect(sub, w)
    return task


def run(ctx):
    ctx.rule("typestate of figures: opened by figure/subplots/gcf or implicitly by a pyplot drawing function, released by close, handed back inside the returned value; "
             "on every abstract path on which a plotting call returns (its own handlers entered from every statement of the try body, callees included), no figure is open "
             "that was not handed back; a facade call releases them on the paths that end in an exception too, and never closes a figure that was open before")
    ctx.assumptions.append("close itself, imports and statements that only close do not fail")
    proj = PROJECT()
    selftest(ctx)
    tasks = [("facade " + n, facade_task(n, proj)) for n in MODELS]
    for mn, cn, f in entries(proj):
        tasks.append(("%s.%s.%s" % (mn, cn, f.name), entry_task(proj, mn, cn, f)))
    run_scenarios(ctx, tasks)
    if ctx.failed:
        raise AnalysisBroken("; ".join(ctx.failed))
    ctx.floor("facade_requests", 40)
    ctx.floor("plotting_functions", 25)
    ctx.floor("figures_opened", 60)
    ctx.floor("figures_closed", 60)


SELF = '''
import matplotlib.pyplot as plt

def plot_ok(data, output_dir=None):
    fig, ax = plt.subplots()
    ax.plot(data)
    fig.savefig(output_dir)
    plt.close(fig)

def plot_back(data):
    fig = plt.figure()
    return {"figure": fig}

def plot_leak(data):
    plt.figure()
    plt.plot(data)
    plt.show()

def plot_early(data):
    fig, ax = plt.subplots()
    if data is None:
        return None
    ax.plot(data)
    plt.close(fig)

def plot_swallow(data):
    fig, ax = plt.subplots()
    try:
        draw_it(ax, data)
        plt.close(fig)
    except ValueError:
        print("no")

def draw_it(ax, data):
    ax.plot(data)

def plot_finally(data):
    fig, ax = plt.subplots()
    try:
        ax.plot(data)
        if data is None:
            return 1
    finally:
        plt.close(fig)

def plot_implicit(data):
    plt.plot(data)

def plot_optional(data):
    fig = None
    try:
        fig = plt.figure()
        fig.savefig("x")
    except Exception:
        pass
    finally:
        if fig is not None:
            plt.close(fig)

def plot_two(data):
    for i in range(3):
        fig = plt.figure()
        plt.plot(data)
    plt.close(fig)

def plot_reraise(data):
    before = set(plt.get_fignums())
    try:
        fig = plt.figure()
        draw_it(fig, data)
    except BaseException:
        for n in plt.get_fignums():
            if n not in before:
                plt.close(n)
        raise
    return fig
'''


def selftest(ctx):
    sub = Ctx("C15")
    sub.seen, sub.sites = set(), set()
    ov = Overlay(PROJECT(), "kd.viz.selfplots", SELF)
    for n in ov.mod("kd.viz.selfplots").tree.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith("plot"):
            entry_task(ov, "kd.viz.selfplots", None, n)(sub)
    got = {k.split("|")[1].rsplit(".", 1)[-1] for k in sub.findings}
    need = {"plot_leak", "plot_early", "plot_swallow", "plot_implicit", "plot_two"}
    if got != need:
        raise AnalysisBroken("C15 self-test: missed %s, extra %s" % (sorted(need - got), sorted(got - need)))
