"""C12: process-wide settings after imports and plot calls."""
import ast
from ..effects import *
from ..imports import ImportEffects
from ..report import AnalysisBroken, Ctx
from ..selftest import Overlay
from ..worlds import PROJECT
from .c16 import Check as C16, ROOTS

WHAT = {"cwd": "the working directory", "rc": "matplotlib's style parameters", "backend": "matplotlib's backend", "torch": "torch's global settings",
        "nperr": "numpy's floating-point error handling", "npprint": "numpy's print options", "warnings": "the process's warning filters",
        "logging": "the logging configuration", "syspath": "the module search path", "env": "the environment", "rng": "a global random generator",
        "stdio": "the standard streams", "patch": "another package's attributes"}
# starting these is starting an application
APPS = ("app",)
COMMON = {"update", "get", "append", "items", "keys", "values", "copy", "pop", "extend", "add", "join", "split", "format", "plot", "set", "close", "sum",
          "mean", "min", "max", "reshape", "flatten", "ravel", "astype", "tolist", "item", "strip", "replace", "startswith", "endswith", "index", "count",
          "sort", "remove", "clear", "insert", "setdefault", "fit", "train", "save", "load", "write", "read", "run", "eval", "apply", "step", "transform"}


class ImportScan(ImportEffects):
    """module-level code executed by an import, applied to settings instead of imports"""

    def __init__(self, proj, refs, eff, sink):
        super().__init__(proj, refs)
        self.e, self.sink, self.n, self.depth = eff, sink, 0, []

    def stmt(self, m, s, guarded, out, fstack):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            super().stmt(m, s, guarded, out, fstack)
            return
        for x in self.shallow(s):
            self.effect(m, x)
        super().stmt(m, s, guarded, out, fstack)

    def shallow(self, s):
        """nodes of a statement that are not statements of its own blocks"""
        yield s
        todo = []
        for fl, v in ast.iter_fields(s):
            if fl in ("body", "orelse", "finalbody", "handlers", "cases") and isinstance(v, list):
                continue
            todo += [x for x in (v if isinstance(v, list) else [v]) if isinstance(x, ast.AST)]
        while todo:
            x = todo.pop()
            if isinstance(x, ast.Lambda):
                continue
            yield x
            todo += list(ast.iter_child_nodes(x))

    def effect(self, m, n):
        self.n += 1
        f = None
        p = n
        while p is not None and not isinstance(p, ast.Module):
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = p
                break
            p = getattr(p, "_parent", None)
        for q in self.e.direct(m, n, f):
            if f is not None and self.e.undone(m, n, f, q.kind, q):
                continue
            if f is None and any(q.kind in w for w in self.e.enclosing_withs(m, n, m.tree)):
                continue
            self.sink(m, f, q)

    def load(self, *a):
        pass

    def func(self, mod, f, guarded, out, fstack=()):
        if f in self.seen:
            return
        self.seen.add(f)
        self.block(self.p.mod(mod), f.body, guarded, out, fstack + (id(f),))


class Check:
    def __init__(self, ctx, proj):
        self.ctx, self.p = ctx, proj
        self.r = Refs(proj)
        self.e = Effects(self.r)
        self.memo = {}
        self.methods = {}

    def public(self):
        return sorted(C16(Ctx("C12"), self.p).reach(ROOTS))

    # ------------------------------------------------------------------ imports
    def imports(self):
        for mn in self.public():
            if mn in APPS:
                continue
            m = self.p.mod(mn)
            self.ctx.count("modules")

            def sink(mm, f, q, mn=mn):
                self.ctx.find("import-effect", "%s|%s %s" % (mn, q.kind, q.detail),
                              "importing %s changes %s (%s)" % (mn, WHAT.get(q.kind, q.kind), q.detail or q.kind), "%s:%d" % (mm.rel, q.node.lineno))
            sc = ImportScan(self.p, self.r, self.e, sink)
            sc.block(m, m.tree.body, False, {}, ())
            self.ctx.count("import_time_nodes", sc.n)

    # ------------------------------------------------------------------ plots
    def index(self):
        for mn in self.public():
            if mn in APPS:
                continue
            for c in ast.walk(self.p.mod(mn).tree):
                if isinstance(c, ast.ClassDef):
                    for s in c.body:
                        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            self.methods.setdefault(s.name, []).append((mn, s))

    def callees(self, m, call, f):
        d, r = self.e.dotted(m, call.func, f)
        if d:
            return []
        if r:
            if r[0] in ("def", "method"):
                return [(r[1][0], r[1][1])]
            if r[0] == "class":
                x = self.r.class_member(r[1][0], r[1][1], "__init__")
                return [(x[1][0], x[1][1])] if x and x[0] == "method" else []
        fn = call.func
        if isinstance(fn, ast.Name):
            s = f
            while s is not None:
                for x in walk_own(s):
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == fn.id:
                        return [(m.name, x)]
                s = self.up(s)
            return []
        if isinstance(fn, ast.Attribute):
            cls = self.cls_of(f)
            if isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and cls is not None:
                x = self.r.class_member(m.name, cls, fn.attr)
                if x and x[0] == "method":
                    out = [(x[1][0], x[1][1])]
                    # overrides in subclasses
                    out += [(mn, g) for mn, g in self.methods.get(fn.attr, ()) if mn == m.name and g is not x[1][1]]
                    return out
            if fn.attr in COMMON:
                return []
            return list(self.methods.get(fn.attr, ()))
        return []

    def up(self, f):
        p = getattr(f, "_parent", None)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            p = getattr(p, "_parent", None)
        return p

    def cls_of(self, f):
        p = f
        while p is not None:
            p = getattr(p, "_parent", None)
            if isinstance(p, ast.ClassDef):
                return p
        return None

    def explicit(self, mod, f):
        """functions whose purpose is to change the user's configuration"""
        return f.name.startswith("configure") and not f.name.startswith("_") and (mod == "kd.viz" or mod.startswith("kd.viz."))

    def leaks(self, mod, f):
        k = f
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {}
        self.ctx.count("functions")
        m = self.p.mod(mod)
        out = {}
        for n in walk_own(f):
            for q in self.e.direct(m, n, f):
                self.ctx.count("setting_changes")
                if not self.e.undone(m, n, f, q.kind, q):
                    out.setdefault((q.kind, q.detail), ("%s:%s" % (mod, qual_of(f)), "%s:%d" % (m.rel, q.node.lineno)))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for kk, v in self.leaks(mod, n).items():
                    out.setdefault(kk, v)
            elif isinstance(n, ast.Call):
                for cm, cf in self.callees(m, n, f):
                    ex = self.explicit(cm, cf)
                    for kk, v in self.leaks(cm, cf).items():
                        if ex and kk[0] == "backend" and self.requested(n, f):
                            continue
                        if not self.e.undone(m, n, f, kk[0]):
                            out.setdefault(kk, v)
        self.memo[k] = out
        return out

    def requested(self, call, f):
        """the configuring call is made only when the caller of f asked for it"""
        pars = {a.arg for a in f.args.args + f.args.kwonlyargs}
        names = set(pars)
        for _ in range(3):
            for n in walk_own(f):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value)):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            names.add(t.id)
        c, p = call, getattr(call, "_parent", None)
        while p is not None and c is not f:
            if isinstance(p, ast.If) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(p.test)) and any(c is x for x in p.body):
                return True
            c, p = p, getattr(p, "_parent", None)
        return any(isinstance(x, ast.Name) and x.id in names for a in list(call.args) + [k.value for k in call.keywords] for x in ast.walk(a))

    def roots(self):
        for mn in sorted(self.p.index):
            if mn == "kd.viz" or mn.startswith("kd.viz."):
                for s in self.p.mod(mn).tree.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and not self.explicit(mn, s):
                        yield mn, s
                    elif isinstance(s, ast.ClassDef):
                        for x in s.body:
                            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                                yield mn, x

    def plots(self):
        self.index()
        todo = list(self.roots())
        for mn, f in todo:
            self.ctx.count("plot_functions")
            for (kind, detail), (where, line) in sorted(self.leaks(mn, f).items()):
                if (f.name, mn) == ("configure", "kd.viz.core"):
                    continue
                # reported where the change is made
                self.ctx.find("plot-effect", "%s|%s %s" % (where, kind, detail),
                              "%s:%s leaves %s changed after it returns or fails (changed in %s: %s)" % (mn, qual_of(f), WHAT.get(kind, kind), where, detail or kind), line)

    def run(self):
        self.imports()
        self.plots()


SELF = '''
import matplotlib, os, warnings
import matplotlib.pyplot as plt
from contextlib import contextmanager
import numpy as np
plt.rcParams["self.test"] = 1
def set_it():
    np.random.seed(0)
set_it()
class K:
    warnings.simplefilter("ignore")
@contextmanager
def bad_manager(d):
    old = matplotlib.rcParams
    try:
        matplotlib.rcParams.update(d)
        yield
    finally:
        matplotlib.rcParams.update(old)
@contextmanager
def good_manager(d):
    old = matplotlib.rcParams.copy()
    matplotlib.rcParams.update(d)
    try:
        yield
    finally:
        matplotlib.rcParams.update(old)
def helper():
    plt.rcParams["axes.grid"] = True
def plot_good(d):
    with good_manager(d):
        helper()
    with plt.rc_context():
        helper()
    here = os.getcwd()
    os.chdir(d)
    try:
        helper2()
    finally:
        os.chdir(here)
def helper2():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
def plot_bad1(d):
    here = os.getcwd()
    os.chdir(d)
    helper2()
    os.chdir(here)
def plot_bad2(d):
    helper()
def plot_bad3(d):
    rc = plt.rcParams
    rc["font.size"] = 3
def plot_bad4(d):
    warnings.simplefilter("always")
def plot_bad5(d):
    return np.random.choice(d)
'''


def selftest():
    sub = Ctx("C12")
    ov = Overlay(PROJECT(), "kd.viz.selfmod", SELF)
    ck = Check(sub, ov)
    ck.public = lambda: ["kd.viz.selfmod"]
    ck.roots = lambda: [("kd.viz.selfmod", s) for s in ov.mod("kd.viz.selfmod").tree.body if isinstance(s, ast.FunctionDef)]
    ck.run()
    need = {"import-effect|kd.viz.selfmod|rc 'self.test'", "import-effect|kd.viz.selfmod|rng seed:0", "import-effect|kd.viz.selfmod|warnings simplefilter:'ignore'",
            "plot-effect|kd.viz.selfmod:bad_manager|rc update:", "plot-effect|kd.viz.selfmod:helper|rc 'axes.grid'", "plot-effect|kd.viz.selfmod:plot_bad1|cwd chdir:",
            "plot-effect|kd.viz.selfmod:plot_bad3|rc 'font.size'", "plot-effect|kd.viz.selfmod:plot_bad4|warnings simplefilter:'always'",
            "plot-effect|kd.viz.selfmod:plot_bad5|rng draw:numpy.random.choice", "plot-effect|kd.viz.selfmod:set_it|rng seed:0"}
    got = set(sub.findings)
    if need - got or got - need:
        raise AnalysisBroken("C12 self-test: missed %s, extra %s" % (sorted(need - got), sorted(got - need)))


def run(ctx):
    ctx.rule("import-effect: no statement executed by importing a module (functions it calls at import included) changes a process-wide setting: "
             "working directory, matplotlib rcParams/style/backend, torch defaults, numpy error and print settings, warning filters, logging "
             "configuration, sys.path, environment, global random generators, standard streams, attributes of other packages")
    ctx.rule("plot-effect: a change of such a setting in a function of kd.viz or anything it calls is undone on every exit: inside a with block whose "
             "manager restores it (project managers are analysed: finally around the yield puts back a copy saved before) or in a try whose finally "
             "puts back a value saved before the change; configure* functions change settings on request and are exempt")
    selftest()
    ck = Check(ctx, PROJECT())
    ck.run()
    ctx.count("scenarios")
    ctx.floor("modules", 50)
    ctx.floor("plot_functions", 120)
    ctx.floor("functions", 150)
    ctx.floor("setting_changes", 1)
    ctx.assumptions.append("a method called on an object of unknown class is taken to be any project method of that name, except very common names")
