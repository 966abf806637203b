"""C11: plot files are written where the user asked, and a result reports the files it wrote."""
import ast
from pathlib import PurePosixPath
from ..values import *
from ..worlds import PROJECT
from ..plots import *
from .c10 import An, setup as model_setup, request
from .c15 import entries, arguments, instance, collect, opens
from ..report import AnalysisBroken, run_scenarios, Ctx
from ..selftest import Overlay

TMP = "/kd-temporary"
DIRPAR = ("output_dir", "save_dir", "out_dir")


class FileAn(An):
    cleanup_fails = False

    def __init__(self):
        super().__init__()
        self.reported = {}      # oid -> (ok, [(path, problem)], where)

    def ext_call(self, eng, name, args, kwargs, st, node):
        if name == "tempfile.TemporaryDirectory":
            return C(TMP)
        if name == "tempfile.mkdtemp":
            return C(TMP)
        return super().ext_call(eng, name, args, kwargs, st, node)

    def returned(self, eng, func, val, st, node):
        for a in val or ():
            o = st.get(a.p) if a.k == "obj" else None
            if o is None or o.kind != "inst" or o.cls is None or "paths" not in o.attrs or "intent" not in o.attrs:
                continue
            key = a.p
            if self.reported.get(key, (False,))[0]:
                continue
            bad, seen = [], []
            for v in self.elements(o.attrs["paths"], st):
                for x in v:
                    if x.k == "const" and x.p[0] in ("PurePosixPath", "str"):
                        p = str(x.p[1])
                        seen.append(p)
                        if ("wrote", p) not in st.must and "wrote:" + p not in x.l:
                            bad.append((p, "unwritten"))
                    elif x.k == "const":
                        bad.append((describe(frozenset([x])), "nopath"))
                    elif "dir" not in x.l:
                        bad.append((describe(frozenset([x])), "unknown"))
            self.reported[key] = (not bad, bad, eng.where(node) if node is not None else func.qual, seen)
        return super().returned(eng, func, val, st, node)

    def elements(self, v, st):
        for a in v:
            if a.k == "tup":
                yield from a.p
            elif a.k == "obj":
                o = st.get(a.p)
                if o is not None and o.kind in ("list", "set"):
                    yield from o.elems or []
                    if o.summ:
                        yield o.summ


def under(p, root):
    return p == root or p.startswith(root.rstrip("/") + "/")


def normal(p):
    out = []
    for x in p.split("/"):
        if x == "..":
            if out:
                out.pop()
        elif x not in ("", "."):
            out.append(x)
    return "/" + "/".join(out)


def judge(sub, an, roots, what, allow=()):
    """every write of the session lies under one of roots"""
    for p, how, where, isdir, desc, ls in an.writes:
        sub.count("writes")
        if p is None:
            if "dir" in ls:
                sub.count("writes_under_unknown_name")
                continue
            sub.find("unresolved-target", "%s|%s" % (what, where.split(" in ")[-1]), "%s: %s writes to a file that is not derived from the output directory (%s)" % (what, how, desc), where)
            continue
        q = normal(p) if p.startswith("/") else normal(CWD + "/" + p)
        if not any(under(q, r) for r in roots) and not any(under(q, r) for r in allow):
            sub.find("outside", "%s|%s" % (what, where.split(" in ")[-1]), "%s: %s writes %s, outside the output directory" % (what, how, q.replace(CWD, "<current directory>")), where)


def facade_task(name, proj):
    def task(sub):
        an, w, m, caps = model_setup(name, None, FileAn)
        base0 = w.st
        an.open_objs = frozenset(a.p for a in m if a.k == "obj")
        an.used = True
        files = {}
        for mode in ("option", "configured", "both", "neither"):
            w.st = base0.fork()
            if mode in ("configured", "both"):
                an.implicit_raise = False
                w.call(w.get("kd.viz", "configure"), [], {"save_dir": C(CFG, frozenset(["dir"]))}, "conf" + mode)
                an.implicit_raise = True
            base = w.st
            root = {"option": OUT, "both": OUT, "configured": CFG, "neither": CWD}[mode]
            for k in sorted(caps):
                w.st = base.fork()
                w.eng.memo.clear()
                an.reported = {}
                items = {"output_dir": C(OUT, frozenset(["dir"]))} if mode in ("option", "both") else {"output_dir": NONE}
                r = request(w, an, m, k, options(w, items, tag="o" + k + mode), k + mode)
                what = "%s plot of %s" % (k, name)
                sub.count("requests")
                judge(sub, an, [root], "%s (output directory %s)" % (what, {"option": "passed", "both": "passed and configured", "configured": "configured", "neither": "not set"}[mode]))
                if r is None:
                    sub.find("no-return", what, "a %s never returns" % what)
                    continue
                mine = set()
                for o, a in results(w, r):
                    if o is None or "paths" not in o.attrs:
                        continue
                    ok, bad, where, seen = an.reported.get(a.p, (True, [], "", []))
                    sub.count("reported_paths", len(seen))
                    mine |= set(seen)
                    for p, why in bad:
                        if why == "unwritten":
                            sub.find("reported-not-written", "%s|%s" % (what, p.rsplit("/", 1)[-1]),
                                     "the result of a %s reports %s, which the call has not written on every path that reports it" % (what, p.rsplit("/", 1)[-1]), where)
                        else:
                            sub.find("reported-unknown", what, "the result of a %s reports a path that is not a file it wrote (%s)" % (what, p), where)
                    for p in seen:
                        if not under(normal(p), root):
                            sub.find("reported-outside", "%s|%s" % (what, p), "the result of a %s reports %s outside the output directory" % (what, p), where)
                for p in mine:
                    files.setdefault(p, set()).add(k)
                if not mine:
                    sub.count("requests_without_file")
        for p, ks in sorted(files.items()):
            if len(ks) > 1:
                sub.find("shared-file", "%s %s" % (name, " ".join(sorted(ks))), "the %s plots of %s all write %s" % (" and ".join(sorted(ks)), name, p.rsplit("/", 1)[-1]))
        collect(sub, w)
    return task


def direct(proj):
    return [(mn, cn, f) for mn, cn, f in entries(proj) if any(x.arg in DIRPAR for x in f.args.args + f.args.kwonlyargs)]


def direct_task(proj, mn, cn, f):
    what = "%s%s.%s" % (mn, "." + cn if cn else "", f.name)

    def task(sub):
        for given in (True, False):
            an = FileAn()
            w = session(an, proj)
            an.used = True
            an.implicit_raise = False
            target = w.get(mn, cn) if cn else w.get(mn, f.name)
            names, kw, vals = arguments(w, f, cn is not None)
            for n in vals:
                if n in DIRPAR:
                    vals[n] = C(OUT, frozenset(["dir"])) if given else NONE
            if cn:
                (c,) = [a for a in target if a.k == "cls"]
                inst = instance(w, c, mn, cn)
                target = w.eng.getattr(inst, f.name, w.st, f)
                an.open_objs = frozenset(a.p for a in inst if a.k == "obj")
            an.implicit_raise = True
            w.eng.memo.clear()
            an.writes = []
            w.call(target, [vals[n] for n in names], {k: vals[k] for k in kw}, "entry")
            sub.count("direct_calls")
            if given:
                if not an.writes:
                    sub.count("direct_calls_without_write")
                judge(sub, an, [OUT], "%s with an output directory" % what)
            collect(sub, w)
    return task


def config_task(proj):
    """the runner and the web app put back the output directory they configured for one job"""
    def task(sub):
        for mn, fn in (("kd.runner", "save_viz"), ("app", "run_viz")):
            if not proj.has(mn):
                continue
            m = proj.mod(mn)
            f = next((n for n in m.tree.body if isinstance(n, ast.FunctionDef) and n.name == fn), None)
            if f is None:
                continue
            an = FileAn()
            w = session(an, proj)
            an.used = True
            an.implicit_raise = False
            w.get(mn, fn)
            w.get("kd.viz.core", "render")
            w.get("kd.viz", "configure")
            before = config_dir(w)
            an.implicit_raise = True
            names = [x.arg for x in f.args.args]
            args = [C(OUT, frozenset(["dir"])) if n in DIRPAR else TOP() for n in names]
            w.eng.memo.clear()
            an.writes = []
            r = w.call(w.get(mn, fn), args, {}, "entry")
            after = config_dir(w)
            what = "%s.%s" % (mn, fn)
            sub.count("config_sessions")
            if r is None:
                sub.find("no-return", what, "%s never returns" % what)
                continue
            if after != before:
                sub.find("configuration-kept", what, "after %s the configured output directory is %s (before the call: %s)" % (what, describe(after), describe(before)), m.rel)
            judge(sub, an, [OUT, TMP], what)
            collect(sub, w)
    return task


def config_dir(w):
    cfg = w.call(w.get("kd.viz._style", "get_config"), [], {}, "getcfg")
    v = w.eng.getattr(cfg, "save_dir", w.st, w.eng.proj.mod("kd.viz").tree)
    return frozenset(Atom(a.k, a.p, NOL) for a in v)


def run(ctx):
    ctx.rule("every file and directory a plotting call creates (savefig, write_bytes, open for writing, mkdir, rename, ...) has a constant-folded path under the directory that was "
             "passed as output_dir, else under the configured save_dir")
    ctx.rule("every path in a returned plot result was written by that call on every abstract path that reports it (failures absorbed by handlers included)")
    ctx.rule("no two plots of one model report the same file; the runner and the web app leave the configured directory as it was")
    proj = PROJECT()
    selftest()
    tasks = [("facade " + n, facade_task(n, proj)) for n in MODELS]
    for mn, cn, f in direct(proj):
        tasks.append(("%s.%s" % (mn, f.name), direct_task(proj, mn, cn, f)))
    tasks.append(("configuration", config_task(proj)))
    run_scenarios(ctx, tasks)
    if ctx.failed:
        raise AnalysisBroken("; ".join(ctx.failed))
    ctx.floor("requests", 160)
    ctx.floor("writes", 300)
    ctx.floor("reported_paths", 100)
    ctx.floor("direct_calls", 30)


SELF = '''
from pathlib import Path
import matplotlib.pyplot as plt
from kd.viz.core import VizResult

def plot_ok(data, output_dir=None):
    fig, ax = plt.subplots()
    if output_dir:
        p = Path(output_dir) / "sub"
        p.mkdir(parents=True, exist_ok=True)
        fig.savefig(p / "a.png")
    plt.close(fig)

def plot_outside(data, output_dir=None):
    fig, ax = plt.subplots()
    fig.savefig("a.png")
    plt.close(fig)

def plot_escape(data, output_dir=None):
    fig, ax = plt.subplots()
    fig.savefig(Path(output_dir).parent / "a.png")
    plt.close(fig)

def plot_unknown(data, output_dir=None):
    fig, ax = plt.subplots()
    fig.savefig(data.name)
    plt.close(fig)

def plot_named(data, output_dir=None):
    fig, ax = plt.subplots()
    fig.savefig(Path(output_dir or ".") / data.name)
    plt.close(fig)

def quiet_save(fig, path):
    try:
        fig.savefig(path)
    except Exception:
        print("no")

def honest_save(fig, path):
    try:
        fig.savefig(path)
    except Exception:
        return None
    return path

def report(kind, output_dir):
    fig, ax = plt.subplots()
    p = Path(output_dir) / "r.png"
    if kind == "good":
        fig.savefig(str(p))
        return VizResult(intent=kind, paths=[p])
    if kind == "other":
        fig.savefig(str(p.parent / "q.png"))
        return VizResult(intent=kind, paths=[p])
    if kind == "quiet":
        quiet_save(fig, p)
        return VizResult(intent=kind, paths=[p])
    if kind == "honest":
        q = honest_save(fig, p)
        if q is None:
            return VizResult(intent=kind, warnings=["no"])
        return VizResult(intent=kind, paths=[q])
    if kind == "moved":
        fig.savefig(p.parent / "t.png")
        (p.parent / "t.png").rename(p)
        return VizResult(intent=kind, paths=[p])
    if kind == "maybe":
        fig.savefig(p.parent / "t.png")
        if not p.exists():
            (p.parent / "t.png").rename(p)
        return VizResult(intent=kind, paths=[p])
'''


def selftest():
    sub = Ctx("C11")
    sub.seen, sub.sites = set(), set()
    ov = Overlay(PROJECT(), "kd.viz.selfplots", SELF)
    for n in ov.mod("kd.viz.selfplots").tree.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith("plot"):
            direct_task(ov, "kd.viz.selfplots", None, n)(sub)
    got = {k.split("|")[0] + " " + k.split("|")[1].split(" ")[0].rsplit(".", 1)[-1] for k in sub.findings}
    for k in ("good", "other", "quiet", "honest", "moved", "maybe"):
        an = FileAn()
        w = session(an, ov)
        w.call(w.get("kd.viz.selfplots", "report"), [C(k), C(OUT)], {}, "r" + k)
        for ok, bad, where, seen in an.reported.values():
            if not ok:
                got.add("reported " + k)
    need = {"outside plot_outside", "outside plot_escape", "unresolved-target plot_unknown", "reported other", "reported quiet", "reported maybe"}
    if got != need:
        raise AnalysisBroken("C11 self-test: missed %s, extra %s" % (sorted(need - got), sorted(got - need)))
