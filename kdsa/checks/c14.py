"""C14: the web app, the job layer and the command-line runner agree."""
import ast
from ..worlds import *
from ..values import *
from ..report import AnalysisBroken
from .. import report
from ..interp import PathDead
from ..selftest import Overlay
from ..oblig import Obligations
from .c19 import literal

# estimator a registry flag speaks about
FLAG = {"sga": "KD_SGA", "dlga": "KD_DLGA", "discover": "KD_Discover", "discover_spr": "KD_Discover_SPR", "eqgpt": "KD_EqGPT"}
FALLIBLE = ("bohrium_open_sdk", "json.load", "builtins.open")
NOEVENT = {"queue", "launch"}


class App(Analysis):
    max_steps = 6_000_000

    def __init__(self):
        self.n = 0
        self.events, self.trainer, self.escapes, self.dumps, self.rets = [], [], [], [], {}
        self.binds, self.loads, self.values, self.files, self.remote = [], [], [], [], []
        self.result = None          # what json.load returns
        self.status = None          # what the job service reports
        self.watch = set()
        self.texts = []             # values given to json.dumps
        self.exits = []
        self.present = False        # the files that are looked for exist
        self.savedir = None

    # ---- interface components
    def inst(self, st, attrs, kind="inst"):
        self.n += 1
        o = HObj(kind, None, NOL)
        o.attrs = dict(attrs)
        oid = ("ui" if kind == "inst" else "data", self.n)
        st.new(oid, o)
        return mk("obj", oid)

    def protected(self, eng):
        """inside a try whose handlers catch any Exception"""
        for h in eng.handlers:
            n = getattr(h, "node", None)
            for hd in getattr(n, "handlers", ()):
                if hd.type is None or ast.unparse(hd.type) in ("Exception", "BaseException"):
                    return True
        return False

    def ext_call(self, eng, name, args, kwargs, st, node):
        if name == "gradio.update" or name.startswith("gradio.") and name.split(".")[-1][:1].isupper() and not name.endswith(")"):
            at = dict(kwargs)
            at["__kind__"] = C(name.split(".")[-1])
            pos = {"Dropdown": ["choices", "value"], "Slider": ["minimum", "maximum", "value"], "State": ["value"]}.get(name.split(".")[-1], ["value"])
            for k, v in zip(pos, args):
                at.setdefault(k, v)
            r = self.inst(st, at)
            self.parents(eng, r, st, node)
            return r
        if name == "json.dump" and args:
            self.dumps.append((args[0], st.fork(), eng.chain(), eng.where(node)))
            self.mark(eng, args[0], st)
            return NONE
        if name == "json.dumps" and args:
            self.texts.append(args[0])
            return mk("top", None, frozenset(["dumped:%d" % (len(self.texts) - 1)]))
        if name.rpartition(".")[2] in ("write", "write_text", "writelines", "print"):
            self.text(eng, args, st, node)
        if name in ("json.load", "json.loads") and self.result is not None:
            return self.result(st)
        if name in ("builtins.open", "io.open") and (args or "file" in kwargs):
            mode = const1(args[1]) if len(args) > 1 else const1(kwargs.get("mode", C("r")))
            self.file("w" if mode and set(mode) & set("wax") else "r", args[0] if args else kwargs["file"], eng, node)
        if name.split(".")[-1] in ("exists", "isfile", "imread") and args and name.startswith(("os.path.", "matplotlib.")):
            self.file("r", args[0], eng, node)
            if self.present and name.split(".")[-1] != "imread":
                return C(True)
        if name.startswith("bohrium_open_sdk") and (kwargs.get("remote_target") or kwargs.get("inputs")):
            self.remote.append((name.rpartition(".")[2], dict(kwargs), st.fork(), eng.where(node)))
        if name in ("traceback.format_exc", "traceback.format_exception"):
            return C("Traceback ...")
        if name in ("sys.exit", "builtins.exit", "os._exit"):
            self.exits.append((args[0] if args else NONE, st.fork(), eng.where(node)))
            raise PathDead()
        if name.startswith(FALLIBLE) and not self.protected(eng):
            self.escapes.append((name.split("#")[0], tuple(eng.chain()), eng.where(node)))
        if name.startswith("bohrium_open_sdk") and name.endswith(".detail") and self.status is not None:
            return self.status(st)
        if name.startswith("argparse.") and name.endswith("parse_args"):
            return TOP()
        return None

    def file(self, kind, v, eng, node):
        for c in consts(v) or [None]:
            self.files.append((kind, None if c is None else str(c), eng.where(node)))

    def text(self, eng, args, st, node):
        for v in args:
            for l in labels(v):
                if l.startswith("dumped:"):
                    d = self.texts[int(l[7:])]
                    self.dumps.append((d, st.fork(), eng.chain(), eng.where(node)))
                    self.mark(eng, d, st)

    def mark(self, eng, v, st):
        for a in v:
            o = st.get(a.p) if a.k == "obj" else None
            s = o.attrs.get("status") if o is not None and o.kind == "dict" else None
            for c in consts(s) or () if s else ():
                st.may = st.may | {"wrote:%s" % c}
                if len(s) == 1 and len(v) == 1:
                    st.must = st.must | {"wrote:%s" % c, "wrote"}
            if s and len(v) == 1:
                st.must = st.must | {"wrote"}

    def parents(self, eng, r, st, node):
        ps = []
        for i, fr in enumerate(eng.frames):
            if fr.func is None:
                continue
            site = node if i == len(eng.frames) - 1 else getattr(eng.frames[i + 1], "site", None)
            if site is None:
                continue
            env = st.envs[i] if i < len(st.envs) else {}
            for w in ast.walk(fr.func.node):
                if isinstance(w, ast.With) and any(x is site for b in w.body for x in ast.walk(b)):
                    for it in w.items:
                        if isinstance(it.optional_vars, ast.Name):
                            for e in st.envs:
                                for a in e.get(it.optional_vars.id, ()):
                                    if a.k == "obj" and a.p[0] == "ui":
                                        ps.append(a.p)
        for a in r:
            st.mut(a.p).attrs["__parents__"] = frozenset([Atom("const", ("tuple", tuple(ps)), NOL)])

    def method_hook(self, eng, b, name, args, kwargs, st, node):
        if name == "savefig" and (args or "fname" in kwargs):
            self.file("w", args[0] if args else kwargs["fname"], eng, node)
        if name in ("write", "write_text", "writelines"):
            self.text(eng, args, st, node)
        if b.k == "const" and b.p[0] == "PurePosixPath" and name in ("write_text", "write_bytes", "open", "exists", "is_file", "read_text"):
            mode = const1(args[0]) if name == "open" and args else const1(kwargs.get("mode", C("r")))
            self.file("w" if name[:5] == "write" or name == "open" and mode and set(mode) & set("wax") else "r", frozenset([b]), eng, node)
        if b.k == "obj" and b.p[0] == "ui":
            if name in NOEVENT:
                return NONE
            fn = kwargs.get("fn", args[0] if args else None)
            outs = kwargs.get("outputs", args[2] if len(args) > 2 else None)
            ins = kwargs.get("inputs", args[1] if len(args) > 1 else None)
            self.events.append({"fn": fn, "ins": self.comps(eng, ins, st), "outs": self.comps(eng, outs, st), "on": name,
                                "where": eng.where(node), "src": b.p,
                                "names": {a.p: k for e in st.envs for k, v in e.items() for a in v if a.k == "obj" and a.p[0] == "ui"}})
            return mk("ext", "gradio.Dependency()")
        return None

    def comps(self, eng, v, st):
        """list of component ids; None if unknown"""
        if v is None or v == NONE:
            return []
        if len(v) != 1:
            return None
        (a,) = v
        if a.k == "obj" and a.p[0] == "ui":
            return [a.p]
        seq = eng.exact_atom(a, st)
        if seq is None:
            return None
        out = []
        for e in seq:
            if len(e) != 1 or next(iter(e)).k != "obj":
                return None
            out.append(next(iter(e)).p)
        return out

    # ---- estimators and data sets are opaque: record what reaches them
    def new_instance(self, eng, cls, args, kwargs, st, node):
        if cls.qual.startswith("kd.model.") and cls.qual.split(":")[1].startswith("KD_"):
            f = eng.find_method(cls, "__init__", st)
            self.train(eng, cls.name, "__init__", f, args, kwargs, st, node)
            self.n += 1
            o = HObj("inst", cls, NOL)
            st.new(("model", self.n), o)
            return mk("obj", ("model", self.n))
        return None

    def call_hook(self, eng, func, args, kwargs, st, node):
        m = func.mod
        if self.savedir and func.qual == "kd.job:download_result":
            return TUP([self.result(st), C(self.savedir)])
        if m.startswith("kd.model"):
            if func.cls is not None and args:
                cl = None
                for a in args[0]:
                    if a.k == "obj" and a.p[0] == "model":
                        cl = st.get(a.p).cls.name
                if func.name in ("get_params",):
                    return None
                if func.name.startswith("fit"):
                    self.train(eng, cl or func.qual, func.name, func, args[1:], kwargs, st, node)
                else:
                    self.protect(eng, func.qual, node)
            return TOP()
        if m.startswith("kd.dataset"):
            self.protect(eng, func.qual, node)
            if func.name == "load_pde":
                self.loads.append((args[0] if args else EMPTY, eng.where(node)))
            return mk("top", None, frozenset(["dataset"]))
        if m.startswith("kd.viz"):
            if func.name in ("configure", "_ensure_legacy_config"):
                return NONE
            if func.name == "list_capabilities":
                return TOP()
            self.protect(eng, func.qual, node)
            return TOP()
        return None

    def protect(self, eng, what, node):
        if not self.protected(eng):
            self.escapes.append((what, tuple(eng.chain()), eng.where(node)))

    def train(self, eng, cl, meth, f, args, kwargs, st, node):
        self.protect(eng, cl + "." + meth, node)
        got, lits = {}, {}
        pos = [p.arg for p in (f.node.args.posonlyargs + f.node.args.args)[1:]] if f else []
        for p, v in zip(pos, args):
            got[p], lits[p] = self.flat(eng, v, st), self.lit(v, st)
        for k, v in kwargs.items():
            got[k], lits[k] = self.flat(eng, v, st), self.lit(v, st)
        self.trainer.append((cl, meth, got, eng.where(node)))
        self.values.append((cl, meth, lits, eng.where(node)))

    def lit(self, v, st):
        class W:
            pass
        W.st = st
        try:
            return repr(literal(W, v))
        except (ValueError, AttributeError):
            return "?"

    def flat(self, eng, v, st, d=0):
        """labels and constants inside a value"""
        ls, cs = set(), set()
        for a in v:
            ls |= {l for l in map(str, dep(labels(frozenset([a]))))}
            if a.k == "const":
                cs.add(repr(a.p[1]))
            o = st.get(a.p) if a.k == "obj" else None
            if o is not None and o.kind in ("list", "dict", "set") and d < 3:
                ls |= {str(l) for l in dep(o.l)}
                for x in list(o.attrs.values()) + list(o.elems or []) + [o.summ]:
                    l2, c2 = self.flat(eng, x, st, d + 1)
                    ls |= l2
                    cs |= c2
        return frozenset(l for l in ls if l.startswith(("ui:", "dataset"))), frozenset(cs)

    def returned(self, eng, func, val, st, node):
        if func.qual in self.watch:
            self.rets.setdefault(func.qual, []).append((val, st.fork(), eng.where(node) if node is not None else "end of " + func.qual))

    def raised(self, eng, exc, node, st):
        if not eng.handlers:
            self.escapes.append(("raise " + describe(exc), tuple(eng.chain()), eng.where(node)))

    def bind_error(self, eng, func, msg, node, st):
        self.binds.append((func.qual, msg, eng.where(node)))


def app_world(proj=None, mod="app"):
    an = App()
    w = World(an, proj)
    w.enter("kd")
    w.eng.load(mod)
    return an, w


def registry_flags(w, st):
    w.st = st.fork()
    flags = {}
    for a in w.get("kd.dataset._registry", "PDE_REGISTRY"):
        o = w.st.get(a.p) if a.k == "obj" else None
        for name, ent in (o.attrs if o is not None else {}).items():
            for b in ent:
                e = w.st.get(b.p) if b.k == "obj" else None
                for c in (e.attrs.get("models", EMPTY) if e is not None else ()):
                    mo = w.st.get(c.p) if c.k == "obj" else None
                    if mo is not None:
                        flags[name] = {k: const1(v) for k, v in mo.attrs.items()}
    return flags


class Wiring:
    def __init__(self, ctx, proj=None, mod="app"):
        self.ctx, self.proj, self.mod = ctx, proj, mod
        self.an, self.w = app_world(proj, mod)
        build = [k for k in ("build_app",)]
        self.w.call(self.w.get(mod, build[0]), [], {}, "build")
        self.events = self.an.events
        self.st = self.w.st

    def attr(self, oid, name):
        o = self.st.get(oid)
        return o.attrs.get(name) if o is not None else None

    def name(self, ev, oid):
        return ev["names"].get(oid) or "component"

    def fname(self, ev):
        for a in ev["fn"] or ():
            if a.k == "fn":
                return a.p.name
        return "?"

    def check(self):
        ctx = self.ctx
        for ev in self.events:
            ctx.count("events")
            fns = [a.p for a in ev["fn"] or () if a.k == "fn"]
            if not fns:
                if ev["fn"] and ev["fn"] != NONE:
                    ctx.notes.append("callback of %s is not a known function" % ev["where"])
                continue
            if ev["ins"] is None or ev["outs"] is None:
                ctx.notes.append("inputs or outputs of %s are not a fixed list" % ev["where"])
                continue
            f = fns[0]
            self.inputs(ev, f)
            self.outputs(ev, f)

    def params(self, f):
        """parameters filled from the inputs: (name, required); request objects are injected"""
        g = f.node.args
        pos = g.posonlyargs + g.args
        nd = len(pos) - len(g.defaults)
        return [(p.arg, i < nd) for i, p in enumerate(pos) if not (p.annotation is not None and ast.unparse(p.annotation).endswith("Request"))], bool(g.vararg)

    def inputs(self, ev, f):
        ps, var = self.params(f)
        n = len(ev["ins"])
        req = sum(1 for p in ps if p[1])
        if n < req or (n > len(ps) and not var):
            self.ctx.find("input-count", "%s:%s" % (ev["on"], f.name), "%s takes %d to %d inputs but %d components are connected" % (f.name, req, len(ps), n), ev["where"])
        # components named like parameters sit at those parameters
        names = [ev["names"].get(o) for o in ev["ins"]]
        pn = [p[0] for p in ps]
        for i, nm in enumerate(names):
            self.ctx.count("connected_inputs")
            if nm in pn and i < len(pn) and pn[i] != nm and names.count(nm) == 1:
                self.ctx.find("input-order", "%s:%s:%s" % (ev["on"], f.name, nm), "component %s is passed as parameter %s of %s" % (nm, pn[i], f.name), ev["where"])
        if len(set(ev["ins"])) != n:
            self.ctx.find("input-order", "%s:%s:dup" % (ev["on"], f.name), "a component is connected twice as input of %s" % f.name, ev["where"])

    def outputs(self, ev, f):
        n = len(ev["outs"])
        if len(set(ev["outs"])) != n:
            self.ctx.find("output-count", "%s:%s:dup" % (ev["on"], f.name), "a component is connected twice as output of %s" % f.name, ev["where"])
        for val, st, where in self.runs(ev, f):
            self.arity(ev, f, val, st, where, n)

    def arity(self, ev, f, val, st, where, n):
        for a in val:
            self.ctx.count("return_values")
            seq = self.w.eng.exact_atom(a, st)
            k = "%s:%s" % (ev["on"], f.name)
            if a.k in ("top", "ext", "meth", "arr", "sym"):
                self.ctx.count("return_values_undetermined")
            elif n == 1:
                if seq is not None and a.k == "tup" and len(seq) != 1:
                    self.ctx.find("output-count", k, "%s returns %d values for one connected output" % (f.name, len(seq)), where)
            elif n == 0:
                pass
            elif seq is None:
                if a.k in ("const",) or (a.k == "obj" and (st.get(a.p) is None or st.get(a.p).kind in ("inst", "dict"))):
                    self.ctx.find("output-count", k, "%s returns %s, one value for %d connected outputs" % (f.name, describe(frozenset([a])), n), where)
                else:
                    self.ctx.count("return_values_undetermined")
            elif len(seq) != n:
                self.ctx.find("output-count", k, "%s returns %d values for %d connected outputs" % (f.name, len(seq), n), where)

    def runs(self, ev, f):
        """every return of the callback for unknown inputs and for each known choice of its drop-downs"""
        an, w = self.an, self.w
        ps, var = self.params(f)
        out = []
        plans = [{}]
        self.roles()
        nm = self.pname(ev, f, self.model_dd)
        if nm:
            plans += [{nm: C(m)} for m in self.models()]
        for req in (NONE, TOP()):
            for plan in plans + [{p[0]: NONE for p in ps}]:
                out += self.one(f, ps, plan, req)
        return out

    def roles(self):
        """model and data set selectors, found through what their callbacks return"""
        if hasattr(self, "_roles"):
            return
        self._roles, self._models, self.offered, self.model_dd, self.dataset_dd = True, [], {}, None, None
        flags = registry_flags(self.w, self.st)
        for ev in self.events:
            for a in ev["fn"] or ():
                if a.k != "fn" or isinstance(a.p.node, ast.Lambda) or ev["ins"] is None or ev["outs"] is None or len(ev["ins"]) != 1 or len(ev["outs"]) != 1:
                    continue
                ps, var = self.params(a.p)
                if not ps:
                    continue
                for name in sorted(flags):
                    for val, st, where in self.one(a.p, ps, {ps[0][0]: C(name)}, NONE):
                        for x in val:
                            o = st.get(x.p) if x.k == "obj" and x.p[0] == "ui" else None
                            if o is None or "choices" not in o.attrs:
                                continue
                            try:
                                self.w.st = st
                                ch = literal(self.w, o.attrs["choices"])
                            except ValueError:
                                continue
                            dv = const1(o.attrs.get("value", EMPTY))
                            self.model_dd, self.dataset_dd = ev["outs"][0], ev["ins"][0]
                            self.offered.setdefault(name, []).append((list(ch), dv, where))
                            for m in ch:
                                if m not in self._models:
                                    self._models.append(m)

    def models(self):
        self.roles()
        return self._models

    def pname(self, ev, f, comp):
        """parameter of f that receives the component"""
        ps = [p[0] for p in self.params(f)[0]]
        if comp in (ev["ins"] or []):
            i = ev["ins"].index(comp)
            if i < len(ps):
                return ps[i]
        return None

    def one(self, f, ps, plan, req):
        an, w = self.an, self.w
        w.st = self.st.fork()
        an.rets, an.watch, an.escapes, an.binds = {}, {f.qual}, [], []
        an.trainer, an.dumps, an.loads, an.values = [], [], [], []
        w.eng.memo.clear()
        kw = {p: plan.get(p, mk("top", None, frozenset(["ui:" + p]))) for p, r in ps}
        for p in (f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs):
            if p.annotation is not None and ast.unparse(p.annotation).endswith("Request"):
                kw[p.arg] = req
        r = w.call(frozenset([Atom("fn", f, NOL)]), [], kw, "cb:" + f.name)
        self.ctx.count("callback_runs")
        for what, chain, where in an.escapes:
            if any(c == f.qual for c in chain):
                self.ctx.find("callback-raises", "%s:%s" % (f.name, what), "%s can fail outside any error handling of the callback %s" % (what, f.name), where)
        for q, msg, where in an.binds:
            self.ctx.find("call-mismatch", "%s:%s" % (q, msg), "%s: %s" % (q, msg), where)
        self.ctx.seen |= w.eng.funcs_seen
        if isinstance(f.node, ast.Lambda):
            return [(r, w.st, "lambda")] if r is not None else []
        return an.rets.get(f.qual, [])

    def event(self, outs_name=None, fn=None):
        return [e for e in self.events if (fn is None or self.fname(e) == fn)]


class Protocol(Wiring):
    def callback(self, test):
        """callbacks of the app by role, found through the wiring, not by name"""
        for ev in self.events:
            for a in ev["fn"] or ():
                if a.k == "fn" and ev["ins"] is not None and ev["outs"] is not None and test(ev, a.p):
                    return ev, a.p
        raise AnalysisBroken("no callback of the expected shape is connected")

    def run_train(self, ev, f, model, req):
        ps, var = self.params(f)
        an, w = self.an, self.w
        res = self.one(f, ps, {self.pname(ev, f, self.model_dd): C(model)}, req)
        return res, list(an.trainer), list(an.dumps)

    @staticmethod
    def table(trainer):
        t = {}
        for cl, meth, got, where in trainer:
            for p, (ls, cs) in got.items():
                k = (cl, "constructor" if meth == "__init__" else meth, p)
                a, b, w = t.get(k, (frozenset(), frozenset(), where))
                t[k] = (a | ls, b | cs, w)
        return t

    def models_and_params(self):
        ctx, an, w = self.ctx, self.an, self.w
        self.roles()
        ev, f = self.callback(lambda e, f: self.model_dd in e["ins"] and self.dataset_dd in e["ins"])
        self.ds_label = "ui:" + (self.pname(ev, f, self.dataset_dd) or "dataset_name")
        runs = {}
        for m in self.models():
            ctx.count("models_offered")
            res, tr, _ = self.run_train(ev, f, m, NONE)
            fits = [t for t in tr if t[1] != "__init__"]
            if not fits:
                ctx.find("model-not-run", m, "the app offers %s but training it in the process runs no estimator" % m, ev["where"])
                continue
            runs[m] = (tr, {t[0] for t in fits})
            if len(runs[m][1]) > 1:
                ctx.find("model-not-run", m, "training %s runs %s" % (m, sorted(runs[m][1])), ev["where"])
        # the job path
        gpu = []
        for m in self.models():
            res, tr, dumps = self.run_train(ev, f, m, TOP())
            cfgs = [(v, st, wh) for v, st, ch, wh in dumps]
            if not cfgs:
                continue
            gpu.append(m)
            local = self.table(tr)
            for v, st, wh in cfgs:
                self.job(m, v, st, wh, local)
        ctx.count("models_offloaded", len(gpu))
        for m in gpu:
            self.by_value(ev, f, m)
        # offered = marked in the registry
        classes = {}
        for m, (tr, cl) in runs.items():
            for c in cl:
                classes.setdefault(c, set()).add(m)
        self.registry(classes)
        self.groups(ev, f, runs)

    def job(self, m, v, st, wh, local):
        """the configuration a job gets, run through the command line"""
        ctx, an, w = self.ctx, self.an, self.w
        for a in v:
            o = st.get(a.p) if a.k == "obj" else None
            if o is None or o.kind != "dict":
                ctx.find("job-config", m, "the job configuration of %s is %s" % (m, describe(v)), wh)
                continue
            if not o.complete or o.summ:
                ctx.notes.append("job configuration of %s is not fully known" % m)
                continue
            ctx.count("job_configurations")
            sent = {}
            for pa in o.attrs.get("params", EMPTY):
                po = st.get(pa.p) if pa.k == "obj" else None
                if po is not None:
                    sent = dict(po.attrs)
            cfg = dict(o.attrs)
            tr, exits, rets, dumps = self.main(cfg, st)
            fits = [t for t in tr if t[1] != "__init__"]
            if not fits:
                ctx.find("model-not-run", m + ":runner", "a job for %s (model %s) runs no estimator in the runner" % (m, describe(o.attrs.get("model", EMPTY))), wh)
                continue
            remote = self.table(tr)
            reach = frozenset().union(*[x[0] for x in remote.values()])
            for k, val in sent.items():
                ls, cs = an.flat(w.eng, val, st)
                ctx.count("parameters_sent")
                for l in ls:
                    if l not in reach:
                        ctx.find("parameter-lost", "%s:%s" % (m, k), "parameter %s sent with a %s job does not reach the model" % (k, m), wh)
            for k in sorted(set(local) | set(remote)):
                a1, b1 = local.get(k, (frozenset(), frozenset(), ""))[:2]
                a2, b2 = remote.get(k, (frozenset(), frozenset(), ""))[:2]
                ctx.count("parameters_compared")
                l1, l2 = {x for x in a1 if x.startswith("ui:")}, {x for x in a2 if x.startswith("ui:")}
                wh2 = (local.get(k) or remote.get(k))[2]
                if l1 != l2:
                    ctx.find("parameter-differs", "%s:%s.%s" % (m, k[1], k[2]), "%s parameter %s of %s is set from %s in the process but from %s in a job"
                             % (k[1], k[2], m, sorted(x[3:] for x in l1) or "nothing", sorted(x[3:] for x in l2) or "nothing"), wh2)
                elif not l1 and k in local and k in remote and b1 and b2 and not (b1 & b2):
                    ctx.find("parameter-differs", "%s:%s.%s" % (m, k[1], k[2]), "%s parameter %s of %s is %s in the process but %s in a job"
                             % (k[1], k[2], m, sorted(b1), sorted(b2)), wh2)
            # the data set named by the user is the one the runner loads
            ds = [an.flat(w.eng, x, w.st)[0] for x, _ in self.last_loads]
            if not any(self.ds_label in x for x in ds):
                ctx.find("parameter-lost", "%s:dataset_name" % m, "the data set chosen for a %s job is not the one the runner loads" % m, wh)

    def by_value(self, ev, f, m):
        """the values of the interface components, as first shown and as edited, arrive alike in the process and in a job"""
        ctx, an, w = self.ctx, self.an, self.w
        ps, var = self.params(f)
        first = {}
        for (p, r), oid in zip(ps, ev["ins"]):
            c = const1(self.attr(oid, "value") or EMPTY)
            if c is not None:
                first[p] = c
        edits = [{}]
        for p, c in sorted(first.items()):
            if isinstance(c, bool):
                continue
            if isinstance(c, str) and "," in c:
                edits.append({p: "aa,bb , cc"})
            elif isinstance(c, (int, float)):
                edits += [{p: 0}, {p: 7.0}, {p: None}]
        for e in edits:
            vals = dict(first)
            vals.update(e)
            vals[self.pname(ev, f, self.model_dd)] = m
            vals[self.pname(ev, f, self.dataset_dd)] = "burgers"
            plan = {p: C(v) for p, v in vals.items()}
            tabs = []
            self.one(f, ps, plan, NONE)
            tabs.append(self.vtable(an.values))
            self.one(f, ps, plan, TOP())
            dumps = list(an.dumps)
            for v, st, ch, wh in dumps:
                for a in v:
                    o = st.get(a.p) if a.k == "obj" else None
                    if o is not None and o.kind == "dict" and o.complete and not o.summ:
                        self.main(dict(o.attrs), st)
                        tabs.append(self.vtable(an.values))
            if len(tabs) < 2 or not tabs[0] or not tabs[1]:
                continue
            for k in sorted(set(tabs[0]) & set(tabs[1])):
                ctx.count("values_compared")
                if "?" not in (tabs[0][k][0], tabs[1][k][0]) and tabs[0][k][0] != tabs[1][k][0]:
                    ctx.find("parameter-differs", "%s:%s.%s" % (m, k[1], k[2]), "%s parameter %s of %s is %s in the process but %s in a job (%s)"
                             % (k[1], k[2], m, tabs[0][k][0], tabs[1][k][0], ", ".join("%s=%r" % z for z in e.items()) or "interface defaults"), tabs[1][k][1])

    @staticmethod
    def vtable(values):
        t = {}
        for cl, meth, lits, where in values:
            for p, v in lits.items():
                k = (cl, "constructor" if meth == "__init__" else meth, p)
                t[k] = (v if k not in t or t[k][0] == v else "?", where)
        return t

    def main(self, cfg, st):
        an, w = self.an, self.w
        w.st = st.fork()
        w.st.envs = [dict(w.st.envs[0])]
        cfgv = dict(cfg)

        def result(s):
            an.n += 1
            o = HObj("dict", None, NOL)
            o.attrs = dict(cfgv)
            s.new(("cfg", an.n), o)
            return mk("obj", ("cfg", an.n))
        an.result = result
        an.trainer, an.dumps, an.loads, an.exits, an.rets, an.escapes, an.values = [], [], [], [], {}, [], []
        an.watch = {"kd.runner:main"}
        w.eng.load("kd.runner")
        w.eng.memo.clear()
        w.st.must = w.st.may = frozenset()
        f = w.get("kd.runner", "main")
        w.call(f, [], {}, "main")
        an.result = None
        self.last_loads = an.loads
        self.ctx.seen |= w.eng.funcs_seen
        return list(an.trainer), list(an.exits), an.rets.get("kd.runner:main", []), list(an.dumps)

    def registry(self, classes):
        """models offered for a data set = models the registry marks for it"""
        ctx, an, w = self.ctx, self.an, self.w
        w.st = self.st.fork()
        flags = registry_flags(w, self.st)
        if len(flags) < 5:
            raise AnalysisBroken("registry flags not found")
        self.roles()
        if not self.offered:
            raise AnalysisBroken("no callback offers models for a data set")
        for name, fl in sorted(flags.items()):
            offers = self.offered.get(name)
            if not offers:
                ctx.notes.append("models offered for %s are not a known list" % name)
                continue
            got, dv, where = offers[0]
            if dv is not None and dv not in got:
                ctx.find("model-offered", "%s:default" % name, "default model %r for %s is not among the choices" % (dv, name), where)
            ctx.count("dropdown_updates")
            ctx.count("datasets_with_models")
            for k in fl:
                if k not in FLAG:
                    ctx.find("model-offered", "%s:%s" % (name, k), "registry entry %s speaks about an unknown model %s" % (name, k), "kd/dataset/_registry.py")
            for k, cl in FLAG.items():
                disp = classes.get(cl, set())
                on = bool(set(got) & disp)
                if fl.get(k) and not on:
                    ctx.find("model-offered", "%s:%s" % (name, k), "%s is marked as supporting %s but the app does not offer it" % (name, k), "app.py")
                if not fl.get(k) and on and k != "eqgpt":
                    ctx.find("model-offered", "%s:%s" % (name, k), "the app offers %s for %s although the registry does not mark it" % (k, name), "app.py")
            unknown = set(got) - set().union(*classes.values())
            if unknown:
                ctx.find("model-offered", "%s:unknown" % name, "the app offers %s for %s, which it cannot train" % (sorted(unknown), name), "app.py")
            if len(set(got)) != len(got):
                ctx.find("model-offered", "%s:dup" % name, "a model is offered twice for %s" % name, "app.py")

    def groups(self, ev, f, runs):
        """the inputs a model uses are visible when the model is selected, and only those models' groups are"""
        ctx = self.ctx
        cands = [(e, g) for e in self.events for g in [a.p for a in e["fn"] or () if a.k == "fn"]
                 if e["ins"] is not None and e["outs"] is not None and len(e["ins"]) == 1 and len(e["outs"]) > 1
                 and not isinstance(g.node, ast.Lambda) and e["ins"] == [self.model_dd]]
        if not cands:
            ctx.notes.append("no callback shows or hides parameter groups")
            return
        e2, g = cands[0]
        ps = [p[0] for p in self.params(f)[0]]
        comp = dict(zip(ps, ev["ins"]))
        for m, (tr, cl) in runs.items():
            used = {l[3:] for k, x in self.table(tr).items() for l in x[0] if l.startswith("ui:")}
            vis, seen = {}, False
            for val, st, where in self.one(g, self.params(g)[0], {self.params(g)[0][0][0]: C(m)}, NONE):
                for a in val:
                    seq = self.w.eng.exact_atom(a, st)
                    if seq is None or len(seq) != len(e2["outs"]):
                        continue
                    seen = True
                    for oid, v in zip(e2["outs"], seq):
                        for x in v:
                            o = st.get(x.p) if x.k == "obj" else None
                            vv = const1(o.attrs["visible"]) if o is not None and "visible" in o.attrs else None
                            if vv is not None:
                                vis.setdefault(oid, set()).add(vv)
            if not seen:
                continue
            for u in sorted(used):
                oid = comp.get(u)
                pa = const1(self.attr(oid, "__parents__")) if oid else None
                for g2 in pa or ():
                    ctx.count("inputs_with_group")
                    base = const1(self.attr(g2, "visible") or EMPTY)
                    if vis.get(g2, {base}) & {False}:
                        ctx.find("input-hidden", "%s:%s" % (m, u), "%s uses input %s, which is hidden when the model is selected" % (m, u), e2["where"])

    def polls(self, e, f):
        """takes one state and updates it"""
        return (len(e["ins"]) == 1 and const1(self.attr(e["ins"][0], "__kind__") or EMPTY) == "State" and e["ins"][0] in e["outs"]
                and not isinstance(f.node, ast.Lambda))

    # ------------------------------------------------------------ statuses
    def statuses(self):
        ctx, an, w = self.ctx, self.an, self.w
        # numeric codes of the job service
        w.st = self.st.fork()
        w.eng.load("kd.job")
        codes = []
        for a in w.get("kd.job", "JOB_STATUS_MAP"):
            o = w.st.get(a.p) if a.k == "obj" else None
            codes += [(k, const1(v)) for k, v in (o.attrs if o is not None else {}).items()]
        ev, f = self.callback(self.polls)
        outs = ev["outs"]
        job = ev["ins"][0]
        ji = outs.index(job) if job in outs else None
        if ji is None:
            return
        for code, text in codes + [(99, None)]:
            self.code(ev, f, ji, code, text)
        self.service_failure(ev, f, ji)
        self.results(ev, f, ji)

    def job_info(self, code):
        an = self.an

        def status(s):
            d = {"status": C(code), "spendTime": C("3s")}
            inner = an.inst(s, d, "dict")
            return an.inst(s, {"data": inner}, "dict")
        return status

    def code(self, ev, f, ji, code, text):
        ctx, an, w = self.ctx, self.an, self.w
        ctx.count("job_codes")
        an.status = self.job_info(code)
        w.st = self.st.fork()
        w.eng.memo.clear()
        try:
            r = w.call(w.get("kd.job", "check_job"), [C(7), TOP()], {}, "cj")
            fin = fail = shown = None
            for a in r or ():
                o = w.st.get(a.p) if a.k == "obj" else None
                if o is not None and o.kind == "dict":
                    fin, fail, shown = [const1(o.attrs.get(k, EMPTY)) for k in ("finished", "failed", "status_text")]
            if not isinstance(fin, bool) or not isinstance(fail, bool):
                ctx.find("status-code", str(code), "whether a job with status %s finished or failed is not decided (finished=%r, failed=%r)" % (code, fin, fail), "kd/job.py")
                return
            want_fin, want_fail = text == "Finished", text in ("Failed", "Error")
            if (fin, fail) != (want_fin, want_fail):
                ctx.find("status-code", str(code), "status %s (%s) is reported as finished=%s failed=%s" % (code, text, fin, fail), "kd/job.py")
            if text is not None and shown != text:
                ctx.find("status-code", "%s:text" % code, "status %s is shown as %r, not %r" % (code, shown, text), "kd/job.py")
            # the poll callback: a job that ended is dropped, one that runs is kept
            n = len(ev["outs"])
            an.result = lambda s: an.inst(s, {"status": C("success"), "equation": C("EQ"), "elapsed_seconds": C(3)}, "dict")
            for val, st, where in self.poll(f):
                for a in val:
                    seq = self.w.eng.exact_atom(a, st)
                    if seq is None or len(seq) != n:
                        continue
                    ctx.count("poll_results")
                    kept = {x.p[1] if x.k == "const" else "?" for x in seq[ji]}
                    if not fin and not fail and None in kept:
                        ctx.find("job-state", "running", "polling a job with status %s (%s) forgets the job" % (code, text), where)
                    if (fin or fail) and kept != {None} and self.answered(seq, st):
                        ctx.find("job-state", "ended", "polling a job with status %s (%s) keeps the job" % (code, text), where)
        finally:
            an.status = an.result = None

    def answered(self, seq, st):
        """not the answer of a failed status request (which keeps the job for another try)"""
        txt = const1(seq[0])
        return isinstance(txt, str)

    def poll(self, f):
        ps, var = self.params(f)
        return self.one(f, ps, {ps[0][0]: C(7)}, TOP())

    def service_failure(self, ev, f, ji):
        pass

    def results(self, ev, f, ji):
        """every status the runner can write is told apart by the reader"""
        ctx, an, w = self.ctx, self.an, self.w
        written = set()
        w.st = self.st.fork()
        w.eng.load("kd.runner")
        for err in (NONE, mk("const", ("str", "boom")), TOP()):
            an.dumps = []
            w.st = self.st.fork()
            w.eng.memo.clear()
            w.call(w.get("kd.runner", "save_output"), [C("out"), C("dlga"), C("d"), C("EQ"), C(1.0), w.dict({}, None, "p")], {"error": err}, "so")
            for v, st, ch, wh in an.dumps:
                for a in v:
                    o = st.get(a.p) if a.k == "obj" else None
                    s = o.attrs.get("status") if o is not None else None
                    cs = consts(s) if s else None
                    if not cs:
                        ctx.find("status-written", "unknown", "the runner writes a result without a known status", wh)
                    else:
                        written |= {(c, const1(err) is not None or err != NONE) for c in cs}
                        if err == NONE and len(cs) > 1:
                            ctx.find("status-written", "ambiguous", "a successful run may be written with status %s" % sorted(cs), wh)
        good = {c for c, e in written if not e}
        bad = {c for c, e in written if e}
        if good & {c for c, e in written if e and c not in good} or not good or not bad - good:
            ctx.find("status-written", "same", "success and failure are not written with different statuses", "kd/runner.py")
            return
        ctx.count("statuses_written", len(good | bad))
        # a missing result file is a failure, too
        shown = {}
        an.status = self.job_info(10)
        an.present = True
        try:
            for s in sorted(good | bad):
                an.result = lambda st, s=s: an.inst(st, {"status": C(s), "equation": C("EQ"), "error": C("boom"), "elapsed_seconds": C(3)}, "dict")
                res = set()
                for val, st, where in self.poll(f):
                    for a in val:
                        seq = w.eng.exact_atom(a, st)
                        if seq is not None and len(seq) == len(ev["outs"]):
                            res.add(tuple(self.plain(x, st) for x in seq))
                shown[s] = (res, where)
        finally:
            an.status = an.result = None
            an.present = False
        for b in sorted(bad - good):
            for g in good:
                # texts shown for a successful job must not be shown for a failed one
                gt = {self.texts(t) for t in shown[g][0]}
                bt = {self.texts(t) for t in shown[b][0]}
                ctx.count("status_pairs")
                special = {t for t in gt & bt if any("EQ" in x for x in t)}
                if special:
                    ctx.find("status-ignored", "%s/%s" % (g, b), "a job whose result has status %r is shown like one with status %r" % (b, g), shown[b][1])

    def texts(self, t):
        return tuple(x for x in t if isinstance(x, str))

    def plain(self, v, st):
        out = []
        for a in v:
            if a.k == "const":
                out.append(repr(a.p[1]))
            elif a.k == "obj" and a.p[0] == "ui":
                o = st.get(a.p)
                out.append("upd(%s)" % ", ".join("%s=%s" % (k, self.plain(o.attrs[k], st)) for k in sorted(o.attrs) if k[:2] != "__"))
            else:
                out.append(a.k)
        return "|".join(sorted(out))

    # ------------------------------------------------------------ the command line
    def cli(self):
        ctx, an, w = self.ctx, self.an, self.w
        runners = []
        w.eng.load("kd.runner")
        for a in w.get("kd.runner", "RUNNERS"):
            o = w.st.get(a.p) if a.k == "obj" else None
            runners += [k for k in (o.attrs if o is not None else {}) if isinstance(k, str)]
        if not runners:
            raise AnalysisBroken("kd.runner.RUNNERS not found")
        for m in runners:
            st = self.st.fork()
            p = HObj("dict", None, NOL)
            p.complete, p.summ = False, TOP()
            st.new(("cliparams", m), p)
            tr, exits, rets, dumps = self.main({"model": C(m), "dataset_name": mk("top", None, frozenset(["ui:dataset_name"])), "params": mk("obj", ("cliparams", m))}, st)
            ctx.count("runner_models")
            if not [t for t in tr if t[1] != "__init__"]:
                ctx.find("model-not-run", "cli:" + m, "the runner lists %s but runs no estimator for it" % m, "kd/runner.py")
            if not rets:
                ctx.find("terminal-status", "cli:" + m, "the runner never ends normally for %s" % m, "kd/runner.py")
            for val, s, where in rets:
                ctx.count("runner_ends")
                if "wrote" not in s.must:
                    ctx.find("terminal-status", "return:" + m, "the runner can end normally without having written a result", where)
                if any(x == "wrote:error" for x in s.may):
                    ctx.find("terminal-status", "return-error:" + m, "the runner ends with exit status 0 after writing an error", where)
            failed = False
            for code, s, where in exits:
                ctx.count("runner_ends")
                zero = {c for c in (consts(code) or ["?"]) if c in (0, None, "?")}
                if "wrote" not in s.must and zero:
                    ctx.find("terminal-status", "exit:" + m, "the runner can exit with status 0 without having written a result", where)
                if "wrote:error" in s.may and zero:
                    ctx.find("terminal-status", "exit-error:" + m, "the runner can exit with status 0 after an error", where)
                if "wrote:error" in s.must:
                    failed = True
            if not failed:
                ctx.find("terminal-status", "no-error-result:" + m, "no failing run of %s ends with an error result and a non-zero exit status" % m, "kd/runner.py")
            for what, chain, where in an.escapes:
                if "kd.runner:main" in chain and what.startswith(("KD_", "kd.")):
                    ctx.find("terminal-status", "escape:" + what, "%s can fail without an error result being written" % what, where)
        # an unknown model is refused
        tr, exits, rets, dumps = self.main({"model": C("no such model"), "params": TOP()}, self.st)
        if rets or tr or not exits:
            ctx.find("model-not-run", "cli:unknown", "the runner accepts an unknown model", "kd/runner.py")
        # every key a job configuration carries is one the runner reads
        read = set()

    def upload(self):
        """a data file given to submit_gpu_job is announced in the configuration under a key the runner reads"""
        ctx, an, w = self.ctx, self.an, self.w
        an.dumps, an.watch = [], set()
        w.st = self.st.fork()
        w.eng.load("kd.job")
        w.eng.memo.clear()
        w.call(w.get("kd.job", "submit_gpu_job"), [C("dlga"), NONE, w.dict({}, None, "p"), TOP()], {"dataset_file": mk("top", None, frozenset(["ui:file"]))}, "sub")
        hit = False
        for v, st, ch, wh in list(an.dumps):
            for a in v:
                o = st.get(a.p) if a.k == "obj" else None
                if o is not None and "dataset_file" in o.attrs:
                    hit = True
        ctx.count("job_configurations")
        if an.dumps and not hit:
            ctx.find("job-file", "dataset_file", "a data file handed to submit_gpu_job is uploaded, but the job configuration does not name it, so the runner never reads it", an.dumps[0][3])

    def files(self):
        """the files the job leaves are the files its readers look for, in the directory they look in"""
        ctx, an, w = self.ctx, self.an, self.w
        w.st = self.st.fork()
        w.eng.load("kd.runner")
        w.eng.load("kd.job")
        an.files = []
        w.call(w.get("kd.runner", "save_output"), [C("DIR"), C("dlga"), C("d"), C("EQ"), C(1.0), w.dict({}, None, "p")], {}, "so")
        w.call(w.get("kd.runner", "save_viz"), [C("DIR"), TOP()], {}, "sv")
        wrote = {p for k, p, wh in an.files if k == "w" and isinstance(p, str)}
        unknown = any(k == "w" and p is None for k, p, wh in an.files)
        an.files, an.remote = [], []
        an.result = lambda s: an.inst(s, {"status": C("success"), "equation": C("EQ"), "elapsed_seconds": C(3)}, "dict")
        w.st = self.st.fork()
        w.eng.memo.clear()
        r = w.call(w.get("kd.job", "download_result"), [C(7), TOP(), C("DIR")], {}, "dl")
        down = [x for x in an.remote if "remote_target" in x[1]]
        reads = [(p, wh) for k, p, wh in an.files if k == "r" and isinstance(p, str)]
        # what the app looks for in the directory it is given
        ev, f = self.callback(self.polls)
        an.status = self.job_info(10)
        an.files = []
        an.savedir = "DIR"
        self.poll(f)
        base = {p.rpartition("/")[0] for k, p, wh in an.files if isinstance(p, str)}
        for k, p, wh in an.files:
            if k == "r" and isinstance(p, str) and "/" in p:
                reads.append(("DIR/" + p.rpartition("/")[2], wh))
        an.status = an.result = an.savedir = None
        for p, wh in reads:
            ctx.count("result_files_read")
            if p.startswith("DIR/") and p not in wrote and unknown:
                ctx.count("undecided")
            elif p.startswith("DIR/") and p not in wrote:
                ctx.find("file-name", p[4:], "the reader looks for %s, which the runner does not write (%s)" % (p[4:], sorted(x[4:] for x in wrote)), wh)
        # directory
        an.remote, an.dumps = [], []
        w.st = self.st.fork()
        w.eng.memo.clear()
        w.call(w.get("kd.job", "submit_gpu_job"), [C("dlga"), C("burgers"), w.dict({}, None, "p2"), TOP()], {"project_id": C(5)}, "sub2")
        dirs = {}
        for v, st, ch, wh in an.dumps:
            for a in v:
                o = st.get(a.p) if a.k == "obj" else None
                if o is not None and "output_dir" in o.attrs:
                    dirs["configuration"] = const1(o.attrs["output_dir"])
        for nm, kw, st, wh in an.remote:
            for a in kw.get("inputs", EMPTY):
                o = st.get(a.p) if a.k == "obj" else None
                if o is not None and "output_dir" in o.attrs:
                    dirs["job inputs"] = const1(o.attrs["output_dir"])
        for nm, kw, st, wh in down:
            dirs["download"] = const1(kw["remote_target"])
        ctx.count("output_directories", len(dirs))
        if len({v for v in dirs.values() if v is not None}) > 1:
            ctx.find("file-name", "output_dir", "the output directory differs: %s" % ", ".join("%s %r" % z for z in sorted(dirs.items())), "kd/job.py")

    # ------------------------------------------------------------ temporary files
    def temps(self):
        for mod in ("kd.job", "kd.runner", self.mod):
            tempfiles(self.ctx, self.w.eng.proj.mod(mod))


def tempfiles(ctx, m):
    def acq(c):
        n = ast.unparse(c.func)
        if n.endswith("mkstemp"):
            return 1
        if n.endswith("mkdtemp"):
            return -1
        if n.endswith("NamedTemporaryFile") and any(k.arg == "delete" and isinstance(k.value, ast.Constant) and not k.value.value for k in c.keywords):
            return -1
        return None

    def rel(c, names):
        n = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        if n not in ("unlink", "remove", "rmtree"):
            return False
        if names is None:
            return True
        roots = {x.id for a in list(c.args) + ([c.func.value] if isinstance(c.func, ast.Attribute) else []) for x in ast.walk(a) if isinstance(x, ast.Name)}
        return bool(roots & names)
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if not any(isinstance(c, ast.Call) and acq(c) is not None for c in ast.walk(f)):
                continue
            ctx.count("temporary_files")
            for c, kind, node in Obligations(f, acq, rel).run():
                ctx.find("temporary-file", "%s:%s:%s" % (m.name, f.name, kind), "the temporary file made in %s is left behind on %s" % (f.name, "a failure" if kind == "exception" else "return"),
                         "%s:%s" % (m.rel, getattr(node, "lineno", c.lineno)))


RULES = [
    "interface description interpreted: every callback is connected to as many inputs as it takes, each in the place of the parameter it is named after (input-count, input-order)",
    "every return of every callback, error paths included, for unknown inputs and every model, gives one value per connected output; nothing fallible runs outside its error handling (output-count, callback-raises, call-mismatch)",
    "every model offered is trained in the process, and a job's configuration, as written by the app, is run through the command line: it reaches an estimator, every parameter sent reaches it, and each estimator parameter comes from the same input as in the process (model-not-run, parameter-lost, parameter-differs, job-config)",
    "models offered for a data set are those the registry marks; inputs a model uses are visible when it is selected (model-offered, input-hidden)",
    "job service codes are classified as their text says; a running job is kept, an ended one dropped; success and error results are written with different statuses and shown differently (status-code, job-state, status-written, status-ignored)",
    "command line: every normal end has written a result, every error result exits non-zero, unknown models are refused (terminal-status)",
    "the result files the readers look for are those the runner writes, in one agreed directory (file-name)",
    "an uploaded data file is named in the configuration (job-file)",
    "temporary files are removed on every exit of the function that makes them (temporary-file)",
]

SELF = """
import gradio as gr
import os, tempfile
from kd.dataset._registry import PDE_REGISTRY
MODEL_KEYS = {"KD_SGA": "sga"}
def one(a):
    if a:
        return 1, 2
    return None
def two(b, a):
    raise ValueError("x")
def tmp(x):
    fd, p = tempfile.mkstemp()
    os.write(fd, x)
    os.unlink(p)
def build_app():
    with gr.Blocks() as app:
        a = gr.Number(value=1)
        b = gr.Number(value=1)
        c = gr.Number(value=1)
        a.change(one, inputs=[a], outputs=[a, b, c])
        b.click(two, inputs=[a, b], outputs=[a])
        c.click(two, inputs=[a], outputs=[a])
    return app
"""


def run(ctx):
    for r in RULES:
        ctx.rule(r)
    from ..report import Ctx
    c = Ctx("C14")
    c.seen = set()
    ov = Overlay(PROJECT(), "kdsa_self", SELF)
    x = Wiring(c, ov, "kdsa_self")
    x.check()
    tempfiles(c, ov.mod("kdsa_self"))
    rules = {f["rule"] for f in c.findings.values()}
    need = {"output-count", "input-order", "input-count", "callback-raises", "temporary-file"}
    if not need <= rules:
        raise AnalysisBroken("self-test: %s did not fire" % sorted(need - rules))
    ctx.count("self_test_rules_fired", len(need))

    def part(name):
        def go(sub):
            p = Protocol(sub)
            if len(p.events) < 5:
                raise AnalysisBroken("only %d callbacks connected" % len(p.events))
            getattr(p, name)()
        return go
    report.run_scenarios(ctx, [(n, part(n)) for n in ("check", "models_and_params", "statuses", "cli", "upload", "files", "temps")])
    ctx.floor("events", 5)
    ctx.floor("models_offered", 4)
    ctx.floor("job_configurations", 2)
    ctx.floor("parameters_compared", 10)
    ctx.floor("job_codes", 10)
    ctx.floor("runner_models", 2)
    ctx.floor("values_compared", 100)
    ctx.floor("result_files_read", 3)
    ctx.floor("output_directories", 2)
