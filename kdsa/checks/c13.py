"""C13: which backends an import loads, and where optional backends may be imported at all."""
import ast
from ..imports import ImportEffects
from ..refs import *
from ..reach import Reach
from ..report import AnalysisBroken
from ..selftest import Overlay
from ..worlds import PROJECT

JULIA = {"pysr", "juliacall", "julia", "juliapkg"}
TFK = {"tensorflow", "keras", "tf_keras", "tensorboardX"}
PLATFORM = {"gradio", "bohrium_open_sdk"}
NUM = {"torch", "numba"}
# optional: not among the required dependencies, so nothing outside their own user may need them
LIGHT = ["kd", "kd.base", "kd.data", "kd.dataset", "kd.dataset._base", "kd.dataset._registry", "kd.model", "kd.runner", "kd.job",
         "kd.model.kd_pysr", "kd.model.kd_eqgpt"]
MODELS = {"kd.model.dlga": "dlga", "kd.model.kd_dlga": "dlga", "kd.model.kd_sga": "sga", "kd.model.kd_eqgpt": "eqgpt",
          "kd.model.kd_pysr": "pysr", "kd.model.kd_discover": "discover", "kd.model.kd_discover_regression": "discover"}
# modules that implement one model; loading them from another model drags its backend in
OWN = {"dlga": ("kd.model.dlga", "kd.model.kd_dlga", "kd.utils"), "sga": ("kd.model.kd_sga", "kd.model.sga"),
       "eqgpt": ("kd.model.kd_eqgpt", "kd.model.eqgpt"), "pysr": ("kd.model.kd_pysr",),
       "discover": ("kd.model.kd_discover", "kd.model.kd_discover_regression", "kd.model.discover")}


def owner(mod):
    best = None
    for k, pre in OWN.items():
        for p in pre:
            if k != "dlga" or p != "kd.utils":
                if mod == p or mod.startswith(p + "."):
                    best = k
    return best


def show(mod, chain):
    return " > ".join(["%s:%d" % c if c[1] else c[0] for c in chain]) or mod


class Check:
    def __init__(self, ctx, proj):
        self.ctx, self.p = ctx, proj
        self.r = Refs(proj)

    def effects(self, mod):
        return ImportEffects(self.p, self.r).process(mod)

    def forbid(self, mod, eff, roots, why, unguarded_only=False):
        for (root, g), chain in sorted(eff.items()):
            if root in roots and not (unguarded_only and g):
                self.ctx.find("backend-loaded", "%s|%s" % (mod, root), "importing %s loads %s (%s)" % (mod, root, why), show(mod, chain))
        self.ctx.count("import_obligations", len(roots))

    def run(self):
        mods = [m for m in sorted(self.p.index)]
        for m in LIGHT:
            if not self.p.has(m):
                continue
            e = self.effects(m)
            self.ctx.count("import_closures")
            self.forbid(m, e, JULIA | TFK | NUM | PLATFORM, "it must stay importable without any backend")
            for (root, g), chain in sorted(e.items()):
                if root.startswith("@") and owner(root[1:]) not in (None, MODELS.get(m)):
                    self.ctx.find("model-loaded", "%s|%s" % (m, root[1:]), "importing %s loads the model module %s" % (m, root[1:]), show(m, chain))
        for m, own in MODELS.items():
            if not self.p.has(m):
                continue
            e = self.effects(m)
            self.ctx.count("import_closures")
            self.forbid(m, e, JULIA | TFK | PLATFORM, "it belongs to another part")
            for (root, g), chain in sorted(e.items()):
                if root.startswith("@") and owner(root[1:]) not in (None, own):
                    self.ctx.find("model-loaded", "%s|%s" % (m, root[1:]), "importing the %s model loads %s of another model" % (own, root[1:]), show(m, chain))
                if root.startswith("@kd.viz"):
                    self.ctx.find("model-loaded", "%s|kd.viz" % m, "importing %s loads the plotting package, which registers other models" % m, show(m, chain))
        for m in mods:
            if m == "kd.viz" or m.startswith("kd.viz."):
                self.ctx.count("import_closures")
                e = self.effects(m)
                self.forbid(m, e, JULIA | TFK | PLATFORM, "plotting must not load it")
                for (root, g), chain in sorted(e.items()):
                    if root.startswith("@") and owner(root[1:]) == "pysr":
                        self.ctx.find("model-loaded", "%s|%s" % (m, root[1:]), "importing %s loads the PySR model" % m, show(m, chain))
        self.optional_sites()
        self.registry()
        self.lazy_package()

    def optional_sites(self):
        """every import statement of an optional backend sits in a function of its only user"""
        for m in self.public():
            for n in ast.walk(m.tree):
                names = []
                if isinstance(n, ast.Import):
                    names = [a.name.split(".")[0] for a in n.names]
                elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
                    names = [n.module.split(".")[0]]
                elif isinstance(n, ast.Call) and attr_chain(n.func) and attr_chain(n.func)[-1] in ("import_module", "__import__") and n.args \
                        and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                    names = [n.args[0].value.split(".")[0]]
                for x in names:
                    if x in JULIA:
                        self.ctx.count("optional_import_sites")
                        f = self.enclosing(n)
                        if m.name != "kd.model.kd_pysr" or f is None:
                            self.ctx.find("optional-import-site", "%s:%s|%s" % (m.name, qual_of(n), x),
                                          "%s:%s imports %s; only KD_PySR may, and only when it is used" % (m.name, qual_of(n), x), "%s:%d" % (m.rel, n.lineno))
                    elif x == "bohrium_open_sdk":
                        self.ctx.count("optional_import_sites")
                        if m.name != "kd.job" or self.enclosing(n) is None:
                            self.ctx.find("optional-import-site", "%s:%s|%s" % (m.name, qual_of(n), x),
                                          "%s:%s imports %s outside the functions that submit jobs" % (m.name, qual_of(n), x), "%s:%d" % (m.rel, n.lineno))
        # the functions that import Julia are reached from KD_PySR only by fitting, never by building the object
        if "kd.model.kd_pysr" in self.p.index:
            m = self.p.mod("kd.model.kd_pysr")
            imp = set()
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)) and (isinstance(n, ast.Import) and any(a.name.split(".")[0] in JULIA for a in n.names)
                                                                     or isinstance(n, ast.ImportFrom) and (n.module or "").split(".")[0] in JULIA):
                    f = self.enclosing(n)
                    if f is not None:
                        imp.add(f.name)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    calls = {f.name: {x.func.attr for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)} |
                             {x.func.id for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
                             for f in n.body if isinstance(f, ast.FunctionDef)}
                    for passive in ("__init__", "__repr__", "__str__", "get_params", "set_params", "equation_latex"):
                        seen, todo = set(), [passive]
                        while todo:
                            c = todo.pop()
                            if c in seen:
                                continue
                            seen.add(c)
                            todo += [x for x in calls.get(c, ()) if x in calls or x in imp]
                        self.ctx.count("import_obligations")
                        if seen & imp and passive in calls:
                            self.ctx.find("backend-loaded-early", "%s.%s" % (n.name, passive), "%s.%s reaches the import of the Julia backend" % (n.name, passive), m.rel)
            if not imp:
                raise AnalysisBroken("no deferred import of the Julia backend found in kd_pysr")

    def public(self):
        from .c16 import Check as C16, ROOTS
        from ..report import Ctx
        names = C16(Ctx("C13"), self.p).reach(ROOTS)
        return [self.p.mod(n) for n in sorted(names)]

    def enclosing(self, n):
        p = getattr(n, "_parent", None)
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return p
            p = getattr(p, "_parent", None)
        return None

    def registry(self):
        """kd.viz: importing a model for registration is contained, and the PySR resolver is only handed over, not called"""
        for m in self.p.all():
            if not (m.name == "kd.viz" or m.name.startswith("kd.viz.")):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    if isinstance(n, ast.ImportFrom):
                        b = m.resolve_relative(n.level, n.module)
                        names = [b] + [b + "." + a.name for a in n.names]
                    else:
                        names = [a.name for a in n.names]
                    own = {owner(x) for x in names} - {None}
                    # names served lazily by kd.model
                    if isinstance(n, ast.ImportFrom) and m.resolve_relative(n.level, n.module) == "kd.model":
                        own |= {{"KD_PySR": "pysr"}.get(a.name, "other") for a in n.names}
                    f = self.enclosing(n)
                    if "pysr" in own:
                        self.ctx.count("optional_import_sites")
                        if f is None:
                            self.ctx.find("optional-import-site", "%s:%s|KD_PySR" % (m.name, qual_of(n)), "%s imports the PySR model when it is loaded" % m.name, "%s:%d" % (m.rel, n.lineno))
                    if own & {"dlga", "sga", "eqgpt", "discover", "other", "pysr"} and f is not None and self.registers(f):
                        self.ctx.count("optional_import_sites")
                        if not self.contained(n, f):
                            self.ctx.find("uncontained-registration", "%s:%s|%s" % (m.name, qual_of(n), ",".join(sorted(own))),
                                          "%s:%s imports a model without containing its failure, so one missing backend disables the rest" % (m.name, qual_of(n)), "%s:%d" % (m.rel, n.lineno))

    def registers(self, f):
        return any(isinstance(x, ast.Call) and attr_chain(x.func) and attr_chain(x.func)[-1].startswith("register") for x in ast.walk(f)) \
            or any(isinstance(x, ast.Return) and isinstance(x.value, ast.Tuple) and len(x.value.elts) == 2 for x in ast.walk(f))

    def contained(self, n, f):
        c, p = n, n._parent
        while p is not None and p is not f._parent:
            if isinstance(p, ast.Try) and c in p.body:
                for h in p.handlers:
                    names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else {"Exception"}
                    if names & {"Exception", "BaseException"} and not any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                        return True
            c, p = p, getattr(p, "_parent", None)
        return False

    def lazy_package(self):
        """each model name of kd.model is served by an import of that model only"""
        for pkg in ("kd", "kd.model"):
            i = self.r.info(pkg)
            g = i.defs.get("__getattr__")
            if not g or g[0] != "def":
                continue
            f = g[1]
            for br in ast.walk(f):
                if not isinstance(br, ast.If):
                    continue
                names = {c.value for c in ast.walk(br.test) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
                out = {}
                e = ImportEffects(self.p, self.r)
                e.block(self.p.mod(pkg), br.body, False, out, (id(f),))
                own = {owner(k[0][1:]) for k in out if k[0].startswith("@")} - {None}
                self.ctx.count("import_obligations")
                want = {{"DLGA": "dlga", "KD_DLGA": "dlga", "KD_SGA": "sga", "KD_PySR": "pysr", "KD_EqGPT": "eqgpt"}.get(n, "discover" if n.startswith("KD_Discover") else None) for n in names} - {None}
                if names and "viz" not in names and own - want:
                    self.ctx.find("model-loaded", "%s.__getattr__|%s" % (pkg, ",".join(sorted(names))[:60]),
                                  "asking %s for %s loads the model(s) %s" % (pkg, sorted(names), sorted(own - want)), "%s:%d" % (self.p.mod(pkg).rel, br.lineno))


def selftest():
    from ..report import Ctx
    sub = Ctx("C13")
    base = PROJECT()
    ov = Overlay(base, "kd.model.kd_sga", "from .kd_discover import KD_Discover\nimport pysr\n")
    ov.mods["kd.model.kd_sga"].pkg = "kd.model"
    ov2 = Overlay(ov, "kd.viz.extra", "def register_default_adapters():\n    from kd.model.kd_sga import KD_SGA\n    register_adapter(KD_SGA, 1)\n")
    Check(sub, ov2).run()
    need = ["backend-loaded|kd.model.kd_sga|pysr", "model-loaded|kd.model.kd_sga|kd.model.kd_discover", "optional-import-site|kd.model.kd_sga:<module>|pysr",
            "uncontained-registration|kd.viz.extra:register_default_adapters|sga"]
    miss = [k for k in need if k not in sub.findings]
    if miss:
        raise AnalysisBroken("C13 self-test missed " + ", ".join(miss))


def run(ctx):
    ctx.rule("import closure over module-level code (functions called at module level included, lazy __getattr__ branches followed, handlers "
             "noted): kd, kd.base, kd.data, kd.dataset, kd.model, kd.runner, kd.job, KD_PySR and KD_EqGPT load no backend and no other model; no model "
             "module loads another model, the plotting package, TensorFlow or Julia; no kd.viz module loads TensorFlow, Julia or the PySR model")
    ctx.rule("every import statement of pysr/juliacall sits in a function of kd.model.kd_pysr that construction, printing and parameter access "
             "cannot reach; bohrium_open_sdk only inside functions of kd.job; registering an adapter contains the failure of the model's import")
    selftest()
    Check(ctx, PROJECT()).run()
    ctx.count("scenarios")
    ctx.floor("import_closures", 20)
    ctx.floor("optional_import_sites", 3)
    ctx.sample("closure of " + ", ".join(LIGHT))
