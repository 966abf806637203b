"""Writes to process-wide settings: which syntax-tree nodes change them, and whether the change is undone on every exit."""
import ast
from .refs import *

# canonical external callee -> kind
CALLS = {
    "os.chdir": "cwd", "os.fchdir": "cwd", "os.umask": "umask",
    "matplotlib.pyplot.rc": "rc", "matplotlib.rc": "rc", "matplotlib.pyplot.style.use": "rc", "matplotlib.style.use": "rc",
    "matplotlib.pyplot.rcdefaults": "rc", "matplotlib.rcdefaults": "rc", "matplotlib.rc_file": "rc", "matplotlib.pyplot.xkcd": "rc",
    "matplotlib.pyplot.set_cmap": "rc", "matplotlib.pyplot.ion": "interactive", "matplotlib.pyplot.ioff": "interactive",
    "matplotlib.interactive": "interactive",
    "seaborn.set": "rc", "seaborn.set_theme": "rc", "seaborn.set_style": "rc", "seaborn.set_context": "rc", "seaborn.set_palette": "rc",
    "matplotlib.use": "backend", "matplotlib.pyplot.switch_backend": "backend",
    "torch.set_default_dtype": "torch", "torch.set_default_tensor_type": "torch", "torch.set_default_device": "torch",
    "torch.set_num_threads": "torch", "torch.set_num_interop_threads": "torch", "torch.use_deterministic_algorithms": "torch",
    "torch.set_printoptions": "torch", "torch.set_grad_enabled": "torch", "torch.autograd.set_detect_anomaly": "torch",
    "torch.set_float32_matmul_precision": "torch", "torch.autograd.set_grad_enabled": "torch", "torch.cuda.set_device": "torch",
    "numpy.seterr": "nperr", "numpy.seterrcall": "nperr", "numpy.seterrobj": "nperr", "numpy.setbufsize": "nperr",
    "numpy.set_printoptions": "npprint", "numpy.set_string_function": "npprint",
    "warnings.filterwarnings": "warnings", "warnings.simplefilter": "warnings", "warnings.resetwarnings": "warnings",
    "logging.basicConfig": "logging", "logging.disable": "logging", "logging.captureWarnings": "logging", "logging.setLoggerClass": "logging",
    "logging.config.dictConfig": "logging", "logging.config.fileConfig": "logging",
    "sys.setrecursionlimit": "recursion", "threading.stack_size": "recursion",
    "locale.setlocale": "locale", "signal.signal": "signal", "signal.alarm": "signal", "faulthandler.enable": "signal",
    "gc.disable": "gc", "gc.set_threshold": "gc", "decimal.setcontext": "decimal", "multiprocessing.set_start_method": "mp",
    "torch.multiprocessing.set_start_method": "mp", "torch.multiprocessing.set_sharing_strategy": "mp",
    "pandas.set_option": "pandas", "pandas.reset_option": "pandas", "os.putenv": "env", "os.unsetenv": "env",
    "random.seed": "rng", "random.setstate": "rng", "numpy.random.seed": "rng", "numpy.random.set_state": "rng",
    "torch.manual_seed": "rng", "torch.random.manual_seed": "rng", "torch.cuda.manual_seed": "rng", "torch.cuda.manual_seed_all": "rng",
    "torch.seed": "rng", "torch.random.seed": "rng", "torch.set_rng_state": "rng", "torch.random.set_rng_state": "rng",
    "sympy.init_printing": "sympy", "tensorflow.random.set_seed": "rng", "os.nice": "nice", "sys.setswitchinterval": "switch",
}
NP_DRAWS = {"rand", "randn", "randint", "random", "random_sample", "ranf", "sample", "choice", "shuffle", "permutation", "uniform", "normal",
            "standard_normal", "beta", "binomial", "exponential", "poisson", "laplace", "lognormal", "multivariate_normal", "gamma"}
PY_DRAWS = {"random", "randint", "randrange", "uniform", "gauss", "choice", "choices", "sample", "shuffle", "normalvariate", "getrandbits",
            "betavariate", "expovariate", "triangular"}
T_DRAWS = {"rand", "randn", "randint", "randperm", "rand_like", "randn_like", "randint_like", "normal", "bernoulli", "multinomial", "poisson"}
MAPS = {"matplotlib.rcParams": "rc", "matplotlib.pyplot.rcParams": "rc", "matplotlib.rcParamsDefault": "rc", "os.environ": "env",
        "sys.path": "syspath", "sys.meta_path": "syspath", "sys.path_hooks": "syspath", "warnings.filters": "warnings"}
MUT = {"update", "setdefault", "pop", "popitem", "clear", "append", "insert", "extend", "remove", "reverse", "sort", "__setitem__"}
ATTRS = {"sys.stdout": "stdio", "sys.stderr": "stdio", "sys.stdin": "stdio", "sys.path": "syspath", "sys.argv": "argv", "sys.excepthook": "signal",
         "sys.tracebacklimit": "signal", "warnings.showwarning": "warnings", "warnings.formatwarning": "warnings"}
# context managers that undo a kind
CTX = {"matplotlib.pyplot.rc_context": {"rc"}, "matplotlib.rc_context": {"rc"}, "matplotlib.pyplot.style.context": {"rc"},
       "matplotlib.style.context": {"rc"}, "seaborn.axes_style": {"rc"}, "seaborn.plotting_context": {"rc"},
       "warnings.catch_warnings": {"warnings"}, "numpy.errstate": {"nperr"}, "numpy.printoptions": {"npprint"},
       "contextlib.chdir": {"cwd"}, "torch.random.fork_rng": {"rng"}, "contextlib.redirect_stdout": {"stdio"},
       "contextlib.redirect_stderr": {"stdio"}, "pandas.option_context": {"pandas"}, "unittest.mock.patch.dict": {"env"},
       "matplotlib.pyplot.ioff": {"interactive"}, "matplotlib.pyplot.ion": {"interactive"}, "matplotlib.pyplot.xkcd": {"rc"},
       "torch.set_grad_enabled": {"torch"}, "torch.autograd.set_grad_enabled": {"torch"}, "torch.autograd.set_detect_anomaly": {"torch"}}
# reads whose result is a copy of the setting
SAVES = {"os.getcwd": "cwd", "os.getcwdb": "cwd", "pathlib.Path.cwd": "cwd", "matplotlib.get_backend": "backend",
         "matplotlib.pyplot.get_backend": "backend", "numpy.geterr": "nperr", "numpy.geterrcall": "nperr", "numpy.get_printoptions": "npprint",
         "torch.get_default_dtype": "torch", "torch.get_default_device": "torch", "torch.is_grad_enabled": "torch", "torch.get_num_threads": "torch",
         "torch.get_rng_state": "rng", "torch.random.get_rng_state": "rng", "numpy.random.get_state": "rng", "random.getstate": "rng",
         "sys.getrecursionlimit": "recursion", "logging.getLogger": "logging", "matplotlib.is_interactive": "interactive",
         "matplotlib.pyplot.isinteractive": "interactive", "pandas.get_option": "pandas", "os.getenv": "env", "os.environ.get": "env"}
EXT_ALIASES = {"matplotlib.pylab": "matplotlib.pyplot", "pylab": "matplotlib.pyplot", "np": "numpy"}


class Effect:
    __slots__ = ("kind", "detail", "node", "arg", "how")

    def __init__(self, kind, detail, node, arg=None, how=None):
        self.kind, self.detail, self.node, self.arg, self.how = kind, detail, node, arg, how


class Effects:
    def __init__(self, refs):
        self.r, self.p = refs, refs.p
        self.al = {}

    # ------------------------------------------------------------------ naming
    def aliases(self, f):
        """local names of a function (its enclosing ones included) bound by imports or to a dotted external name: name -> dotted"""
        if f is None:
            return {}
        a = getattr(f, "_ext_alias", None)
        if a is not None:
            return a
        p = getattr(f, "_parent", None)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            p = getattr(p, "_parent", None)
        a = dict(self.aliases(p)) if p is not None else {}
        for x in own_locals(f):
            a.pop(x, None)
        for n in walk_own(f):
            if isinstance(n, ast.Import):
                for z in n.names:
                    a[z.asname or z.name.split(".")[0]] = z.name if z.asname else z.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.level == 0:
                for z in n.names:
                    a[z.asname or z.name] = (n.module or "") + "." + z.name
            elif isinstance(n, ast.ImportFrom):
                m = self.cur_mod
                for z in n.names:
                    a[z.asname or z.name] = m.resolve_relative(n.level, n.module) + "." + z.name
        f._ext_alias = a
        return a

    def dotted(self, m, e, f):
        """canonical dotted external name of an expression, or project target ("def", ...)"""
        c = attr_chain(e)
        if c is None:
            return None, None
        self.cur_mod = m
        al = self.aliases(f)
        if c[0] in al:
            full = al[c[0]].split(".") + c[1:]
            root = full[0]
            if self.p.has(root):
                # project name imported locally
                for k in range(len(full), 0, -1):
                    mn = ".".join(full[:k])
                    if self.p.has(mn):
                        r = ("mod", mn)
                        for a in full[k:]:
                            if r and r[0] == "mod":
                                r = self.r.exports(r[1], a)
                            elif r and r[0] == "class":
                                r = self.r.class_member(r[1][0], r[1][1], a)
                            elif r and r[0] == "ext":
                                r = ("ext", r[1] + "." + a)
                            else:
                                r = None
                        if r and r[0] == "ext":
                            return self.canon(r[1]), None
                        return None, r
                return None, None
            return self.canon(".".join(full)), None
        if f is not None and c[0] in func_locals(f):
            # a local variable bound once to a dotted external (rc = plt.rcParams)
            v = self.bound(f, c[0])
            if v is not None:
                d, r = self.dotted(m, v, None if isinstance(v, ast.Name) and v.id == c[0] else f)
                if d:
                    return self.canon(".".join([d] + c[1:])), None
            return None, None
        r, k = self.r.resolve_chain(m.name, c)
        if r and r[0] == "ext":
            return self.canon(r[1]), None
        if r and r[0] == "unknown" and k:
            return None, None
        if r and r[0] == "var" and k == 1:
            v = self.module_value(r[1])
            if v is not None:
                d, _ = self.dotted(self.p.mod(r[1][0]), v, None)
                if d:
                    return self.canon(".".join([d] + c[1:])), None
        return None, r

    def module_value(self, pay):
        mod, n = pay
        p = getattr(n, "_parent", None)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.value, ast.Attribute):
            return p.value
        return None

    def bound(self, f, name):
        vals = [n for n in walk_own(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
        if len(vals) == 1 and isinstance(vals[0].value, ast.Attribute):
            return vals[0].value
        return None

    def canon(self, d):
        for k, v in EXT_ALIASES.items():
            if d == k or d.startswith(k + "."):
                d = v + d[len(k):]
        return d

    # ------------------------------------------------------------------ direct effects
    def lit(self, e):
        if isinstance(e, ast.Constant):
            return repr(e.value)
        return None

    def direct(self, m, n, f):
        """effects of one expression/statement node itself (children are visited by the caller)"""
        out = []
        if isinstance(n, ast.Call):
            d, _ = self.dotted(m, n.func, f)
            a0 = n.args[0] if n.args else (n.keywords[0].value if n.keywords else None)
            if d:
                if d in CALLS and not self.as_ctx(n):
                    out.append(Effect(CALLS[d], d.rpartition(".")[2] + ":" + (self.lit(a0) or ""), n, a0, d))
                elif d.startswith("numpy.random.") and d.split(".")[-1] in NP_DRAWS and d.count(".") == 2:
                    out.append(Effect("rng", "draw:" + d, n))
                elif d.startswith("random.") and d.count(".") == 1 and d.split(".")[-1] in PY_DRAWS:
                    out.append(Effect("rng", "draw:" + d, n))
                elif d.startswith("torch.") and d.count(".") == 1 and d.split(".")[-1] in T_DRAWS and not any(k.arg == "generator" for k in n.keywords):
                    out.append(Effect("rng", "draw:" + d, n))
                elif isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    base, _ = self.dotted(m, n.func.value, f)
                    if base in MAPS:
                        out.append(Effect(MAPS[base], n.func.attr + ":" + (self.lit(a0) or ""), n, a0, base))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("setLevel", "addHandler", "removeHandler", "addFilter") and self.root_logger(m, n.func.value, f):
                out.append(Effect("logging", "root." + n.func.attr, n, a0))
            if isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                base, _ = self.dotted(m, n.args[0], f)
                if base and "." not in base or base in ("matplotlib.pyplot",):
                    out.append(Effect("patch", "setattr:%s.%s" % (base, self.lit(n.args[1]) or "?"), n, n.args[2]))
        targets = []
        if isinstance(n, ast.Assign):
            targets = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets = [n.target]
        elif isinstance(n, ast.Delete):
            targets = n.targets
        val = getattr(n, "value", None)
        for t in list(targets):
            if isinstance(t, (ast.Tuple, ast.List)):
                targets = list(targets) + list(t.elts)
        for t in targets:
            if isinstance(t, ast.Subscript):
                base, _ = self.dotted(m, t.value, f)
                if base in MAPS:
                    out.append(Effect(MAPS[base], (self.lit(t.slice) or "?"), n, val, base))
            elif isinstance(t, ast.Attribute):
                full, _ = self.dotted(m, t, f)
                if full in ATTRS:
                    out.append(Effect(ATTRS[full], full, n, val))
                elif full and full.startswith("torch.backends."):
                    out.append(Effect("torch", full, n, val))
                elif full and self.is_module(m, t.value, f):
                    out.append(Effect("patch", full, n, val))
            elif isinstance(t, ast.Name) and isinstance(n, ast.AugAssign):
                base, _ = self.dotted(m, t, f)
                if base in MAPS:
                    out.append(Effect(MAPS[base], "augmented", n, val, base))
        return out

    def is_module(self, m, e, f):
        """e names an external module (imported as such), so assigning its attribute patches it for everyone"""
        c = attr_chain(e)
        if not c:
            return False
        d, _ = self.dotted(m, e, f)
        if not d:
            return False
        al = self.aliases(f)
        if c[0] in al:
            return True
        i = self.r.info(m.name).defs.get(c[0])
        return bool(i and (i[0] == "import" or i[0] == "from")) and len(c) == 1 and not d.split(".")[-1][:1].isupper()

    def root_logger(self, m, e, f):
        if isinstance(e, ast.Call):
            d, _ = self.dotted(m, e.func, f)
            return d == "logging.getLogger" and (not e.args or isinstance(e.args[0], ast.Constant) and e.args[0].value in (None, "", "root"))
        d, _ = self.dotted(m, e, f)
        if d in ("logging.root",):
            return True
        if isinstance(e, ast.Name):
            vals = []
            if f is not None and e.id in own_locals(f):
                vals = [n.value for n in walk_own(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            else:
                dd = self.r.info(m.name).defs.get(e.id)
                if dd and dd[0] == "var":
                    p = getattr(dd[1], "_parent", None)
                    if isinstance(p, ast.Assign):
                        vals = [p.value]
            return any(isinstance(v, ast.Call) and self.root_logger(m, v, f) for v in vals)
        return False

    def as_ctx(self, n):
        p = getattr(n, "_parent", None)
        return isinstance(p, ast.withitem)

    # ------------------------------------------------------------------ undoing
    def ctx_kinds(self, m, e, f):
        """kinds undone by a context-manager expression"""
        call = e if isinstance(e, ast.Call) else None
        tgt = call.func if call else e
        d, r = self.dotted(m, tgt, f)
        if d:
            return CTX.get(d, set())
        if r and r[0] == "def":
            return self.manager_kinds(*r[1])
        if r and r[0] == "class":
            mod, c = r[1]
            x = self.r.class_member(mod, c, "__exit__")
            if x and x[0] == "method":
                out = set()
                for n in walk_own(x[1][1]):
                    out |= {q.kind for q in self.direct(self.p.mod(x[1][0]), n, x[1][1])}
                return out
        return set()

    def manager_kinds(self, mod, g):
        """a generator context manager undoes the kinds restored in a finally around its yield"""
        m = self.p.mod(mod)
        if not any((attr_chain(d) or [""])[-1] in ("contextmanager", "asynccontextmanager") for d in g.decorator_list):
            return set()
        out = set()
        for y in walk_own(g):
            if isinstance(y, (ast.Yield, ast.YieldFrom)):
                ks = None
                for kind in self.enclosing_restores(m, y, g):
                    ks = (ks or set()) | {kind}
                # yields inside a with that undoes
                for w in self.enclosing_withs(m, y, g):
                    ks = (ks or set()) | w
                out = (out & ks) if out and ks else (ks or set())
        return out

    def outer(self, f):
        p = getattr(f, "_parent", None)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            p = getattr(p, "_parent", None)
        return p

    def enclosing_withs(self, m, n, f):
        for d in getattr(f, "decorator_list", ()) or ():
            if isinstance(d, ast.Call):
                yield self.ctx_kinds(m, d, self.outer(f))      # a context manager used as a decorator
        c, p = n, getattr(n, "_parent", None)
        while p is not None and c is not f:
            if isinstance(p, (ast.With, ast.AsyncWith)):
                items = [i for i in p.items]
                stop = c if c in items else None
                if c in p.body or stop is not None:
                    for i in items:
                        if i is stop:
                            break
                        yield self.ctx_kinds(m, i.context_expr, f)
            c, p = p, getattr(p, "_parent", None)

    def enclosing_restores(self, m, n, f):
        """kinds restored by the finally clauses of the trys around n (or directly following n)"""
        c, p = n, getattr(n, "_parent", None)
        while p is not None and c is not f:
            if isinstance(p, ast.Try) and not self.within(c, p.finalbody):
                yield from self.finally_kinds(m, p, f)
            body = self.body_of(p, c)
            if body is not None:
                i = body.index(c)
                for s in body[i + 1:]:
                    if isinstance(s, ast.Try) and s.finalbody:
                        yield from self.finally_kinds(m, s, f)
                        break
                    if not self.harmless(s):
                        break
            c, p = p, getattr(p, "_parent", None)

    def within(self, c, body):
        return any(c is x for x in body)

    def body_of(self, p, c):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if isinstance(b, list) and any(c is x for x in b):
                return b
        return None

    def harmless(self, s):
        """a statement that cannot fail between the change and the try"""
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return True
        if isinstance(s, ast.Assign) and not any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp)) for x in ast.walk(s)):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return True
        if isinstance(s, (ast.Expr, ast.Assign)):        # another change of a setting
            return all(not isinstance(x, ast.Call) or self.quiet_call(x) for x in ast.walk(s))
        return False

    def quiet_call(self, c):
        d = attr_chain(c.func)
        return bool(d) and d[-1] in ("seed", "manual_seed", "filterwarnings", "simplefilter", "use", "seterr", "getcwd", "copy", "get_state", "geterr", "chdir")

    def finally_kinds(self, m, t, f):
        for s in t.finalbody:
            for n in ast.walk(s):
                for q in self.direct(m, n, f):
                    if self.restores(m, q, f, t):
                        yield q.kind
                # a project function that performs the restoring change with a saved value
                if isinstance(n, ast.Call):
                    d, r = self.dotted(m, n.func, f)
                    if r and r[0] == "def":
                        for x in walk_own(r[1][1]):
                            for q in self.direct(self.p.mod(r[1][0]), x, r[1][1]):
                                if any(self.saved(m, a, f, q.kind) for a in list(n.args) + [k.value for k in n.keywords]):
                                    yield q.kind

    def restores(self, m, q, f, t):
        """the change q (in a finally) puts back a value saved from the same setting"""
        vals = []
        if isinstance(q.node, ast.Call):
            vals = list(q.node.args) + [k.value for k in q.node.keywords]
            if not vals:
                return q.how and q.how.split(".")[-1] in ("rcdefaults",) and False
        elif q.arg is not None:
            vals = [q.arg]
        if isinstance(q.node, ast.Call) and q.node.func and isinstance(q.node.func, ast.Attribute) and q.node.func.attr in ("pop", "remove", "removeHandler"):
            return True          # takes back what was added
        if isinstance(q.node, ast.Delete):
            return True
        if not any(self.saved(m, v, f, q.kind) for v in vals):
            return False
        return self.saved_first(m, q, vals, f)

    def saved_first(self, m, q, vals, f):
        """the value put back was read before the first change of the setting in f"""
        names = {x.id for v in vals for x in ast.walk(v) if isinstance(x, ast.Name)} & own_locals(f) if f is not None else set()
        asg = [n.lineno for n in walk_own(f) if isinstance(n, ast.Assign) and any(names & names_in_target(t) for t in n.targets)] if f is not None else []
        first = [x.node.lineno for n in walk_own(f) for x in self.direct(m, n, f) if x.kind == q.kind and not self.in_finally(n, f)] if f is not None else []
        return not asg or not first or min(asg) <= min(first)

    def saved(self, m, e, f, kind, depth=0):
        """expression e is a value saved from the setting of this kind"""
        if depth > 6 or e is None:
            return False
        if isinstance(e, ast.Starred):
            return self.saved(m, e.value, f, kind, depth + 1)
        if isinstance(e, ast.Name):
            if f is None:
                return False
            scope = f
            while scope is not None:
                if e.id in own_locals(scope):
                    vals = [n for n in walk_own(scope) if isinstance(n, ast.Assign) and any(e.id in names_in_target(t) for t in n.targets)]
                    vals += [n for n in walk_own(scope) if isinstance(n, ast.NamedExpr) and n.target.id == e.id]
                    if any(self.is_loopvar(scope, e.id, m, f, kind, depth) for _ in (0,)):
                        return True
                    return bool(vals) and all(self.saved(m, v.value, scope, kind, depth + 1) for v in vals)
                p = getattr(scope, "_parent", None)
                while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    p = getattr(p, "_parent", None)
                scope = p
            return False
        if isinstance(e, ast.Call):
            d, r = self.dotted(m, e.func, f)
            if d in SAVES and SAVES[d] == kind:
                return True
            if d in CALLS and CALLS[d] == kind and d in ("numpy.seterr", "numpy.seterrcall", "signal.signal", "os.umask", "numpy.setbufsize"):
                return True                      # returns the previous value
            if d in ("builtins.dict", "builtins.list", "builtins.tuple", "builtins.str", "copy.copy", "copy.deepcopy") and e.args:
                return self.reads(m, e.args[0], f, kind) or self.saved(m, e.args[0], f, kind, depth + 1)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "get", "items", "__getitem__", "getEffectiveLevel"):
                return self.reads(m, e.func.value, f, kind) or self.saved(m, e.func.value, f, kind, depth + 1)
            if r and r[0] == "def":
                rets = [x.value for x in walk_own(r[1][1]) if isinstance(x, ast.Return)]
                mm = self.p.mod(r[1][0])
                return bool(rets) and all(self.saved(mm, x, r[1][1], kind, depth + 1) for x in rets)
            return False
        if isinstance(e, ast.Subscript):
            d, _ = self.dotted(m, e.value, f)
            if MAPS.get(d) == kind:
                return not isinstance(e.slice, ast.Slice) or True
            return self.saved(m, e.value, f, kind, depth + 1)
        if isinstance(e, ast.Dict):
            return any(k is None and self.reads(m, v, f, kind) for k, v in zip(e.keys, e.values)) or \
                bool(e.values) and all(v is not None and self.saved(m, v, f, kind, depth + 1) for v in e.values)
        if isinstance(e, ast.DictComp):
            return self.comp_full(m, e, f, kind)
        if isinstance(e, (ast.List, ast.Tuple)):
            return bool(e.elts) and all(self.saved(m, v, f, kind, depth + 1) or isinstance(v, ast.Starred) and self.reads(m, v.value, f, kind) for v in e.elts)
        if isinstance(e, ast.Attribute):
            d, _ = self.dotted(m, e, f)
            if d in ATTRS and ATTRS[d] == kind or d and d.startswith("torch.backends.") and kind == "torch":
                return True
            if kind == "patch" and d:
                return True
            if kind == "logging" and e.attr == "level":
                return True
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                return True          # saved on a context-manager object
            return False
        return False

    def is_loopvar(self, scope, name, m, f, kind, depth):
        for n in walk_own(scope):
            if isinstance(n, (ast.For, ast.AsyncFor)) and name in names_in_target(n.target):
                return self.saved(m, n.iter, f, kind, depth + 1)
        return False

    def comp_full(self, m, e, f, kind):
        """{k: rcParams[k] for k in X}: a saved copy of the keys of X"""
        if len(e.generators) == 1:
            it = e.generators[0].iter
            if self.reads(m, it, f, kind) or isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and self.reads(m, it.func.value, f, kind):
                return True
        v = e.value
        if isinstance(v, ast.Subscript):
            d, _ = self.dotted(m, v.value, f)
            if MAPS.get(d) == kind:
                # keys saved must be those that are changed
                src = ast.dump(e.generators[0].iter)
                root = e.generators[0].iter
                while isinstance(root, (ast.Call, ast.Attribute)):
                    root = root.func if isinstance(root, ast.Call) else root.value
                nm = root.id if isinstance(root, ast.Name) else None
                ups = [q for n in walk_own(f) for q in self.direct(m, n, f) if q.kind == kind and isinstance(q.node, ast.Call) and q.arg is not None
                       and not self.in_finally(q.node, f)]
                return bool(ups) and all(isinstance(q.arg, ast.Name) and q.arg.id == nm or ast.dump(q.arg) == src for q in ups)
        return False

    def in_finally(self, n, f):
        c, p = n, getattr(n, "_parent", None)
        while p is not None and c is not f:
            if isinstance(p, ast.Try) and any(c is x for x in p.finalbody):
                return True
            c, p = p, getattr(p, "_parent", None)
        return False

    def reads(self, m, e, f, kind):
        d, _ = self.dotted(m, e, f)
        return bool(d) and MAPS.get(d) == kind

    def undone(self, m, n, f, kind, eff=None):
        """the change at n is undone on every exit of f"""
        for w in self.enclosing_withs(m, n, f):
            if kind in w:
                return True
        if kind in set(self.enclosing_restores(m, n, f)):
            return True
        if eff is not None and self.in_finally(n, f):
            # the restoring change itself
            return self.restores(m, eff, f, None)
        return False


def names_in_target(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def walk_own(f):
    """nodes of a function body without nested functions and classes (lambdas included)"""
    stack = list(f.body) if isinstance(f.body, list) else [f.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        stack += list(ast.iter_child_nodes(n))
