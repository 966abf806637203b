"""C16: every internal reference resolves (imports, names, attributes, call arguments, package resources)."""
import ast, os, sys
from ..worlds import *
from ..values import *
from ..refs import *
from ..report import AnalysisBroken
from ..selftest import Overlay

ROOTS = ("kd", "kd.viz", "kd.model", "kd.dataset", "kd.data", "kd.runner", "kd.job", "app")
# optional names of the installed third-party stack that are known to be gone
EXT_GONE = {"collections": {"Mapping", "MutableMapping", "Iterable", "Sequence", "Callable", "Set", "Hashable", "MutableSequence", "Iterator"},
            "numpy": NUMPY_GONE, "scipy": {"interp", "randn", "rand", "arange", "array"},
            "inspect": {"getargspec"}, "time": {"clock"}, "scipy.integrate": {"simps", "trapz_", "cumtrapz_"} - {"simps"},
            "string": {"maketrans", "letters", "lowercase", "uppercase"}, "os": {"getcwdu", "errno"},
            "itertools": {"izip", "imap", "ifilter"}, "math": set(), "torch": {"gels", "symeig", "lstsq_"},
            "asyncio": {"coroutine"}, "locale": {"format"}, "configparser": {"SafeConfigParser"}}


def import_guarded(n):
    p, c = getattr(n, "_parent", None), n
    while p is not None and not isinstance(p, ast.Module):
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                names = [x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)] if h.type is not None else ["Exception"]
                if set(names) & {"ImportError", "ModuleNotFoundError"}:
                    return True
                # a broad handler excuses a missing module only around a probe, i.e. little else than the import
                if set(names) & {"Exception", "BaseException"} and len(p.body) <= 2:
                    return True
        c, p = p, getattr(p, "_parent", None)
    return False


def attr_guarded(n, catch=("AttributeError", "Exception", "BaseException", "NameError", "TypeError")):
    """inside a try body that handles the failure"""
    p, c = getattr(n, "_parent", None), n
    while p is not None and not isinstance(p, ast.Module):
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                names = [x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)] if h.type is not None else ["Exception"]
                if set(names) & set(catch):
                    return True
        c, p = p, getattr(p, "_parent", None)
    return False


def in_type_checking(n):
    p = getattr(n, "_parent", None)
    while p is not None:
        if isinstance(p, ast.If) and "TYPE_CHECKING" in ast.dump(p.test):
            return True
        p = getattr(p, "_parent", None)
    return False


def main_block(n):
    p, c = getattr(n, "_parent", None), n
    while p is not None:
        if isinstance(p, ast.If) and isinstance(p.test, ast.Compare) and isinstance(p.test.left, ast.Name) and p.test.left.id == "__name__":
            return True
        c, p = p, getattr(p, "_parent", None)
    return False


class Check:
    def __init__(self, ctx, proj):
        self.ctx, self.p, self.r = ctx, proj, Refs(proj)
        self.reach_mods = {}

    # ------------------------------------------------------------- reachability over imports
    def edges(self, m):
        out = []
        for n in ast.walk(m.tree):
            if main_block(n):
                continue
            if isinstance(n, ast.Import):
                for a in n.names:
                    out.append(a.name)
            elif isinstance(n, ast.ImportFrom):
                b = m.resolve_relative(n.level, n.module)
                out.append(b)
                for a in n.names:
                    out.append(b + "." + a.name)
            elif isinstance(n, ast.Call) and attr_chain(n.func) and attr_chain(n.func)[-1] in ("import_module", "__import__"):
                for c in n.args:
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        nm = c.value
                        if nm.startswith("."):
                            lv = len(nm) - len(nm.lstrip("."))
                            nm = m.resolve_relative(lv, nm[lv:])
                        out.append(nm)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and m.is_pkg and (n.value.startswith(".") or n.value.startswith("kd.")) and n.value.replace(".", "a").replace("_", "a").isalnum():
                nm = n.value
                if nm.startswith("."):
                    lv = len(nm) - len(nm.lstrip("."))
                    nm = m.resolve_relative(lv, nm[lv:])
                if self.p.has(nm):
                    out.append(nm)
        return out

    def reach(self, roots):
        seen, todo = set(), [r for r in roots if self.p.has(r)]
        while todo:
            n = todo.pop()
            if n in seen or not self.p.has(n):
                continue
            seen.add(n)
            if "." in n:
                todo.append(n.rpartition(".")[0])
            if n in self.p.index:
                todo += self.edges(self.p.mod(n))
        return {n for n in seen if n in self.p.index}

    # ------------------------------------------------------------- rules
    def live_roots(self, mods):
        roots = []
        for mn in ("kd", "kd.model", "kd.viz", "kd.viz.api", "kd.dataset", "kd.data"):
            if not self.p.has(mn):
                continue
            names = list(self.all_list(self.p.mod(mn)) or []) or [k for k in self.r.info(mn).defs if not k.startswith("_")]
            for nm in list(names) + ["__getattr__", "__dir__"]:
                r = self.r.exports(mn, nm)
                if r and r[0] in ("def", "class"):
                    roots.append((r[1][0], r[1][1]))
            for x in ast.walk(self.p.mod(mn).tree):
                # names served by a module-level __getattr__
                if isinstance(x, ast.ImportFrom):
                    b = self.p.mod(mn).resolve_relative(x.level, x.module)
                    for a in x.names:
                        r = self.r.exports(b, a.name) if self.p.has(b) and a.name != "*" else None
                        if r and r[0] in ("def", "class"):
                            roots.append((r[1][0], r[1][1]))
        for mn in ("kd.runner", "kd.job", "app"):
            if self.p.has(mn):
                for k, (kind, v) in self.r.info(mn).defs.items():
                    if kind in ("def", "class"):
                        roots.append((mn, v))
        return roots

    def all_list(self, m):
        """the value of __all__, folded from literals, + and names bound to literals"""
        env, out = {}, None
        def val(e):
            if isinstance(e, (ast.List, ast.Tuple)):
                r = []
                for x in e.elts:
                    if isinstance(x, ast.Constant):
                        r.append(x.value)
                    elif isinstance(x, ast.Starred) and val(x.value) is not None:
                        r += val(x.value)
                return r
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                a, b = val(e.left), val(e.right)
                return (a or []) + (b or [])
            if isinstance(e, ast.Name):
                return env.get(e.id)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "sorted", "tuple") and e.args:
                return val(e.args[0])
            if isinstance(e, ast.Dict):
                return [k.value for k in e.keys if isinstance(k, ast.Constant)]
            return None
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = val(s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                env[s.target.id] = val(s.value)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and env.get(s.target.id) is not None:
                env[s.target.id] = env[s.target.id] + (val(s.value) or [])
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                c = attr_chain(s.value.func)
                if c and len(c) == 2 and c[1] in ("extend", "append") and env.get(c[0]) is not None and s.value.args:
                    v = val(s.value.args[0]) if c[1] == "extend" else ([s.value.args[0].value] if isinstance(s.value.args[0], ast.Constant) else None)
                    env[c[0]] = env[c[0]] + (v or [])
        return env.get("__all__")

    def is_live(self, n):
        p, c = n, None
        while p is not None and not isinstance(p, ast.Module):
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and p is not n and (c in p.body):
                return id(p) in self.live
            if isinstance(p, ast.If) and main_block(c or n):
                return False
            c, p = p, getattr(p, "_parent", None)
        return True

    def in_annotation(self, n):
        """annotation that is never evaluated"""
        fut = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in self.m.tree.body)
        c, p = n, getattr(n, "_parent", None)
        while p is not None and not isinstance(p, ast.Module):
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if c is p.returns:
                    return fut
                return False
            if isinstance(p, ast.arg) and c is p.annotation:
                return fut
            if isinstance(p, ast.AnnAssign) and c is p.annotation:
                q = getattr(p, "_parent", None)
                while q is not None and not isinstance(q, (ast.Module, ast.ClassDef)):
                    if isinstance(q, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        return True
                    q = getattr(q, "_parent", None)
                return fut
            c, p = p, getattr(p, "_parent", None)
        return False

    def run(self, mods):
        from ..reach import Reach
        self.live = Reach(self.r, sorted(mods)).run(self.live_roots(mods))
        for name in sorted(mods):
            m = self.p.mod(name)
            self.m, self.mi = m, self.r.info(name)
            self.ctx.count("modules")
            self.all_names(m)
            for n in ast.walk(m.tree):
                if not isinstance(n, (ast.ImportFrom, ast.Import, ast.Name, ast.Attribute, ast.Call, ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.ctx.count("functions", id(n) in self.live)
                    continue
                if in_type_checking(n) or not self.is_live(n) or main_block(n) or self.in_annotation(n):
                    continue
                if isinstance(n, ast.ImportFrom):
                    self.import_from(n)
                elif isinstance(n, ast.Import):
                    self.import_(n)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    self.name(n)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.attribute(n)
                if isinstance(n, ast.Call):
                    self.call(n)
                    self.resource(n)

    def find(self, rule, n, what, msg):
        q = qual_of(n)
        self.ctx.find(rule, "%s:%s|%s" % (self.m.name, q, what), "%s.%s: %s" % (self.m.name, q, msg), "%s:%d" % (self.m.rel, getattr(n, "lineno", 0)))

    def all_names(self, m):
        names = self.all_list(m)
        for v in names or ():
            if not isinstance(v, str):
                continue
            e = next((c for c in ast.walk(m.tree) if isinstance(c, ast.Constant) and c.value == v), m.tree)
            self.ctx.count("advertised_names")
            if self.r.exports(m.name, v) is None:
                self.find("advertised-name-missing", e, v, "__all__ advertises %s, which the module does not define" % v)
            elif self.r.info(m.name).dynamic and v not in self.r.info(m.name).defs:
                self.lazy(m, v, e)

    def lazy(self, m, v, e):
        """name served by a module-level __getattr__: it must be mentioned there or in a table it reads"""
        g = self.r.info(m.name).defs["__getattr__"][1]
        def consts(t):
            return {c.value for c in ast.walk(t) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
        known = consts(g)
        for x in ast.walk(g):
            if isinstance(x, ast.Name) and x.id != "__all__":
                d = self.r.info(m.name).defs.get(x.id)
                if d and d[0] == "var":
                    for s in m.tree.body:
                        if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == x.id for t in ast.walk(s)):
                            known |= consts(s)
                elif d and d[0] == "def":
                    known |= consts(d[1])
        for x in ast.walk(g):
            if isinstance(x, ast.ImportFrom) and self.m.resolve_relative(x.level, x.module) == m.name and v in [a.name for a in x.names] and v in known:
                self.find("advertised-name-recursive", x, v, "__getattr__ serves %s by importing it from the package itself, which asks __getattr__ again" % v)
        if v not in known and not self.p.has(m.name + "." + v):
            self.find("advertised-name-missing", e, v, "__all__ advertises %s, which neither the module nor its __getattr__ knows" % v)

    def import_(self, n):
        for a in n.names:
            root = a.name.split(".")[0]
            if self.p.has(root):
                self.ctx.count("internal_imports")
                if not self.p.has(a.name) and not import_guarded(n):
                    self.find("import-missing", n, a.name, "imports module %s, which does not exist" % a.name)

    def import_from(self, n):
        base = self.m.resolve_relative(n.level, n.module)
        if not self.p.has(base.split(".")[0]) and base.split(".")[0] not in EXT_GONE:
            if n.level:
                self.find("import-missing", n, base, "relative import leaves the package")
            return
        for a in n.names:
            if not self.p.has(base.split(".")[0]):
                if a.name in EXT_GONE.get(base, ()) and not import_guarded(n):
                    self.find("external-name-removed", n, base + "." + a.name, "imports %s from %s, which no longer provides it" % (a.name, base))
                continue
            self.ctx.count("internal_imports")
            if import_guarded(n):
                continue
            if not self.p.has(base):
                self.find("import-missing", n, base, "imports from module %s, which does not exist" % base)
            elif a.name != "*" and self.r.exports(base, a.name) is None:
                self.find("import-missing", n, base + "." + a.name, "imports %s from %s, which does not define it" % (a.name, base))

    def scope_names(self, n):
        """names visible at n from enclosing function/class/comprehension scopes"""
        out = set()
        c, p = n, getattr(n, "_parent", None)
        first = True
        while p is not None and not isinstance(p, ast.Module):
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if c in p.body or c in (p.args,) and False:
                    out |= own_locals(p)
                    first = False
            elif isinstance(p, ast.Lambda):
                if c is p.body:
                    out |= own_locals(p)
            elif isinstance(p, ast.ClassDef):
                if first and c in p.body:
                    out |= set(self.r.class_attrs(p)[0])
            elif isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in p.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            out.add(x.id)
            c, p = p, getattr(p, "_parent", None)
        return out

    def name(self, n):
        self.ctx.count("names")
        if n.id in BUILTIN or n.id in self.mi.defs:
            return
        if n.id in self.scope_names(n):
            return
        if self.mi.star:
            if self.r.exports(self.m.name, n.id) is not None:
                return
        if attr_guarded(n, ("NameError", "Exception", "BaseException")):
            return
        # walrus and match targets at module level
        for x in ast.walk(self.m.tree):
            if isinstance(x, ast.NamedExpr) and x.target.id == n.id:
                return
        self.find("name-undefined", n, n.id, "uses the name %s, which nothing defines" % n.id)

    def attribute(self, n):
        c = attr_chain(n)
        if c is None or isinstance(getattr(n, "_parent", None), ast.Attribute) and n._parent.value is n:
            return
        loc = self.scope_names(n)
        if c[0] in loc:
            # a local that is bound once by an import
            self.local_import(n, c)
            if c[0] in ("self", "cls"):
                self.self_attr(n, c)
            return
        r, k = self.r.resolve_chain(self.m.name, c)
        self.ctx.count("attribute_chains")
        if r is None and k > 0:
            if attr_guarded(n):
                return
            self.find("attribute-missing", n, ".".join(c), "takes %s, but %s has no %s" % (".".join(c), ".".join(c[:k]), c[k]))
        elif r and r[0] == "ext":
            self.ext(n, r[1])
        elif r and r[0] == "unknown" and 0 < k < len(c):
            # attribute of a class of the project
            r0, _ = self.r.resolve_chain(self.m.name, c[:k])
            if r0 and r0[0] == "class":
                mr, ok = self.r.mro(*r0[1])
                if ok and not attr_guarded(n):
                    have = set()
                    for _, cl in mr:
                        b, s = self.r.class_attrs(cl)
                        have |= set(b)
                        if "*" in s:
                            return
                        have |= {x for x in s}
                    have |= self.class_ext_attrs().get(mr[0][1].name, set())
                    if c[k] not in have and not (c[k].startswith("__") and c[k].endswith("__")) and c[k] not in ("mro",) \
                            and not self.enum_like(mr):
                        self.find("attribute-missing", n, ".".join(c), "takes %s, but class %s has no %s" % (".".join(c), c[k - 1], c[k]))

    def class_ext_attrs(self):
        """attributes assigned on a class or instance from outside: Name.attr = ... (by class name and by any receiver)"""
        t = getattr(self, "_cea", None)
        if t is None:
            t = {}
            for m in self.p.all():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                        t.setdefault(x.value.id, set()).add(x.attr)
            self._cea = t
        return t

    def ext_store_attrs(self):
        """attribute names stored through any receiver that is not self"""
        t = getattr(self, "_esa", None)
        if t is None:
            t = set()
            for m in self.p.all():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                        t.add(x.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                        t.add(x.args[1].value)
            self._esa = t
        return t

    def enum_like(self, mr):
        return any(any("Enum" in ast.dump(b) for b in c.bases) for _, c in mr)

    def ext(self, n, q):
        mod, _, name = q.rpartition(".")
        if name in EXT_GONE.get(mod, ()) and not attr_guarded(n):
            self.find("external-name-removed", n, q, "uses %s, which the installed version no longer provides" % q)

    def local_import(self, n, c):
        """local names bound by exactly one import statement of the enclosing function"""
        f = n
        while f is not None and not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = getattr(f, "_parent", None)
        if f is None:
            return
        tgt, other = None, False
        for x in ast.walk(f):
            if isinstance(x, ast.Import):
                for a in x.names:
                    if (a.asname or a.name.split(".")[0]) == c[0]:
                        t = a.name if a.asname else a.name.split(".")[0]
                        other |= tgt is not None and tgt != t
                        tgt = t
            elif isinstance(x, ast.ImportFrom):
                for a in x.names:
                    if (a.asname or a.name) == c[0]:
                        t = self.m.resolve_relative(x.level, x.module) + "." + a.name
                        other |= tgt is not None and tgt != t
                        tgt = t
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == c[0]:
                other = True
            elif isinstance(x, ast.arg) and x.arg == c[0]:
                other = True
        if tgt is None or other:
            return
        if not self.p.has(tgt):
            base = tgt.rpartition(".")[0]
            if not self.p.has(tgt.split(".")[0]) and len(c) > 1:
                self.ext(n, tgt + "." + ".".join(c[1:]))
            return
        r = ("mod", tgt)
        for k, a in enumerate(c[1:], 1):
            if r[0] != "mod" or not self.p.has(r[1]):
                return
            r2 = self.r.exports(r[1], a)
            if r2 is None:
                if not attr_guarded(n):
                    self.find("attribute-missing", n, ".".join(c), "takes %s, but %s has no %s" % (".".join(c), r[1], a))
                return
            r = r2

    # ---- self
    def method_of(self, n):
        """(class, function) when n sits in a plain method and self is its first parameter"""
        p, fn = getattr(n, "_parent", None), None
        while p is not None and not isinstance(p, ast.Module):
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = p
                if isinstance(getattr(p, "_parent", None), ast.ClassDef):
                    cls = p._parent
                    if p.args.args and p.args.args[0].arg == "self" and not self.r.is_static(p):
                        return cls, p
                    return None
            p = getattr(p, "_parent", None)
        return None

    def subclasses(self, mod, cls):
        t = getattr(self, "_sub", None)
        if t is None:
            t = {}
            for m in self.p.all():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.ClassDef):
                        for mm, c in self.r.mro(m.name, x)[0][1:]:
                            t.setdefault(id(c), []).append((m.name, x))
            self._sub = t
        return t.get(id(cls), [])

    def have(self, mod, cls):
        key = (id(cls),)
        c = self.__dict__.setdefault("_have", {})
        if key in c:
            return c[key]
        have, ok = set(), True
        fam = [(mod, cls)] + self.subclasses(mod, cls)
        for mm, cc in fam:
            mr, o = self.r.mro(mm, cc)
            ok = ok and o
        # a class made with a base chosen at run time may combine this class with any sibling
        for x in ast.walk(self.p.mod(mod).tree):
            if isinstance(x, ast.ClassDef) and any(b is None for b in self.r.bases(mod, x)):
                ok = False
        for mm, cc in fam:
            mr, o = self.r.mro(mm, cc)
            for m2, k in mr:
                b, s = self.r.class_attrs(k)
                if "*" in s or "__getattr__" in b or "__getattribute__" in b:
                    ok = False
                have |= set(b) | set(s)
                for d in k.decorator_list:
                    pass
        c[key] = (have, ok)
        return c[key]

    def self_attr(self, n, c):
        if c[0] != "self" or len(c) < 2:
            return
        mo = self.method_of(n)
        if mo is None:
            return
        cls, f = mo
        have, ok = self.have(self.m.name, cls)
        self.ctx.count("self_reads")
        if not ok:
            return
        a = c[1]
        if a in have or a.startswith("__") and a.endswith("__") or a in self.ext_store_attrs():
            return
        if attr_guarded(n) or self.dead_guard(n):
            return
        # guarded by hasattr(self, "a")
        p = n
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.ClassDef)):
            p = getattr(p, "_parent", None)
            if isinstance(p, (ast.If, ast.IfExp, ast.BoolOp)) and "hasattr" in ast.dump(p) and repr(a) in ast.dump(p):
                return
        self.find("self-attribute-missing", n, a, "reads self.%s, which no method or base of %s sets" % (a, cls.name))

    def none_only(self):
        """attribute names that are only ever stored as None, anywhere"""
        t = getattr(self, "_no", None)
        if t is None:
            some, none = set(), set()
            for m in self.p.all():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        p = getattr(x, "_parent", None)
                        if isinstance(p, ast.Assign) and x in p.targets and isinstance(p.value, ast.Constant) and p.value.value is None:
                            none.add(x.attr)
                        else:
                            some.add(x.attr)
                    elif isinstance(x, ast.keyword) and x.arg:
                        pass
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                        some.add(x.args[1].value)
            t = self._no = none - some
        return t

    def dead_guard(self, n):
        """in a branch that needs an attribute which is always None"""
        c, p = n, getattr(n, "_parent", None)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(p, ast.If) and c in p.body:
                t = p.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.IsNot) and isinstance(t.left, ast.Attribute) \
                        and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and t.left.attr in self.none_only():
                    return True
            c, p = p, getattr(p, "_parent", None)
        return False

    # ---- calls
    def call(self, n):
        c = attr_chain(n.func)
        if c is None:
            return
        loc = self.scope_names(n)
        tgt, skip = None, 0
        if c[0] == "self" and len(c) == 2:
            mo = self.method_of(n)
            if mo is None:
                return
            cls, f = mo
            have, ok = self.have(self.m.name, cls)
            d = self.r.class_member(self.m.name, cls, c[1])
            if d is None or d[0] != "method":
                return
            # overridden in a subclass or stored on the instance: every candidate must reject
            cands = [d[1]]
            for mm, cc in self.subclasses(self.m.name, cls):
                d2 = self.r.class_member(mm, cc, c[1])
                if d2 and d2[0] == "method":
                    cands.append(d2[1])
            if c[1] in self.instance_stores(cls) or c[1] in self.ext_store_attrs():
                return
            errs = []
            for _, fn, cl in cands:
                if self.r.decorated(fn):
                    return
                errs.append(self.r.bind_error(fn, n, 0 if self.r.is_static(fn) else 1))
            self.ctx.count("bound_calls")
            if all(errs):
                self.bad_call(n, "self." + c[1], errs[0])
            return
        if c[0] in loc:
            r = self.local_callee(n, c)
        else:
            r, k = self.r.resolve_chain(self.m.name, c)
            if r is None or k < len(c) and r[0] != "method" and r[0] != "class" and r[0] != "def":
                return
            if k < len(c) - 1:
                return
        if not r:
            return
        if r[0] == "def":
            mod, fn = r[1]
            if fn.decorator_list or self.rebound(mod, fn.name):
                return
            self.ctx.count("bound_calls")
            e = self.r.bind_error(fn, n, 0)
            if e:
                self.bad_call(n, ".".join(c), e)
        elif r[0] == "method":
            _, fn, cl = r[1]
            if self.r.decorated(fn):
                return
            isc = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in fn.decorator_list)
            e = self.r.bind_error(fn, n, 1 if isc else 0)
            self.ctx.count("bound_calls")
            if e:
                self.bad_call(n, ".".join(c), e)
        elif r[0] == "class":
            mod, cl = r[1]
            e = self.ctor_error(mod, cl, n)
            if e:
                self.bad_call(n, ".".join(c), e)

    def ctor_error(self, mod, cl, n):
        mr, ok = self.r.mro(mod, cl)
        if not ok and not any(True for _, k in mr if "__init__" in self.r.class_attrs(k)[0]):
            return None
        if any("__new__" in self.r.class_attrs(k)[0] for _, k in mr):
            return None
        if cl.decorator_list:
            if any("dataclass" in ast.dump(d) for d in cl.decorator_list):
                return self.dataclass_error(mod, cl, n, mr)
            return None
        for m2, k in mr:
            b = self.r.class_attrs(k)[0]
            if "__init__" in b:
                fn = b["__init__"]
                if not isinstance(fn, ast.FunctionDef) or fn.decorator_list:
                    return None
                self.ctx.count("bound_calls")
                return self.r.bind_error(fn, n, 1)
            if [x for x in self.r.bases(m2, k) if x is None or (x[0] == "ext" and x[1] not in Refs.SAFE_EXT)]:
                return None
            if any(x and x[0] == "ext" and x[1] != "builtins.object" and x[1] != "abc.ABC" for x in self.r.bases(m2, k)):
                return None
            if k.decorator_list:
                return None
        return None

    def dataclass_error(self, mod, cl, n, mr):
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return None
        fields, req = [], []
        for m2, k in reversed(mr):
            for s in k.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if "ClassVar" in ast.dump(s.annotation):
                        continue
                    if s.value is not None and "init" in ast.dump(s.value) and "value=False" in ast.dump(s.value):
                        continue
                    if s.target.id not in fields:
                        fields.append(s.target.id)
                    if s.value is None:
                        req.append(s.target.id)
        if "__init__" in self.r.class_attrs(cl)[0]:
            return None
        self.ctx.count("bound_calls")
        given = fields[: len(n.args)]
        if len(n.args) > len(fields):
            return "takes %d arguments, %d given" % (len(fields), len(n.args))
        for k in n.keywords:
            if k.arg not in fields:
                return "unexpected keyword argument %r" % k.arg
            if k.arg in given:
                return "multiple values for %r" % k.arg
            given = given + [k.arg]
        miss = [x for x in req if x not in given]
        return "missing argument %s" % ", ".join(miss) if miss else None

    def rebound(self, mod, name):
        """module-level name bound more than once"""
        c = self.__dict__.setdefault("_reb", {})
        if mod not in c:
            cnt = {}
            def scan(body):
                for s in body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        cnt[s.name] = cnt.get(s.name, 0) + 1
                    else:
                        for x in ast.walk(s):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                cnt[x.id] = cnt.get(x.id, 0) + 1
                            if isinstance(x, (ast.Import, ast.ImportFrom)):
                                for a in x.names:
                                    nm = a.asname or a.name
                                    cnt[nm] = cnt.get(nm, 0) + 1
                            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                                cnt[x.name] = cnt.get(x.name, 0) + 1
            scan(self.p.mod(mod).tree.body)
            for x in ast.walk(self.p.mod(mod).tree):
                if isinstance(x, ast.Global):
                    for nm in x.names:
                        cnt[nm] = cnt.get(nm, 0) + 1
            c[mod] = cnt
        return c[mod].get(name, 0) > 1

    def instance_stores(self, cls):
        return {k for k, v in self.r.class_attrs(cls)[1].items() if isinstance(v, ast.Attribute)}

    def local_callee(self, n, c):
        """local name bound once, by an import or a nested def"""
        f = n
        while f is not None and not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = getattr(f, "_parent", None)
        if f is None:
            return None
        tgt, cnt = None, 0
        g = f
        while g is not None and not isinstance(g, ast.Module):
            if isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) and c[0] in own_locals(g):
                for x in ast.walk(g):
                    if isinstance(x, (ast.ImportFrom, ast.Import)):
                        for a in x.names:
                            if (a.asname or a.name.split(".")[0]) == c[0]:
                                cnt += 1
                                tgt = self.r.exports(self.m.resolve_relative(x.level, x.module), a.name) \
                                    if isinstance(x, ast.ImportFrom) and self.p.has(self.m.resolve_relative(x.level, x.module)) else \
                                    (("mod", a.name) if isinstance(x, ast.Import) and a.asname and self.p.has(a.name) else None)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == c[0] and x is not g:
                        cnt += 1
                        tgt = ("def", (self.m.name, x)) if isinstance(x, ast.FunctionDef) and isinstance(x._parent, (ast.FunctionDef,)) else None
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == c[0]:
                        cnt += 1
                    elif isinstance(x, ast.arg) and x.arg == c[0]:
                        cnt += 1
                break
            g = getattr(g, "_parent", None)
        if cnt != 1 or tgt is None:
            return None
        for a in c[1:]:
            if tgt and tgt[0] == "mod" and self.p.has(tgt[1]):
                tgt = self.r.exports(tgt[1], a)
            elif tgt and tgt[0] == "class":
                tgt = self.r.class_member(tgt[1][0], tgt[1][1], a)
            else:
                return None
        return tgt

    # ---- package resources
    READERS = {"open": 0, "numpy.load": 0, "numpy.loadtxt": 0, "numpy.genfromtxt": 0, "scipy.io.loadmat": 0, "torch.load": 0,
               "pandas.read_csv": 0, "pickle.load": None, "builtins.open": 0, "json.load": None, "kd.dataset._base.load_mat_file": 0}

    def resource(self, n):
        c = attr_chain(n.func)
        if c is None or not n.args:
            return
        nm = ".".join(c)
        if c[0] not in self.scope_names(n):
            r, k = self.r.resolve_chain(self.m.name, c)
            if r and r[0] == "ext":
                nm = r[1]
            elif r and r[0] == "def":
                nm = r[1][0] + "." + r[1][1].name
        if self.READERS.get(nm) != 0:
            return
        if nm.endswith("open"):
            mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
            if mode is not None and not (isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) <= set("rbt")):
                return
        paths = self.fold(n.args[0], 0)
        for p in sorted(paths or ()):
            if p.startswith(self.p.repo):
                self.ctx.count("package_files_read")
                if not os.path.exists(p) and not attr_guarded(n, ("FileNotFoundError", "OSError", "Exception")):
                    rel = os.path.relpath(p, self.p.repo)
                    self.find("package-file-missing", n, rel, "reads %s, which is not shipped" % rel)

    def fold(self, e, d):
        """the set of strings an expression made of constants, the location of this file and joins can take, or None"""
        if d > 8:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return {e.value}
        if isinstance(e, ast.Name):
            if e.id == "__file__":
                return {self.m.path}
            return self.fold_name(e, d)
        if isinstance(e, ast.Attribute):
            if e.attr == "parent":
                b = self.fold(e.value, d + 1)
                return b and {os.path.dirname(x) for x in b}
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                mo = self.method_of(e)
                if mo is None:
                    return None
                out = set()
                fam = [(self.m.name, mo[0])] + self.subclasses(self.m.name, mo[0])
                seen = set()
                for mm, cc in fam:
                    for m2, k in self.r.mro(mm, cc)[0]:
                        if id(k) in seen:
                            continue
                        seen.add(id(k))
                        for x in ast.walk(k):
                            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == e.attr for t in x.targets):
                                v = self.fold(x.value, d + 1)
                                if v is None:
                                    return None
                                out |= v
                return out or None
            r, k = self.r.resolve_chain(self.m.name, attr_chain(e)) if attr_chain(e) else (None, 0)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            a, b = self.fold(e.left, d + 1), self.fold(e.right, d + 1)
            return {os.path.join(x, y) for x in a for y in b} if a and b else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.fold(e.left, d + 1), self.fold(e.right, d + 1)
            return {x + y for x in a for y in b} if a and b else None
        if isinstance(e, ast.IfExp):
            a, b = self.fold(e.body, d + 1), self.fold(e.orelse, d + 1)
            return a | b if a and b else None
        if isinstance(e, ast.Call):
            c = attr_chain(e.func)
            if c is None and isinstance(e.func, ast.Attribute):
                # Path(...).resolve()
                if e.func.attr in ("resolve", "absolute", "as_posix"):
                    return self.fold(e.func.value, d + 1)
                if e.func.attr == "joinpath":
                    b = self.fold(e.func.value, d + 1)
                    for a in e.args:
                        v = self.fold(a, d + 1)
                        b = {os.path.join(x, y) for x in b for y in v} if b and v else None
                    return b
                return None
            if c is None:
                return None
            t = c[-1]
            if t == "join":
                out = {""}
                for a in e.args:
                    v = self.fold(a, d + 1)
                    if not v:
                        return None
                    out = {os.path.join(x, y) for x in out for y in v}
                return {os.path.normpath(x) for x in out}
            if t in ("dirname",):
                v = self.fold(e.args[0], d + 1)
                return v and {os.path.dirname(x) for x in v}
            if t in ("realpath", "abspath", "normpath", "Path", "_Path", "str", "fspath", "resolve") and len(e.args) == 1:
                return self.fold(e.args[0], d + 1)
            if t == "files" and len(e.args) == 1:
                v = self.fold(e.args[0], d + 1)
                return v and {os.path.join(self.p.repo, *x.split(".")) for x in v if self.p.has(x)} or None
        return None

    def fold_name(self, e, d):
        f = e
        while f is not None and not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
            f = getattr(f, "_parent", None)
        for scope in ([f] if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) else []) + [self.m.tree]:
            if isinstance(scope, ast.Module):
                if self.rebound(self.m.name, e.id):
                    return None
                for s in scope.body:
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id:
                        return self.fold(s.value, d + 1)
                k = self.r.info(self.m.name).defs.get(e.id)
                if k and k[0] == "from" and self.p.has(k[1][0]):
                    for s in self.p.mod(k[1][0]).tree.body:
                        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == k[1][1] \
                                and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                            return {s.value.value}
            elif e.id in own_locals(scope):
                vals, n = [], 0
                for x in ast.walk(scope):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == e.id:
                        n += 1
                        p = x._parent
                        vals.append(p.value if isinstance(p, ast.Assign) and x in p.targets else None)
                if not n or any(v is None for v in vals) or any(a.arg == e.id for a in ast.walk(scope) if isinstance(a, ast.arg)):
                    return None
                out = set()
                for v in vals:
                    r = self.fold(v, d + 1)
                    if r is None:
                        return None
                    out |= r
                return out
        return None

    def bad_call(self, n, callee, e):
        if attr_guarded(n, ("TypeError", "Exception", "BaseException")):
            return
        self.find("call-does-not-bind", n, callee + "|" + e, "calls %s, which cannot accept the arguments: %s" % (callee, e))


SELF = """
import os
import numpy as np
from .dataset import PDEDataset
__all__ = ["good", "absent"]
class A:
    def __init__(self, a, *, b=1):
        self.a = a
    def m(self, x):
        return self.a + self.missing
    def k(self):
        return self.m(1, 2)
def good(x):
    y = x + 1
    return A(y, b=2).m(y)
def bad_name(x):
    return undefined_thing + x
def bad_call(x):
    return good(x, z=1)
def bad_ctor():
    return A()
def bad_np(x):
    return x.astype(np.float)
def bad_import():
    from kd.nowhere import thing
    return thing
def bad_file():
    return open(os.path.join(os.path.dirname(__file__), "no_such_file.json"))
"""
EXPECT = {"advertised-name-missing|kd._kdsa_self:<module>|absent", "name-undefined|kd._kdsa_self:bad_name|undefined_thing",
          "call-does-not-bind|kd._kdsa_self:bad_call|good|unexpected keyword argument 'z'",
          "call-does-not-bind|kd._kdsa_self:bad_ctor|A|missing argument a",
          "call-does-not-bind|kd._kdsa_self:A.k|self.m|takes 1 positional arguments, 2 given",
          "self-attribute-missing|kd._kdsa_self:A.m|missing", "external-name-removed|kd._kdsa_self:bad_np|numpy.float",
          "import-missing|kd._kdsa_self:bad_import|kd.nowhere"}


def selftest():
    from ..report import Ctx
    from ..worlds import PROJECT
    sub = Ctx("C16")
    ov = Overlay(PROJECT(), "kd._kdsa_self", SELF)
    ov.mods["kd._kdsa_self"].pkg = "kd"
    ck = Check(sub, ov)
    ck.live_roots = lambda mods: [("kd._kdsa_self", n) for n in ov.mod("kd._kdsa_self").tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    ck.run({"kd._kdsa_self"})
    got = {k for k in sub.findings if "_kdsa_self" in k}
    if got != EXPECT:
        raise AnalysisBroken("C16 self-test: missing %s, extra %s" % (sorted(EXPECT - got), sorted(got - EXPECT)))


def run(ctx):
    from ..worlds import PROJECT
    ctx.rule("reference resolution over the syntax trees of every module reachable (imports, function-level and lazy ones included) from "
             "kd, kd.viz, kd.model, kd.dataset, kd.data, kd.runner, kd.job and app.py, restricted to functions reachable from the public "
             "interface by resolved names / method names: (a) imports of shipped modules and names exist, (b) every name read is bound in an "
             "enclosing scope, the module or builtins, (c) attributes taken from shipped modules and classes exist, (d) self.x is stored or "
             "defined somewhere in the class family, (e) arguments bind to the signature of every callee that resolves to shipped code, "
             "(f) every name in __all__ is provided, (g) names removed from the installed stdlib/numpy are not used, (h) files read relative "
             "to the package are shipped")
    ctx.assumptions.append("a call through a method name reaches every live class defining that method; names bound dynamically (exec, "
                           "globals()[...]) are not followed")
    selftest()
    ck = Check(ctx, PROJECT())
    mods = ck.reach(ROOTS)
    ck.run(mods)
    ctx.count("scenarios")
    ctx.floor("modules", 50)
    ctx.floor("functions", 400)
    ctx.floor("bound_calls", 400)
    ctx.floor("names", 10000)
    for m in sorted(mods)[::9]:
        ctx.sample("module " + m)
