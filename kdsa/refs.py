"""Reference resolution over the syntax trees: imports, global names, attributes of project modules and of self,
and the arguments of calls whose callee is known."""
import ast, builtins, symtable, sys

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__class__", "__module__",
                                "__qualname__", "__loader__", "__builtins__", "__annotations__", "__dict__"}
# names removed from the installed numpy (2.x)
NUMPY_GONE = {"float", "int", "bool", "object", "complex", "str", "NaN", "Inf", "NAN", "PINF", "NINF", "product", "cumproduct",
              "alltrue", "sometrue", "float_", "complex_", "unicode_", "string_", "infty", "Infinity", "mat", "asfarray", "msort",
              "row_stack_", "in1d_", "cast", "source", "find_common_type", "issubclass_", "round_", "safe_eval", "set_string_function"}


def attr_chain(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        out.append(e.id)
        return out[::-1]
    return None


class ModInfo:
    """module-level names of a project module"""

    def __init__(self, proj, name):
        self.m = proj.mod(name)
        self.name = name
        self.defs = {}            # name -> ("def"/"class"/"import"/"importfrom"/"var", node)
        self.star = []
        self.dynamic = False      # module defines __getattr__
        self.collect(self.m.tree.body)
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.defs.setdefault(x, ("var", n))

    def collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[s.name] = ("def", s)
                if s.name == "__getattr__":
                    self.dynamic = True
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ("class", s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.defs[a.asname or a.name.split(".")[0]] = ("import", (a.name if a.asname else a.name.split(".")[0]))
            elif isinstance(s, ast.ImportFrom):
                base = self.m.resolve_relative(s.level, s.module)
                for a in s.names:
                    if a.name == "*":
                        self.star.append(base)
                    else:
                        self.defs[a.asname or a.name] = ("from", (base, a.name))
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        self.defs.setdefault(n.id, ("var", n))
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        self.defs.setdefault(n.name, ("var", n))
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(s, f, None)
                    if isinstance(b, list):
                        self.collect(b)
                for h in getattr(s, "handlers", []) or []:
                    self.collect(h.body)
                for c in getattr(s, "cases", []) or []:
                    self.collect(c.body)


class Refs:
    def __init__(self, proj):
        self.p = proj
        self.infos = {}

    def info(self, name):
        i = self.infos.get(name)
        if i is None:
            i = self.infos[name] = ModInfo(self.p, name)
        return i

    # ------------------------------------------------------------- module members
    def exports(self, mod, name, seen=()):
        """resolve mod.name to ("def"|"class"|"var"|"mod"|"ext"|"unknown", payload) or None if it does not exist"""
        if mod in self.p.nspkgs:
            sub = mod + "." + name
            return ("mod", sub) if self.p.has(sub) else None
        if not self.p.has(mod):
            return ("ext", mod + "." + name)
        i = self.info(mod)
        d = i.defs.get(name)
        if d is not None:
            k, v = d
            if k in ("def", "class"):
                return (k, (mod, v))
            if k == "import":
                return ("mod", v) if self.p.has(v) else ("ext", v)
            if k == "from":
                base, nm = v
                if (mod, name) in seen:
                    return ("unknown", None)
                if not self.p.has(base.split(".")[0]):
                    return ("ext", base + "." + nm)
                if not self.p.has(base):
                    return ("unknown", None)      # reported at the import itself
                r = self.exports(base, nm, seen + ((mod, name),))
                return r if r is not None else ("unknown", None)
            return ("var", (mod, v))
        sub = mod + "." + name
        if self.p.has(sub):
            return ("mod", sub)
        for s in i.star:
            if not self.p.has(s.split(".")[0]):
                return ("unknown", None)
            if self.p.has(s) and (mod, name) not in seen:
                r = self.exports(s, name, seen + ((mod, name),))
                if r is not None:
                    return r
        if i.dynamic:
            return ("unknown", None)
        if name in ("__file__", "__name__", "__doc__", "__path__", "__package__", "__dict__", "__spec__"):
            return ("unknown", None)
        return None

    def resolve_chain(self, mod, chain, local=()):
        """resolve a dotted name used in module mod"""
        if chain[0] in local:
            return ("unknown", None), 0
        r = self.exports(mod, chain[0])
        if r is None:
            return (("ext", "builtins." + chain[0]) if chain[0] in BUILTIN else None), 0
        for n, a in enumerate(chain[1:], 1):
            if r[0] == "mod":
                r2 = self.exports(r[1], a) if self.p.has(r[1]) else ("ext", r[1] + "." + a)
                if r2 is None:
                    return None, n
                r = r2
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + a)
            elif r[0] == "class":
                d = self.class_member(r[1][0], r[1][1], a)
                return (d or ("unknown", None)), n
            else:
                return ("unknown", None), n
        return r, len(chain)

    # ------------------------------------------------------------- classes
    def bases(self, mod, cls):
        out = []
        for b in cls.bases:
            c = attr_chain(b)
            if c is None:
                out.append(None)
                continue
            enc = self.enclosing_class_names(cls)
            r = self.resolve_chain(mod, c)[0] if c[0] not in enc else None
            out.append(r[1] if r and r[0] == "class" else (("builtins.object",) if r == ("ext", "builtins.object") else (r if r and r[0] == "ext" else None)))
        return out

    def enclosing_class_names(self, cls):
        p = getattr(cls, "_parent", None)
        names = set()
        while p is not None and not isinstance(p, ast.Module):
            for n in ast.walk(p):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
            p = getattr(p, "_parent", None)
        return names

    SAFE_EXT = ("builtins.object", "abc.ABC", "typing.Protocol", "typing.Generic", "enum.Enum", "builtins.Exception", "builtins.ValueError",
                "builtins.RuntimeError")

    def mro(self, mod, cls, seen=None):
        """project classes in the hierarchy; second item False when some base is not analysable"""
        seen = seen if seen is not None else []
        if any(c is cls for _, c in seen):
            return seen, True
        seen.append((mod, cls))
        ok = not any(k.arg == "metaclass" and not self.known_meta(mod, k.value) for k in cls.keywords)
        for b in self.bases(mod, cls):
            if b is None:
                ok = False
            elif b == ("builtins.object",):
                pass
            elif b[0] == "ext":
                if b[1] not in self.SAFE_EXT:
                    ok = False
            else:
                ok = self.mro(b[0], b[1], seen)[1] and ok
        return seen, ok

    def known_meta(self, mod, e):
        c = attr_chain(e)
        if c and c[-1] == "ABCMeta":
            return True
        r = self.resolve_chain(mod, c)[0] if c else None
        return bool(r and r[0] == "class")

    def class_attrs(self, cls):
        """names bound in the class body -> node; names stored through self in its methods"""
        body, selfs = {}, {}
        def scan(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    body[s.name] = s
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With, ast.Import, ast.ImportFrom)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            body[n.id] = n
                        if isinstance(n, ast.alias):
                            body[n.asname or n.name] = n
                if isinstance(s, (ast.If, ast.Try, ast.With, ast.For)):
                    for f in ("body", "orelse", "finalbody"):
                        scan(getattr(s, f, []) or [])
                    for h in getattr(s, "handlers", []) or []:
                        scan(h.body)
        scan(cls.body)
        for f in ast.walk(cls):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.args.args:
                me = f.args.args[0].arg
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id in (me, "self", "cls"):
                        selfs[n.attr] = n
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                        if isinstance(n.args[1], ast.Constant):
                            selfs[n.args[1].value] = n
                        else:
                            selfs["*"] = n
                    if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                        p = getattr(n, "_parent", None)
                        if isinstance(p, ast.Attribute) and p.attr == "update" or isinstance(p, ast.Assign) and n in p.targets or isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store):
                            selfs["*"] = n
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "vars":
                        selfs["*"] = n
        return body, selfs

    def class_member(self, mod, cls, name):
        for m, c in self.mro(mod, cls)[0]:
            b, s = self.class_attrs(c)
            if name in b:
                n = b[name]
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    return ("method", (m, n, c))
                return ("var", (m, n))
        return None

    # ------------------------------------------------------------- calls
    def is_static(self, f):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list)

    def decorated(self, f):
        return [d for d in f.decorator_list if not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "abstractmethod"))
                and not (isinstance(d, ast.Attribute) and d.attr in ("abstractmethod",))]

    def bind_error(self, f, call, skip):
        """why the call cannot bind to f (skip: implicit first parameters), or None"""
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        nd = len(a.defaults)
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            # only definite errors: an unknown keyword
            for k in call.keywords:
                if k.arg is not None and not a.kwarg and k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs]:
                    return "unexpected keyword argument %r" % k.arg
            return None
        n = len(call.args)
        if n > len(pos) and not a.vararg:
            return "takes %d positional arguments, %d given" % (len(pos), n)
        given = set(pos[:n])
        for k in call.keywords:
            if k.arg in given:
                return "multiple values for %r" % k.arg
            if k.arg in pos[: len(pos)] and k.arg not in [x.arg for x in a.posonlyargs]:
                given.add(k.arg)
            elif k.arg in [x.arg for x in a.kwonlyargs]:
                given.add(k.arg)
            elif not a.kwarg:
                return "unexpected keyword argument %r" % k.arg
        total = [x.arg for x in a.posonlyargs + a.args]
        required = total[: len(total) - nd][skip:]
        miss = [r for r in required if r not in given]
        miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
        if miss:
            return "missing argument %s" % ", ".join(miss)
        return None


def qual_of(node):
    names = []
    p = node
    while p is not None and not isinstance(p, ast.Module):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.append(p.name)
        p = getattr(p, "_parent", None)
    return ".".join(names[::-1]) or "<module>"


def func_locals(tree_node):
    """names local to each enclosing function scope of a node"""
    out = set()
    p = tree_node
    while p is not None and not isinstance(p, ast.Module):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            out |= own_locals(p)
        elif isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in p.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        out.add(n.id)
        p = getattr(p, "_parent", None)
    return out


def own_locals(f):
    r = getattr(f, "_own_locals", None)
    if r is not None:
        return r
    out = set()
    a = f.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        out.add(x.arg)
    glob = set()
    stack = list(f.body) if isinstance(f.body, list) else [f.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            stack += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        stack += list(ast.iter_child_nodes(n))
    out -= glob
    f._own_locals = out
    return out
