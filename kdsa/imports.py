"""What an import loads: external packages loaded by module-level code, transitively, with the guards around them."""
import ast
from .refs import *

CATCH = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}


class ImportEffects:
    """for every module and function: {(ext root, guarded)} with one example chain each"""

    def __init__(self, proj, refs=None):
        self.p = proj
        self.r = refs or Refs(proj)
        self.seen = set()         # (module or function, guarded) already executed in this process
        self.chain = ()

    def process(self, mod):
        """effects of importing mod in a fresh process (its parent packages included)"""
        self.seen, self.chain, out = set(), (), {}
        self.module(mod, False, out)
        return out

    def module(self, mod, guarded, out):
        if (mod, guarded) in self.seen or (mod, False) in self.seen or not self.p.has(mod):
            return
        self.seen.add((mod, guarded))
        par = mod.rpartition(".")[0]
        if par and self.p.has(par):
            self.module(par, guarded, out)
        if mod in self.p.index:
            out.setdefault(("@" + mod, guarded), self.chain)
            m = self.p.mod(mod)
            self.block(m, m.tree.body, guarded, out, ())

    def block(self, m, stmts, guarded, out, fstack):
        for s in stmts:
            self.stmt(m, s, guarded, out, fstack)

    def stmt(self, m, s, guarded, out, fstack):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k is not None]:
                self.exprs(m, d, guarded, out, fstack)
            return
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.exprs(m, d, guarded, out, fstack)
            self.block(m, s.body, guarded, out, fstack)
            return
        if isinstance(s, ast.If):
            t = s.test
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
                self.block(m, s.orelse, guarded, out, fstack)
                return
            if attr_chain(t) and attr_chain(t)[-1] == "TYPE_CHECKING":
                self.block(m, s.orelse, guarded, out, fstack)
                return
        if isinstance(s, ast.Try):
            names = set()
            for h in s.handlers:
                if h.type is None:
                    names.add("Exception")
                else:
                    names |= {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(h.type) if isinstance(x, ast.Attribute)}
            # a handler that only re-raises is no guard
            rer = all(any(isinstance(x, ast.Raise) for x in h.body) for h in s.handlers) if s.handlers else True
            self.block(m, s.body, guarded or (bool(names & CATCH) and not rer), out, fstack)
            for h in s.handlers:
                self.block(m, h.body, guarded, out, fstack)
            self.block(m, s.orelse, guarded, out, fstack)
            self.block(m, s.finalbody, guarded, out, fstack)
            return
        if isinstance(s, ast.Import):
            for a in s.names:
                self.load(m, s, a.name, guarded, out)
            return
        if isinstance(s, ast.ImportFrom):
            b = m.resolve_relative(s.level, s.module)
            self.load(m, s, b, guarded, out)
            for a in s.names:
                if a.name != "*" and self.p.has(b + "." + a.name):
                    self.load(m, s, b + "." + a.name, guarded, out)
                elif a.name != "*" and self.p.has(b) and b in self.p.index and self.r.info(b).dynamic and a.name not in self.r.info(b).defs:
                    self.served(b, a.name, guarded, out, m, s)
            return
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list):
                self.block(m, b, guarded, out, fstack)
        for f, v in ast.iter_fields(s):
            if f in ("body", "orelse", "finalbody", "handlers"):
                continue
            for e in (v if isinstance(v, list) else [v]):
                if isinstance(e, ast.AST):
                    self.exprs(m, e, guarded, out, fstack)

    def served(self, b, name, guarded, out, m, s):
        """a name obtained through the package's __getattr__: follow the branch that mentions it"""
        g = self.r.info(b).defs["__getattr__"][1]
        mb = self.p.mod(b)
        for x in g.body:
            if isinstance(x, ast.If):
                if any(isinstance(c, ast.Constant) and c.value == name for c in ast.walk(x.test)):
                    self.block(mb, x.body, guarded, out, (id(g),))
                    return
        self.block(mb, g.body, guarded, out, (id(g),))

    def load(self, m, s, name, guarded, out):
        root = name.split(".")[0]
        saved = self.chain
        self.chain = saved + ((m.name, getattr(s, "lineno", 0)),)
        if self.p.has(root):
            if self.p.has(name):
                self.module(name, guarded, out)
        else:
            out.setdefault((root, guarded), self.chain)
        self.chain = saved

    def exprs(self, m, e, guarded, out, fstack):
        for x in ast.walk(e):
            if isinstance(x, (ast.Lambda,)):
                continue
            if isinstance(x, ast.Call):
                c = attr_chain(x.func)
                if c is None:
                    continue
                if c[-1] in ("import_module", "__import__") and x.args and isinstance(x.args[0], ast.Constant) and isinstance(x.args[0].value, str):
                    nm = x.args[0].value
                    if nm.startswith("."):
                        lv = len(nm) - len(nm.lstrip("."))
                        nm = m.resolve_relative(lv, nm[lv:])
                    self.load(m, x, nm, guarded, out)
                    continue
                r, k = self.r.resolve_chain(m.name, c)
                self.called(r, guarded, out, fstack)

    def called(self, r, guarded, out, fstack):
        if not r or len(fstack) > 12:
            return
        if r[0] == "def":
            mod, f = r[1]
            self.func(mod, f, guarded, out, fstack)
        elif r[0] == "method":
            self.func(r[1][0], r[1][1], guarded, out, fstack)
        elif r[0] == "class":
            mod, cl = r[1]
            d = self.r.class_member(mod, cl, "__init__")
            if d and d[0] == "method":
                self.func(d[1][0], d[1][1], guarded, out, fstack)

    def func(self, mod, f, guarded, out, fstack=()):
        if (f, guarded) in self.seen:
            return
        self.seen.add((f, guarded))
        self.block(self.p.mod(mod), f.body, guarded, out, fstack + (id(f),))
