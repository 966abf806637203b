"""Function-level reachability from the public interface (by resolved names; method calls by method name)."""
import ast
from .refs import *


class Reach:
    def __init__(self, refs, mods):
        self.r, self.p, self.mods = refs, refs.p, mods
        self.methods = {}          # method name -> [(mod, cls, fn)]
        self.live = set()          # id(node) of live functions/classes
        self.attr = set()          # attribute names mentioned in live code
        self.todo = []
        self.classes = {}          # id(cls) -> (mod, cls)
        self.live_cls = set()
        for mn in mods:
            for x in ast.walk(self.p.mod(mn).tree):
                if isinstance(x, ast.ClassDef):
                    self.classes[id(x)] = (mn, x)
                    for s in x.body:
                        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            self.methods.setdefault(s.name, []).append((mn, x, s))

    def run(self, roots):
        """roots: (mod, node) functions and classes; module bodies of every module are live"""
        for mn in self.mods:
            self.scan_body(mn, self.p.mod(mn).tree)
        for mn, n in roots:
            self.mark(mn, n, public=True)
        while self.todo:
            mn, n = self.todo.pop()
            self.scan_body(mn, n)
        return self.live

    def mark(self, mn, n, public=False):
        if isinstance(n, ast.ClassDef):
            self.mark_class(mn, n)
            if public:
                for m2, c in self.r.mro(mn, n)[0]:
                    for s in c.body:
                        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and not s.name.startswith("_"):
                            self.mark_fn(m2, s)
        else:
            self.mark_fn(mn, n)

    def mark_fn(self, mn, f):
        if id(f) in self.live:
            return
        self.live.add(id(f))
        self.todo.append((mn, f))

    def mark_class(self, mn, c):
        if id(c) in self.live_cls:
            return
        self.live_cls.add(id(c))
        for m2, k in self.r.mro(mn, c)[0]:
            if (m2, k) != (mn, c):
                self.mark_class(m2, k)
        for s in c.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if s.name.startswith("__") and s.name.endswith("__") or s.name in self.attr or s.decorator_list and not self.plain(s):
                    self.mark_fn(mn, s)
        for n, (m2, cc) in list(self.classes.items()):
            pass

    def plain(self, s):
        return all(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property", "abstractmethod") for d in s.decorator_list)

    def scan_body(self, mn, n):
        """references made by the code of n itself (nested functions become live when named; lambdas and comprehensions inline)"""
        stack = list(ast.iter_child_nodes(n)) if not isinstance(n, ast.Module) else list(n.body)
        while stack:
            x = stack.pop()
            if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and isinstance(x.test.left, ast.Name) and x.test.left.id == "__name__":
                stack += x.orelse
                continue
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                stack += x.decorator_list + x.args.defaults + [d for d in x.args.kw_defaults if d is not None]
                if not isinstance(n, ast.Module) and not isinstance(x._parent, ast.ClassDef):
                    self.mark_fn(mn, x)          # nested function
                elif x.decorator_list and not isinstance(x._parent, ast.ClassDef):
                    self.mark_fn(mn, x)          # registered by a decorator
                continue
            if isinstance(x, ast.ClassDef):
                stack += x.bases + [k.value for k in x.keywords] + x.decorator_list
                stack += [s for s in x.body]
                if x.decorator_list:
                    self.mark_class(mn, x)
                if not isinstance(n, ast.Module):
                    self.mark_class(mn, x)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.ref(mn, [x.id])
            elif isinstance(x, ast.Attribute):
                c = attr_chain(x)
                if c:
                    self.ref(mn, c)
                    for k in range(2, len(c)):
                        self.ref(mn, c[:k])
                self.attr_name(x.attr)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                self.attr_name(x.value)
            elif isinstance(x, (ast.Import, ast.ImportFrom)) and not isinstance(n, ast.Module):
                if isinstance(x, ast.ImportFrom):
                    b = self.p.mod(mn).resolve_relative(x.level, x.module)
                    for a in x.names:
                        if self.p.has(b) and a.name != "*":
                            r = self.r.exports(b, a.name)
                            if r and r[0] in ("def", "class"):
                                self.mark(r[1][0], r[1][1])
            stack += list(ast.iter_child_nodes(x))

    def attr_name(self, a):
        if a in self.attr:
            return
        self.attr.add(a)
        for mn, c, f in self.methods.get(a, ()):
            if id(c) in self.live_cls:
                self.mark_fn(mn, f)
        # functions served through modules held in variables or looked up by name
        for mn in self.mods:
            d = self.r.info(mn).defs.get(a)
            if d and d[0] == "def" and False:
                self.mark_fn(mn, d[1])

    def ref(self, mn, chain):
        r, k = self.r.resolve_chain(mn, chain)
        if r is None:
            return
        if r[0] == "def" and k >= 1:
            self.mark_fn(*r[1])
        elif r[0] == "class":
            self.mark_class(*r[1])
        elif r[0] == "method":
            self.mark_fn(r[1][0], r[1][1])
        elif r[0] == "unknown" and k > 0:
            r2, _ = self.r.resolve_chain(mn, chain[:k])
            if r2 and r2[0] == "class":
                self.mark_class(*r2[1])
