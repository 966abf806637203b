"""Flow- and context-sensitive abstract interpreter for the Python subset used in /repo.

It never runs the analysed code: it walks syntax trees over an abstract state (sets of abstract
values, an allocation-site heap, must/may facts), joins at merges and iterates loops to a bound.
"""
import ast, sys
from .values import *
from .project import Project

sys.setrecursionlimit(20000)


# attributes of an array handle, not of the numbers it holds
HANDLE_ATTRS = {"requires_grad", "grad", "name", "__doc__", "retains_grad"}


# results of library calls that are objects: never None, always true
from .values import OBJECTS

class PathDead(Exception):
    pass


class Budget(Exception):
    pass


class Func:
    __slots__ = ("node", "mod", "cls", "closure", "name", "qual", "defaults", "kwdefaults", "kind",
                 "is_gen", "deco", "cid")
    _n = 0

    def __init__(self, node, mod, cls, closure, qual, kind="func"):
        self.node, self.mod, self.cls, self.closure, self.qual = node, mod, cls, closure, qual
        self.name = getattr(node, "name", "<lambda>")
        self.kind = kind
        self.deco = []
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.defaults = []
        self.kwdefaults = {}

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return "<%s>" % self.qual


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    is_key_class = True
    __slots__ = ("node", "mod", "qual", "name", "bases", "oid", "dataclass", "ext_bases", "_mro", "fields")

    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.bases, self.ext_bases = [], []
        self.dataclass = False
        self.oid = ("class", qual)
        self._mro = None
        self.fields = []

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro = out
        return self._mro

    def all_ext(self):
        r = []
        for c in self.mro():
            r += [e for e in c.ext_bases if e != "object"]
        return r

    def __repr__(self):
        return "<class %s>" % self.qual


class HObj:
    """heap object: kind in inst/list/dict/set/module/class"""
    __slots__ = ("kind", "cls", "attrs", "elems", "summ", "l", "multi", "complete")

    def __init__(self, kind, cls=None, l=NOL):
        self.kind, self.cls, self.l = kind, cls, l
        self.attrs = {}          # attributes, or const keys of dicts
        self.elems = None        # list: exact elements
        self.summ = EMPTY        # list/set/dict: join of inexact contents
        self.multi = False
        self.complete = True     # dict: attrs are all keys (no unknown key written)

    def clone(self):
        o = HObj.__new__(HObj)
        o.kind, o.cls, o.l, o.multi, o.complete = self.kind, self.cls, self.l, self.multi, self.complete
        o.attrs = dict(self.attrs)
        o.elems = None if self.elems is None else list(self.elems)
        o.summ = self.summ
        return o


UNB = Atom("unbound", None, NOL)
MAXATOMS = 28


def widen(v):
    if len(v) <= 8:
        return v
    cs = [a for a in v if a.k == "const" and a.p[0] in ("int", "float", "str")]
    if len(cs) > 12:
        ls = NOL
        rest = set()
        for a in v:
            if a.k == "const" and a.p[0] in ("int", "float", "str"):
                ls |= a.l
            else:
                rest.add(a)
        rest.add(Atom("top", None, ls))
        v = frozenset(rest)
    if len(v) > MAXATOMS:
        keep = set(a for a in v if a.k in ("fn", "cls", "obj", "bound") and len(v) < 200)
        ls = NOL
        for a in v:
            if a not in keep:
                ls |= a.l
        if len(keep) > 3 * MAXATOMS:
            for a in keep:
                ls |= a.l
            keep = set()
        keep.add(Atom("top", None, ls))
        v = frozenset(keep)
    return v


def vjoin(a, b):
    if a is b or a == b:
        return a
    return widen(a | b)


class St:
    """own: objects written since the last fork (may be modified in place);
    base/chg: every object whose value differs from the heap `base` stands for is in chg or own"""
    __slots__ = ("eng", "envs", "heap", "own", "must", "may", "base", "chg")

    def __init__(self, eng):
        self.eng = eng
        self.envs = [{}]
        self.heap = {}
        self.own = set()
        self.must = frozenset()
        self.may = frozenset()
        self.base = object()
        self.chg = set()

    @property
    def env(self):
        return self.envs[-1]

    def fork(self):
        s = St.__new__(St)
        s.eng = self.eng
        s.envs = self.envs[:-1] + [dict(self.envs[-1])]
        s.heap = dict(self.heap)
        s.own = set()
        self.freeze()
        if len(self.chg) > 80:
            self.base = object()
            self.chg = set()
        s.base, s.chg = self.base, set(self.chg)
        s.must, s.may = self.must, self.may
        return s

    def freeze(self):
        if self.own:
            self.chg = self.chg | self.own
            self.own = set()

    def take(self, o):
        """become state o (in place)"""
        self.envs, self.heap, self.own, self.must, self.may = o.envs, o.heap, o.own, o.must, o.may
        self.base, self.chg = o.base, o.chg

    def get(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = self.eng.mheap.get(oid)
        return o

    def mut(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = self.eng.mheap[oid]
            if self.eng.loading and oid in self.eng.mheap_own:
                return o
            o = o.clone()
            self.heap[oid] = o
            self.own.add(oid)
        elif oid not in self.own:
            o = o.clone()
            self.heap[oid] = o
            self.own.add(oid)
        return o

    def new(self, oid, obj):
        old = self.get(oid)
        if old is not None and old is not obj:
            obj = join_obj(old, obj)
            obj.multi = True
        self.heap[oid] = obj
        self.own.add(oid)
        return oid


def join_obj(a, b):
    if a is b:
        return a
    o = HObj(a.kind, a.cls if a.cls is b.cls else None, a.l | b.l)
    o.multi = a.multi or b.multi
    o.complete = a.complete and b.complete
    if a.cls is not b.cls:
        o.cls = a.cls or b.cls
    for k in a.attrs.keys() | b.attrs.keys():
        x, y = a.attrs.get(k), b.attrs.get(k)
        if x is None or y is None:
            o.attrs[k] = widen((x or y) | {UNB})
        else:
            o.attrs[k] = x if x is y else vjoin(x, y)
    if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
        o.elems = [x if x is y else vjoin(x, y) for x, y in zip(a.elems, b.elems)]
        o.summ = vjoin(a.summ, b.summ)
    else:
        s = vjoin(a.summ, b.summ)
        for e in (a.elems or []) + (b.elems or []):
            s = vjoin(s, e)
        o.summ = s
        o.elems = None
        if a.kind in ("list", "set") and (a.elems is not None or b.elems is not None):
            o.elems = None
    return o


def same_obj(a, b):
    return a is b or (a.kind == b.kind and a.attrs == b.attrs and a.elems == b.elems and a.summ == b.summ
                      and a.l == b.l and a.complete == b.complete and a.multi == b.multi)


def join_st(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = St(a.eng)
    n = min(len(a.envs), len(b.envs))
    r.envs = a.envs[:n - 1]
    ea, eb = a.envs[n - 1], b.envs[n - 1]
    e = {}
    if ea is eb:
        e = dict(ea)
    else:
        for k in ea.keys() | eb.keys():
            x, y = ea.get(k), eb.get(k)
            if x is None or y is None:
                e[k] = widen((x or y) | {UNB})
            else:
                e[k] = x if x is y else vjoin(x, y)
    r.envs.append(e)
    h = r.heap
    ha, hb = a.heap, b.heap
    if ha is hb:
        r.heap = dict(ha)
        r.base, r.chg = a.base, a.chg | a.own
    else:
        h = r.heap = dict(ha)
        g = hb.get
        mh = a.eng.mheap
        if a.base is b.base:
            cand = a.chg | a.own | b.chg | b.own
            r.base, r.chg = a.base, cand
            new = [k for k in cand if k not in ha and k in hb]
        else:
            cand = [k for k, x in ha.items() if g(k) is not x]
            new = hb.keys() - ha.keys()
        for k in cand:
            x = ha.get(k)
            if x is None:
                continue
            y = g(k)
            if y is None:
                y = mh.get(k)
            if y is not None and x is not y and not same_obj(x, y):
                h[k] = join_obj(x, y)
        for k in new:
            y = hb[k]
            m = mh.get(k)
            h[k] = y if m is None or same_obj(m, y) else join_obj(m, y)
    r.must = a.must & b.must
    r.may = a.may | b.may
    return r


def same_st(a, b):
    if a is None or b is None:
        return a is b
    if a.must != b.must or a.may != b.may:
        return False
    if a.env != b.env:
        return False
    if len(a.heap) != len(b.heap):
        return False
    return same_heap(a.heap, b.heap)


class Frame:
    __slots__ = ("func", "mod", "rets", "ctx", "node", "yields", "selfval", "globals_", "nonlocals", "site", "iter", "a0")

    def __init__(self, func, mod, ctx):
        self.func, self.mod, self.ctx = func, mod, ctx
        self.rets = []
        self.yields = EMPTY
        self.globals_ = set()
        self.nonlocals = set()
        self.site = None
        self.iter = ()
        self.a0 = None


class Loop:
    __slots__ = ("brk", "cont")

    def __init__(self):
        self.brk = None
        self.cont = None


class Handler:
    __slots__ = ("depth", "states", "lib", "node")

    def __init__(self, depth):
        self.depth = depth
        self.states = []     # (excval, st)


class Analysis:
    """hooks; an analysis overrides what it needs"""
    inline_limit = 40
    max_steps = 3_000_000
    loop_iters = 3
    unroll = 80
    kctx = 4
    kiter = 1                      # how many enclosing frames contribute their unrolled loop index to the context
    cha = False
    attr_fails = False            # reading an attribute an instance cannot have raises
    cleanup_fails = True          # a statement of a finally clause may itself fail
    implicit_raise = True          # any statement of a try body may fail; else only explicit raises and known-failing operations
    generic_config = False         # configuration file scalars may take any value
    skip_inline = frozenset()      # qualnames never inlined

    def ext_call(self, eng, name, args, kwargs, st, node):
        return None

    def call_hook(self, eng, func, args, kwargs, st, node):
        """return Val to replace the inlining of a project function"""
        return None

    def new_instance(self, eng, cls, args, kwargs, st, node):
        return None

    def method_hook(self, eng, base, name, args, kwargs, st, node):
        return None

    def mutate(self, eng, ls, what, node, st): pass
    def attr_read(self, eng, oid, obj, name, node, st): pass
    def attr_write(self, eng, oid, obj, name, val, node, st): pass
    def item_read(self, eng, oid, obj, key, node, st): pass
    def item_write(self, eng, oid, obj, key, node, st): pass
    def bind_error(self, eng, func, msg, node, st): pass
    def missing_attr(self, eng, what, name, node, st): pass
    def unbound(self, eng, name, node, st, definite): pass
    def raised(self, eng, exc, node, st): pass
    def pre_stmt(self, eng, node, st): pass
    def returned(self, eng, func, val, st, node): pass        # may give the value to return instead
    def deep_fault(self, eng, h, st): return False            # a failure here, inside a callee, reaches the caller's handler with this state
    def fault(self, eng, node, fault, st, h): pass            # adjust the state the handler sees, once the outcome of the statement is known
    def ext_exit(self, eng, manager, st, node): pass          # a with block over a library object was left normally
    def unknown_call(self, eng, fval, args, kwargs, st, node): return None
    def global_write(self, eng, oid, name, node, st): pass
    def raw_attr(self, eng, base, name, node, st): return None
    def narrowed(self, eng, st, removed, kept): pass
    def escaped(self, eng, exc, node, st): pass
    open_objs = frozenset()        # objects that may have further attributes of unknown value


class Engine:
    def __init__(self, project=None, analysis=None):
        self.proj = project or Project()
        self.an = analysis or Analysis()
        self.mheap = {}
        self.mheap_own = set()
        self.loaded = {}
        self.loading = 0
        self.frames = []
        self.loops = []
        self.handlers = []
        self.cleanup = 0
        self.caught = []        # exceptions being handled: (raised values, also failures of arbitrary statements?)
        self.steps = 0
        self.ncalls = 0
        self.skipped = {}
        self.opened = []
        self.funcs_seen = set()
        self.fn_attrs = set()
        self.sites = set()
        self.ctxids = {}
        self.unmodelled = {}
        self.loopdepth = 0
        self.memo = {}
        self.memo_hits = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------------ utilities
    def where(self, node=None):
        f = self.frames[-1] if self.frames else None
        rel = self.proj.mod(f.mod).rel if f else "?"
        fn = f.func.qual.split(":")[-1] if f and f.func else "<module>"
        return "%s:%s in %s" % (rel, getattr(node, "lineno", "?"), fn)

    def chain(self):
        return [(f.func.qual if f.func else f.mod + ":<module>") for f in self.frames]

    def ctx(self):
        return self.frames[-1].ctx if self.frames else 0

    def subctx(self, node):
        k = (id(node),)
        n = 1
        for f in reversed(self.frames):
            if f.iter and n <= self.an.kiter:
                k += f.iter
            if n >= self.an.kctx:
                break
            if f.site is not None:
                k += (id(f.site),)
                n += 1
        r = self.ctxids.get(k)
        if r is None:
            r = self.ctxids[k] = len(self.ctxids) + 1
        return r

    def site(self, node, extra=""):
        f = self.frames[-1] if self.frames else None
        return (f.mod if f else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), extra, self.ctx(), f.iter if f else ())

    def alloc(self, st, node, kind, cls=None, extra="", l=NOL):
        oid = self.site(node, kind + extra)
        o = HObj(kind, cls, l)
        if kind in ("list", "set"):
            o.elems = []
        return oid, o

    def new_list(self, st, node, elems, kind="list", extra=""):
        oid, o = self.alloc(st, node, kind, extra=extra)
        o.elems = list(elems)
        st.new(oid, o)
        return mk("obj", oid)

    def new_dict(self, st, node, items, extra=""):
        oid, o = self.alloc(st, node, "dict", extra=extra)
        o.attrs = dict(items)
        st.new(oid, o)
        return mk("obj", oid)

    # ------------------------------------------------------------------ modules
    def module_oid(self, name):
        return ("module", name)

    def load(self, name):
        """abstractly evaluate a module body once; result lives in mheap"""
        if name in self.loaded:
            return
        # parent package first
        par = name.rpartition(".")[0]
        if par and self.proj.has(par) and par not in self.loaded:
            self.load(par)
            if name in self.loaded:
                return
        self.loaded[name] = True
        oid = self.module_oid(name)
        o = HObj("module")
        o.attrs["__name__"] = C(name)
        self.mheap[oid] = o
        self.mheap_own.add(oid)
        if name in self.proj.nspkgs:
            return
        m = self.proj.mod(name)
        o.attrs["__file__"] = C(m.path, frozenset(["pkgfile"]))
        saved = (self.frames, self.loops, self.handlers)
        self.frames, self.loops, self.handlers = [Frame(None, name, 0)], [], []
        st = St(self)
        self.loading += 1
        try:
            st.envs = [None]
            self._mod_exec(m, st, oid)
        finally:
            self.loading -= 1
            self.frames, self.loops, self.handlers = saved

    def _mod_exec(self, m, st, oid):
        # module-level names live in the module object, so env is that object's attrs
        o = self.mheap[oid]
        st.envs = [o.attrs]
        r = st
        for s in m.tree.body:
            r = self.stmt(s, r)
            if r is None:
                return
            self._mod_sync(r, oid)

    def _mod_sync(self, r, oid):
        o = self.mheap[oid]
        if oid in r.heap:          # a "global" write made by a called function
            for k, v in r.heap.pop(oid).attrs.items():
                if k not in r.env:
                    r.env[k] = v
        if r.env is not o.attrs:
            for k, v in r.env.items():
                o.attrs[k] = frozenset(a for a in v if a.k != "unbound") or v
            for k in list(o.attrs):
                if k not in r.env:
                    del o.attrs[k]
            r.envs = [o.attrs]
        for k, h in r.heap.items():
            self.mheap[k] = h
            self.mheap_own.add(k)
        r.heap = {}
        r.own = set()
        r.base = object()
        r.chg = set()

    def mod_attr(self, name, attr, st, node=None, quiet=False, imp=False):
        self.load(name)
        o = st.get(self.module_oid(name))
        v = o.attrs.get(attr)
        if v is not None and any(a.k != "unbound" for a in v):
            return frozenset(a for a in v if a.k != "unbound")
        sub = name + "." + attr
        if self.proj.has(sub):
            self.load(sub)
            return mk("mod", sub)
        ga = o.attrs.get("__getattr__")
        if ga:
            return self.call(ga, [C(attr)], {}, st, node or self.proj.mod(name).tree)
        if not quiet:
            self.an.missing_attr(self, "module " + name, attr, node, st)
            if imp and self.handlers:
                self.do_raise(EXT("builtins.ImportError"), node, st)
                raise PathDead()
        return TOP()

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.an.max_steps:
            raise Budget("step budget exceeded at %s" % self.where(s))
        self.sites.add(id(s))
        self.an.pre_stmt(self, s, st)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unmodelled[type(s).__name__] = 1
            return st
        # inside a try body: this statement may raise
        fault = None
        if self.handlers and self.handlers[-1].lib and not isinstance(s, (ast.Pass,)) and not (self.cleanup and not self.an.cleanup_fails):
            h = self.handlers[-1]
            if h.depth == len(st.envs):
                fault = st.fork()
            elif h.depth < len(st.envs) and self.an.deep_fault(self, h, st):
                fault = st.fork()
                fault.envs = fault.envs[:h.depth - 1] + [dict(fault.envs[h.depth - 1])]
        if fault is not None:
            h.states.append((None, fault))
        try:
            r = m(s, st)
        except PathDead:
            return None
        if fault is not None and r is not None:
            self.an.fault(self, s, fault, r, h)
        return r

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.e_Name(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            old = self.getattr(base, t.attr, st, t)
        else:
            base = self.eval(t.value, st)
            key = self.eval(t.slice, st)
            old = self.getitem(base, key, st, t)
        r = self.eval(s.value, st)
        # lists: in-place extend keeps identity
        out = set()
        lst = False
        for a in old:
            if a.k == "obj":
                o = st.get(a.p)
                if o is not None and o.kind in ("list", "set", "dict"):
                    self._mutate_obj(a.p, o, "augmented assignment", s, st)
                    if isinstance(s.op, (ast.Add, ast.BitOr)):
                        self.models.list_extend(self, a.p, r, st, s)
                    out.add(a)
                    lst = True
                    continue
                out.add(Atom("top", None, a.l))
                continue
            if a.k in ("top", "arr", "ext", "meth"):
                al = alias(labels(frozenset([a])))
                if al and not self._scalarish(t, a):
                    self.an.mutate(self, al, "in-place %s=" % type(s.op).__name__, s, st)
        if lst and all(a.k == "obj" for a in old):
            v = frozenset(out)
        else:
            v = self.binop(s.op, frozenset(a for a in old if a not in out) or old, r, st, s)
            # the name still refers to the same storage
            al = alias(labels(old))
            if al:
                v = frozenset(Atom(a.k, a.p, a.l | al) if a.k in ("top", "arr", "ext") else a for a in v)
            v = v | frozenset(out)
        if isinstance(t, ast.Name):
            self.assign(t, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, t.attr, v, st, t)
        else:
            self.setitem(base, key, v, st, t)
        return st

    def _scalarish(self, t, a):
        return False

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        f = self.frames[-1]
        if f.func is not None:
            v = self.an.returned(self, f.func, v, st, s) or v
        f.rets.append((v, st))
        return None

    def s_If(self, s, st):
        a, b = self.branch(s.test, st)
        if a is not None:
            a = self.block(s.body, a)
        if b is not None:
            b = self.block(s.orelse, b)
        return join_st(a, b)

    def iters(self):
        d = self.loopdepth
        return self.an.loop_iters if d <= 2 else (2 if d <= 4 else 1)

    def s_While(self, s, st):
        lp = Loop()
        self.loops.append(lp)
        self.loopdepth += 1
        out = None
        try:
            cur = st
            for i in range(self.iters() + 1):
                a, b = self.branch(s.test, cur.fork())
                if b is not None:
                    bb = self.block(s.orelse, b) if s.orelse else b
                    out = join_st(out, bb)
                if a is None:
                    break
                lp.cont = None
                r = self.block(s.body, a)
                r = join_st(r, lp.cont)
                if r is None:
                    break
                n = join_st(cur.fork(), r)
                if same_st(n, cur):
                    break
                cur = n
            else:
                a, b = self.branch(s.test, cur.fork())
                if b is not None:
                    out = join_st(out, b)
        finally:
            self.loopdepth -= 1
            self.loops.pop()
        return join_st(out, lp.brk)

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        seq = self.exact_iter(it, st, s.iter)
        lp = Loop()
        self.loops.append(lp)
        self.loopdepth += 1
        fr = self.frames[-1]
        sv = fr.iter
        out = None
        try:
            if seq is not None and len(seq) <= (self.an.unroll if self.loopdepth <= 3 else 12):
                cur = st
                for i, v in enumerate(seq):
                    lp.cont = None
                    if len(seq) <= 24 and len(sv) < 2:
                        fr.iter = sv + (i,)
                    self.assign(s.target, v, cur)
                    cur = join_st(self.block(s.body, cur), lp.cont)
                    if cur is None:
                        break
                out = cur
            else:
                el = self.elem_of(it, st, s.iter)
                cur = st
                entry = self.may_be_empty(it, st)
                first = None
                for i in range(self.iters()):
                    a = cur.fork()
                    lp.cont = None
                    self.assign(s.target, el, a)
                    r = join_st(self.block(s.body, a), lp.cont)
                    if r is None:
                        break
                    first = r if first is None else join_st(first.fork(), r.fork())
                    n = join_st(cur.fork(), r)
                    if same_st(n, cur):
                        break
                    cur = n
                    el = self.elem_of(it, cur, s.iter)
                out = cur if (entry or first is None) else first
                if first is None and not entry:
                    out = None
            if out is not None and s.orelse:
                fr.iter = sv
                out = self.block(s.orelse, out)
        finally:
            fr.iter = sv
            self.loopdepth -= 1
            self.loops.pop()
        return join_st(out, lp.brk)

    s_AsyncFor = s_For

    def s_Break(self, s, st):
        lp = self.loops[-1]
        lp.brk = join_st(lp.brk, st)
        return None

    def s_Continue(self, s, st):
        lp = self.loops[-1]
        lp.cont = join_st(lp.cont, st)
        return None

    def s_Raise(self, s, st):
        if s.exc is None and self.caught:
            ev, generic = self.caught[-1]
            if generic and self.handlers and self.handlers[-1].lib:
                h = self.handlers[-1]
                f = st.fork()
                f.envs = f.envs[:h.depth - 1] + [dict(f.envs[h.depth - 1])]
                h.states.append((None, f))
            if ev:
                self.do_raise(ev, s, st)
            return None
        v = self.eval(s.exc, st) if s.exc is not None else TOP()
        self.do_raise(v, s, st)
        return None

    def do_raise(self, v, node, st):
        self.an.raised(self, v, node, st)
        if self.handlers:
            h = self.handlers[-1]
            f = st.fork()
            f.envs = f.envs[:h.depth - 1] + [dict(f.envs[h.depth - 1])]
            h.states.append((v, f))
        else:
            self.an.escaped(self, v, node, st)

    def s_Try(self, s, st):
        h = Handler(len(st.envs))
        h.lib = self.an.implicit_raise
        h.node = s
        fr = self.frames[-1] if self.frames else None
        lp = self.loops[-1] if self.loops else None
        n0 = len(fr.rets) if fr is not None else 0
        if s.finalbody and lp is not None:
            brk0, cont0, lp.brk, lp.cont = lp.brk, lp.cont, None, None
        self.handlers.append(h)
        try:
            body = self.block(s.body, st)
        finally:
            self.handlers.pop()
        outs = []
        h2 = None
        if s.finalbody:         # failures in the else and except clauses pass through the finally clause too
            h2 = Handler(len(st.envs))
            h2.lib, h2.node = h.lib, s
            self.handlers.append(h2)
        if body is not None and s.orelse:
            body = self.block(s.orelse, body)
        if body is not None:
            outs.append(body)
        excs = h.states
        unhandled = []
        if s.handlers:
            generic = None
            specific = []
            for v, e in excs:
                if v is None:
                    generic = join_st(generic, e)
                else:
                    specific.append((v, e))
            # group explicit raises per handler
            remaining = specific
            for hd in s.handlers:
                names = self.handler_types(hd, st)
                hit, rest = [], []
                for v, e in remaining:
                    m = self.exc_matches(v, names, st)
                    if m != "no":
                        hit.append((v, e))
                    if m != "yes":
                        rest.append((v, e))
                remaining = rest
                hs = None
                hv = EMPTY
                for v, e in hit:
                    hs = join_st(hs, e.fork())
                    hv = hv | v
                if generic is not None:
                    hs = join_st(hs, generic.fork())
                    hv = hv | TOP()
                if hs is None:
                    continue
                if hd.name:
                    hs.env[hd.name] = hv
                ev = EMPTY
                for v, e in hit:
                    ev = ev | v
                self.caught.append((ev, generic is not None))
                try:
                    r = self.block(hd.body, hs)
                finally:
                    self.caught.pop()
                if r is not None:
                    outs.append(r)
            unhandled = remaining
            if generic is not None and not any(self.catches_all(hd, st) for hd in s.handlers):
                unhandled = unhandled + [(None, generic)]
        else:
            unhandled = excs
        if h2 is not None:
            self.handlers.remove(h2)
            unhandled = unhandled + h2.states
        res = None
        for o in outs:
            res = join_st(res, o)
        if s.finalbody:
            # the finally clause also runs on return, break and continue
            pend = []
            if fr is not None:
                pend = fr.rets[n0:]
                del fr.rets[n0:]
            if lp is not None:
                b1, c1 = lp.brk, lp.cont
                lp.brk, lp.cont = brk0, cont0
                if b1 is not None:
                    b1 = self.final(s.finalbody, b1)
                    lp.brk = join_st(lp.brk, b1)
                if c1 is not None:
                    c1 = self.final(s.finalbody, c1)
                    lp.cont = join_st(lp.cont, c1)
            for v, e in pend:
                r = self.final(s.finalbody, e)
                if r is not None:
                    fr.rets.append((v, r))
            if res is not None:
                res = self.final(s.finalbody, res)
            generic = None
            for v, e in unhandled:
                if v is None:
                    generic = join_st(generic, e)
            for v, e in ([(None, generic)] if generic is not None else []) + [x for x in unhandled if x[0] is not None][:6]:
                r = self.final(s.finalbody, e)
                if r is None:
                    continue
                if v is not None:
                    self.do_raise(v, s, r)
                elif self.handlers and self.handlers[-1].lib:
                    hh = self.handlers[-1]
                    f = r.fork()
                    f.envs = f.envs[:hh.depth - 1] + [dict(f.envs[hh.depth - 1])]
                    hh.states.append((None, f))
        else:
            for v, e in unhandled:
                if self.handlers and (v is not None or self.handlers[-1].lib):
                    hh = self.handlers[-1]
                    f = e.fork()
                    f.envs = f.envs[:hh.depth - 1] + [dict(f.envs[hh.depth - 1])]
                    hh.states.append((v, f))
                elif v is not None:
                    self.an.escaped(self, v, s, e)
        return res

    def final(self, stmts, st):
        self.cleanup += 1
        try:
            return self.block(stmts, st)
        finally:
            self.cleanup -= 1

    s_TryStar = s_Try

    def handler_types(self, hd, st):
        if hd.type is None:
            return None
        v = self.eval(hd.type, st.fork())
        out = []
        for a in v:
            if a.k == "tup":
                for x in a.p:
                    out += list(x)
            else:
                out.append(a)
        return out

    def catches_all(self, hd, st):
        names = self.handler_types(hd, st)
        return names is None or any(a.k == "ext" and a.p in ("builtins.Exception", "builtins.BaseException") or a.k not in ("ext", "cls") for a in names)

    BUILTIN_EXC = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
                   "ValueError": "Exception", "TypeError": "Exception", "RuntimeError": "Exception",
                   "NotImplementedError": "RuntimeError", "AttributeError": "Exception", "OSError": "Exception",
                   "FileNotFoundError": "OSError", "ImportError": "Exception",
                   "ModuleNotFoundError": "ImportError", "AssertionError": "Exception",
                   "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
                   "Exception": "BaseException", "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
                   "StopIteration": "Exception", "UnicodeDecodeError": "ValueError", "FloatingPointError": "ArithmeticError",
                   "OverflowError": "ArithmeticError"}

    def exc_matches(self, v, names, st):
        if names is None:
            return "yes"
        res = set()
        for a in v:
            anc = self.exc_ancestors(a, st)
            if anc is None:
                res.add("maybe")
                continue
            r = "no"
            for n in names:
                nm = n.p if n.k == "ext" else (n.p.qual if n.k == "cls" else None)
                if nm is None:
                    r = "maybe"
                    continue
                nm = nm.replace("builtins.", "")
                if nm in anc:
                    r = "yes"
                    break
            res.add(r)
        if res == {"yes"}:
            return "yes"
        if res == {"no"}:
            return "no"
        return "maybe"

    def exc_ancestors(self, a, st):
        if a.k == "ext":
            n = a.p.replace("builtins.", "")
            if n.endswith("()"):
                n = n[:-2]
            if n not in self.BUILTIN_EXC and n != "BaseException":
                return None
            out = {n}
            while n in self.BUILTIN_EXC:
                n = self.BUILTIN_EXC[n]
                out.add(n)
            return out
        c = None
        if a.k == "obj":
            o = st.get(a.p)
            c = o.cls if o else None
        elif a.k == "cls":
            c = a.p
        if c is None:
            return None
        out = set()
        for k in c.mro():
            out.add(k.qual)
            for e in k.ext_bases:
                r = self.exc_ancestors(Atom("ext", e, NOL), st)
                if r:
                    out |= r
        return out

    def s_With(self, s, st):
        exits, managers = [], []
        for it in s.items:
            v = self.eval(it.context_expr, st)
            ent = EMPTY
            for a in v:
                o = st.get(a.p) if a.k == "obj" else None
                if o is not None and o.kind == "inst" and o.cls is not None and self.find_method(o.cls, "__enter__", st):
                    ent = ent | self.call(self.getattr(frozenset([a]), "__enter__", st, s), [], {}, st, s)
                    exits.append(frozenset([a]))
                elif a.k == "obj" and o is not None and o.kind == "list":
                    ent = ent | o.summ
                    for e in (o.elems or []):
                        ent = ent | e
                else:
                    ent = ent | frozenset([a])
                    if a.k == "ext":
                        managers.append(a)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent or TOP(), st)
        r = self.block(s.body, st)
        if r is not None:
            for a in reversed(managers):
                self.an.ext_exit(self, a, r, s)
            for e in reversed(exits):
                try:
                    self.call(self.getattr(e, "__exit__", r, s), [NONE, NONE, NONE], {}, r, s)
                except PathDead:
                    return None
        return r

    s_AsyncWith = s_With

    def s_Assert(self, s, st):
        a, b = self.branch(s.test, st)
        if b is not None:
            if s.msg is not None:
                try:
                    self.eval(s.msg, b)
                except PathDead:
                    pass
            self.do_raise(EXT("builtins.AssertionError"), s, b)
        return a

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                for a in b:
                    if a.k == "obj":
                        o = st.get(a.p)
                        if o is not None:
                            self._mutate_obj(a.p, o, "del item", t, st)
                            ks = const1(k)
                            if o.kind == "dict" and is_const(k) and len(b) == 1:
                                st.mut(a.p).attrs.pop(ks, None)
                    else:
                        al = alias(labels(frozenset([a])))
                        if al:
                            self.an.mutate(self, al, "del item", t, st)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                for a in b:
                    if a.k == "obj":
                        o = st.get(a.p)
                        if o is not None:
                            self.an.attr_write(self, a.p, o, t.attr, EMPTY, t, st)
                            if len(b) == 1:
                                st.mut(a.p).attrs.pop(t.attr, None)
        return st

    def s_Global(self, s, st):
        self.frames[-1].globals_.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        self.frames[-1].nonlocals.update(s.names)
        return st

    def s_Import(self, s, st):
        for al in s.names:
            if self.proj.has(al.name.split(".")[0]):
                v = self.import_mod(al.name, s, st)
                if al.asname:
                    st.env[al.asname] = v
                else:
                    st.env[al.name.split(".")[0]] = mk("mod", al.name.split(".")[0])
            else:
                self.models.note_import(self, al.name, s, st)
                st.env[al.asname or al.name.split(".")[0]] = EXT(al.name if al.asname else al.name.split(".")[0])
        return st

    def import_mod(self, name, node, st):
        if self.proj.has(name):
            self.load(name)
            return mk("mod", name)
        self.an.missing_attr(self, "import", name, node, st)
        return TOP()

    def s_ImportFrom(self, s, st):
        m = self.proj.mod(self.frames[-1].mod)
        name = m.resolve_relative(s.level, s.module)
        if self.proj.has(name.split(".")[0]):
            if not self.proj.has(name):
                self.an.missing_attr(self, "import", name, s, st)
                for al in s.names:
                    st.env[al.asname or al.name] = TOP()
                return st
            self.load(name)
            for al in s.names:
                if al.name == "*":
                    o = st.get(self.module_oid(name))
                    allv = o.attrs.get("__all__")
                    names = None
                    if allv and len(allv) == 1:
                        (a,) = allv
                        lo = st.get(a.p) if a.k == "obj" else None
                        if lo is not None and lo.elems is not None:
                            names = [const1(e) for e in lo.elems]
                    for k, v in list(o.attrs.items()):
                        if (names is None and not k.startswith("_")) or (names is not None and k in names):
                            st.env[k] = v
                else:
                    st.env[al.asname or al.name] = self.mod_attr(name, al.name, st, s, imp=True)
        else:
            for al in s.names:
                if al.name != "*":
                    st.env[al.asname or al.name] = EXT(name + "." + al.name)
        return st

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        v = self.make_func(s, st, fr, None)
        st.env[s.name] = v
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, st, fr, cls, qual=None):
        mod = fr.mod
        q = (mod + ":" if fr.func is None else fr.func.qual + ".") if qual is None else qual + "."
        f = Func(s, mod, cls, None, q + getattr(s, "name", "<lambda>"))
        if fr.func is not None:
            f.closure = ClosureEnv(st.env, fr, len(st.envs) - 1, fr.func.closure)
        f.defaults = [self.eval(d, st) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, st) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        v = mk("fn", f)
        for d in reversed(getattr(s, "decorator_list", [])):
            dn = ast.unparse(d)
            f.deco.append(dn)
            if dn in ("property", "cached_property", "functools.cached_property"):
                f.kind = "property"
            elif dn == "staticmethod":
                f.kind = "static"
            elif dn == "classmethod":
                f.kind = "class"
            elif dn.endswith(".setter"):
                f.kind = "setter"
            elif dn in ("abstractmethod", "abc.abstractmethod") or dn.startswith(("jit", "numba", "njit", "profile",
                        "wraps", "functools.wraps", "lru_cache", "functools.lru_cache", "contextmanager", "contextlib.contextmanager", "torch.no_grad", "dataclass")):
                pass
            else:
                dv = self.eval(d, st)
                if any(a.k in ("fn", "cls", "bound") for a in dv):
                    v = self.call(dv, [v], {}, st, d)
        return v

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        q = (fr.mod + ":" + s.name) if fr.func is None else fr.func.qual + "." + s.name
        c = Cls(s, fr.mod, q)
        for b in s.bases:
            for a in self.eval(b, st):
                if a.k == "cls":
                    c.bases.append(a.p)
                elif a.k == "ext":
                    c.ext_bases.append(a.p)
                else:
                    c.ext_bases.append("?")
        for d in s.decorator_list:
            if "dataclass" in ast.unparse(d):
                c.dataclass = True
        o = HObj("class", c)
        # class body
        env0 = dict(st.env)
        st.envs.append(dict(env0) if fr.func is not None else {})
        body_env = st.envs[-1]
        base_keys = set(body_env)
        sub = Frame(fr.func, fr.mod, self.subctx(s))
        self.frames.append(sub)
        classframe = fr.func is None
        try:
            for b in s.body:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    v = self.make_func(b, st, fr, c, q)
                    (a,) = v if len(v) == 1 else (None,)
                    if a is not None and a.k == "fn" and a.p.kind == "setter":
                        st.env.setdefault("__setter__" + b.name, v)
                        continue
                    st.env[b.name] = v
                else:
                    if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                        c.fields.append((b.target.id, b.value))
                    r = self.stmt(b, st)
                    if r is None:
                        break
                    if r is not st:
                        st.take(r)
        finally:
            self.frames.pop()
            be = st.envs.pop()
        for k, v in be.items():
            if k in base_keys and env0.get(k) is v:
                continue
            o.attrs[k] = v
        st.heap[c.oid] = o
        st.own.add(c.oid)
        if self.loading:
            self.mheap[c.oid] = o
            self.mheap_own.add(c.oid)
        st.env[s.name] = mk("cls", c)
        return st

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if fr.func is not None and t.id in fr.globals_:
                oid = self.module_oid(fr.mod)
                self.an.global_write(self, oid, t.id, t, st)
                st.mut(oid).attrs[t.id] = v
            elif t.id in fr.nonlocals and fr.func is not None and fr.func.closure is not None:
                c = fr.func.closure
                while c is not None:
                    if c.frame in self.frames and t.id in st.envs[c.depth]:
                        st.envs[c.depth] = dict(st.envs[c.depth])
                        st.envs[c.depth][t.id] = v
                        break
                    c = c.parent
            else:
                st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            parts = [EMPTY] * n
            ok = False
            for a in v:
                seq = self.exact_atom(a, st)
                if seq is not None and not star and len(seq) == n:
                    for i in range(n):
                        parts[i] = parts[i] | seq[i]
                    ok = True
                elif seq is not None and star and len(seq) >= n - 1:
                    i = star[0]
                    tail = n - i - 1
                    for j in range(i):
                        parts[j] = parts[j] | seq[j]
                    mid = seq[i:len(seq) - tail]
                    parts[i] = parts[i] | self.new_list(st, t, mid)
                    for j in range(tail):
                        parts[n - tail + j] = parts[n - tail + j] | seq[len(seq) - tail + j]
                    ok = True
                elif seq is not None and not star:
                    continue        # wrong length: would raise
                else:
                    e = self.elem_of(frozenset([a]), st, t)
                    for i in range(n):
                        parts[i] = parts[i] | (self.new_list(st, t, [e]) if i in star else e)
                    ok = True
            if not ok and v:
                raise PathDead()
            for e, p in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, widen(p) if p else TOP(), st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.setattr(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.setitem(b, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def _mutate_obj(self, oid, o, what, node, st):
        al = alias(o.l)
        if al:
            self.an.mutate(self, al, what, node, st)

    def setattr(self, base, name, v, st, node):
        single = len(base) == 1
        for a in base:
            if a.k == "obj":
                o = st.get(a.p)
                if o is None:
                    continue
                self._mutate_obj(a.p, o, "attribute store .%s" % name, node, st)
                if o.kind == "inst" and o.cls is not None:
                    ps = self.find_class_attr(o.cls, "__setter__" + name, st)
                    if ps:
                        self.call(mk_bound(ps, a), [v], {}, st, node)
                        continue
                self.an.attr_write(self, a.p, o, name, v, node, st)
                m = st.mut(a.p)
                if single and not m.multi:
                    m.attrs[name] = v
                else:
                    old = m.attrs.get(name)
                    m.attrs[name] = v if old is None else vjoin(old, v)
            elif a.k == "cls":
                o = st.get(a.p.oid)
                if o is not None:
                    self.an.attr_write(self, a.p.oid, o, name, v, node, st)
                    st.mut(a.p.oid).attrs[name] = v
            elif a.k == "mod":
                self.load(a.p)
                oid = self.module_oid(a.p)
                self.an.global_write(self, oid, name, node, st)
                st.mut(oid).attrs[name] = v
            elif a.k == "ext":
                self.models.ext_setattr(self, a, name, v, st, node)
            else:
                if a.k in ("fn", "bound"):
                    self.fn_attrs.add(name)
                al = alias(labels(frozenset([a])))
                if al and name not in HANDLE_ATTRS:
                    self.an.mutate(self, al, "attribute store .%s" % name, node, st)

    def setitem(self, base, key, v, st, node):
        single = len(base) == 1
        for a in base:
            if a.k == "obj":
                o = st.get(a.p)
                if o is None:
                    continue
                self._mutate_obj(a.p, o, "item store", node, st)
                self.an.item_write(self, a.p, o, key, node, st)
                if o.kind == "inst" and o.cls is not None:
                    if self.find_method(o.cls, "__setitem__", st):
                        self.call(self.getattr(frozenset([a]), "__setitem__", st, node), [key, v], {}, st, node)
                    continue
                m = st.mut(a.p)
                if o.kind == "dict":
                    ks = consts_hash(key)
                    if ks is not None:
                        for k in ks:
                            old = m.attrs.get(k)
                            if single and len(ks) == 1 and not m.multi:
                                m.attrs[k] = v
                            else:
                                m.attrs[k] = widen(v | (old if old is not None else {UNB}))
                    else:
                        m.summ = vjoin(m.summ, v)
                        m.complete = False
                elif o.kind == "list":
                    k = const1(key)
                    if isinstance(k, int) and m.elems is not None and -len(m.elems) <= k < len(m.elems):
                        m.elems[k] = v if single and not m.multi else vjoin(m.elems[k], v)
                    else:
                        if m.elems is not None:
                            m.elems = [vjoin(e, v) for e in m.elems]
                        m.summ = vjoin(m.summ, v) if m.elems is None else m.summ
            else:
                al = alias(labels(frozenset([a])))
                if al:
                    self.an.mutate(self, al, "item store", node, st)
                self.models.arr_setitem(self, a, key, v, st, node)

    # ------------------------------------------------------------------ branches
    def truth(self, v, st):
        """set of possible truth values"""
        out = set()
        for a in v:
            if a.k == "const":
                try:
                    out.add(bool(a.p[1]))
                except Exception:
                    out |= {True, False}
            elif a.k == "tup":
                out.add(len(a.p) > 0)
            elif a.k in ("fn", "cls", "mod", "bound"):
                out.add(True)
            elif a.k == "obj":
                o = st.get(a.p)
                if o is None:
                    out |= {True, False}
                elif o.kind == "inst":
                    if o.cls is not None and (self.find_method(o.cls, "__bool__", st) or self.find_method(o.cls, "__len__", st)):
                        out |= {True, False}
                    else:
                        out.add(True)
                elif o.kind in ("list", "set"):
                    if o.elems is not None and not o.multi:
                        out.add(len(o.elems) > 0)
                    else:
                        out |= {True, False}
                elif o.kind == "dict":
                    if o.complete and not o.attrs:
                        out.add(False)
                    elif any(not any(x.k == "unbound" for x in y) for y in o.attrs.values()):
                        out.add(True)
                    else:
                        out |= {True, False}
                else:
                    out.add(True)
            elif a.k == "ext":
                if a.p in OBJECTS:
                    out.add(True)
                elif a.p.endswith(")"):
                    out |= {True, False}
                else:
                    out |= {True, False}
            elif a.k == "sym":
                r = self.models.sym_truth(self, a)
                out |= r
            elif a.k == "unbound":
                pass
            else:
                out |= {True, False}
        return out

    def branch(self, test, st):
        """-> (state if true, state if false)"""
        try:
            return self._branch(test, st)
        except PathDead:
            return None, None

    def _branch(self, t, st):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self._branch(t.operand, st)
            return b, a
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And):
                f = None
                cur = st
                for x in t.values:
                    a, b = self.branch(x, cur)
                    f = join_st(f, b)
                    cur = a
                    if cur is None:
                        break
                return cur, f
            tt = None
            cur = st
            for x in t.values:
                a, b = self.branch(x, cur)
                tt = join_st(tt, a)
                cur = b
                if cur is None:
                    break
            return tt, cur
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.left, ast.Constant) \
                and isinstance(t.left.value, str) and isinstance(t.comparators[0], ast.Call) and isinstance(t.comparators[0].func, ast.Name) \
                and t.comparators[0].func.id in ("locals", "vars", "dir") and not t.comparators[0].args:
            n = t.left.value
            v = st.env.get(n, EMPTY)
            bound = frozenset(x for x in v if x.k != "unbound")
            a = b = None
            if bound:
                a = st.fork()
                a.env[n] = bound
            if not bound or len(bound) != len(v):
                b = st
                b.env.pop(n, None)
                if bound:
                    self.an.narrowed(self, b, bound, EMPTY)
            return (a, b) if isinstance(t.ops[0], ast.In) else (b, a)
        v = self.eval(t, st)
        tr = self.truth(v, st)
        a = st if True in tr else None
        b = None
        if False in tr:
            b = st.fork() if a is not None else st
        if a is not None:
            a = self.narrow(t, a, True)
        if b is not None:
            b = self.narrow(t, b, False)
        if isinstance(t, ast.Call) and len(v) > 1:
            for x, truth in ((a, True), (b, False)):
                if x is not None:
                    kept = frozenset(q for q in v if truth in self.truth(frozenset([q]), x))
                    if kept != v:
                        self.an.narrowed(self, x, v - kept, kept)
        return a, b

    def narrow(self, t, st, truth):
        """refine st assuming t has the given truth; None if impossible"""
        if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
            return self.filter_ref(t, st, lambda a: truth in self.truth(frozenset([a]), st))
        if isinstance(t, ast.NamedExpr):
            return self.narrow(t.target, st, truth)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, rhs, lhs = t.ops[0], t.comparators[0], t.left
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                pos = truth == isinstance(op, (ast.Is, ast.Eq))
                rc = self.pure_const(rhs, st)
                if rc is None:
                    lc = self.pure_const(lhs, st)
                    if lc is not None:
                        lhs, rhs, rc = rhs, lhs, lc
                if rc is not None:
                    isnone = rc[0] is None

                    def keep(a):
                        if a.k == "unbound":
                            return True
                        if a.k == "const":
                            same = a.p[1] == rc[0] if not isnone else a.p[1] is None
                            return same == pos
                        if isnone and a.k == "ext" and a.p in OBJECTS:
                            return not pos
                        if a.k in ("top", "ext", "meth", "sym"):
                            return True
                        if isinstance(op, (ast.Is, ast.IsNot)) or isnone or a.k in ("fn", "cls", "mod"):
                            return not pos
                        return True

                    def sub(a):
                        if pos and a.k == "top" and not alias(a.l):
                            return Atom("const", (type(rc[0]).__name__, rc[0]), a.l)
                        return a
                    return self.filter_ref(lhs, st, keep, sub)
                if isinstance(op, (ast.Is, ast.IsNot)) and _pure(rhs) and _pure(lhs):
                    # a sentinel object
                    try:
                        rv = self.eval(rhs, st.fork())
                    except PathDead:
                        return st
                    if len(rv) == 1:
                        (ra,) = rv
                        o = st.get(ra.p) if ra.k == "obj" else None
                        if o is not None and not o.multi:
                            def keep(a):
                                if a.k in ("unbound", "top", "ext", "meth"):
                                    return True
                                return (a.k == "obj" and a.p == ra.p) == pos
                            return self.filter_ref(lhs, st, keep)
                    return st
            if isinstance(op, (ast.In, ast.NotIn)):
                pos = truth == isinstance(op, ast.In)
                try:
                    rv = self.eval(rhs, st.fork()) if _pure(rhs) else None
                except PathDead:
                    rv = None
                if rv is not None:
                    cs = self.const_members(rv, st)
                    if cs is not None:
                        def keep(a):
                            if a.k == "const":
                                return (a.p[1] in cs) == pos
                            return True
                        st2 = self.filter_ref(lhs, st, keep)
                        if st2 is None:
                            return None
                        st = st2
                    # key-in-dict refinement
                    if len(rv) == 1:
                        (ra,) = rv
                        o = st.get(ra.p) if ra.k == "obj" else None
                        k = self.pure_const(lhs, st)
                        if o is not None and o.kind == "dict" and k is not None:
                            x = o.attrs.get(k[0]) if _hashable(k[0]) else None
                            if x is not None and any(q.k == "unbound" for q in x):
                                m = st.mut(ra.p)
                                if pos:
                                    m.attrs[k[0]] = frozenset(q for q in x if q.k != "unbound")
                                else:
                                    m.attrs.pop(k[0], None)
                return st
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("isinstance", "callable", "hasattr") and t.args:
            fn = t.func.id
            if fn == "isinstance" and len(t.args) == 2:
                try:
                    tv = self.eval(t.args[1], st.fork())
                except PathDead:
                    return st

                def keep(a):
                    r = self.models.isinstance_atom(self, a, tv, st)
                    return truth in r
                return self.filter_ref(t.args[0], st, keep)
            if fn == "callable":
                return self.filter_ref(t.args[0], st, lambda a: truth in self.models.callable_atom(self, a, st))
        return st

    def const_members(self, v, st):
        out = set()
        for a in v:
            seq = self.exact_atom(a, st)
            if a.k == "obj":
                o = st.get(a.p)
                if o.kind == "dict":
                    if not o.complete or any(any(q.k == "unbound" for q in x) for x in o.attrs.values()):
                        return None
                    out |= set(o.attrs)
                    continue
            if seq is None:
                return None
            for e in seq:
                c = consts(e)
                if c is None or len(c) != 1:
                    return None
                try:
                    out.add(c[0])
                except TypeError:
                    return None
        return out

    def pure_const(self, e, st):
        if isinstance(e, ast.Constant):
            return (e.value,)
        if _pure(e):
            try:
                v = self.eval(e, st.fork())
            except PathDead:
                return None
            if len(v) == 1 and is_const(v):
                return (const1(v),)
        return None

    def filter_ref(self, ref, st, keep, sub=None):
        if isinstance(ref, ast.NamedExpr):
            ref = ref.target
        if isinstance(ref, ast.Name):
            v = st.env.get(ref.id)
            if v is None:
                return st
            n = frozenset(a for a in v if a.k == "unbound" or keep(a))
            if not any(a.k != "unbound" for a in n):
                return None if any(a.k != "unbound" for a in v) else st
            if sub:
                n = frozenset(sub(a) for a in n)
            if n != v:
                st.env[ref.id] = n
                self.an.narrowed(self, st, v - n, n)
            return st
        if isinstance(ref, ast.Attribute) and _pure(ref.value):
            try:
                b = self.eval(ref.value, st)
            except PathDead:
                return None
            if len(b) == 1:
                (a,) = b
                if a.k == "obj":
                    o = st.get(a.p)
                    if o is not None and not o.multi and ref.attr in o.attrs:
                        v = o.attrs[ref.attr]
                        n = frozenset(x for x in v if x.k == "unbound" or keep(x))
                        if not n:
                            return None
                        if sub:
                            n = frozenset(sub(x) for x in n)
                        if n != v:
                            st.mut(a.p).attrs[ref.attr] = n
            return st
        if isinstance(ref, ast.Subscript) and _pure(ref):
            try:
                b = self.eval(ref.value, st)
                k = const1(self.eval(ref.slice, st))
            except PathDead:
                return None
            if len(b) == 1 and isinstance(k, str):
                (a,) = b
                o = st.get(a.p) if a.k == "obj" else None
                if o is not None and o.kind == "dict" and k in o.attrs:
                    n = frozenset(x for x in o.attrs[k] if x.k == "unbound" or keep(x))
                    if n and n != o.attrs[k]:
                        st.mut(a.p).attrs[k] = n
        return st

    # ------------------------------------------------------------------ iteration helpers
    def exact_atom(self, a, st):
        if a.k == "tup":
            return list(a.p)
        if a.k == "obj":
            o = st.get(a.p)
            if o is not None and o.kind in ("list", "set") and o.elems is not None and not o.multi:
                return list(o.elems)
            if o is not None and o.kind == "dict" and o.complete and not o.multi and \
                    not any(any(q.k == "unbound" for q in x) for x in o.attrs.values()):
                return [key_val(k) for k in o.attrs]
        if a.k == "const" and isinstance(a.p[1], str) and len(a.p[1]) <= 40:
            return [C(ch) for ch in a.p[1]]
        return None

    def exact_iter(self, v, st, node):
        if len(v) != 1:
            return None
        (a,) = v
        return self.exact_atom(a, st)

    def may_be_empty(self, v, st):
        for a in v:
            if a.k == "tup" and a.p:
                continue
            if a.k == "obj":
                o = st.get(a.p)
                if o is not None and o.kind == "list" and o.elems:
                    continue
            return True
        return False

    def elem_of(self, v, st, node):
        out = EMPTY
        for a in v:
            if a.k == "tup":
                for x in a.p:
                    out = out | x
            elif a.k == "obj":
                o = st.get(a.p)
                if o is None:
                    out = out | TOP()
                elif o.kind in ("list", "set"):
                    for x in (o.elems or []):
                        out = out | x
                    out = out | o.summ
                    if not o.elems and not o.summ:
                        pass
                elif o.kind == "dict":
                    for k in o.attrs:
                        out = out | key_val(k)
                    if not o.complete:
                        out = out | TOP()
                elif o.kind == "inst":
                    if o.cls is not None and self.find_method(o.cls, "__iter__", st):
                        r = self.call(self.getattr(frozenset([a]), "__iter__", st, node), [], {}, st, node)
                        r = frozenset(x for x in r if x != a)
                        out = out | self.elem_of(r, st, node)
                    else:
                        out = out | TOP(o.l)
            elif a.k == "const":
                if isinstance(a.p[1], str):
                    out = out | TOP(a.l)
            elif a.k == "arr":
                out = out | self.models.arr_elem(self, a, st)
            elif a.k == "meth":
                out = out | TOP(labels(frozenset([a])))
            elif a.k == "unbound":
                pass
            elif a.k == "ext":
                out = out | mk("top", None, a.l)
            else:
                out = out | mk("top", None, a.l)
        return widen(out) if out else TOP()

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unmodelled[type(e).__name__] = 1
            return TOP()
        return m(e, st)

    def e_Constant(self, e, st):
        return C(e.value)

    def lookup(self, name, st, node):
        v = st.env.get(name)
        fr = self.frames[-1]
        if v is not None and not (fr.func is not None and name in fr.globals_):
            return v
        f = fr.func
        if f is not None and f.closure is not None:
            v = f.closure.get(name, self, st)
            if v is not None:
                return v
        o = st.get(self.module_oid(fr.mod))
        if o is not None:
            v = o.attrs.get(name)
            if v is not None:
                return v
        return None

    def e_Name(self, e, st):
        v = self.lookup(e.id, st, e)
        if v is None:
            if e.id in self.models.BUILTINS:
                return EXT("builtins." + e.id)
            self.an.unbound(self, e.id, e, st, True)
            return TOP()
        if any(a.k == "unbound" for a in v):
            n = frozenset(a for a in v if a.k != "unbound")
            self.an.unbound(self, e.id, e, st, not n)
            return n or TOP()
        return v

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def e_Tuple(self, e, st):
        return self._seq(e, st, "tup")

    def e_List(self, e, st):
        return self._seq(e, st, "list")

    def e_Set(self, e, st):
        return self._seq(e, st, "set")

    def _seq(self, e, st, kind):
        elems, exact, summ = [], True, EMPTY
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                s = self.exact_iter(v, st, x)
                if s is not None:
                    elems += s
                else:
                    exact = False
                    summ = summ | self.elem_of(v, st, x)
            else:
                elems.append(self.eval(x, st))
        if kind == "tup":
            if exact:
                return TUP(elems)
            for x in elems:
                summ = summ | x
            oid, o = self.alloc(st, e, "list")
            o.elems, o.summ = None, summ
            st.new(oid, o)
            return mk("obj", oid)
        oid, o = self.alloc(st, e, kind)
        if exact:
            o.elems = elems
        else:
            for x in elems:
                summ = summ | x
            o.elems, o.summ = None, summ
        st.new(oid, o)
        return mk("obj", oid)

    def e_Dict(self, e, st):
        oid, o = self.alloc(st, e, "dict")
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                self.models.dict_update(self, o, vv, st)
                continue
            kv = self.eval(k, st)
            ks = consts_hash(kv)
            if ks is not None and len(ks) == 1:
                o.attrs[ks[0]] = vv
            else:
                o.complete = False
                o.summ = vjoin(o.summ, vv)
        st.new(oid, o)
        return mk("obj", oid)

    def comp_scope(self, e, st, body):
        saved = {}
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            saved[n] = st.env.get(n)
        try:
            return body()
        finally:
            for n in names:
                if saved[n] is None:
                    st.env.pop(n, None)
                else:
                    st.env[n] = saved[n]

    def comp_iter(self, gens, st, emit, node):
        """returns True if exact"""
        if not gens:
            emit(st)
            return True
        g = gens[0]
        it = self.eval(g.iter, st)
        seq = self.exact_iter(it, st, g.iter)
        exact = True
        if seq is None or len(seq) > self.an.unroll:
            el = self.elem_of(it, st, g.iter)
            if self.may_be_empty(it, st):
                # the iteration may also not happen, so a failing body does not end the path
                a = st.fork()
                try:
                    self.comp_body([el], g, gens, a, emit, node, True)
                except PathDead:
                    return False
                st.take(join_st(st.fork(), a))
                return False
            seq = [el]
            exact = False
        return self.comp_body(seq, g, gens, st, emit, node, exact)

    def comp_body(self, seq, g, gens, st, emit, node, exact):
        for v in seq:
            try:
                self.assign(g.target, v, st)
            except PathDead:
                continue
            ok = True
            s0 = None
            for c in g.ifs:
                a, b = self.branch(c, st.fork())
                if a is None:
                    ok = False
                    break
                if b is not None:
                    exact = False
                st.take(a)
            if not ok:
                continue
            if not self.comp_iter(gens[1:], st, emit, node):
                exact = False
        return exact

    def _comp(self, e, st, kind):
        outs = []

        def body():
            return self.comp_iter(e.generators, st, lambda s: outs.append(self.eval(e.elt, s)), e)
        exact = self.comp_scope(e, st, body)
        oid, o = self.alloc(st, e, kind)
        if exact:
            o.elems = outs
        else:
            o.elems = None
            s = EMPTY
            for x in outs:
                s = s | x
            o.summ = widen(s)
        st.new(oid, o)
        return mk("obj", oid)

    def e_ListComp(self, e, st):
        return self._comp(e, st, "list")

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        return self._comp(e, st, "set")

    def e_DictComp(self, e, st):
        outs = []

        def body():
            return self.comp_iter(e.generators, st,
                                  lambda s: outs.append((self.eval(e.key, s), self.eval(e.value, s))), e)
        exact = self.comp_scope(e, st, body)
        oid, o = self.alloc(st, e, "dict")
        o.complete = exact
        for k, v in outs:
            ks = consts_hash(k)
            if ks is not None and exact and len(ks) == 1:
                o.attrs[ks[0]] = v
            else:
                o.complete = False
                o.summ = vjoin(o.summ, v)
        st.new(oid, o)
        return mk("obj", oid)

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        f = Func(e, fr.mod, None, ClosureEnv(st.env, fr, len(st.envs) - 1, fr.func.closure) if fr.func is not None else None,
                 (self.frames[-1].func.qual if self.frames[-1].func else self.frames[-1].mod) + ".<lambda>")
        f.defaults = [self.eval(d, st) for d in e.args.defaults]
        return mk("fn", f)

    def e_IfExp(self, e, st):
        a, b = self.branch(e.test, st.fork())
        va = vb = None
        if a is not None:
            try:
                va = self.eval(e.body, a)
            except PathDead:
                a = None
        if b is not None:
            try:
                vb = self.eval(e.orelse, b)
            except PathDead:
                b = None
        r = join_st(a, b)
        if r is None:
            raise PathDead()
        st.take(r)
        if va is None:
            return vb
        if vb is None:
            return va
        return vjoin(va, vb)

    def e_BoolOp(self, e, st):
        out = EMPTY
        cur = st.fork()
        res = None
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            try:
                v = self.eval(x, cur)
            except PathDead:
                cur = None
                break
            if i == len(e.values) - 1:
                out = out | v
                break
            tr = self.truth(v, cur)
            stop = (not isand) in tr
            go = isand in tr
            if stop:
                out = out | frozenset(a for a in v if (not isand) in self.truth(frozenset([a]), cur))
                res = join_st(res, cur.fork())
            if not go:
                cur = None
                break
            n = self.narrow(x, cur, isand)
            if n is None:
                cur = None
                break
            cur = n
        res = join_st(res, cur)
        if res is None:
            raise PathDead()
        # narrowing must not persist: keep effects only by joining environments
        st.take(res)
        return widen(out)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            tr = self.truth(v, st)
            r = EMPTY
            for t in tr:
                r = r | C(not t)
            return r or BOOL
        out = set()
        for a in v:
            if a.k == "const" and isinstance(a.p[1], (int, float)):
                x = a.p[1]
                x = -x if isinstance(e.op, ast.USub) else (~x if isinstance(e.op, ast.Invert) and isinstance(x, int) else +x)
                out.add(Atom("const", (type(x).__name__, x), a.l))
            elif a.k == "sym" and isinstance(e.op, ast.USub):
                out.add(Atom("sym", tuple((m, -c) for m, c in a.p), a.l))
            elif a.k == "arr":
                out.add(Atom("arr", a.p, dep(a.l)))
            else:
                out.add(Atom("top", None, dep(labels(frozenset([a])))))
        return frozenset(out)

    def e_BinOp(self, e, st):
        l = self.eval(e.left, st)
        r = self.eval(e.right, st)
        return self.binop(e.op, l, r, st, e)

    def binop(self, op, l, r, st, node):
        return widen(self.models.binop(self, op, l, r, st, node))

    def e_Compare(self, e, st):
        l = self.eval(e.left, st)
        res = None
        for op, c in zip(e.ops, e.comparators):
            r = self.eval(c, st)
            v = self.models.compare(self, op, l, r, st, e)
            res = v if res is None else frozenset().union(*[self._and(x, v) for x in [res]])
            l = r
        return res

    def _and(self, a, b):
        out = EMPTY
        ta = {x.p[1] if x.k == "const" else None for x in a}
        tb = {x.p[1] if x.k == "const" else None for x in b}
        if False in ta or False in tb or None in ta or None in tb:
            out = out | C(False)
        if ta & {True, None} and tb & {True, None}:
            out = out | C(True)
        if ta == {False} or tb == {False}:
            return C(False)
        return out or BOOL

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        k = self.eval(e.slice, st)
        return self.getitem(b, k, st, e)

    def e_Slice(self, e, st):
        return mk("slice", tuple(self.eval(x, st) if x is not None else NONE for x in (e.lower, e.upper, e.step)))

    def e_Index(self, e, st):
        return self.eval(e.value, st)

    def e_JoinedStr(self, e, st):
        parts, ok, ls = [""], True, NOL
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts = [p + str(x.value) for p in parts]
            else:
                v = self.eval(x.value, st)
                ls |= labels(v)
                c = consts(v)
                if c and len(c) * len(parts) <= 12 and x.format_spec is None and x.conversion == -1:
                    parts = [p + str(y) for p in parts for y in c]
                else:
                    if x.format_spec is not None:
                        self.eval(x.format_spec, st)
                    ok = False
        if ok:
            return frozenset().union(*[C(p, dep(ls)) for p in parts])
        return TOP(dep(ls))

    def e_FormattedValue(self, e, st):
        v = self.eval(e.value, st)
        return TOP(dep(labels(v)))

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        self.frames[-1].yields = vjoin(self.frames[-1].yields, v)
        return TOP()

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        self.frames[-1].yields = vjoin(self.frames[-1].yields, self.elem_of(v, st, e))
        return TOP()

    # ------------------------------------------------------------------ attributes
    def find_class_attr(self, cls, name, st):
        for c in cls.mro():
            o = st.get(c.oid)
            if o is not None and name in o.attrs:
                return o.attrs[name]
        return None

    def find_method(self, cls, name, st):
        v = self.find_class_attr(cls, name, st)
        if v:
            for a in v:
                if a.k == "fn":
                    return a.p
        return None

    def getattr(self, base, name, st, node, default=None):
        out = EMPTY
        for a in base:
            out = out | self.getattr1(a, name, st, node, default)
        if not out and base:
            raise PathDead()
        return widen(out)

    def _open_attr(self, oid, o, name, n, st):
        """attribute of an object in unknown state: its value so far or anything else, decided at the first read"""
        mark = "?" + name
        if mark in o.attrs:
            return n
        n = n | TOP()
        if not o.multi:
            m = st.mut(oid)
            m.attrs[name] = n
            m.attrs[mark] = NONE
        return n

    def getattr1(self, a, name, st, node, default=None):
        r = self.an.raw_attr(self, a, name, node, st)
        if r is not None:
            return r
        k = a.k
        if k == "unbound":
            return EMPTY
        if k == "obj":
            o = st.get(a.p)
            if o is None:
                return TOP(a.l)
            if o.kind == "inst":
                if name == "__class__":
                    return mk("cls", o.cls) if o.cls else TOP()
                if name == "__dict__":
                    return TOP()
                self.an.attr_read(self, a.p, o, name, node, st)
                v = o.attrs.get(name)
                if v is not None:
                    n = frozenset(x for x in v if x.k != "unbound")
                    if a.p in self.an.open_objs:
                        return self._open_attr(a.p, o, name, n, st)
                    if len(n) == len(v):
                        return n
                    c = self._class_lookup(o, a, name, st, node)
                    return n | (c or EMPTY)
                c = self._class_lookup(o, a, name, st, node)
                if c is not None:
                    if a.p in self.an.open_objs and is_const(c) and c:
                        return self._open_attr(a.p, o, name, c, st)
                    return c
                if default is not None:
                    return default | TOP() if a.p in self.an.open_objs else default
                if o.cls is not None:
                    if a.p in self.an.open_objs:
                        return self._open_attr(a.p, o, name, mk("top", None, a.l | o.l), st)
                    ga = self.find_method(o.cls, "__getattr__", st)
                    if ga:
                        return self.call(mk("bound", (a, ga)), [C(name)], {}, st, node)
                    ex = o.cls.all_ext()
                    if ex:
                        if ex[0].endswith("Enum"):
                            return mk("meth", (a, name), a.l)
                        return mk("ext", ex[0] + "()." + name, a.l | o.l)
                    if name not in self.models.OBJECT_ATTRS:
                        self.an.missing_attr(self, "instance of " + o.cls.qual, name, node, st)
                        if self.an.attr_fails:
                            self.do_raise(EXT("builtins.AttributeError"), node, st)
                            return EMPTY
                if o.cls is None:
                    return mk("meth", (a, name), a.l | o.l)
                return mk("top", None, a.l | o.l)
            if o.kind == "module":
                return self.mod_attr(a.p[1], name, st, node)
            return mk("meth", (a, name), a.l | o.l)
        if k == "cls":
            return self.class_attr(a.p, name, st, node, default)
        if k == "mod":
            if default is not None:
                v = self.mod_attr(a.p, name, st, node, quiet=True)
                return v
            return self.mod_attr(a.p, name, st, node)
        if k == "ext":
            if a.p.count(".") > 14 or len(a.p) > 200:
                return mk("top", None, a.l)
            if a.p.endswith(")"):
                r = self.models.attr(self, a, name, st, node)
                if r is not None:
                    return r
            return mk("ext", a.p + "." + name, a.l)
        if k == "const" and a.p[0] == "PurePosixPath":
            r = self.models.path_attr(a, name)
            if r is not None:
                return r
        if k == "arr":
            r = self.models.arr_attr(self, a, name, st, node)
            if r is not None:
                return r
            return mk("meth", (a, name), a.l)
        if k == "super":
            c, inst = a.p
            mro = self.inst_cls(inst, st).mro() if self.inst_cls(inst, st) else c.mro()
            i = mro.index(c) + 1 if c in mro else 1
            for kls in mro[i:]:
                o = st.get(kls.oid)
                if o is not None and name in o.attrs:
                    return self._bind(o.attrs[name], inst, kls, st, node)
            ex = [e for kls in mro[i:] for e in kls.ext_bases] + [e for e in c.ext_bases]
            return mk("ext", (ex[0] if ex else "object") + "()." + name)
        if k == "fn":
            if name in ("__name__", "__qualname__"):
                return C(a.p.name)
            if name == "__doc__":
                return TOP()
            return mk("meth", (a, name), a.l)
        if k == "meth":
            return mk("meth", (Atom("top", None, labels(frozenset([a]))), name), labels(frozenset([a])))
        if k == "top":
            r = self.models.attr(self, a, name, st, node)
            if r is not None:
                return r
        return mk("meth", (a, name), a.l)

    def inst_cls(self, a, st):
        if a.k == "obj":
            o = st.get(a.p)
            return o.cls if o is not None else None
        if a.k == "cls":
            return a.p
        return None

    def _class_lookup(self, o, a, name, st, node):
        if o.cls is None:
            return None
        for c in o.cls.mro():
            co = st.get(c.oid)
            if co is not None and name in co.attrs:
                self.an.attr_read(self, c.oid, co, name, node, st)
                v = frozenset(x for x in co.attrs[name] if x.k != "unbound")
                return self._bind(v, a, c, st, node)
        return None

    def _bind(self, v, a, c, st, node):
        out = EMPTY
        for x in v:
            if x.k == "fn":
                f = x.p
                if f.kind == "property":
                    if a.k == "cls":
                        out = out | frozenset([x])
                    else:
                        out = out | self.call(mk("bound", (a, f)), [], {}, st, node)
                elif f.kind == "static":
                    out = out | frozenset([x])
                elif f.kind == "class":
                    ca = a if a.k == "cls" else Atom("cls", self.inst_cls(a, st) or c, NOL)
                    out = out | mk("bound", (ca, f))
                else:
                    out = out | (mk("bound", (a, f)) if a.k != "cls" else frozenset([x]))
            else:
                out = out | frozenset([x])
        return out

    def class_attr(self, c, name, st, node, default=None):
        if name == "__name__":
            return C(c.name)
        if name == "__qualname__":
            return C(c.name)
        for k in c.mro():
            o = st.get(k.oid)
            if o is not None and name in o.attrs:
                self.an.attr_read(self, k.oid, o, name, node, st)
                v = frozenset(x for x in o.attrs[name] if x.k != "unbound")
                r = self._bind(v, Atom("cls", c, NOL), k, st, node)
                ex = c.all_ext()
                if ex and ex[0].endswith("Enum") and r and not any(x.k in ("fn", "bound") for x in r):
                    return mk("enum", (c.qual, name))
                return r
        if default is not None:
            return default
        ex = c.all_ext()
        if ex:
            return mk("ext", ex[0] + "." + name)
        if name not in self.models.OBJECT_ATTRS:
            self.an.missing_attr(self, "class " + c.qual, name, node, st)
        return TOP()

    # ------------------------------------------------------------------ subscripts
    def getitem(self, base, key, st, node):
        out = EMPTY
        for a in base:
            if a.k == "tup":
                out = out | self._seq_get(list(a.p), key, a.l, st, node, True)
            elif a.k == "obj":
                o = st.get(a.p)
                if o is None:
                    out = out | TOP()
                    continue
                self.an.item_read(self, a.p, o, key, node, st)
                if o.kind == "list":
                    if o.elems is not None and not o.multi:
                        out = out | self._seq_get(o.elems, key, o.l, st, node, False)
                    else:
                        s = o.summ
                        for x in (o.elems or []):
                            s = s | x
                        if any(x.k == "slice" for x in key):
                            oid, n = self.alloc(st, node, "list", extra="slice")
                            n.elems, n.summ = None, s
                            st.new(oid, n)
                            out = out | mk("obj", oid)
                        else:
                            out = out | (s or TOP(o.l))
                elif o.kind == "dict":
                    ks = consts_hash(key)
                    if ks is not None:
                        for kk in ks:
                            v = o.attrs.get(kk)
                            if v is not None:
                                n = frozenset(x for x in v if x.k != "unbound")
                                out = out | n
                                if len(n) != len(v):
                                    self.models.key_error(self, st, node)
                            elif not o.complete or o.multi:
                                out = out | (o.summ or TOP(o.l))
                            else:
                                self.models.key_error(self, st, node)
                    else:
                        s = o.summ
                        for v in o.attrs.values():
                            s = s | frozenset(x for x in v if x.k != "unbound")
                        out = out | (s or TOP(o.l))
                elif o.kind == "inst" and o.cls is not None and self.find_method(o.cls, "__getitem__", st):
                    out = out | self.call(self.getattr(frozenset([a]), "__getitem__", st, node), [key], {}, st, node)
                else:
                    out = out | TOP(a.l | o.l)
            elif a.k == "const" and isinstance(a.p[1], str):
                kk = const1(key)
                if isinstance(kk, int) and not isinstance(kk, bool):
                    if -len(a.p[1]) <= kk < len(a.p[1]):
                        out = out | C(a.p[1][kk])
                else:
                    sl = self.const_slice(key)
                    out = out | (C(a.p[1][sl]) if sl is not None else TOP(a.l))
            elif a.k == "arr":
                out = out | self.models.arr_getitem(self, a, key, st, node)
            elif a.k in ("unbound",):
                pass
            elif a.k in ("cls", "fn"):
                out = out | frozenset([a])
            elif a.k == "const":
                pass          # subscripting None / number: would raise
            else:
                out = out | self.models.top_getitem(self, a, key, st, node)
        if not out and base:
            raise PathDead()
        return widen(out)

    def const_slice(self, key):
        if len(key) == 1:
            (k,) = key
            if k.k == "slice":
                ps = []
                for x in k.p:
                    c = consts(x)
                    if c is None or len(c) != 1 or not (c[0] is None or isinstance(c[0], int)):
                        return None
                    ps.append(c[0])
                return slice(*ps)
        return None

    def _seq_get(self, seq, key, l, st, node, is_tup):
        ks = consts(key)
        if ks is not None:
            out = EMPTY
            for k in ks:
                if isinstance(k, int) and -len(seq) <= k < len(seq):
                    out = out | seq[k]
            return out
        sl = self.const_slice(key)
        if sl is not None:
            if is_tup:
                return TUP(seq[sl])
            return self.new_list(st, node, seq[sl], extra="slice")
        s = EMPTY
        for x in seq:
            s = s | x
        if any(k.k == "slice" for k in key):
            oid, n = self.alloc(st, node, "list", extra="slice")
            n.elems, n.summ = None, s
            st.new(oid, n)
            return mk("obj", oid)
        return s or TOP(l)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = self.eval(e.func, st)
        args, kwargs, star = [], {}, None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                s = self.exact_iter(v, st, x)
                if s is not None and star is None:
                    args += s
                else:
                    star = (star or EMPTY) | self.elem_of(v, st, x)
            else:
                v = self.eval(x, st)
                if star is None:
                    args.append(v)
                else:
                    star = star | v
        kstar = None
        for kw in e.keywords:
            v = self.eval(kw.value, st)
            if kw.arg is None:
                for a in v:
                    o = st.get(a.p) if a.k == "obj" else None
                    if o is not None and o.kind == "dict":
                        for k2, v2 in o.attrs.items():
                            if isinstance(k2, str):
                                kwargs[k2] = kwargs.get(k2, EMPTY) | v2 if len(v) > 1 else v2
                        if not o.complete:
                            kstar = (kstar or EMPTY) | (o.summ or TOP())
                    else:
                        kstar = (kstar or EMPTY) | TOP(labels(v))
            else:
                kwargs[kw.arg] = v
        return self.call(f, args, kwargs, st, e, star, kstar)

    def call(self, f, args, kwargs, st, node, star=None, kstar=None):
        outs = EMPTY
        res = None
        atoms = [a for a in f if a.k != "unbound"]
        if len(atoms) == 1:
            return self.call1(atoms[0], args, kwargs, st, node, star, kstar)
        # several receivers of one method: analyse it once with the union as receiver
        groups = {}
        for a in atoms:
            if a.k == "bound" and a.p[0].k == "obj":
                groups.setdefault(id(a.p[1]), []).append(a)
        for g in groups.values():
            if len(g) > 2:
                rep = Atom("ubound", (frozenset(x.p[0] for x in g), g[0].p[1]), NOL)
                atoms = [x for x in atoms if x not in g] + [rep]
        if len(atoms) == 1:
            return self.call1(atoms[0], args, kwargs, st, node, star, kstar)
        base = st
        for i, a in enumerate(atoms):
            s = base.fork()
            try:
                v = self.call1(a, args, kwargs, s, node, star, kstar)
            except PathDead:
                continue
            outs = outs | v
            res = join_st(res, s)
        if res is None:
            raise PathDead()
        st.take(res)
        return widen(outs)

    def call1(self, a, args, kwargs, st, node, star=None, kstar=None):
        self.ncalls += 1
        k = a.k
        if k == "fn":
            return self.call_func(a.p, args, kwargs, st, node, star, kstar)
        if k == "ubound":
            return self.call_func(a.p[1], [a.p[0]] + args, kwargs, st, node, star, kstar)
        if k == "bound":
            return self.call_func(a.p[1], [frozenset([a.p[0]])] + args, kwargs, st, node, star, kstar)
        if k == "cls":
            return self.instantiate(a.p, args, kwargs, st, node, star, kstar)
        if k == "ext":
            extra = ([star] if star is not None else [])
            self.callee = a
            r = self.an.ext_call(self, a.p, args + extra, kwargs, st, node)
            if r is not None:
                return r
            return self.models.ext_call(self, a, args + extra, kwargs, st, node)
        if k == "meth":
            b, name = a.p
            extra = ([star] if star is not None else [])
            r = self.an.method_hook(self, b, name, args + extra, kwargs, st, node)
            if r is not None:
                return r
            return self.models.method(self, b, name, args + extra, kwargs, st, node)
        if k == "obj":
            o = st.get(a.p)
            if o is not None and o.kind == "inst" and o.cls is not None:
                m = self.find_method(o.cls, "__call__", st)
                if m:
                    return self.call_func(m, [frozenset([a])] + args, kwargs, st, node, star, kstar)
                fw = self.find_method(o.cls, "forward", st)
                if fw and o.cls.all_ext():
                    return self.call_func(fw, [frozenset([a])] + args, kwargs, st, node, star, kstar)
        if k == "partial":
            f, pa, pk = a.p
            kw = dict(pk)
            kw.update(kwargs)
            return self.call(f, list(pa) + args, kw, st, node, star, kstar)
        r = self.an.unknown_call(self, a, args, kwargs, st, node)
        if r is not None:
            return r
        ls = a.l
        for x in args:
            ls |= labels(x)
        for x in kwargs.values():
            ls |= labels(x)
        return TOP(dep(ls))

    def instantiate(self, cls, args, kwargs, st, node, star=None, kstar=None):
        r = self.an.new_instance(self, cls, args, kwargs, st, node)
        if r is not None:
            return r
        oid = self.site(node, "inst:" + cls.qual)
        o = HObj("inst", cls)
        st.new(oid, o)
        me = mk("obj", oid)
        init = None
        for c in cls.mro():
            co = st.get(c.oid)
            if co is not None and "__init__" in co.attrs:
                for a in co.attrs["__init__"]:
                    if a.k == "fn":
                        init = a.p
                break
            if c.dataclass:
                break
        if init is not None:
            self.call_func(init, [me] + args, kwargs, st, node, star, kstar)
        elif any(c.dataclass for c in cls.mro()):
            self.dataclass_init(cls, oid, args, kwargs, st, node)
        else:
            new = self.find_method(cls, "__new__", st)
            ex = cls.all_ext()
            if new is not None:
                return self.call_func(new, [mk("cls", cls)] + args, kwargs, st, node, star, kstar)
            if ex and ex[0].endswith("NamedTuple"):
                for i, (n, d) in enumerate(cls.fields):
                    v = args[i] if i < len(args) else kwargs.get(n)
                    if v is None:
                        v = self.eval_in(cls.mod, d, st) if d is not None else TOP()
                    st.mut(oid).attrs[n] = v
            elif (args or kwargs) and not ex:
                self.an.bind_error(self, cls, "constructor takes no arguments", node, st)
        return me

    def eval_in(self, mod, expr, st):
        fr = Frame(None, mod, self.subctx(expr))
        self.frames.append(fr)
        st.envs.append({})
        try:
            return self.eval(expr, st)
        finally:
            st.envs.pop()
            self.frames.pop()

    def dataclass_init(self, cls, oid, args, kwargs, st, node):
        fields = []
        for c in reversed(cls.mro()):
            if c.dataclass:
                for n, d in c.fields:
                    fields = [f for f in fields if f[0] != n]
                    fields.append((n, d, c))
        for i, (n, d, c) in enumerate(fields):
            if i < len(args):
                v = args[i]
            elif n in kwargs:
                v = kwargs[n]
            elif d is not None:
                v = None
                if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("field"):
                    for kw in d.keywords:
                        if kw.arg == "default_factory":
                            fv = self.eval_in(c.mod, kw.value, st)
                            v = self.call(fv, [], {}, st, node)
                            # distinct object per field
                        elif kw.arg == "default":
                            v = self.eval_in(c.mod, kw.value, st)
                    if v is None:
                        v = TOP()
                    elif len(v) == 1:
                        (a,) = v
                        if a.k == "obj" and st.get(a.p).kind in ("dict", "list", "set"):
                            h = st.get(a.p).clone()
                            h.multi = False
                            noid = a.p + (("field", n),) if isinstance(a.p, tuple) else a.p
                            st.heap[noid] = h
                            st.own.add(noid)
                            v = mk("obj", noid)
                else:
                    v = self.eval_in(c.mod, d, st)
            else:
                self.an.bind_error(self, cls, "missing argument %r" % n, node, st)
                v = TOP()
            st.mut(oid).attrs[n] = v
        for kname in kwargs:
            if kname not in [f[0] for f in fields]:
                self.an.bind_error(self, cls, "unexpected argument %r" % kname, node, st)
        if len(args) > len(fields):
            self.an.bind_error(self, cls, "too many arguments", node, st)
        pi = self.find_method(cls, "__post_init__", st)
        if pi:
            self.call_func(pi, [mk("obj", oid)], {}, st, node)

    def bind(self, f, args, kwargs, st, node, star, kstar):
        a = f.node.args
        pos = a.posonlyargs + a.args
        env = {}
        err = None
        n = len(pos)
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                env[p.arg] = args[i]
                if p.arg in kwargs and p not in a.posonlyargs:
                    err = "multiple values for argument %r" % p.arg
            elif p.arg in kwargs and p not in a.posonlyargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif star is not None:
                env[p.arg] = star
                di = i - (n - len(f.defaults))
                if di >= 0:
                    env[p.arg] = star | f.defaults[di]
            elif kstar is not None:
                env[p.arg] = kstar
                di = i - (n - len(f.defaults))
                if di >= 0:
                    env[p.arg] = kstar | f.defaults[di]
            else:
                di = i - (n - len(f.defaults))
                if di >= 0:
                    env[p.arg] = f.defaults[di]
                else:
                    err = "missing argument %r" % p.arg
                    env[p.arg] = TOP()
        for v in list(env):
            if any(x.k == "unbound" for x in env[v]):
                env[v] = frozenset(x for x in env[v] if x.k != "unbound") or TOP()
        rest = args[n:]
        if a.vararg:
            if star is not None:
                oid, o = self.alloc(st, node, "list", extra="vararg")
                o.elems, o.summ = None, star
                for x in rest:
                    o.summ = o.summ | x
                st.new(oid, o)
                env[a.vararg.arg] = mk("obj", oid)
            else:
                env[a.vararg.arg] = TUP(rest)
        elif rest:
            err = "takes %d positional arguments but %d were given" % (n, len(args))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env[p.arg] = f.kwdefaults[p.arg] if kstar is None else f.kwdefaults[p.arg] | kstar
            elif kstar is not None:
                env[p.arg] = kstar
            else:
                err = "missing keyword argument %r" % p.arg
                env[p.arg] = TOP()
        names = set(env)
        extra = {k: v for k, v in kwargs.items() if k not in [p.arg for p in pos]}
        if a.kwarg:
            oid, o = self.alloc(st, node, "dict", extra="kwarg")
            o.attrs = extra
            if kstar is not None:
                o.complete = False
                o.summ = kstar
            st.new(oid, o)
            env[a.kwarg.arg] = mk("obj", oid)
        elif extra:
            err = "unexpected keyword argument %r" % sorted(extra)[0]
        if err:
            self.an.bind_error(self, f, err, node, st)
        return env

    def call_func(self, f, args, kwargs, st, node, star=None, kstar=None):
        r = self.an.call_hook(self, f, args, kwargs, st, node)
        if r is not None:
            return r
        env = self.bind(f, args, kwargs, st, node, star, kstar)
        active = sum(1 for fr in self.frames if fr.func is not None and fr.func.node is f.node)
        a0 = frozenset().union(*[v for v in env.values() if any(a.k == "obj" for a in v)])
        if active >= (2 if not self.descending(f, a0, st) else 6) or len(self.frames) > self.an.inline_limit or f.qual in self.an.skip_inline:
            self.skipped[f.qual] = self.skipped.get(f.qual, 0) + 1
            ls = NOL
            for x in args:
                ls |= labels(x)
            return TOP(dep(ls))
        self.funcs_seen.add(f.qual)
        fr = Frame(f, f.mod, self.subctx(node) if active == 0 or self.descending(f, a0, st) else self.frames[-1].ctx)
        fr.site = node
        fr.a0 = a0
        self.load(f.mod)
        mkey = None
        if f.closure is None and not self.loading:
            mkey = (id(f.node), fr.ctx)
            ent = self.memo.get(mkey)
            if ent is not None:
                for e_env, e_st, o_st, o_val in ent:
                    if e_st.must == st.must and e_st.may == st.may and e_env == env and same_heap_st(e_st, st):
                        self.memo_hits += 1
                        if o_st is None:
                            raise PathDead()
                        for k in heap_diff(e_st, o_st):
                            st.heap[k] = o_st.heap[k]
                            st.own.discard(k)
                            st.chg.add(k)
                        st.must, st.may = o_st.must, o_st.may
                        return o_val
            e_in = (env, st.fork())
            env = dict(env)
        self.frames.append(fr)
        loops, self.loops = self.loops, []
        st.envs.append(env)
        nd = len(st.envs)
        hs = self.handlers
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st)
                fr.rets.append((v, st))
                end = None
            else:
                end = self.block(f.node.body, st)
        finally:
            self.frames.pop()
            self.loops = loops
            self.handlers = hs
        if end is not None:
            fr.rets.append((self.an.returned(self, f, NONE, end, None) or NONE, end))
        res, val = None, EMPTY
        for v, s in fr.rets:
            res = join_st(res, s)
            val = val | v
        if res is None:
            # restore a sane env stack for the caller's handlers
            if mkey is not None:
                self.memo_put(mkey, e_in, None, None)
            raise PathDead()
        envs = res.envs[:nd - 1]
        envs[-1] = dict(envs[-1])
        st.take(res)
        st.envs = envs
        if f.is_gen:
            oid, o = self.alloc(st, node, "list", extra="gen")
            o.elems, o.summ = None, fr.yields
            st.new(oid, o)
            val = mk("obj", oid)
        val = widen(val)
        if mkey is not None:
            self.memo_put(mkey, e_in, st.fork(), val)
        return val

    def descending(self, f, a0, st):
        """a recursive call on a distinct exactly known object (walk down a known structure)"""
        for a in a0:
            if a.k != "obj":
                continue
            o = st.get(a.p)
            if o is None or o.multi or o.kind not in ("dict", "list") or not o.complete or (o.kind == "list" and o.elems is None):
                return False
        return bool(a0) and all(fr.a0 != a0 for fr in self.frames if fr.func is not None and fr.func.node is f.node)

    def memo_put(self, key, e, o_st, o_val):
        l = self.memo.setdefault(key, [])
        l.append((e[0], e[1], o_st, o_val))
        if len(l) > 3:
            l.pop(0)


def heap_diff(a, b):
    """objects of b that are new or changed since a"""
    if a.base is b.base:
        return [k for k in b.chg | b.own | a.chg if k in b.heap and a.heap.get(k) is not b.heap[k]]
    g = a.heap.get
    return [k for k, x in b.heap.items() if g(k) is not x]


def same_heap_st(a, b):
    if len(a.heap) != len(b.heap):
        return False
    if a.base is not b.base:
        return same_heap(a.heap, b.heap)
    for k in a.chg | b.chg | b.own:
        x, y = a.heap.get(k), b.heap.get(k)
        if x is not y and (x is None or y is None or not same_obj(x, y)):
            return False
    return True


def same_heap(a, b):
    if len(a) != len(b):
        return False
    g = b.get
    for k in [k for k, x in a.items() if g(k) is not x]:
        y = g(k)
        if y is None or not same_obj(a[k], y):
            return False
    return True


class ClosureEnv:
    """reference to the defining frame's variables (looked up late)"""
    __slots__ = ("env", "frame", "depth", "parent")

    def __init__(self, env, frame=None, depth=None, parent=None):
        self.env, self.frame, self.depth, self.parent = env, frame, depth, parent

    def get(self, name, eng, st):
        if self.frame is not None and self.depth < len(st.envs) - 1 and self.frame in eng.frames:
            v = st.envs[self.depth].get(name)
        else:
            v = self.env.get(name)
        if v is None and self.parent is not None:
            return self.parent.get(name, eng, st)
        return v


def mk_bound(v, a):
    for x in v:
        if x.k == "fn":
            return mk("bound", (a, x.p))
    return TOP()


def consts_hash(v):
    out = []
    for a in v:
        if a.k == "const":
            out.append(a.p[1])
        elif a.k == "enum":
            out.append(a.p)
        elif a.k == "cls":
            out.append(a.p)
        elif a.k == "tup":
            t = []
            for x in a.p:
                c = consts(x)
                if c is None or len(c) != 1:
                    return None
                t.append(c[0])
            out.append(tuple(t))
        else:
            return None
    return out or None


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.DictComp,
                          ast.SetComp, ast.GeneratorExp)):
            return False
    return True
