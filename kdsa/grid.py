"""An abstract evaluator for numerical kernels.

Program text is interpreted over an abstract domain, never run: an array is a
list of symbolic axis lengths plus a rule giving the exact polynomial normal
form (kdsa.algebra) of the element at a symbolic position; grid lengths,
spacings, field samples and network outputs are atoms.  Loops with symbolic
bounds are evaluated once with a symbolic index.  A branch whose condition
depends on data is followed both ways (explore()).  A construct outside the
model yields an Unk value, which is an error only when a result depends on it.
"""
import ast, builtins, os, json
from fractions import Fraction as F
from .algebra import Poly, Bounds, NotPoly, fn, diff, fdiv, fmod, show

MAXPATHS = 400
FUEL = 400000


class Unmodelled(Exception):
    pass


class Undecided(Unmodelled):
    """A row whose relation to a boundary depends on a generic position."""


class Later:
    """An element of an array as it was, for a position still to be fixed."""
    def __init__(self, f):
        self.f = f

    def __call__(self, pos):
        try:
            return self.f(pos)
        except Undecided:
            return Poly.atom(("e", self, pos))


class PyRaise(Exception):
    def __init__(self, name, node=None, where=None, msg=None):
        Exception.__init__(self, name)
        self.name, self.node, self.where, self.msg = name, node, where, msg


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


def _text(*a):
    from . import gridlib
    return gridlib.text(*a)


class Unk:
    """A value outside the model."""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Unk(%s)" % self.why


class Cond:
    """A truth value that depends on data."""
    def __init__(self, desc, op=None, a=None, b=None):
        self.desc, self.op, self.a, self.b = desc, op, a, b

    def __repr__(self):
        return "Cond(%s)" % self.desc


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ModV:
    def __init__(self, name):
        self.name = name


class Func:
    def __init__(self, node, mod, env, name, cls=None):
        self.node, self.mod, self.env, self.name, self.cls = node, mod, env, name, cls
        self.defaults, self.kwdefaults, self.attrs = [], {}, {}

    def __repr__(self):
        return "Func(%s.%s)" % (self.mod, self.name)


class Cls:
    def __init__(self, name, mod, bases, attrs, node):
        self.name, self.mod, self.bases, self.attrs, self.node = name, mod, bases, attrs, node
        self.dataclass = False
        self.fields = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def __repr__(self):
        return "Cls(%s)" % self.name


class Inst:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return "Inst(%s)" % getattr(self.cls, "name", self.cls)


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Prop:
    def __init__(self, f):
        self.f = f


class Static:
    def __init__(self, f, kind):
        self.f, self.kind = f, kind


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Native:
    """A Python-level helper supplied by a check (a stand-in for data or a network)."""
    def __init__(self, f, name="native"):
        self.f, self.name, self.attrs = f, name, {}


class Method(Native):
    """a Native that is bound like a function when it is read from an instance's class"""


class Rng:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        v = [low(P(x)) for x in (self.lo, self.hi, self.step)]
        if not all(isinstance(x, int) for x in v):
            raise Unmodelled("a range whose bounds are not constant")
        return iter(range(*v))


class Total:
    """sum over all rows of an array (only used as a differentiation target)."""
    def __init__(self, arr):
        self.arr = arr


def low(p):
    if isinstance(p, Poly):
        k = p.const()
        if k is not None:
            return int(k) if k.denominator == 1 else k
    return p


def is_num(v):
    return isinstance(v, (int, float, F, Poly)) and not isinstance(v, bool)


def P(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, Unk):
        raise Unmodelled(v.why)
    try:
        return Poly.c(v)
    except NotPoly as e:
        raise Unmodelled("not a number: %s" % e)


class Arr:
    """dims: list of Poly lengths; at(pos) gives the element."""
    def __init__(self, ev, dims, f, base=None, inv=None, fwd=None, leaf=None, torch=False):
        self.ev, self.dims, self._f = ev, [P(d) for d in dims], f
        self.base, self.inv, self.fwd = base, inv, fwd
        self.leaf, self.torch = leaf, torch
        self.reqgrad = False

    @property
    def ndim(self):
        return len(self.dims)

    def snap(self):
        """The element rule as of now."""
        if self.base is not None:
            b, fw = self.base.snap(), self.fwd
            return lambda pos: b(fw(pos))
        f = self._f
        memo = {}

        def g(pos):
            r = memo.get(pos)
            if r is None:
                r = memo[pos] = f(pos)
            return r
        return g

    def at(self, pos):
        pos = tuple(P(x) for x in pos)
        self.ev.note_read(self, pos)
        if self.base is not None:
            return self.base.at(self.fwd(pos))
        try:
            return self._f(pos)
        except Undecided:
            if not any(a[0] == "i" for x in pos for a in x.atoms()):
                raise
            return Poly.atom(("e", Later(self.snap()), pos))

    def set(self, newf):
        """newf(pos) -> element or None (keep)."""
        if self.base is not None:
            inv = self.inv
            if inv is None:
                raise Unmodelled("write through a view")

            def lift(pos):
                q = inv(pos)
                return None if q is None else newf(q)
            self.base.set(lift)
            return
        old = self.snap()

        def g(pos):
            r = newf(pos)
            return old(pos) if r is None else r
        memo = {}

        def h(pos):
            r = memo.get(pos)
            if r is None:
                r = memo[pos] = g(pos)
            return r
        self._f = h

    def __repr__(self):
        return "Arr[%s]" % ", ".join(show(d) for d in self.dims)


class Ev:
    def __init__(self, proj, big=64):
        self.proj = proj
        self.B = Bounds(big)
        self.mods = {}
        self.decisions, self.taken = [], []
        self.fuel = FUEL
        self.loops = []          # active symbolic loops: dict(var, lo, hi, reads, writes)
        self.depth = 0
        self.compiled = []
        self.caught = []         # exceptions handled by the program on this path
        self.stack = []
        self.calls = []          # functions entered
        self.trace = set()       # (mod, name) of functions entered
        self.handlers = {}       # check supplied: dotted name -> f(ev, args, kwargs, node)
        self.assume = []         # f(cond) -> True/False/None
        self.masks = []
        self.constants = {}      # dotted external name -> value, where a check gives one
        self.outer = None
        self.special = None     # atom -> 'nan' / 'inf' for samples that are not finite
        self.slack = False       # lengths and bounds that cannot be compared are taken to be in range
        self.sites = 0

    # ---------------------------------------------------------------- paths
    def explore(self, thunk, maxpaths=MAXPATHS):
        """Run thunk once per choice sequence; yields ('ok', value) / ('raise', PyRaise)."""
        out = []
        todo = [[]]
        while todo:
            if len(out) > maxpaths:
                raise Unmodelled("too many data dependent paths")
            self.decisions, self.taken = todo.pop(), []
            self.fuel = FUEL
            self.loops, self.stack, self.depth, self.compiled, self.caught, self.masks = [], [], 0, [], [], []
            self.mods = {}
            try:
                r = ("ok", thunk())
            except PyRaise as e:
                r = ("raise", e)
            dec = [t[1] for t in self.taken]
            out.append((r, list(self.taken)))
            for k in range(len(self.decisions), len(dec)):
                todo.append(dec[:k] + [not dec[k]])
        return out

    def choose(self, desc, default=False):
        k = len(self.taken)
        v = self.decisions[k] if k < len(self.decisions) else default
        self.taken.append((desc, v))
        return v

    def truth(self, v, desc="", node=None):
        if isinstance(v, Cond):
            for a in self.assume:
                r = a(v)
                if r is not None:
                    return r
            return self.choose(v.desc or desc)
        if isinstance(v, Unk):
            return self.choose("%s: %s" % (desc, v.why))
        if isinstance(v, Poly):
            s = self.B.sign(v) if self.intlike(v) else None
            if s in ("+", "-"):
                return True
            if s == "0":
                return False
            if not self.intlike(v):
                return True     # a generic real value
            return self.choose("%s: %s" % (desc, show(v)))
        if isinstance(v, Arr):
            if not v.dims:
                return self.truth(v.at(()), desc)
            if all(d.const() == 1 for d in v.dims):
                return self.truth(v.at((0,) * len(v.dims)), desc)
            raise PyRaise("ValueError", node, msg="truth value of an array")
        if isinstance(v, (Func, Cls, Inst, Bound, Ext, ModV, Partial, Native)):
            return True
        if isinstance(v, Rng):
            return True
        return bool(v)

    def intlike(self, p):
        return all(a[0] in ("n", "i", "fdiv", "fmod") for a in p.atoms())

    # ---------------------------------------------------------------- modules
    def canon(self, name):
        if self.proj.has(name):
            return name
        for pre in ("discover", "dso"):
            if name == pre or name.startswith(pre + "."):
                c = "kd.model.discover" + name[len(pre):]
                if self.proj.has(c):
                    return c
        return None

    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            m = self.mods[name] = {"__name__": name}
            if name in self.proj.index:
                src = self.proj.mod(name)
                m["__file__"] = src.path
                fr = Frame(self, name, m, m, None)
                for st in src.tree.body:
                    self.top(fr, st)
        return m

    def top(self, fr, st):
        """One module level statement; failures leave Unk bindings."""
        if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and \
                isinstance(st.test.left, ast.Name) and st.test.left.id == "__name__":
            return
        save = list(self.taken)
        dec = self.decisions
        try:
            fr.stmt(st)
        except (Unmodelled, PyRaise, NotPoly, RecursionError) as e:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in fr.loc:
                    fr.loc[n.id] = Unk("module value %s: %s" % (n.id, e))
        self.taken = save
        self.decisions = dec

    def get(self, mod, name):
        v = self.module(mod).get(name)
        if v is None:
            raise Unmodelled("%s.%s not found" % (mod, name))
        return v if not isinstance(v, Lazy) else self.force(v)

    def force(self, v):
        if isinstance(v, Lazy):
            return v.get(self)
        return v

    def modattr(self, modname, name):
        c = self.canon(modname)
        if c:
            if c in self.proj.index:
                m = self.module(c)
                if name in m:
                    return self.force(m[name])
            if self.proj.has(c + "." + name):
                return ModV(c + "." + name)
            if c in self.proj.index and isinstance(m.get("__getattr__"), Func):
                return self.call(m["__getattr__"], [name])
            # star imports leave names in m; otherwise unknown
            raise PyRaise("AttributeError", msg="module %s has no %s" % (c, name))
        return Ext(modname + "." + name)

    # ---------------------------------------------------------------- calls
    def call(self, f, args=(), kw=None, node=None):
        kw = kw or {}
        args = list(args)
        self.fuel -= 1
        if self.fuel < 0:
            raise Unmodelled("fuel exhausted")
        f = self.force(f)
        if isinstance(f, Unk):
            return Unk(f.why)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + args, k, node)
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + args, kw, node)
        if isinstance(f, Static):
            return self.call(f.f, args, kw, node)
        if isinstance(f, Native):
            return f.f(self, args, kw, node)
        if isinstance(f, Func):
            return self.invoke(f, args, kw, node)
        if isinstance(f, Cls):
            return self.construct(f, args, kw, node)
        if isinstance(f, Inst):
            c = f.cls.find("__call__")
            if c is not None:
                return self.call(c, args if isinstance(c, Static) else [f] + args, kw, node)
            if f.cls.find("forward") is not None:
                return self.call(f.cls.find("forward"), [f] + args, kw, node)
            return Unk("call of %r" % f)
        if isinstance(f, Ext):
            h = self.handlers.get(f.name)
            if h is not None:
                return h(self, args, kw, node)
            from . import gridlib
            return gridlib.call(self, f.name, args, kw, node)
        if callable(f):
            return f(self, args, kw, node)
        raise PyRaise("TypeError", node, msg="not callable: %r" % (f,))

    def construct(self, c, args, kw, node):
        o = Inst(c)
        new = c.find("__init__")
        if any(k.dataclass for k in c.mro()) and new is None:
            fields = []
            for k in reversed(c.mro()):
                if k.dataclass:
                    for n, d in k.fields:
                        fields = [x for x in fields if x[0] != n] + [(n, d)]
            vals = {}
            for (n, _), a in zip(fields, args):
                vals[n] = a
            vals.update(kw)
            for n, d in fields:
                if n in vals:
                    o.attrs[n] = vals.pop(n)
                elif d is not None:
                    o.attrs[n] = d()
                else:
                    raise PyRaise("TypeError", node, msg="missing field " + n)
            if vals:
                raise PyRaise("TypeError", node, msg="unexpected field %s" % sorted(vals))
            post = c.find("__post_init__")
            if post is not None:
                self.call(post, [o], {}, node)
            return o
        if new is None:
            for b in c.mro():
                for e in b.bases:
                    if isinstance(e, Ext) and (e.name.startswith("builtins.") or e.name == "Exception"):
                        o.attrs["args"] = tuple(args)
            return o
        self.call(new, [o] + args, kw, node)
        return o

    def invoke(self, f, args, kw, node):
        self.trace.add((f.mod, f.name))
        if self.compiled and self.compiled[-1] and f.env is None and not f.attrs.get("nopython"):
            raise PyRaise("TypingError", node, where=f.mod, msg="%s is not compiled but called from a compiled function"
                          % f.name)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unmodelled("call depth")
        a = f.node.args
        loc = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                loc[names[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            raise PyRaise("TypeError", node, msg="too many arguments to %s" % f.name)
        if a.vararg:
            loc[a.vararg.arg] = tuple(rest)
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in loc and k in names:
                raise PyRaise("TypeError", node, msg="duplicate argument %s of %s" % (k, f.name))
            if k in names or k in kwo:
                loc[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            raise PyRaise("TypeError", node, msg="unexpected argument %s of %s" % (sorted(extra), f.name))
        if a.kwarg:
            loc[a.kwarg.arg] = extra
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise("TypeError", node, msg="missing argument %s of %s" % (n, f.name))
                loc[n] = f.defaults[j]
        for n in kwo:
            if n not in loc:
                if n not in f.kwdefaults:
                    raise PyRaise("TypeError", node, msg="missing argument %s of %s" % (n, f.name))
                loc[n] = f.kwdefaults[n]
        self.compiled.append(f.attrs.get("nopython"))
        try:
            fr = Frame(self, f.mod, loc, self.module(f.mod) if f.mod in self.mods or f.mod in self.proj.index else {}, f)
            if isinstance(f.node, ast.Lambda):
                r = fr.ev(f.node.body)
            elif any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node)):
                fr.yields = []
                try:
                    fr.body(f.node.body)
                except _Return:
                    pass
                r = fr.yields
            else:
                try:
                    fr.body(f.node.body)
                    r = None
                except _Return as e:
                    r = e.v
            return r
        except PyRaise as e:
            if e.where is None:
                e.where = "%s.%s" % (f.mod, f.name)
            raise
        finally:
            self.depth -= 1
            self.compiled.pop()

    # ---------------------------------------------------------------- loops
    def note_read(self, arr, pos):
        for lp in self.loops:
            lp["reads"].append((arr, pos))

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, node=None):
        o = self.force(o)
        if isinstance(o, Unk):
            return Unk(o.why)
        if isinstance(o, ModV):
            return self.modattr(o.name, name)
        if isinstance(o, Ext):
            if o.name.endswith(".dtype") or o.name.startswith("dtype"):
                return Ext("dtype." + name)
            if o.name + "." + name in self.constants:
                return self.constants[o.name + "." + name]
            return Ext(o.name + "." + name)
        if isinstance(o, Inst):
            if name == "__dict__":
                return o.attrs
            if name == "__class__":
                return o.cls
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, Cls):
                v = o.cls.find(name)
                if v is not None:
                    v = self.force(v)
                    if isinstance(v, Prop):
                        return self.call(v.f, [o], {}, node)
                    if isinstance(v, Static):
                        return v.f if v.kind == "static" else Bound(v.f, o.cls)
                    if isinstance(v, (Func, Method)):
                        return Bound(v, o)
                    return v
                if any(name in c.attrs for c in o.cls.mro()):
                    return None
                ga = o.cls.find("__getattr__")
                if ga is not None:
                    return self.call(ga, [o, name], {}, node)
                if any(isinstance(b, Ext) and not b.name.startswith("builtins.") and b.name not in ("abc.ABC", "object", "typing.Protocol")
                       for c in o.cls.mro() for b in c.bases):
                    return Unk("inherited attribute %s" % name)
            raise PyRaise("AttributeError", node, msg=name)
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            if name == "__init__" and o.find(name) is None:
                return Native(lambda ev, a, k, n: None)
            v = o.find(name)
            if v is None:
                if any(name in c.attrs for c in o.mro()):
                    return None
                raise PyRaise("AttributeError", node, msg=name)
            v = self.force(v)
            if isinstance(v, Static):
                return v.f if v.kind == "static" else Bound(v.f, o)
            return v
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            raise PyRaise("AttributeError", node, msg=name)
        if isinstance(o, Partial):
            return {"func": o.f, "args": tuple(o.args), "keywords": dict(o.kw)}.get(name) or self.missing(o, name, node)
        if isinstance(o, Native):
            if name in o.attrs:
                return o.attrs[name]
            raise PyRaise("AttributeError", node, msg=name)
        if isinstance(o, Super):
            for c in o.after():
                if name in c.attrs:
                    v = self.force(c.attrs[name])
                    if isinstance(v, Func):
                        return Bound(v, o.self_)
                    if isinstance(v, Static):
                        return v.f if v.kind == "static" else Bound(v.f, o.self_)
                    if isinstance(v, Prop):
                        return self.call(v.f, [o.self_], {}, node)
                    return v
            return Native(lambda ev, a, k, n: None if name == "__init__" else Unk("super().%s" % name))
        from . import gridlib
        return gridlib.attr(self, o, name, node)

    def missing(self, o, name, node):
        raise PyRaise("AttributeError", node, msg=name)

    def setattr(self, o, name, v, node=None):
        o = self.force(o)
        if isinstance(o, Inst):
            p = o.cls.find(name) if isinstance(o.cls, Cls) else None
            if isinstance(p, Prop):
                st = getattr(p, "setter", None)
                if st is None:
                    raise PyRaise("AttributeError", node, msg="property %s has no setter" % name)
                self.call(st, [o, v], {}, node)
                return
            o.attrs[name] = v
        elif isinstance(o, Cls):
            o.attrs[name] = v
        elif isinstance(o, (Func, Native)):
            o.attrs[name] = v
        elif isinstance(o, ModV):
            self.module(o.name)[name] = v
        elif isinstance(o, Arr):
            if name == "requires_grad":
                o.reqgrad = v
                if v is True:
                    from . import gridlib
                    gridlib.markleaf(self, o)
        elif isinstance(o, (Unk, Ext)):
            pass
        else:
            raise Unmodelled("attribute store on %r" % (o,))


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def after(self):
        c = self.self_.cls if isinstance(self.self_, Inst) else self.self_
        m = c.mro()
        return m[m.index(self.cls) + 1:] if self.cls in m else []


class Lazy:
    def __init__(self, f):
        self.f, self.v, self.done = f, None, False

    def get(self, ev):
        if not self.done:
            self.v = ev.force(self.f(ev))
            self.done = True
        return self.v


def walk_own(node):
    """Nodes of a function body without those of nested functions."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


EXC_BASES = {}


def exc_is(name, target):
    """Does builtin exception `name` match handler `target`?"""
    if name == target or target in ("BaseException", "Exception"):
        return target == "BaseException" or name not in ("SystemExit", "KeyboardInterrupt")
    a, b = getattr(builtins, name, None), getattr(builtins, target, None)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    return False


class Frame:
    def __init__(self, ev_, mod, loc, glob, func, parent=None):
        self.e, self.mod, self.loc, self.glob, self.func = ev_, mod, loc, glob, func
        self.globals_, self.nonlocals_ = set(), set()
        self.yields = None
        self.cur = None

    # ---------------------------------------------------------------- names
    def lookup(self, name, node=None):
        if name in self.globals_:
            if name in self.glob:
                return self.e.force(self.glob[name])
        elif name in self.loc:
            v = self.loc[name]
            if v is _DEL:
                raise PyRaise("UnboundLocalError", node, msg=name)
            return self.e.force(v)
        env = self.func.env if self.func is not None else None
        while env is not None:
            if name in env[0]:
                return self.e.force(env[0][name])
            env = env[1]
        if name in self.glob:
            return self.e.force(self.glob[name])
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        if name == "__class__" and self.func is not None and self.func.cls is not None:
            return self.func.cls
        if self.glob.get("*unknown*"):
            return Ext("unknown." + name)
        raise PyRaise("NameError" if self.loc is self.glob else "UnboundLocalError" if self._assigned(name) else "NameError",
                      node, msg=name)

    def _assigned(self, name):
        return self.func is not None and any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)
                                             for n in walk_own(self.func.node))

    def store(self, name, v):
        if name in self.globals_:
            self.glob[name] = v
            return
        if name in self.nonlocals_:
            env = self.func.env
            while env is not None:
                if name in env[0]:
                    env[0][name] = v
                    return
                env = env[1]
        for lp in self.e.loops:
            if lp["frame"] is self:
                lp["stores"].add(name)
        self.loc[name] = v

    # ---------------------------------------------------------------- statements
    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        e = self.e
        e.fuel -= 1
        if e.fuel < 0:
            raise Unmodelled("fuel exhausted")
        self.cur = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unmodelled("statement %s" % type(s).__name__)
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Import(self, s):
        for a in s.names:
            c = self.e.canon(a.name)
            if a.asname:
                self.loc[a.asname] = ModV(c) if c else Ext(a.name)
            else:
                r = a.name.split(".")[0]
                c = self.e.canon(r)
                self.loc[r] = ModV(c) if c else Ext(r)

    def s_ImportFrom(self, s):
        src = self.e.proj.mod(self.mod)
        base = src.resolve_relative(s.level, s.module)
        c = self.e.canon(base)
        for a in s.names:
            if a.name == "*":
                if c and c in self.e.proj.index:
                    m = self.e.module(c)
                    for k, v in m.items():
                        if not k.startswith("_"):
                            self.loc[k] = v
                else:
                    self.loc["*unknown*"] = True
                continue
            nm = a.asname or a.name
            if c:
                if c + "." + a.name in self.e.proj.index and not (c in self.e.proj.index and self._defines(c, a.name)):
                    self.loc[nm] = ModV(c + "." + a.name)
                else:
                    self.loc[nm] = Lazy(lambda ev, c=c, n=a.name: ev.modattr(c, n))
            else:
                self.loc[nm] = Ext(base + "." + a.name)

    def _defines(self, modname, name):
        for st in self.e.proj.mod(modname).tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == name:
                return True
            if isinstance(st, (ast.Assign, ast.ImportFrom)):
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                        return True
                    if isinstance(n, ast.alias) and (n.asname or n.name) == name:
                        # "from . import name" binds the submodule itself
                        if isinstance(st, ast.ImportFrom) and st.level == 1 and not st.module and n.name == name:
                            continue
                        return True
        return False

    def s_Global(self, s):
        self.globals_.update(s.names)

    def s_Nonlocal(self, s):
        self.nonlocals_.update(s.names)

    def mkfunc(self, s, cls=None):
        env = None
        if self.func is not None:
            env = (self.loc, self.func.env)
        f = Func(s, self.mod, env, getattr(s, "name", "<lambda>"), cls)
        f.defaults = [self.ev(d) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        return f

    def nopython(self, d):
        """numba's nopython compilation: the function may call only compiled functions"""
        t = self.ev(d.func if isinstance(d, ast.Call) else d)
        if not isinstance(t, Ext):
            return False
        if t.name in ("numba.njit", "numba.core.decorators.njit"):
            return True
        return t.name in ("numba.jit", "numba.core.decorators.jit") and (
            not isinstance(d, ast.Call) or not any(k.arg == "nopython" and isinstance(k.value, ast.Constant) and
                                                   not k.value.value for k in d.keywords))

    def decorate(self, f, decs):
        for d in reversed(decs):
            nm = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else None
            if isinstance(d, ast.Attribute) and d.attr == "setter":
                p = self.loc.get(f.name)
                if isinstance(p, Prop):
                    p.setter = f
                    f = p
                continue
            try:
                if self.nopython(d):
                    f.attrs["nopython"] = True
                    continue
                dv = self.ev(d)
            except (PyRaise, Unmodelled):
                dv = Unk("decorator")
            n = dv.name if isinstance(dv, Ext) else ""
            if n == "builtins.property" or n.endswith("cached_property"):
                f = Prop(f)
            elif n == "builtins.staticmethod":
                f = Static(f, "static")
            elif n == "builtins.classmethod":
                f = Static(f, "class")
            elif isinstance(dv, (Func, Partial, Bound, Native)):
                f = self.e.call(dv, [f])
            # anything else (jit compilers, no_grad, abstract markers) keeps the function
        return f

    def s_FunctionDef(self, s):
        f = self.mkfunc(s)
        self.store(s.name, self.decorate(f, s.decorator_list))

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            try:
                bases.append(self.ev(b))
            except (PyRaise, Unmodelled):
                bases.append(Unk("base"))
        c = Cls(s.name, self.mod, bases, {}, s)
        for d in s.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            if (t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")) == "dataclass":
                c.dataclass = True
        fr = Frame(self.e, self.mod, c.attrs, self.glob, self.func)
        for st in s.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.mkfunc(st, c)
                fr2 = Frame(self.e, self.mod, c.attrs, self.glob, self.func)
                c.attrs[st.name] = fr2.decorate(f, st.decorator_list)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is None:
                    c.fields.append((st.target.id, None))
                else:
                    v = st.value
                    if isinstance(v, ast.Call) and getattr(v.func, "id", getattr(v.func, "attr", "")) == "field":
                        kws = {k.arg: k.value for k in v.keywords}
                        if isinstance(kws.get("init"), ast.Constant) and kws["init"].value is False and \
                                "default" not in kws and "default_factory" not in kws:
                            pass        # set by the class itself
                        elif "default_factory" in kws:
                            g = kws["default_factory"]
                            c.fields.append((st.target.id, lambda fr=fr, g=g: fr.e.call(fr.ev(g))))
                        elif "default" in kws:
                            c.fields.append((st.target.id, lambda fr=fr, g=kws["default"]: fr.ev(g)))
                        else:
                            c.fields.append((st.target.id, None))
                    else:
                        x = fr.ev(v)
                        c.attrs[st.target.id] = x
                        c.fields.append((st.target.id, lambda x=x: x))
            else:
                self.e.top(fr, st)
        self.store(s.name, c)

    def s_Return(self, s):
        raise _Return(self.ev(s.value) if s.value is not None else None)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.loc[t.id] = _DEL
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value), self.ev(t.slice)
                if isinstance(o, list) and isinstance(i, Poly):
                    if i.const() is None or i.const().denominator != 1:
                        raise Unmodelled("element of a list deleted at a symbolic place")
                    i = int(i.const())
                if isinstance(o, (dict, list)):
                    try:
                        del o[i]
                    except (KeyError, IndexError) as x:
                        raise PyRaise(type(x).__name__, s)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Inst):
                    if t.attr not in o.attrs:
                        raise PyRaise("AttributeError", s, msg=t.attr)
                    del o.attrs[t.attr]

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        from . import gridlib
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, s)
            rhs = self.ev(s.value)
            if isinstance(cur, Arr):
                gridlib.inplace(self.e, cur, type(s.op).__name__, rhs, s)
                return
            if isinstance(cur, list) and isinstance(s.op, ast.Add) and isinstance(rhs, (list, tuple)):
                cur.extend(rhs)
                return
            self.store(t.id, self.binop(type(s.op).__name__, cur, rhs, s))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.e.getattr(o, t.attr, s)
            rhs = self.ev(s.value)
            if isinstance(cur, Arr):
                gridlib.inplace(self.e, cur, type(s.op).__name__, rhs, s)
                return
            if isinstance(cur, list) and isinstance(s.op, ast.Add) and isinstance(rhs, (list, tuple)):
                cur.extend(rhs)
                return
            self.e.setattr(o, t.attr, self.binop(type(s.op).__name__, cur, rhs, s), s)
        else:
            o, i = self.ev(t.value), self.index(t.slice)
            cur = self.getitem(o, i, s)
            if isinstance(cur, Arr):
                k = gridlib.copy(self.e, cur)
                gridlib.inplace(self.e, k, type(s.op).__name__, self.ev(s.value), s)
                self.setitem(o, i, k, s)
            else:
                self.setitem(o, i, self.binop(type(s.op).__name__, cur, self.ev(s.value), s), s)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v, t)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(vs, Unk):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, Unk(vs.why))
                return
            if star:
                k = star[0]
                tail = len(t.elts) - k - 1
                if len(vs) < k + tail:
                    raise PyRaise("ValueError", t, msg="unpack")
                for x, y in zip(t.elts[:k], vs[:k]):
                    self.assign(x, y)
                self.assign(t.elts[k].value, list(vs[k:len(vs) - tail]))
                for x, y in zip(t.elts[k + 1:], vs[len(vs) - tail:]):
                    self.assign(x, y)
                return
            if len(vs) != len(t.elts):
                raise PyRaise("ValueError", t, msg="cannot unpack %d into %d" % (len(vs), len(t.elts)))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.e.setattr(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.index(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v, t)))
        else:
            raise Unmodelled("assignment target")

    def s_If(self, s):
        v = self.ev(s.test)
        self.body(s.body if self.e.truth(v, ast.unparse(s.test), s) else s.orelse)

    def s_Assert(self, s):
        v = self.ev(s.test)
        if isinstance(v, (Cond, Unk)):
            return
        if isinstance(v, Poly) and self.e.B.sign(v) not in ("0",):
            return
        if not self.e.truth(v, "assert", s):
            raise PyRaise("AssertionError", s)

    def s_Raise(self, s):
        if s.exc is None:
            raise getattr(self, "handling", None) or PyRaise("RuntimeError", s)
        x = s.exc
        t = x.func if isinstance(x, ast.Call) else x
        nm = None
        try:
            tv = self.ev(t)
            if isinstance(tv, Ext):
                nm = tv.name.rpartition(".")[2]
            elif isinstance(tv, Cls):
                nm = tv.name
                EXC_BASES[nm] = [c.name for c in tv.mro()] + \
                    [b.name.rpartition(".")[2] for c in tv.mro() for b in c.bases if isinstance(b, Ext)]
            elif isinstance(tv, PyRaise):
                raise tv
        except Unmodelled:
            pass
        raise PyRaise(nm or "Exception", s, where=self.mod)

    def s_Try(self, s):
        e = self.e
        d = e.depth
        try:
            try:
                self.body(s.body)
            except PyRaise as x:
                e.depth = d
                h = self.match(s.handlers, x)
                if h is None:
                    raise
                e.caught.append(x)
                if h.name:
                    o = Inst(Ext(x.name))
                    o.attrs["args"] = (x.msg,)
                    self.loc[h.name] = x
                old = getattr(self, "handling", None)
                self.handling = x
                try:
                    self.body(h.body)
                finally:
                    self.handling = old
            else:
                self.body(s.orelse)
        finally:
            import sys
            if s.finalbody:
                self.body(s.finalbody)

    s_TryStar = s_Try

    def match(self, handlers, x):
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                n = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
                if exc_is(x.name, n) or n in EXC_BASES.get(x.name, ()):
                    return h
        return None

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if isinstance(v, Inst) and isinstance(v.cls, Cls) and v.cls.find("__enter__") is not None:
                v = self.e.call(v.cls.find("__enter__"), [v])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.body(s.body)

    def s_While(self, s):
        n = 0
        while True:
            v = self.ev(s.test)
            if isinstance(v, Unk) or isinstance(v, Cond) and all(a(v) is None for a in self.e.assume):
                raise Unmodelled("while loop on data")
            if not self.e.truth(v, "while", s):
                self.body(s.orelse)
                return
            n += 1
            if n > 5000:
                raise Unmodelled("while loop too long")
            try:
                self.body(s.body)
            except _Break:
                return
            except _Continue:
                continue

    def s_Break(self, s):
        raise _Break()

    def s_Continue(self, s):
        raise _Continue()

    def s_For(self, s):
        it = self.ev(s.iter)
        self.loop(it, s.target, lambda: self.body(s.body), s)
        self.body(s.orelse)

    def loop(self, it, target, run, node):
        e = self.e
        if isinstance(it, Rng):
            n = low(P(it.hi) - P(it.lo)) if it.step in (1, -1) else None
            if it.step == 1 and isinstance(it.lo, int) and isinstance(it.hi, int):
                it = list(range(it.lo, it.hi))
            elif isinstance(it.lo, int) and isinstance(it.hi, int) and isinstance(it.step, int):
                it = list(range(it.lo, it.hi, it.step))
            else:
                return self.symloop(it, target, run, node)
        if isinstance(it, Zip) and it.sym:
            raise Unmodelled("symbolic zip loop")
        vs = self.iterate(it, node)
        if isinstance(vs, Unk):
            raise Unmodelled("loop over %s" % vs.why)
        for v in vs:
            self.assign(target, v)
            try:
                run()
            except _Break:
                break
            except _Continue:
                continue

    def symloop(self, r, target, run, node):
        """One symbolic iteration stands for all of them."""
        e = self.e
        if r.step not in (1, -1) or not isinstance(target, ast.Name):
            raise Unmodelled("symbolic loop with step %r" % (r.step,))
        lo, hi = (P(r.lo), P(r.hi)) if r.step == 1 else (P(r.hi) + 1, P(r.lo) + 1)
        if e.B.sign(hi - lo) not in ("+",):
            if e.B.sign(hi - lo) in ("0", "-"):
                return
            if not e.slack:
                raise Unmodelled("loop bounds %s..%s" % (show(lo), show(hi)))
        v = e.B.fresh(target.id, lo, hi - 1)
        (m, _), = v.t.items()
        (atom, _), = m
        lp = {"var": atom, "lo": lo, "hi": hi, "reads": [], "writes": [], "stores": set(), "frame": self}
        before = dict(self.loc)
        e.loops.append(lp)
        self.store(target.id, v)
        try:
            run()
        except _Continue:
            pass
        except _Break:
            raise Unmodelled("break out of a symbolic loop")
        finally:
            e.loops.pop()
        for arr, idx in lp["writes"]:
            for a2, pos in lp["reads"]:
                if a2 is arr and not any(atom in p.atoms() for p in pos):
                    continue
                if a2 is arr and tuple(pos) != tuple(idx):
                    raise Unmodelled("loop carried array dependence")
        for nm in lp["stores"]:
            b = before.get(nm)
            if nm in before and self.loc.get(nm) is b and nm != target.id:
                continue
            self.loc[nm] = Unk("value of %s after a symbolic loop" % nm)

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unmodelled("expression %s" % type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def e_Attribute(self, n):
        return self.e.getattr(self.ev(n.value), n.attr, n)

    def e_JoinedStr(self, n):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                spec = self.ev(v.format_spec) if v.format_spec is not None else ""
                out.append(_text(self.e, self.ev(v.value), 114 if v.conversion == 114 else 115, spec))
        return "".join(out)

    def e_FormattedValue(self, n):
        return "<?>"

    def elts(self, xs):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                v = self.iterate(self.ev(x.value), x)
                if isinstance(v, Unk):
                    raise Unmodelled(v.why)
                out.extend(v)
            else:
                out.append(self.ev(x))
        return out

    def e_Tuple(self, n):
        return tuple(self.elts(n.elts))

    def e_List(self, n):
        return self.elts(n.elts)

    def e_Set(self, n):
        return set(self.elts(n.elts))

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v)
                if isinstance(x, dict):
                    d.update(x)
                else:
                    raise Unmodelled("dict unpacking")
            else:
                d[self.ev(k)] = self.ev(v)
        return d

    def e_BoolOp(self, n):
        v = None
        isand = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            v = self.ev(x)
            if i == len(n.values) - 1:
                return v
            t = self.e.truth(v, ast.unparse(x), n)
            if isand and not t:
                return v if not isinstance(v, (Cond, Unk)) else False
            if not isand and t:
                return v if not isinstance(v, (Cond, Unk)) else True
        return v

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Cond):
                return Cond("not " + v.desc, "not", v)
            if isinstance(v, Unk):
                return Cond("not %s" % v.why, "not", v)
            return not self.e.truth(v, ast.unparse(n.operand), n)
        if isinstance(v, Unk):
            return v
        if isinstance(n.op, ast.USub):
            if isinstance(v, Arr):
                from . import gridlib
                return gridlib.emap(self.e, lambda x: -x, [v])
            if isinstance(v, Poly):
                return -v
            if isinstance(v, Inst):
                return self.e.call(self.e.getattr(v, "__neg__"), [])
            if isinstance(v, (Ext, Cond)):
                return Unk("-%r" % (v,))
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, (Arr, Cond)):
                from . import gridlib
                return gridlib.boolmap(self.e, "not", [v], n)
            return ~v
        raise Unmodelled("unary")

    def e_BinOp(self, n):
        return self.binop(type(n.op).__name__, self.ev(n.left), self.ev(n.right), n)

    def binop(self, op, a, b, node):
        from . import gridlib
        return gridlib.binop(self.e, op, a, b, node)

    def e_Compare(self, n):
        from . import gridlib
        left = self.ev(n.left)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c)
            r = gridlib.compare(self.e, type(op).__name__, left, right, n)
            if len(n.ops) == 1:
                return r
            if not self.e.truth(r, ast.unparse(n), n):
                return False
            left = right
        return res

    def e_IfExp(self, n):
        return self.ev(n.body) if self.e.truth(self.ev(n.test), ast.unparse(n.test), n) else self.ev(n.orelse)

    def e_Lambda(self, n):
        return self.mkfunc(n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Starred(self, n):
        raise Unmodelled("starred")

    def e_Yield(self, n):
        self.yields.append(self.ev(n.value) if n.value is not None else None)
        return None

    def e_YieldFrom(self, n):
        vs = self.iterate(self.ev(n.value), n)
        if isinstance(vs, Unk):
            raise Unmodelled(vs.why)
        self.yields.extend(vs)

    def comp(self, n, emit):
        def go(k):
            if k == len(n.generators):
                emit(fr)
                return
            g = n.generators[k]
            it = fr.ev(g.iter)

            def run():
                for c in g.ifs:
                    if not self.e.truth(fr.ev(c), ast.unparse(c), n):
                        return
                go(k + 1)
            if isinstance(it, Rng) and not (isinstance(it.lo, int) and isinstance(it.hi, int)):
                raise Unmodelled("comprehension over a symbolic range")
            vs = fr.iterate(it, n)
            if isinstance(vs, Unk):
                raise Unmodelled("comprehension over %s" % vs.why)
            for v in vs:
                fr.assign(g.target, v)
                run()
        holder = Func(ast.Lambda(args=_NOARGS, body=n), self.mod, (self.loc, self.func.env if self.func else None),
                      "<comp>", self.func.cls if self.func else None)
        fr = Frame(self.e, self.mod, {}, self.glob, holder)
        go(0)

    def e_ListComp(self, n):
        out = []
        self.comp(n, lambda fr: out.append(fr.ev(n.elt)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        return set(self.e_ListComp(n))

    def e_DictComp(self, n):
        out = {}
        self.comp(n, lambda fr: out.__setitem__(fr.ev(n.key), fr.ev(n.value)))
        return out

    def e_Call(self, n):
        e = self.e
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in self.loc:
            if self.func is not None and self.func.cls is not None:
                if n.args:
                    if len(n.args) == 1:
                        # an unbound super object: its own initialiser does nothing
                        return Inst(Cls("super", "builtins", [], {"__init__": Native(lambda ev, a, k, n: None)}, None))
                    return Super(self.ev(n.args[0]), self.ev(n.args[1]))
                first = self.func.node.args.args[0].arg
                return Super(self.func.cls, self.loc[first])
            f0 = self.func
            env = f0.env if f0 else None
            raise Unmodelled("super()")
        f = self.ev(n.func)
        args = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                x = self.ev(k.value)
                if not isinstance(x, dict):
                    raise Unmodelled("keyword unpacking")
                twice = [q for q in x if q in kw]
                if twice:
                    raise PyRaise("TypeError", n, msg="several values for argument %s" % twice[0])
                kw.update(x)
            else:
                if k.arg in kw:
                    raise PyRaise("TypeError", n, msg="several values for argument %s" % k.arg)
                kw[k.arg] = self.ev(k.value)
        e.sites += 1
        if isinstance(f, Ext) and f.name in ("builtins.locals", "builtins.globals"):
            return self.loc if f.name.endswith("locals") else self.glob
        if isinstance(f, Ext) and f.name in ("builtins.map", "builtins.filter"):
            vs = self.iterate(args[1], n)
            if isinstance(vs, Unk) or len(args) > 2:
                return Unk("map")
            if f.name.endswith("map"):
                return [e.call(args[0], [v], {}, n) for v in vs]
            return [v for v in vs if e.truth(e.call(args[0], [v], {}, n) if args[0] is not None else v, "filter", n)]
        return e.call(f, args, kw, n)

    def e_Slice(self, n):
        return slice(self.ev(n.lower) if n.lower else None, self.ev(n.upper) if n.upper else None,
                     self.ev(n.step) if n.step else None)

    def index(self, n):
        return self.ev(n)

    def e_Subscript(self, n):
        return self.getitem(self.ev(n.value), self.index(n.slice), n)

    def getitem(self, o, i, node):
        from . import gridlib
        return gridlib.getitem(self.e, o, i, node)

    def setitem(self, o, i, v, node):
        from . import gridlib
        gridlib.setitem(self.e, o, i, v, node)

    def iterate(self, v, node):
        from . import gridlib
        return gridlib.iterate(self.e, v, node)

    def e_Await(self, n):
        return self.ev(n.value)


class Zip:
    def __init__(self, vs, sym):
        self.vs, self.sym = vs, sym


class _Del:
    pass


_DEL = _Del()
_NOARGS = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None)
