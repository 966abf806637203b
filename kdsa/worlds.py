"""Abstract inputs: caller-owned arrays, datasets and estimators, built through the real constructors."""
import ast, zlib
from .values import *
from .interp import Engine, Analysis, St, Frame, HObj, PathDead, Budget
from .project import Project

_NODE = ast.parse("entry()").body[0].value


def node(tag):
    n = ast.parse("entry()").body[0].value
    n.lineno = zlib.crc32(str(tag).encode()) % 1000000
    n._tag = tag
    return n


class World:
    def __init__(self, analysis, project=None):
        self.eng = Engine(project or PROJECT(), analysis)
        self.an = analysis
        self.st = St(self.eng)
        self._n = {}

    # every entry call runs in a synthetic frame of the caller
    def enter(self, modname="kd"):
        self.eng.load(modname)
        fr = Frame(None, modname, 0)
        self.eng.frames.append(fr)

    def leave(self):
        self.eng.frames.pop()

    def nd(self, tag):
        n = self._n.get(tag)
        if n is None:
            n = self._n[tag] = node(tag)
        return n

    def get(self, mod, name):
        self.eng.load(mod)
        return self.eng.mod_attr(mod, name, self.st, self.nd("get"))

    def call(self, f, args=(), kwargs=None, tag="call", catch=True):
        """call abstractly; returns Val or None if no normal return"""
        kw = {k: v for k, v in (kwargs or {}).items()}
        try:
            return self.eng.call(f, list(args), kw, self.st, self.nd(tag))
        except PathDead:
            return None

    def method(self, obj, name, args=(), kwargs=None, tag=None):
        try:
            f = self.eng.getattr(obj, name, self.st, self.nd(tag or name))
        except PathDead:
            return None
        return self.call(f, args, kwargs, tag or name)

    # ---- heap construction by the "caller"
    def dict(self, items, owned=None, tag="d"):
        oid = ("caller", tag, len(self._n))
        self._n[("oid", oid)] = 1
        o = HObj("dict", None, frozenset([owned]) if owned else NOL)
        o.attrs = dict(items)
        self.st.new(oid, o)
        return mk("obj", oid)

    def list(self, elems, owned=None, tag="l"):
        oid = ("caller", tag, len(self._n))
        self._n[("oid", oid)] = 1
        o = HObj("list", None, frozenset([owned]) if owned else NOL)
        o.elems = list(elems)
        self.st.new(oid, o)
        return mk("obj", oid)

    def own(self, v, label, deep=True, seen=None):
        """mark everything reachable from v as belonging to the caller"""
        seen = seen if seen is not None else set()
        for a in v:
            if a.k == "obj" and a.p not in seen:
                seen.add(a.p)
                o = self.st.get(a.p)
                if o is None or o.kind in ("class", "module"):
                    continue
                m = self.st.mut(a.p)
                m.l = m.l | frozenset([label])
                for x in list(m.attrs.values()) + list(m.elems or []) + [m.summ]:
                    self.own(x, label, True, seen)
            elif a.k == "tup":
                for x in a.p:
                    self.own(x, label, True, seen)


_P = None


def PROJECT():
    global _P
    if _P is None:
        _P = Project()
    return _P


def arr(dims, label=None):
    return ARR(tuple((d,) if not isinstance(d, tuple) else d for d in dims) if dims is not None else None, None,
               frozenset([label]) if label else NOL)
