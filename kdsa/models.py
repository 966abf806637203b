"""Abstract models of builtins and of the external libraries (numpy, torch, ...)."""
from pathlib import PurePosixPath
import ast, builtins, operator
from .values import *

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "WindowsError"}
OBJECT_ATTRS = set(dir(object)) | {"__dict__", "__name__", "__module__", "__qualname__", "__annotations__", "__wrapped__", "__mro__", "__bases__", "__weakref__"}

# external functions whose result may share storage with an argument (index of that argument, or '*')
VIEW_FUNCS = {
    "asarray": 0, "asanyarray": 0, "ascontiguousarray": 0, "asfortranarray": 0, "atleast_1d": 0, "atleast_2d": 0,
    "atleast_3d": 0, "squeeze": 0, "reshape": 0, "ravel": 0, "transpose": 0, "swapaxes": 0, "moveaxis": 0,
    "rollaxis": 0, "expand_dims": 0, "broadcast_to": 0, "real": 0, "imag": 0, "diagonal": 0, "split": 0,
    "array_split": 0, "hsplit": 0, "vsplit": 0, "dsplit": 0, "flip": 0, "flipud": 0, "fliplr": 0, "rot90": 0,
    "require": 0, "from_numpy": 0, "as_tensor": 0, "unsqueeze": 0, "chunk": 0, "narrow": 0, "t": 0,
    "asarray_chkfinite": 0, "asfarray": 0, "real_if_close": 0, "atleast": 0, "as_strided": 0, "sliding_window_view": 0,
    "permute": 0, "broadcast_arrays": "*", "frombuffer": 0, "DataFrame": 0, "Series": 0, "astensor": 0, "cast": 1,
    "view_as_real": 0, "unbind": 0, "movedim": 0, "select": 0, "flatten": 0, "detach": 0,
}
VIEW_MODULES = ("numpy", "torch", "tensorflow", "scipy", "pandas", "jax")
# methods on an array-like whose result may share storage with the receiver
VIEW_METHODS = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view", "detach", "numpy", "cpu", "to_numpy",
                "diagonal", "to", "float", "double", "contiguous", "permute", "unsqueeze", "t", "expand", "requires_grad_",
                "cuda", "get", "items", "values", "keys", "toarray", "type", "flip", "flatten_", "unbind", "narrow",
                "chunk", "split", "as_subclass", "iloc", "loc", "head", "tail", "expand_as", "view_as", "reshape_as",
                "swapdims", "movedim", "unfold", "T", "mT", "requires_grad", "data"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "values", "data", "mT", "loc", "iloc", "iat", "at", "base", "array"}
SCALAR_ATTRS = {"shape", "ndim", "size", "dtype", "nbytes", "itemsize", "strides", "device", "columns", "index"}
MUT_METHODS = {"sort", "fill", "resize", "put", "itemset", "setfield", "setflags", "partition", "byteswap",
               "sort_values_", "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault",
               "popitem", "add", "discard", "reverse", "difference_update", "intersection_update",
               "symmetric_difference_update", "drop_", "fillna_"}
INPLACE_KW = {"sort_values", "fillna", "drop", "rename", "reset_index", "set_index", "replace", "dropna", "byteswap"}
# external functions that write into an argument
MUT_FUNCS = {
    "numpy.random.shuffle": 0, "random.shuffle": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0,
    "numpy.copyto": 0, "numpy.fill_diagonal": 0, "numpy.put_along_axis": 0, "setattr": 0, "builtins.setattr": 0,
    "builtins.delattr": 0, "numpy.nan_to_num": None, "heapq.heappush": 0, "heapq.heapify": 0, "heapq.heappop": 0,
    "bisect.insort": 0, "torch.nn.init.uniform_": 0, "sklearn.utils.shuffle": None, "operator.setitem": 0,
    "operator.delitem": 0, "operator.iadd": 0, "operator.imul": 0, "operator.isub": 0, "operator.itruediv": 0,
}


def note_import(eng, name, node, st):
    pass


def _all_labels(args, kwargs, eng=None, st=None):
    ls = set()
    for v in list(args) + list(kwargs.values()):
        ls |= deep_labels(v, st)
    return frozenset(ls)


def deep_labels(v, st, depth=2, seen=None):
    ls = set(labels(v))
    if st is not None and depth > 0:
        for a in v:
            if a.k == "obj":
                o = st.get(a.p)
                if o is None or o.kind in ("class", "module"):
                    continue
                ls |= o.l
                if o.kind in ("list", "set", "dict"):
                    vals = list(o.elems or [])[:20] + [o.summ]
                    if o.kind == "dict":
                        vals += list(o.attrs.values())[:20]
                    for x in vals:
                        ls |= deep_labels(x, st, depth - 1)
            elif a.k == "tup":
                for x in a.p:
                    ls |= deep_labels(x, st, depth - 1)
    return frozenset(ls)


# ------------------------------------------------------------------ operators
_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
        ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
_POLY = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}


def binop(eng, op, l, r, st, node):
    out = set()
    if len(l) * len(r) > 60:
        return TOP(dep(labels(l) | labels(r)))
    for a in l:
        for b in r:
            x = _binop1(eng, op, a, b, st, node)
            out |= x
    return frozenset(out)


def _binop1(eng, op, a, b, st, node):
    if a.k == "tup" and b.k == "tup" and "fignum" in a.l and isinstance(op, ast.Sub):
        return TUP([x for x in a.p if x not in b.p], a.l)
    ls = dep(labels(frozenset([a, b])))
    if a.k == "const" and b.k == "const":
        x, y = a.p[1], b.p[1]
        f = _OPS.get(type(op))
        if f is None:
            return TOP(ls)
        try:
            if isinstance(op, ast.Pow) and (abs(y) > 64 or (isinstance(x, (int, float)) and abs(x) > 1e6)):
                return TOP(ls)
            if isinstance(op, ast.Mult) and (isinstance(x, (str, bytes)) or isinstance(y, (str, bytes))) and \
                    max(x if isinstance(x, int) else 0, y if isinstance(y, int) else 0) > 200:
                return TOP(ls)
            v = f(x, y)
            if isinstance(v, (int, float, str, bool, bytes, complex, PurePosixPath)) and (not isinstance(v, str) or len(v) < 400):
                return C(v, ls)
        except ZeroDivisionError:
            return TOP(ls)
        except Exception:
            return TOP(ls)
        return TOP(ls)
    if a.k in ("sym", "const") and b.k in ("sym", "const"):
        p = _POLY.get(type(op))
        x, y = to_poly(a), to_poly(b)
        if p and x is not None and y is not None:
            return frozenset([from_poly(poly_op(p, x, y), ls)])
        return TOP(ls)
    if isinstance(op, ast.Add) and a.k == "tup" and b.k == "tup":
        return TUP(a.p + b.p, a.l | b.l)
    if isinstance(op, ast.Mult) and (a.k == "tup" or b.k == "tup"):
        t, n = (a, b) if a.k == "tup" else (b, a)
        if n.k == "const" and isinstance(n.p[1], int) and n.p[1] * len(t.p) < 60:
            return TUP(t.p * n.p[1], t.l)
    if a.k == "obj" or b.k == "obj":
        oa = st.get(a.p) if a.k == "obj" else None
        ob = st.get(b.p) if b.k == "obj" else None
        if oa is not None and oa.kind == "list" and isinstance(op, ast.Add):
            if ob is not None and ob.kind == "list" or b.k == "tup":
                be = ob.elems if ob is not None else list(b.p)
                bs = ob.summ if ob is not None else EMPTY
                if oa.elems is not None and be is not None and not oa.multi and not (ob is not None and ob.multi):
                    return eng.new_list(st, node, oa.elems + be, extra="add")
                s = oa.summ | bs
                for x in (oa.elems or []) + (be or []):
                    s = s | x
                oid, o = eng.alloc(st, node, "list", extra="add")
                o.elems, o.summ = None, s
                st.new(oid, o)
                return mk("obj", oid)
            s = oa.summ
            for x in (oa.elems or []):
                s = s | x
            oid, o = eng.alloc(st, node, "list", extra="add")
            o.elems, o.summ = None, s | eng.elem_of(frozenset([b]), st, node)
            st.new(oid, o)
            return mk("obj", oid)
        if oa is not None and oa.kind == "list" and isinstance(op, ast.Mult):
            n = b.p[1] if b.k == "const" else None
            if isinstance(n, int) and oa.elems is not None and n * len(oa.elems) < 60:
                return eng.new_list(st, node, oa.elems * n, extra="mul")
            s = oa.summ
            for x in (oa.elems or []):
                s = s | x
            oid, o = eng.alloc(st, node, "list", extra="mul")
            o.elems, o.summ = None, s
            st.new(oid, o)
            return mk("obj", oid)
        for x, y, nm in ((oa, b, None), (ob, a, None)):
            pass
        if oa is not None and oa.kind in ("set", "dict") and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            s = oa.summ
            for x in (oa.elems or []):
                s = s | x
            if ob is not None:
                s = s | ob.summ
                for x in (ob.elems or []):
                    s = s | x
            if oa.kind == "set" and isinstance(op, ast.BitOr) and oa.elems is not None and ob is not None and ob.elems is not None:
                return eng.new_list(st, node, oa.elems + ob.elems, kind="set", extra="or")
            if oa.kind == "set" and isinstance(op, (ast.Sub, ast.BitAnd)) and oa.elems is not None and ob is not None and ob.elems is not None:
                ca = [consts(x) for x in oa.elems]
                cb = [consts(x) for x in ob.elems]
                if all(c and len(c) == 1 for c in ca + cb):
                    bs = {c[0] for c in cb}
                    keep = [x for x, c in zip(oa.elems, ca) if (c[0] in bs) == isinstance(op, ast.BitAnd)]
                    return eng.new_list(st, node, keep, kind="set", extra="or")
            oid, o = eng.alloc(st, node, oa.kind, extra="or")
            if oa.kind == "dict":
                o.attrs = dict(oa.attrs)
                o.complete = oa.complete
                if ob is not None:
                    dict_update(eng, o, frozenset([b]), st)
            else:
                o.elems = None
                o.summ = s
            st.new(oid, o)
            return mk("obj", oid)
        # operator overloading on project classes
        for me, o, other, names in ((a, oa, b, _DUNDER.get(type(op))), (b, ob, a, _RDUNDER.get(type(op)))):
            if o is not None and o.kind == "inst" and o.cls is not None and names and eng.find_method(o.cls, names, st):
                return eng.call(eng.getattr(frozenset([me]), names, st, node), [frozenset([other])], {}, st, node)
        return TOP(ls)
    if a.k == "arr" or b.k == "arr":
        return arr_binop(eng, op, a, b, st, node, ls)
    if a.k == "const" and isinstance(a.p[1], str) and isinstance(op, ast.Mod):
        return TOP(ls)
    if isinstance(op, ast.Div) and a.k in ("ext", "top", "meth"):
        pass
    return TOP(ls)


_DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}
_RDUNDER = {ast.Add: "__radd__", ast.Sub: "__rsub__", ast.Mult: "__rmul__", ast.Div: "__rtruediv__"}

_CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
        ast.GtE: operator.ge}


def sym_truth(eng, a):
    # dims are positive sizes: a single positive monomial is > 0
    if all(c > 0 for m, c in a.p):
        return {True}
    return {True, False}


MIN_DIM = 1


def compare(eng, op, l, r, st, node):
    res = set()
    if len(l) * len(r) > 100:
        return BOOL
    for a in l:
        for b in r:
            x = _cmp1(eng, op, a, b, st, node)
            if x is None:
                if any(q.k in ("top", "arr", "ext", "meth") for q in (a, b)) and not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                    # elementwise comparison or unknown boolean
                    return BOOL | TOP(dep(labels(l) | labels(r)))
                res |= {True, False}
            else:
                res |= x
    out = EMPTY
    for t in res:
        out = out | C(t)
    return out or BOOL


def _cmp1(eng, op, a, b, st, node):
    if a.k == "unbound" or b.k == "unbound":
        return {True, False}
    if isinstance(op, (ast.Is, ast.IsNot)):
        neg = isinstance(op, ast.IsNot)
        if a.k == "const" and b.k == "const":
            same = a.p == b.p
            return {same != neg}
        for x, y in ((a, b), (b, a)):
            if x.k == "const" and y.k in ("obj", "tup", "fn", "cls", "mod", "bound", "arr", "sym", "enum", "slice", "partial"):
                return {neg}
            if x.k == "const" and x.p[1] is None and y.k == "ext" and (y.p in OBJECTS or not y.p.endswith(")")):
                # module/class/function of an external library
                return {neg}
        if a == b and a.k in ("fn", "cls", "mod", "enum"):
            return {not neg}
        if a.k in ("cls", "fn", "mod") and b.k in ("cls", "fn", "mod", "ext"):
            return {neg} if a != b else {not neg}
        if b.k in ("cls", "fn", "mod") and a.k == "ext" and not a.p.endswith(")"):
            return {neg}
        if a.k == "obj" and b.k == "obj":
            if a.p != b.p:
                return {neg}
            o = st.get(a.p)
            if o is not None and not o.multi:
                return {not neg}
        return {True, False}
    if isinstance(op, (ast.In, ast.NotIn)):
        neg = isinstance(op, ast.NotIn)
        if b.k == "const" and isinstance(b.p[1], str) and a.k == "const" and isinstance(a.p[1], str):
            return {(a.p[1] in b.p[1]) != neg}
        if b.k == "obj":
            o = st.get(b.p)
            if o is not None and o.kind == "inst" and o.cls is not None:
                m = eng.find_method(o.cls, "__contains__", st)
                if m:
                    v = eng.call(eng.getattr(frozenset([b]), "__contains__", st, node), [frozenset([a])], {}, st, node)
                    t = eng.truth(v, st)
                    return {x != neg for x in t}
                return {True, False}
            if o is not None and o.kind == "dict":
                if a.k == "const":
                    v = o.attrs.get(a.p[1]) if _h(a.p[1]) else None
                    if v is not None:
                        if any(x.k == "unbound" for x in v):
                            return {True, False}
                        return {not neg}
                    if o.complete:
                        return {neg}
                if o.complete and not o.attrs:
                    return {neg}
                return {True, False}
        seq = eng.exact_atom(b, st)
        if seq is not None:
            if not seq:
                return {neg}
            hit, sure = False, True
            for e in seq:
                for x in e:
                    r = _cmp1(eng, ast.Eq(), a, x, st, node)
                    if r == {True} and len(e) == 1:
                        return {not neg}
                    if r is None or True in r:
                        hit = True
            if not hit:
                return {neg}
            return {True, False}
        if b.k == "obj":
            return {True, False}
        return {True, False}
    # sequence lengths / polys
    pa, pb = to_poly(a), to_poly(b)
    if pa is not None and pb is not None and (a.k == "sym" or b.k == "sym"):
        d = poly_op("-", pa, pb)
        if isinstance(op, ast.Eq):
            if not d:
                return {True}
            return {False} if _never_zero(eng, d) else {True, False}
        if isinstance(op, ast.NotEq):
            if not d:
                return {False}
            return {True} if _never_zero(eng, d) else {True, False}
        s = _sign(eng, d)
        if s is not None:
            f = _CMP[type(op)]
            return {f(s, 0)}
        return {True, False}
    if a.k == "const" and b.k == "const":
        f = _CMP.get(type(op))
        try:
            return {bool(f(a.p[1], b.p[1]))}
        except Exception:
            return {True, False}
    if isinstance(op, (ast.Eq, ast.NotEq)):
        neg = isinstance(op, ast.NotEq)
        if a.k == "tup" and b.k == "tup":
            if len(a.p) != len(b.p):
                return {neg}
            res = {True}
            for x, y in zip(a.p, b.p):
                r = set()
                for p in x:
                    for q in y:
                        z = _cmp1(eng, ast.Eq(), p, q, st, node)
                        r |= z if z is not None else {True, False}
                if r == {False}:
                    return {neg}
                if False in r:
                    res.add(False)
            return {t != neg for t in res}
        if a.k == "enum" and b.k == "enum":
            return {(a.p == b.p) != neg}
        if a.k in ("const", "sym") and b.k in ("tup", "fn", "cls", "mod", "bound") or b.k in ("const", "sym") and a.k in ("tup", "fn", "cls", "mod", "bound"):
            return {neg}
        if a.k == "const" and b.k == "sym" or a.k == "sym" and b.k == "const":
            x = a if a.k == "const" else b
            if isinstance(x.p[1], (str, type(None))):
                return {neg}
        if a == b and a.k in ("fn", "cls", "mod"):
            return {not neg}
        if {a.k, b.k} <= {"const", "obj"} and a.k != b.k:
            ob = st.get(a.p if a.k == "obj" else b.p)
            if ob is not None and ob.kind in ("list", "dict", "set"):
                return {neg}
        if a.k == "obj" and b.k == "obj":
            sa, sb = eng.exact_atom(a, st), eng.exact_atom(b, st)
            oa, ob = st.get(a.p), st.get(b.p)
            if sa is not None and sb is not None and oa.kind == ob.kind == "list":
                return _cmp1(eng, op, Atom("tup", tuple(sa), NOL), Atom("tup", tuple(sb), NOL), st, node)
    if {a.k, b.k} & {"top", "arr", "ext", "meth"}:
        if (a.k == "arr" or b.k == "arr") and isinstance(op, (ast.Eq, ast.NotEq)) and any(
                x.k == "const" and isinstance(x.p[1], (str, type(None))) for x in (a, b)):
            return {isinstance(op, ast.NotEq)}
        return None
    return {True, False}


def _h(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _never_zero(eng, d):
    """generic position: distinct symbols denote sizes that differ; the analysis may say otherwise"""
    f = getattr(eng.an, "generic_dims", None)
    if f:
        return f(d)
    return _sign(eng, d) is not None and _sign(eng, d) != 0


def _sign(eng, d):
    if not d:
        return 0
    f = getattr(eng.an, "dim_min", None)
    lo = f if isinstance(f, int) else 1
    ks = {m: c for m, c in d.items() if m != ()}
    c0 = d.get((), 0)
    if not ks:
        return 1 if c0 > 0 else (-1 if c0 < 0 else 0)
    if all(c > 0 for c in ks.values()):
        m = sum(c * (lo ** len(m)) for m, c in ks.items()) + c0
        if m > 0:
            return 1
    if all(c < 0 for c in ks.values()):
        m = sum(c * (lo ** len(m)) for m, c in ks.items()) + c0
        if m < 0:
            return -1
    return None


def key_error(eng, st, node):
    if eng.handlers:
        eng.do_raise(EXT("builtins.KeyError"), node, st)


# ------------------------------------------------------------------ isinstance / callable
_PYT = {"str": "str", "int": "int", "float": "float", "bool": "bool", "bytes": "bytes", "complex": "complex"}


def isinstance_atom(eng, a, tv, st):
    res = set()
    types = []
    for t in tv:
        if t.k == "tup":
            for x in t.p:
                types += list(x)
        else:
            types.append(t)
    unknown = False
    for t in types:
        r = _isinst1(eng, a, t, st)
        if r is True:
            return {True}
        if r is None:
            unknown = True
    return {True, False} if unknown else {False}


NUMERIC_ABC = {"numbers.Integral": ("int", "bool"), "numbers.Number": ("int", "float", "complex", "bool"),
               "numbers.Real": ("int", "float", "bool")}


def _isinst1(eng, a, t, st):
    if t.k == "ext":
        n = t.p.replace("builtins.", "")
        if a.k == "const":
            ty = a.p[0]
            if n in _PYT:
                return ty == n or (n == "int" and ty == "bool")
            if n in NUMERIC_ABC:
                return ty in NUMERIC_ABC[n]
            if n in ("object",):
                return True
            if n in ("collections.abc.Sequence", "typing.Sequence", "collections.abc.Iterable", "typing.Iterable"):
                return ty == "str"
            return False
        if a.k == "sym":
            return n in ("int", "object", "numbers.Integral", "numbers.Number", "numbers.Real")
        if a.k == "tup":
            if n in ("tuple", "object", "collections.abc.Sequence", "typing.Sequence", "collections.abc.Iterable", "typing.Iterable"):
                return True
            return False
        if a.k == "arr":
            return True if n in ("numpy.ndarray", "object", "np.ndarray") else (False if n in _PYT or n in ("dict", "list", "tuple", "set", "torch.Tensor") or n in NUMERIC_ABC or n.startswith(("pandas.", "collections.", "typing.")) else None)
        if a.k == "obj":
            o = st.get(a.p)
            if o is None:
                return None
            if o.kind in ("list", "dict", "set"):
                if n == o.kind or n == "object":
                    return True
                if n in ("collections.abc.Mapping", "collections.Mapping", "typing.Mapping", "collections.abc.MutableMapping", "collections.OrderedDict", "collections.defaultdict"):
                    return o.kind == "dict"
                if n in ("collections.abc.Sequence", "typing.Sequence"):
                    return o.kind == "list"
                if n in ("collections.abc.Iterable", "typing.Iterable", "collections.abc.Collection"):
                    return True
                return False
            if o.kind == "inst" and o.cls is not None:
                if n == "object":
                    return True
                ex = o.cls.all_ext()
                if n in ex:
                    return True
                if ex:
                    return None
                return False
            return None
        if a.k in ("fn", "bound", "cls", "mod"):
            if n == "type":
                return a.k == "cls"
            if n in _PYT or n in ("dict", "list", "tuple", "set", "numpy.ndarray", "torch.Tensor"):
                return False
            return None
        if a.k == "slice":
            return n == "slice"
        if a.k == "ext" and a.p.endswith("()"):
            if a.p[:-2] == t.p:
                return True
            return None
        return None
    if t.k == "cls":
        if a.k == "obj":
            o = st.get(a.p)
            if o is not None and o.kind == "inst" and o.cls is not None:
                return t.p in o.cls.mro()
            if o is not None and o.kind in ("list", "dict", "set"):
                return False
            return None
        if a.k in ("const", "tup", "sym", "arr", "fn", "cls", "mod", "bound", "slice"):
            return False
        return None
    return None


def callable_atom(eng, a, st):
    if a.k in ("fn", "bound", "cls", "partial"):
        return {True}
    if a.k in ("const", "tup", "sym", "arr", "slice"):
        return {False}
    if a.k == "obj":
        o = st.get(a.p)
        if o is not None and o.kind == "inst" and o.cls is not None:
            return {bool(eng.find_method(o.cls, "__call__", st))} if not o.cls.all_ext() else {True, False}
        if o is not None and o.kind in ("list", "dict", "set"):
            return {False}
    return {True, False}


# ------------------------------------------------------------------ containers
def list_extend(eng, oid, r, st, node):
    m = st.mut(oid)
    if m.kind == "dict":
        dict_update(eng, m, r, st)
        return
    if m.kind == "inst":
        return
    seq = eng.exact_iter(r, st, node)
    if seq is not None and m.elems is not None and not m.multi:
        m.elems = m.elems + seq
    else:
        s = m.summ
        for x in (m.elems or []):
            s = s | x
        from .interp import widen
        m.summ = widen(s | eng.elem_of(r, st, node))
        m.elems = None


def dict_update(eng, o, v, st):
    from .interp import vjoin
    for a in v:
        s = st.get(a.p) if a.k == "obj" else None
        if s is not None and s.kind == "dict":
            for k, x in s.attrs.items():
                if any(q.k == "unbound" for q in x) and k in o.attrs:
                    o.attrs[k] = vjoin(o.attrs[k], frozenset(q for q in x if q.k != "unbound"))
                elif len(v) > 1 and k in o.attrs:
                    o.attrs[k] = vjoin(o.attrs[k], x)
                else:
                    o.attrs[k] = x
            if not s.complete:
                o.complete = False
                o.summ = vjoin(o.summ, s.summ)
        elif a.k == "const" and a.p[1] is None:
            pass
        else:
            o.complete = False
            o.summ = vjoin(o.summ, TOP(a.l))


def weak_list(eng, st, node, summ, extra=""):
    oid, o = eng.alloc(st, node, "list", extra=extra)
    o.elems, o.summ = None, summ
    st.new(oid, o)
    return mk("obj", oid)


def list_method(eng, a, o, name, args, kwargs, st, node):
    from .interp import widen, vjoin
    oid = a.p
    if name in ("append", "add"):
        eng._mutate_obj(oid, o, ".%s()" % name, node, st)
        eng.an.item_write(eng, oid, o, None, node, st)
        m = st.mut(oid)
        v = args[0] if args else TOP()
        if m.elems is not None and not m.multi and len(m.elems) < 300:
            if name == "add" and v in m.elems:
                return NONE
            m.elems = m.elems + [v]
        else:
            s = m.summ
            for x in (m.elems or []):
                s = s | x
            m.elems, m.summ = None, widen(s | v)
        return NONE
    if name == "extend" or name == "update":
        eng._mutate_obj(oid, o, ".%s()" % name, node, st)
        eng.an.item_write(eng, oid, o, None, node, st)
        list_extend(eng, oid, args[0] if args else TOP(), st, node)
        return NONE
    if name in ("insert",):
        eng._mutate_obj(oid, o, ".insert()", node, st)
        eng.an.item_write(eng, oid, o, None, node, st)
        m = st.mut(oid)
        k = const1(args[0]) if args else None
        if m.elems is not None and isinstance(k, int) and not m.multi:
            e = list(m.elems)
            e.insert(k, args[1])
            m.elems = e
        else:
            s = m.summ | (args[1] if len(args) > 1 else TOP())
            for x in (m.elems or []):
                s = s | x
            m.elems, m.summ = None, widen(s)
        return NONE
    if name in ("pop", "remove", "discard", "clear", "sort", "reverse", "popitem", "difference_update", "intersection_update"):
        eng._mutate_obj(oid, o, ".%s()" % name, node, st)
        eng.an.item_write(eng, oid, o, None, node, st)
        m = st.mut(oid)
        s = m.summ
        for x in (m.elems or []):
            s = s | x
        if name == "sort" and "key" in kwargs:
            try:
                eng.call(kwargs["key"], [s or TOP()], {}, st, node)
            except Exception as ex:
                if type(ex).__name__ != "PathDead":
                    raise
        if name == "clear":
            m.elems, m.summ = [], EMPTY
            return NONE
        if name == "pop" and m.elems is not None and not m.multi:
            k = const1(args[0]) if args else -1
            if isinstance(k, int) and -len(m.elems) <= k < len(m.elems):
                e = list(m.elems)
                r = e.pop(k)
                m.elems = e
                return r
        if name in ("sort", "reverse"):
            if m.elems is not None:
                m.elems = [widen(s)] * len(m.elems) if name == "sort" else list(reversed(m.elems))
            return NONE
        m.elems, m.summ = None, widen(s)
        return (s or TOP()) if name in ("pop", "popitem") else NONE
    if name == "copy":
        oid2, n = eng.alloc(st, node, o.kind, extra="copy")
        n.elems = None if o.elems is None or o.multi else list(o.elems)
        n.summ = o.summ
        if o.multi:
            for x in (o.elems or []):
                n.summ = n.summ | x
        st.new(oid2, n)
        return mk("obj", oid2)
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        s = o.summ
        for x in (o.elems or []):
            s = s | x
        for v in args:
            s = s | eng.elem_of(v, st, node)
        oid2, n = eng.alloc(st, node, "set", extra=name)
        n.elems, n.summ = None, widen(s)
        st.new(oid2, n)
        return mk("obj", oid2)
    if name == "index":
        if o.elems is not None:
            for i, e in enumerate(o.elems):
                if args and e == args[0] and len(e) == 1 and is_const(e):
                    return C(i)
        return TOP()
    if name in ("issubset", "issuperset", "isdisjoint"):
        other = eng.const_members(args[0], st) if args else None
        mine = eng.const_members(frozenset([a]), st)
        if other is not None and mine is not None:
            r = {"issubset": mine <= other, "issuperset": mine >= other, "isdisjoint": not (mine & other)}[name]
            return C(r)
        return BOOL
    if name == "count":
        return TOP()
    return TOP(o.l)


def dict_method(eng, a, o, name, args, kwargs, st, node):
    from .interp import widen, vjoin, consts_hash
    oid = a.p
    if name in ("get", "pop", "setdefault"):
        if name != "get":
            eng._mutate_obj(oid, o, ".%s()" % name, node, st)
            eng.an.item_write(eng, oid, o, args[0] if args else None, node, st)
        eng.an.item_read(eng, oid, o, args[0] if args else None, node, st)
        dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        ks = consts_hash(args[0]) if args else None
        out = EMPTY
        missing = False
        if ks is not None:
            for k in ks:
                v = o.attrs.get(k)
                if v is None:
                    missing = True
                    if not o.complete:
                        out = out | (o.summ or TOP(o.l))
                else:
                    n = frozenset(x for x in v if x.k != "unbound")
                    out = out | n
                    if len(n) != len(v):
                        missing = True
        else:
            missing = True
            for v in o.attrs.values():
                out = out | frozenset(x for x in v if x.k != "unbound")
            out = out | o.summ
            if not o.complete and not o.summ:
                out = out | TOP(o.l)
        if name == "pop" and ks is not None and len(ks) == 1:
            m = st.mut(oid)
            m.attrs.pop(ks[0], None)
            if missing and len(args) < 2 and not out:
                from .interp import PathDead
                key_error(eng, st, node)
                raise PathDead()
        if name == "setdefault" and missing:
            m = st.mut(oid)
            if ks is not None and len(ks) == 1:
                m.attrs[ks[0]] = vjoin(out, dflt)
            else:
                m.complete = False
                m.summ = vjoin(m.summ, dflt)
        if missing and (name != "pop" or len(args) > 1):
            out = out | dflt
        return widen(out) or TOP()
    if name in ("keys", "values", "items", "__iter__"):
        if o.complete and not o.multi and not any(any(q.k == "unbound" for q in x) for x in o.attrs.values()):
            if name == "values":
                return eng.new_list(st, node, list(o.attrs.values()), extra=name)
            if name == "items":
                return eng.new_list(st, node, [TUP((key_val(k), v)) for k, v in o.attrs.items()], extra=name)
            return eng.new_list(st, node, [key_val(k) for k in o.attrs], extra=name)
        s = o.summ
        ks = EMPTY
        for k, v in o.attrs.items():
            ks = ks | key_val(k)
            s = s | frozenset(x for x in v if x.k != "unbound")
        if not o.complete:
            ks = ks | TOP(o.l)
            s = s or TOP(o.l)
        if name == "values":
            return weak_list(eng, st, node, widen(s), name)
        if name == "items":
            if o.complete:
                # keep key-value correlation
                e = frozenset(x for k, v in o.attrs.items() for x in TUP((key_val(k), frozenset(q for q in v if q.k != "unbound"))))
                return weak_list(eng, st, node, e, name)
            return weak_list(eng, st, node, TUP((widen(ks), widen(s))), name)
        return weak_list(eng, st, node, widen(ks), name)
    if name == "update":
        eng._mutate_obj(oid, o, ".update()", node, st)
        eng.an.item_write(eng, oid, o, None, node, st)
        m = st.mut(oid)
        for v in args:
            dict_update(eng, m, v, st)
        for k, v in kwargs.items():
            m.attrs[k] = v
        return NONE
    if name == "copy":
        oid2, n = eng.alloc(st, node, "dict", extra="copy")
        n.attrs, n.summ, n.complete = dict(o.attrs), o.summ, o.complete
        st.new(oid2, n)
        return mk("obj", oid2)
    if name in ("clear", "popitem"):
        eng._mutate_obj(oid, o, ".%s()" % name, node, st)
        eng.an.item_write(eng, oid, o, None, node, st)
        m = st.mut(oid)
        if name == "clear":
            m.attrs, m.summ, m.complete = {}, EMPTY, True
        else:
            m.complete = False
        return TOP()
    if name == "fromkeys":
        return TOP()
    return TOP(o.l)


_STRM = {"upper", "lower", "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "startswith", "endswith", "format",
         "title", "capitalize", "isdigit", "isalpha", "isidentifier", "find", "count", "zfill", "isnumeric", "join",
         "partition", "rpartition", "casefold", "swapcase", "removeprefix", "removesuffix", "index", "isalnum", "isupper", "islower"}


def to_val(eng, x, st, node):
    if isinstance(x, list):
        return eng.new_list(st, node, [to_val(eng, y, st, node) for y in x], extra="tv")
    if isinstance(x, tuple):
        return TUP([to_val(eng, y, st, node) for y in x])
    return C(x)


def str_method(eng, a, name, args, kwargs, st, node):
    s = a.p[1]
    ls = dep(a.l | _all_labels(args, kwargs))
    if name == "join" and args:
        seq = eng.exact_iter(args[0], st, node)
        if seq is not None:
            cs = [consts(x) for x in seq]
            if all(c is not None and len(c) == 1 and isinstance(c[0], str) for c in cs):
                return C(s.join(c[0] for c in cs), ls)
        return TOP(dep(a.l | deep_labels(args[0], st)))
    if name in _STRM:
        cs = []
        for x in args:
            c = consts(x)
            if c is not None and len(c) == 1:
                cs.append(c[0])
            elif len(x) == 1 and list(x)[0].k == "tup":
                q = eng.exact_atom(list(x)[0], st)
                cc = [consts(y) for y in q]
                if all(y is not None and len(y) == 1 for y in cc):
                    cs.append(tuple(y[0] for y in cc))
                else:
                    cs = None
                    break
            else:
                cs = None
                break
        kc = {}
        for k, v in kwargs.items():
            c = consts(v)
            if c is None or len(c) != 1:
                cs = None
                break
            kc[k] = c[0]
        if cs is not None:
            try:
                return relabel(to_val(eng, getattr(s, name)(*cs, **kc), st, node), ls)
            except Exception:
                return TOP(ls)
        if name in ("startswith", "endswith", "isdigit"):
            return BOOL
    return TOP(ls)


def path_method(eng, b, name, args, kwargs):
    ls = dep(b.l) | dep(_all_labels(args, kwargs))
    cs = [consts(a) for a in args]
    one = all(c is not None and len(c) == 1 and isinstance(c[0], (str, PurePosixPath)) for c in cs) and not kwargs
    x = b.p[1]
    if name in ("joinpath", "with_suffix", "with_name", "with_stem") and one:
        try:
            return C(getattr(x, name)(*[c[0] for c in cs]), ls)
        except (ValueError, TypeError):
            return TOP(ls)
    if name in ("as_posix", "__str__", "__fspath__"):
        return C(str(x), ls)
    if name in ("resolve", "absolute", "expanduser") and x.is_absolute():
        return C(x, ls)
    if name == "is_absolute":
        return C(x.is_absolute())
    if name in ("exists", "is_file", "is_dir", "is_relative_to", "match"):
        return BOOL
    if name in ("read_text", "read_bytes", "iterdir", "glob", "rglob", "stat", "open"):
        return TOP(ls)
    if name in ("mkdir", "unlink", "touch"):
        return NONE
    return TOP(ls)


def path_attr(b, name):
    x = b.p[1]
    if name in ("name", "stem", "suffix"):
        return C(getattr(x, name), dep(b.l))
    if name == "parent":
        return C(x.parent, dep(b.l))
    if name in ("parts", "suffixes"):
        return TUP([C(q) for q in getattr(x, name)])
    if name == "parents":
        return TUP([C(q) for q in x.parents])
    return None


def method(eng, b, name, args, kwargs, st, node):
    if b.k == "obj":
        o = st.get(b.p)
        if o is None:
            return TOP(b.l)
        if o.kind in ("list", "set"):
            return list_method(eng, b, o, name, args, kwargs, st, node)
        if o.kind == "dict":
            return dict_method(eng, b, o, name, args, kwargs, st, node)
        return TOP(dep(b.l))
    if b.k == "const":
        if isinstance(b.p[1], str):
            return str_method(eng, b, name, args, kwargs, st, node)
        if isinstance(b.p[1], PurePosixPath):
            return path_method(eng, b, name, args, kwargs)
        if b.p[1] is None:
            from .interp import PathDead
            if eng.handlers:
                eng.do_raise(EXT("builtins.AttributeError"), node, st)
            raise PathDead()
        return TOP(dep(b.l))
    if b.k == "tup":
        if name == "index" and args:
            for i, e in enumerate(b.p):
                if e == args[0] and len(e) == 1 and is_const(e):
                    return C(i)
        return TOP()
    if b.k == "arr":
        r = arr_method(eng, b, name, args, kwargs, st, node)
        if r is not None:
            return r
    al = alias(labels(frozenset([b])))
    if al:
        if name in MUT_METHODS or (name.endswith("_") and not name.endswith("__") and len(name) > 1 and name not in ("requires_grad_",)):
            eng.an.mutate(eng, al, ".%s()" % name, node, st)
        if name in INPLACE_KW and (const1(kwargs.get("inplace", NONE)) is True or name == "byteswap" and args and const1(args[0]) is True):
            eng.an.mutate(eng, al, ".%s(inplace)" % name, node, st)
    out_kw(eng, kwargs, node, st)
    ls = labels(frozenset([b])) | _all_labels(args, kwargs)
    # callbacks passed to unknown methods may run
    run_callbacks(eng, args, kwargs, st, node)
    if name in VIEW_METHODS:
        return TOP(labels(frozenset([b])) | dep(ls))
    if name == "astype" and const1(kwargs.get("copy", NONE)) is False:
        return TOP(ls)
    return TOP(dep(ls))


def out_kw(eng, kwargs, node, st):
    if "out" in kwargs:
        al = alias(deep_labels(kwargs["out"], st))
        if al:
            eng.an.mutate(eng, al, "out= argument", node, st)


def run_callbacks(eng, args, kwargs, st, node):
    """a project function handed to unknown code may be called by it"""
    from .interp import PathDead
    for v in list(args) + list(kwargs.values()):
        for a in v:
            if a.k in ("fn", "bound"):
                f = a.p if a.k == "fn" else a.p[1]
                n = len(f.params()) - (1 if a.k == "bound" else 0)
                s = st.fork()
                try:
                    star = None
                    eng.call1(a, [TOP()] * max(0, n - len(f.defaults)), {}, s, node)
                    from .interp import join_st
                    st.take(join_st(st.fork(), s))
                except PathDead:
                    pass


def attr(eng, a, name, st, node):
    """attribute of an unknown/opaque value (not called)"""
    if name in SCALAR_ATTRS:
        return TOP(dep(a.l)) if a.k == "top" else None
    return None


def top_getitem(eng, a, key, st, node):
    ls = labels(frozenset([a]))
    fancy = False
    if key:
        fancy = all(k.k in ("obj", "arr") for k in key)
    if fancy and not any(st.get(k.p) is not None and st.get(k.p).kind == "inst" for k in key if k.k == "obj"):
        return TOP(dep(ls))
    return TOP(ls)


# ------------------------------------------------------------------ arrays (shape-aware)
def axis_val(ax):
    """Val of the length of an axis (tuple of factors)"""
    d = {(): 1}
    for f in ax:
        if f == "?":
            return TOP()
        d = poly_op("*", d, {(f,): 1} if isinstance(f, str) else ({(): f} if f else {}))
    return frozenset([from_poly(d)])


def dim_factors(v):
    """axis factors for a Val used as a length, or None"""
    if len(v) != 1:
        return None
    (a,) = v
    if a.k == "const" and isinstance(a.p[1], int):
        return (a.p[1],)
    if a.k == "sym" and len(a.p) == 1 and a.p[0][1] == 1:
        return tuple(a.p[0][0])
    return None


def flat(ax):
    return tuple(f for f in ax if f != 1)


def shape_val(axes):
    return TUP([axis_val(x) for x in axes])


def arr_attr(eng, a, name, st, node):
    ax = a.p.axes
    if name == "shape":
        return shape_val(ax) if ax is not None else TOP()
    if name == "ndim":
        return C(len(ax)) if ax is not None else TOP()
    if name == "size":
        if ax is None:
            return TOP()
        return axis_val(tuple(f for x in ax for f in x))
    if name == "T":
        return mk("arr", Arr(tuple(reversed(ax)) if ax is not None else None, a.p.tag), a.l)
    if name in ("real", "imag"):
        return mk("arr", a.p, a.l)
    if name == "dtype":
        return TOP()
    if name == "values":
        return frozenset([a])
    return None


def arr_elem(eng, a, st):
    ax = a.p.axes
    if ax is None:
        return mk("arr", Arr(None, None), a.l)
    if len(ax) <= 1:
        return TOP(dep(a.l))
    return mk("arr", Arr(ax[1:], None), a.l)


def bcast(x, y):
    if x is None or y is None:
        return None
    n = max(len(x), len(y))
    x = ((1,),) * (n - len(x)) + x
    y = ((1,),) * (n - len(y)) + y
    out = []
    for p, q in zip(x, y):
        if p == q:
            out.append(p)
        elif p in ((1,), ()):
            out.append(q)
        elif q in ((1,), ()):
            out.append(p)
        else:
            return "mismatch"
    return tuple(out)


def arr_binop(eng, op, a, b, st, node, ls):
    if a.k == "arr" and b.k == "arr":
        r = bcast(a.p.axes, b.p.axes)
        if r == "mismatch":
            h = getattr(eng.an, "shape_mismatch", None)
            if h:
                h(eng, a, b, node, st)
            r = None
        return mk("arr", Arr(r, None), ls)
    x = a if a.k == "arr" else b
    y = b if a.k == "arr" else a
    if y.k in ("const", "sym"):
        return mk("arr", Arr(x.p.axes, x.p.tag), ls)
    return mk("arr", Arr(None, None), ls)


def arr_getitem(eng, a, key, st, node):
    ax = a.p.axes
    if len(key) != 1:
        return mk("arr", Arr(None, None), a.l)
    (k,) = key
    ks = list(k.p) if k.k == "tup" else [frozenset([k])]
    if ax is None:
        if all(len(x) == 1 and list(x)[0].k in ("const", "slice") for x in ks):
            return mk("arr", Arr(None, None), a.l)
        if any(list(x)[0].k in ("arr", "obj", "top") for x in ks if x):
            return mk("arr", Arr(None, None), a.l)
        return mk("arr", Arr(None, None), a.l)
    ntrue = sum(1 for x in ks if not (len(x) == 1 and list(x)[0].k == "const" and (list(x)[0].p[1] is None or list(x)[0].p[1] is Ellipsis)))
    out, i, fancy = [], 0, False
    for x in ks:
        if len(x) != 1:
            return mk("arr", Arr(None, None), a.l)
        (q,) = x
        if q.k == "const" and q.p[1] is None:
            out.append((1,))
            continue
        if q.k == "const" and q.p[1] is Ellipsis:
            n = len(ax) - ntrue
            out += list(ax[i:i + n])
            i += n
            continue
        if i >= len(ax):
            from .interp import PathDead
            if eng.handlers:
                eng.do_raise(EXT("builtins.IndexError"), node, st)
            raise PathDead()
        if q.k == "const" and isinstance(q.p[1], int):
            i += 1
            continue
        if q.k == "slice":
            if all(len(z) == 1 and list(z)[0].k == "const" and list(z)[0].p[1] is None for z in q.p):
                out.append(ax[i])
            else:
                lo, hi, stp = [const1(z, "x") for z in q.p]
                n = ax[i][0] if len(ax[i]) == 1 and isinstance(ax[i][0], int) else None
                if n is not None and "x" not in (lo, hi, stp):
                    out.append((len(range(*slice(lo, hi, stp).indices(n))),))
                else:
                    out.append(("?",))
            i += 1
            continue
        if q.k == "arr" or q.k == "obj" or q.k == "top":
            fancy = True
            out.append(("?",))
            i += 1
            continue
        if q.k == "sym":
            i += 1
            continue
        return mk("arr", Arr(None, None), a.l)
    out += list(ax[i:])
    l = dep(a.l) if fancy else a.l
    if fancy:
        return mk("arr", Arr(None, None), l)
    if not out and len(ks) >= 1:
        return TOP(dep(a.l))
    return mk("arr", Arr(tuple(out), None), l)


def arr_setitem(eng, a, key, v, st, node):
    pass


def reshape_axes(ax, dims):
    """dims: list of factor-tuples or -1"""
    if ax is None:
        return None
    total = [f for x in ax for f in x if f != 1]
    out, i = [], 0
    for j, d in enumerate(dims):
        if d == -1:
            rest = []
            for d2 in dims[j + 1:]:
                rest += [f for f in d2 if f != 1]
            n = len(total) - len(rest)
            if n < i:
                return None
            take = total[i:n]
            out.append(tuple(take) or (1,))
            i = n
        else:
            d0 = [f for f in d if f != 1]
            if list(total[i:i + len(d0)]) != d0:
                return None
            out.append(tuple(d))
            i += len(d0)
    if i != len(total):
        return None
    return tuple(out)


def dims_from_args(eng, args, st):
    if len(args) == 1:
        s = eng.exact_iter(args[0], st, None) if args[0] and list(args[0])[0].k in ("tup", "obj") else None
        if s is not None:
            args = s
    out = []
    for x in args:
        c = const1(x)
        if c == -1:
            out.append(-1)
            continue
        f = dim_factors(x)
        if f is None:
            return None
        out.append(f)
    return out


def arr_method(eng, b, name, args, kwargs, st, node):
    ax, l = b.p.axes, b.l
    if name in ("ravel", "flatten") or (name == "reshape"):
        if name == "reshape":
            d = dims_from_args(eng, args, st)
            order = const1(kwargs.get("order", C("C")))
        else:
            d = [-1]
            order = const1(args[0] if args else kwargs.get("order", C("C")))
        nx = None
        if ax is not None and d is not None:
            src = ax
            if order in ("F",):
                src = tuple(reversed(ax))
            nx = reshape_axes(src, d)
            if order == "F" and nx is not None:
                nx = None if len(d) > 1 else nx
        elif d is not None:
            nx = None
        h = getattr(eng.an, "reshape_hook", None)
        if h:
            r = h(eng, b, d, order, st, node)
            if r is not None:
                nx = r
        return mk("arr", Arr(nx, b.p.tag), l if name != "flatten" else dep(l))
    if name in ("copy",):
        return mk("arr", b.p, dep(l))
    if name in ("astype",):
        return mk("arr", b.p, l if const1(kwargs.get("copy", NONE)) is False else dep(l))
    if name in ("transpose",):
        if not args:
            return mk("arr", Arr(tuple(reversed(ax)) if ax is not None else None, None), l)
        d = args
        if len(args) == 1:
            d = eng.exact_iter(args[0], st, node) or []
        p = [const1(x) for x in d]
        if ax is not None and all(isinstance(x, int) for x in p) and sorted(p) == list(range(len(ax))):
            return mk("arr", Arr(tuple(ax[i] for i in p), None), l)
        return mk("arr", Arr(None, None), l)
    if name == "squeeze":
        return mk("arr", Arr(tuple(x for x in ax if x not in ((1,), ())) if ax is not None and not args else None, b.p.tag), l)
    if name in ("min", "max", "mean", "sum", "std", "any", "all", "item", "argmin", "argmax", "prod", "var"):
        if args or kwargs.get("axis"):
            return TOP(dep(l))
        return TOP(dep(l))
    if name == "tolist":
        return TOP(dep(l))
    if name in ("numpy", "detach", "cpu", "to", "float", "double", "requires_grad_", "clone", "contiguous"):
        return mk("arr", b.p, l)
    return None


_ELEMENTWISE = {"abs", "exp", "sin", "cos", "sqrt", "isfinite", "isnan", "isinf", "log", "tanh", "square", "absolute",
                "nan_to_num", "conj", "zeros_like", "ones_like", "empty_like", "full_like", "gradient1", "cumsum",
                "logical_not", "sign", "isreal", "angle", "power", "clip", "round", "copy"}


def np_model(eng, name, args, kwargs, st, node):
    """shape-aware numpy; returns None when not handled.  name like 'numpy.xxx'"""
    if not name.startswith("numpy."):
        return None
    fn = name[6:]
    if fn in ("asarray", "array", "ascontiguousarray", "asanyarray", "atleast_1d", "asfarray") and args:
        v = args[0]
        if v and all(a.k == "arr" for a in v):
            cp = fn == "array" and const1(kwargs.get("copy", C(True))) is not False
            out = set()
            for a in v:
                ax = a.p.axes
                if fn == "atleast_1d" and ax == ():
                    ax = ((1,),)
                out.add(Atom("arr", Arr(ax, a.p.tag), dep(a.l) if cp else a.l))
            return frozenset(out)
        seq = eng.exact_iter(v, st, node) if len(v) == 1 else None
        if seq is not None and all(x and all(q.k in ("const", "sym", "top") for q in x) for x in seq):
            return mk("arr", Arr(((len(seq),),), None), dep(_all_labels(args, {})))
        if len(v) == 1 and list(v)[0].k == "const" and isinstance(list(v)[0].p[1], (int, float)):
            return mk("arr", Arr(((1,),) if fn == "atleast_1d" else (), None))
        return None
    if fn in ("ravel",) and args and args[0] and all(a.k == "arr" for a in args[0]):
        return frozenset().union(*[arr_method(eng, a, "ravel", args[1:], kwargs, st, node) for a in args[0]])
    if fn in ("reshape", "transpose", "squeeze") and args and args[0] and all(a.k == "arr" for a in args[0]):
        return frozenset().union(*[arr_method(eng, a, fn, args[1:], kwargs, st, node) for a in args[0]])
    if fn in _ELEMENTWISE and args and args[0] and all(a.k == "arr" for a in args[0]):
        return frozenset(Atom("arr", Arr(a.p.axes, None), dep(a.l)) for a in args[0])
    if fn in ("real", "imag") and args and args[0] and all(a.k == "arr" for a in args[0]):
        return args[0]
    if fn in ("zeros", "ones", "empty", "full") and args:
        d = dims_from_args(eng, [args[0]], st)
        if d is not None and -1 not in d:
            return ARR(tuple(d))
        return ARR(None)
    if fn in ("linspace", "arange"):
        return ARR((("?",),)) if fn == "arange" else ARR(((dim_factors(args[2]) if len(args) > 2 else dim_factors(kwargs["num"]) if "num" in kwargs else None) or ("?",),))
    if fn == "ndim" and args and args[0] and all(a.k == "arr" and a.p.axes is not None for a in args[0]):
        return frozenset().union(*[C(len(a.p.axes)) for a in args[0]])
    if fn == "shape" and args and args[0] and all(a.k == "arr" and a.p.axes is not None for a in args[0]):
        return frozenset().union(*[shape_val(a.p.axes) for a in args[0]])
    if fn == "prod" and args:
        seq = eng.exact_iter(args[0], st, node) if len(args[0]) == 1 else None
        if seq is not None:
            d = {(): 1}
            for x in seq:
                if len(x) != 1:
                    return None
                p = to_poly(list(x)[0])
                if p is None:
                    return None
                d = poly_op("*", d, p)
            return frozenset([from_poly(d)])
    if fn == "meshgrid":
        idx = const1(kwargs.get("indexing", C("xy")))
        axs = []
        for v in args:
            if len(v) != 1 or list(v)[0].k != "arr" or list(v)[0].p.axes is None:
                return None
            ax = list(v)[0].p.axes
            axs.append(tuple(f for x in ax for f in x) or (1,))
        order = list(axs)
        if idx == "xy" and len(order) >= 2:
            order[0], order[1] = order[1], order[0]
        if len(args) and idx in ("xy", "ij"):
            return eng.new_list(st, node, [ARR(tuple(order), ("coord", ax)) for ax in axs], extra="mesh")
    return None


# ------------------------------------------------------------------ external calls
def ext_setattr(eng, a, name, v, st, node):
    h = getattr(eng.an, "ext_setattr", None)
    if h:
        h(eng, a.p, name, v, st, node)
    al = alias(a.l)
    from .interp import HANDLE_ATTRS
    if al and name not in HANDLE_ATTRS:
        eng.an.mutate(eng, al, "attribute store .%s" % name, node, st)


def ext_call(eng, atom, args, kwargs, st, node):
    from .interp import PathDead, widen, join_st, vjoin
    name = atom.p
    short = name[9:] if name.startswith("builtins.") else None
    if short:
        r = builtin_call(eng, short, args, kwargs, st, node)
        if r is not None:
            return r
    if name.startswith("os.path."):
        r = os_path(eng, name, args, kwargs)
        if r is not None:
            return r
    if name in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath") and args and not kwargs:
        cs = [consts(a) for a in args]
        if all(c is not None and len(c) == 1 and isinstance(c[0], (str, PurePosixPath)) for c in cs):
            return C(PurePosixPath(*[c[0] for c in cs]), dep(_all_labels(args, {})))
    if name == "os.fspath" and args:
        c = consts(args[0])
        if c is not None and len(c) == 1 and isinstance(c[0], (str, PurePosixPath)):
            return C(str(c[0]), dep(labels(args[0])))
    if name in ("json.load", "commentjson.load") and args:
        fs = [a for a in args[0] if a.k == "ext" and a.p.startswith("file:")]
        if len(fs) == 1 and len(args[0]) == 1:
            r = json_resource(eng, fs[0].p[5:], st, node)
            if r is not None:
                return r
    if name in ("sys.exit", "os._exit", "builtins.exit", "builtins.quit"):
        eng.do_raise(EXT("builtins.SystemExit"), node, st)
        raise PathDead()
    if name in ("functools.partial",) and args:
        return mk("partial", (args[0], tuple(args[1:]), tuple(sorted(kwargs.items(), key=lambda x: x[0]))))
    if name in ("copy.copy", "copy.deepcopy") and args:
        return deep_copy(eng, args[0], st, node, name.endswith("deepcopy"))
    if name.startswith(("collections.OrderedDict", "collections.defaultdict")) and name.count(".") == 1 and "(" not in name:
        oid, o = eng.alloc(st, node, "dict", extra="od")
        if name.endswith("defaultdict"):
            o.complete = False
            for v in args[1:2]:
                dict_update(eng, o, v, st)
            o.complete = False
            o.attrs.update(kwargs)
            if args:
                try:
                    o.summ = vjoin(o.summ, eng.call(args[0], [], {}, st, node))
                except PathDead:
                    pass
        else:
            for v in args[:1]:
                seq = eng.exact_iter(v, st, node) if not any(a.k == "obj" and st.get(a.p).kind == "dict" for a in v) else None
                if seq is not None and all(len(x) == 1 and list(x)[0].k == "tup" and len(list(x)[0].p) == 2 and const1(list(x)[0].p[0]) is not None for x in seq):
                    for x in seq:
                        o.attrs[const1(list(x)[0].p[0])] = list(x)[0].p[1]
                else:
                    dict_update(eng, o, v, st)
            o.attrs.update(kwargs)
        st.new(oid, o)
        return mk("obj", oid)
    if name == "collections.deque":
        return builtin_call(eng, "list", args[:1], {}, st, node)
    if name.startswith(("heapq.", "bisect.insort")) and args:
        hn = name.rsplit(".", 1)[1]
        if hn in ("nlargest", "nsmallest") and len(args) > 1:
            if "key" in kwargs or len(args) > 2:
                eng.call(kwargs.get("key") or args[2], [eng.elem_of(args[1], st, node)], {}, st, node)
            return weak_list(eng, st, node, eng.elem_of(args[1], st, node), hn)
        if hn in ("heappush", "heappushpop", "heapreplace", "heappop", "insort", "insort_left", "insort_right"):
            out = EMPTY
            for a in args[0]:
                o = st.get(a.p) if a.k == "obj" else None
                if o is not None and o.kind == "list":
                    if hn != "heappop" and len(args) > 1:
                        list_method(eng, a, o, "append", [args[1]], {}, st, node)
                    else:
                        eng._mutate_obj(a.p, o, hn, node, st)
                    m = st.mut(a.p)
                    if m.elems is not None and hn != "heappop":
                        out = out | frozenset().union(*m.elems)
                    elif m.elems is not None:
                        m.summ = widen(m.summ | frozenset().union(EMPTY, *m.elems))
                        m.elems = None
                    out = out | m.summ
            if any(a.k == "obj" for a in args[0]):
                return widen(out) or TOP() if hn in ("heappushpop", "heapreplace", "heappop") else NONE
    if name == "itertools.product" or name == "itertools.permutations" or name == "itertools.combinations" or name == "itertools.combinations_with_replacement":
        ls = [eng.elem_of(v, st, node) for v in args]
        e = TUP(ls) if name.endswith("product") and "repeat" not in kwargs else weak_list(eng, st, node, frozenset().union(*ls) if ls else TOP(), "it")
        return weak_list(eng, st, node, e, "prod")
    if name == "itertools.chain" or name == "itertools.chain.from_iterable":
        s = EMPTY
        for v in args:
            x = eng.elem_of(v, st, node)
            s = s | (eng.elem_of(x, st, node) if name.endswith("from_iterable") else x)
        return weak_list(eng, st, node, widen(s), "chain")
    if name == "importlib.import_module" and args:
        c = const1(args[0])
        if isinstance(c, str):
            if len(args) > 1 or c.startswith("."):
                pkg = const1(args[1]) if len(args) > 1 else None
                if isinstance(pkg, str):
                    lv = len(c) - len(c.lstrip("."))
                    base = pkg.split(".")
                    base = base[:len(base) - (lv - 1)] if lv > 1 else base
                    c = ".".join(base) + "." + c.lstrip(".")
            if eng.proj.has(c.split(".")[0]):
                return eng.import_mod(c, node, st)
            note_import(eng, c, node, st)
            return EXT(c)
        return TOP()
    if name in ("typing.cast",) and len(args) > 1:
        return args[1]
    if name in ("dataclasses.replace",) and args:
        out = EMPTY
        for a in args[0]:
            o = st.get(a.p) if a.k == "obj" else None
            if o is not None and o.kind == "inst":
                oid = eng.site(node, "replace")
                n = o.clone()
                n.multi = False
                n.l = NOL
                n.attrs.update(kwargs)
                st.new(oid, n)
                out = out | mk("obj", oid)
            else:
                out = out | TOP(dep(a.l))
        return out
    if name in ("dataclasses.asdict",):
        return TOP(dep(_all_labels(args, kwargs, eng, st)))
    if name in ("inspect.signature",):
        return EXT("inspect.signature()")
    # mutation by external function
    mi = MUT_FUNCS.get(name)
    if mi is not None and mi < len(args):
        al = alias(deep_labels(args[mi], st))
        for a in args[mi]:
            o = st.get(a.p) if a.k == "obj" else None
            if o is not None:
                al |= alias(o.l)
        if al:
            eng.an.mutate(eng, al, "%s()" % name, node, st)
    if name.endswith((").shuffle", "Generator.shuffle")) and args:
        al = alias(deep_labels(args[0], st))
        if al:
            eng.an.mutate(eng, al, "%s()" % name, node, st)
    if name == "numpy.nan_to_num" and const1(kwargs.get("copy", C(True))) is False and args:
        al = alias(labels(args[0]))
        if al:
            eng.an.mutate(eng, al, "nan_to_num(copy=False)", node, st)
    if name.startswith("numpy.") and name.endswith(".at") and args:       # ufunc.at
        al = alias(labels(args[0]))
        if al:
            eng.an.mutate(eng, al, "ufunc.at", node, st)
    last = name.rsplit(".", 1)[-1]
    if name.startswith("torch.nn.init.") and args:
        al = alias(labels(args[0]))
        if al:
            eng.an.mutate(eng, al, name, node, st)
    if name.startswith("numpy.") and "out" not in kwargs and last in UFUNC2 and len(args) > UFUNC2[last]:
        al = alias(labels(args[UFUNC2[last]]))
        if al:
            eng.an.mutate(eng, al, "positional out argument of %s" % name, node, st)
    out_kw(eng, kwargs, node, st)
    r = np_model(eng, name, args, kwargs, st, node)
    if r is not None:
        return r
    run_callbacks(eng, args, kwargs, st, node)
    ls = _all_labels(args, kwargs, eng, st)
    d = dep(ls | atom.l)
    root = name.split(".")[0]
    if root in VIEW_MODULES and "(" not in name:
        vi = VIEW_FUNCS.get(last)
        if last == "meshgrid" and const1(kwargs.get("copy", C(True))) is False:
            vi = "*"
        if last == "nan_to_num" and const1(kwargs.get("copy", C(True))) is False:
            vi = 0
        if last == "array" and const1(kwargs.get("copy", C(True))) is False:
            vi = 0
        if vi is not None:
            src = args[vi] if vi != "*" and vi < len(args) else (next(iter(kwargs.values()), EMPTY) if vi != "*" else frozenset().union(*args) if args else EMPTY)
            if vi != "*" and not args:
                for kn in ("a", "data", "obj", "x"):
                    if kn in kwargs:
                        src = kwargs[kn]
            al = alias(deep_labels(src, st, 1)) if not any(a.k == "obj" for a in src) else alias(frozenset(x for a in src for x in a.l))
            if last in ("DataFrame", "Series") and const1(kwargs.get("copy", NONE)) is True:
                al = NOL
            return mk("ext", name + "()", d | al) if len(name) < 80 else TOP(d | al)
    # a method on an opaque object: keep storage sharing with the receiver's labels only for views
    if "()" in name and last in VIEW_METHODS:
        d = d | alias(atom.l)
    elif "()" in name and alias(atom.l):
        if last in MUT_METHODS or (last.endswith("_") and not last.endswith("__") and last != "requires_grad_"):
            eng.an.mutate(eng, alias(atom.l), ".%s()" % last, node, st)
    if len(name) > 80:
        return TOP(d)
    return mk("ext", name + "()", d)


def os_path(eng, name, args, kwargs):
    """os.path functions on known path strings (no file system access)"""
    import os.path as op
    fn = name[8:]
    if fn not in ("join", "dirname", "basename", "abspath", "realpath", "normpath", "splitext", "split", "isabs") or kwargs or not args:
        return None
    combos = [[]]
    for a in args:
        c = consts(a)
        if not c or any(not isinstance(x, (str, PurePosixPath)) for x in c) or len(combos) * len(c) > 12:
            return None
        combos = [v + [str(x)] for v in combos for x in c]
    ls = NOL
    for a in args:
        ls |= dep(labels(a))
    out = frozenset()
    for vs in combos:
        if fn in ("abspath", "realpath"):
            if not op.isabs(vs[0]):
                return None
            out |= C(op.normpath(vs[0]), ls)
            continue
        r = getattr(op, fn)(*vs)
        out |= TUP([C(x, ls) for x in r]) if isinstance(r, tuple) else C(r, ls)
    return out


_JSON = {}


def read_json(path):
    """a package resource file, parsed with comments and trailing commas allowed"""
    import json, re
    if path not in _JSON:
        try:
            text = open(path, encoding="utf-8").read()
            text = re.sub(r'("(?:[^"\\]|\\.)*")|//[^\n]*|#[^\n]*|/\*.*?\*/', lambda m: m.group(1) or "", text, flags=re.S)
            text = re.sub(r'("(?:[^"\\]|\\.)*")|,(\s*[}\]])', lambda m: m.group(1) or m.group(2), text)
            _JSON[path] = (json.loads(text),)
        except (OSError, ValueError):
            _JSON[path] = None
    return _JSON[path]


def json_resource(eng, path, st, node):
    import os.path
    d = read_json(os.path.normpath(path))
    if d is None or len(str(d)) > 200000:
        return None
    gen = eng.an.generic_config

    def conv(v, key):
        if isinstance(v, dict):
            oid, o = eng.alloc(st, node, "dict", extra="json:" + key)
            o.attrs = {k: conv(x, key + "/" + k) for k, x in v.items()}
            st.new(oid, o)
            return mk("obj", oid)
        if isinstance(v, list):
            return eng.new_list(st, node, [conv(x, key + "/%d" % i) for i, x in enumerate(v)], extra="json:" + key)
        if gen:
            if isinstance(v, bool):
                return BOOL
            if v is None or isinstance(v, (int, float)):
                return C(v) | TOP()
        return C(v)

    return conv(d[0], "")


UFUNC2 = {"add": 2, "subtract": 2, "multiply": 2, "divide": 2, "true_divide": 2, "power": 2, "maximum": 2, "minimum": 2,
          "negative": 1, "sqrt": 1, "exp": 1, "abs": 1, "absolute": 1, "square": 1, "sin": 1, "cos": 1, "log": 1}


def deep_copy(eng, v, st, node, deep, memo=None):
    out = set()
    for a in v:
        if a.k == "obj":
            o = st.get(a.p)
            if o is None or o.kind in ("class", "module"):
                out.add(a)
                continue
            memo = memo if memo is not None else {}
            if a.p in memo:
                out.add(Atom("obj", memo[a.p], NOL))
                continue
            oid = (eng.site(node, "copy"), a.p) if len(memo) < 60 else a.p
            memo[a.p] = oid
            n = o.clone()
            n.l = NOL
            if deep:
                st.heap[oid] = n
                st.own.add(oid)
                n.attrs = {k: deep_copy(eng, x, st, node, True, memo) for k, x in n.attrs.items()}
                if n.elems is not None:
                    n.elems = [deep_copy(eng, x, st, node, True, memo) for x in n.elems]
                n.summ = deep_copy(eng, n.summ, st, node, True, memo)
            st.heap[oid] = n
            st.own.add(oid)
            out.add(Atom("obj", oid, NOL))
        elif a.k == "tup" and deep:
            out.add(Atom("tup", tuple(deep_copy(eng, x, st, node, True, memo) for x in a.p), a.l))
        elif a.k in ("top", "ext", "arr", "meth"):
            if a.k == "meth":
                out.add(Atom("top", None, dep(labels(frozenset([a])))))
            else:
                out.add(Atom(a.k, a.p, dep(a.l)))
        else:
            out.add(a)
    return frozenset(out)


def builtin_call(eng, fn, args, kwargs, st, node):
    from .interp import PathDead, widen, join_st, vjoin
    A = args
    if fn == "len" and A:
        out = EMPTY
        for a in A[0]:
            if a.k == "tup":
                out = out | C(len(a.p))
            elif a.k == "const" and isinstance(a.p[1], (str, bytes)):
                out = out | C(len(a.p[1]))
            elif a.k == "arr" and a.p.axes:
                out = out | axis_val(a.p.axes[0])
            elif a.k == "obj":
                o = st.get(a.p)
                if o is not None and o.kind in ("list", "set") and o.elems is not None and not o.multi:
                    out = out | C(len(o.elems))
                elif o is not None and o.kind == "dict" and o.complete and not o.multi and not any(any(q.k == "unbound" for q in x) for x in o.attrs.values()):
                    out = out | C(len(o.attrs))
                elif o is not None and o.kind == "inst" and o.cls is not None and eng.find_method(o.cls, "__len__", st):
                    out = out | eng.call(eng.getattr(frozenset([a]), "__len__", st, node), [], {}, st, node)
                else:
                    out = out | TOP()
            elif a.k == "const":
                pass
            else:
                out = out | TOP(dep(a.l))
        if not out:
            raise PathDead()
        return out
    if fn == "isinstance" and len(A) == 2:
        res = set()
        for a in A[0]:
            res |= isinstance_atom(eng, a, A[1], st)
        return frozenset().union(*[C(x) for x in res]) if res else BOOL
    if fn == "issubclass" and len(A) == 2:
        res = set()
        for a in A[0]:
            for b in A[1]:
                if a.k == "cls" and b.k == "cls":
                    res.add(b.p in a.p.mro())
                else:
                    res |= {True, False}
        return frozenset().union(*[C(x) for x in res])
    if fn == "callable" and A:
        res = set()
        for a in A[0]:
            res |= callable_atom(eng, a, st)
        return frozenset().union(*[C(x) for x in res]) if res else BOOL
    if fn == "getattr" and len(A) >= 2:
        names = consts(A[1])
        if names is not None and all(isinstance(n, str) for n in names):
            out = EMPTY
            for n in names:
                if len(A) > 2:
                    for a in A[0]:
                        h = has_attr(eng, a, n, st)
                        if False in h:
                            out = out | A[2]
                        if True in h:
                            try:
                                out = out | eng.getattr1(a, n, st, node, None if h == {True} else A[2])
                            except PathDead:
                                pass
                else:
                    out = out | eng.getattr(A[0], n, st, node)
            return widen(out) or TOP()
        # unknown name: any attribute of the object
        out = EMPTY
        ls = NOL
        for a in A[0]:
            ls |= a.l
            o = st.get(a.p) if a.k == "obj" else (st.get(a.p.oid) if a.k == "cls" else (st.get(eng.module_oid(a.p)) if a.k == "mod" else None))
            if o is not None:
                for v in o.attrs.values():
                    out = out | frozenset(x for x in v if x.k not in ("unbound",))
        if len(A) > 2:
            out = out | A[2]
        out = out | TOP(ls)
        return widen(out)
    if fn == "hasattr" and len(A) == 2:
        n = const1(A[1])
        res = set()
        if isinstance(n, str):
            for a in A[0]:
                res |= has_attr(eng, a, n, st)
        return frozenset().union(*[C(x) for x in res]) if res else BOOL
    if fn == "setattr" and len(A) == 3:
        n = const1(A[1])
        if isinstance(n, str):
            eng.setattr(A[0], n, A[2], st, node)
        else:
            ns = consts(A[1])
            if ns is not None:
                for x in ns:
                    if isinstance(x, str):
                        for a in A[0]:
                            o = st.get(a.p) if a.k == "obj" else None
                            if o is not None:
                                eng._mutate_obj(a.p, o, "setattr", node, st)
                                eng.an.attr_write(eng, a.p, o, x, A[2], node, st)
                                m = st.mut(a.p)
                                m.attrs[x] = vjoin(m.attrs.get(x, frozenset()), A[2])
            else:
                for a in A[0]:
                    o = st.get(a.p) if a.k == "obj" else None
                    if o is not None:
                        eng._mutate_obj(a.p, o, "setattr", node, st)
                    elif alias(a.l):
                        eng.an.mutate(eng, alias(a.l), "setattr", node, st)
        return NONE
    if fn == "super":
        fr = None
        for f in reversed(eng.frames):
            if f.func is not None and f.func.cls is not None:
                fr = f
                break
        if fr is None:
            return TOP()
        if len(A) >= 2:
            inst = A[1]
            c = next((a.p for a in A[0] if a.k == "cls"), fr.func.cls)
        else:
            ps = fr.func.params()
            inst = st.env.get(ps[0]) if ps else None
            c = fr.func.cls
        if inst is None:
            return TOP()
        return frozenset(Atom("super", (c, a), NOL) for a in inst)
    if fn == "type":
        if len(A) == 1:
            out = EMPTY
            for a in A[0]:
                c = eng.inst_cls(a, st) if a.k == "obj" else None
                if c is not None:
                    out = out | mk("cls", c)
                elif a.k == "const":
                    out = out | EXT("builtins." + a.p[0])
                else:
                    out = out | TOP()
            return out
        return TOP()
    if fn in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
        if not A:
            return TUP([]) if fn == "tuple" else eng.new_list(st, node, [], kind="set" if "set" in fn else "list")
        if fn == "sorted" and "key" in kwargs:
            try:
                eng.call(kwargs["key"], [eng.elem_of(A[0], st, node)], {}, st, node)
            except PathDead:
                pass
        seq = eng.exact_iter(A[0], st, node)
        ls = NOL
        for a in A[0]:
            if a.k not in ("obj", "tup"):
                ls |= a.l
        if seq is not None:
            if fn == "tuple":
                return TUP(seq)
            if fn == "sorted":
                cs = [consts(x) for x in seq]
                if all(c is not None and len(c) == 1 for c in cs) and "key" not in kwargs:
                    try:
                        rev = const1(kwargs.get("reverse", C(False)))
                        seq = [C(x) for x in sorted([c[0] for c in cs], reverse=bool(rev))]
                    except TypeError:
                        pass
                elif len(seq) > 1:
                    s = frozenset().union(*seq)
                    seq = [widen(s)] * len(seq)
            if fn == "reversed":
                seq = list(reversed(seq))
            if "set" in fn:
                u = []
                for x in seq:
                    if x not in u:
                        u.append(x)
                return eng.new_list(st, node, u, kind="set")
            return eng.new_list(st, node, seq, extra=fn)
        e = eng.elem_of(A[0], st, node)
        oid, o = eng.alloc(st, node, "set" if "set" in fn else "list", extra=fn)
        o.elems, o.summ = None, e
        st.new(oid, o)
        return mk("obj", oid)
    if fn == "dict":
        oid, o = eng.alloc(st, node, "dict", extra="dict")
        for v in A[:1]:
            done = False
            if not any(a.k == "obj" and st.get(a.p) is not None and st.get(a.p).kind == "dict" for a in v):
                seq = eng.exact_iter(v, st, node)
                if seq is not None:
                    done = True
                    for x in seq:
                        p = eng.exact_iter(x, st, node) if len(x) == 1 else None
                        k = const1(p[0]) if p is not None and len(p) == 2 else None
                        if k is not None:
                            o.attrs[k] = p[1]
                        else:
                            o.complete = False
                            o.summ = o.summ | (p[1] if p is not None and len(p) == 2 else TOP())
                else:
                    done = True
                    o.complete = False
                    e = eng.elem_of(v, st, node)
                    o.summ = eng.elem_of(e, st, node)
            if not done:
                dict_update(eng, o, v, st)
        o.attrs.update(kwargs)
        st.new(oid, o)
        return mk("obj", oid)
    if fn == "range":
        cs = [const1(x) for x in A]
        if A and all(isinstance(c, int) and not isinstance(c, bool) for c in cs):
            try:
                r = range(*cs)
                if len(r) <= 64:
                    return eng.new_list(st, node, [C(i) for i in r], extra="range")
            except Exception:
                pass
        return weak_list(eng, st, node, TOP(), "range")
    if fn == "enumerate" and A:
        seq = eng.exact_iter(A[0], st, node)
        s0 = const1(A[1]) if len(A) > 1 else const1(kwargs.get("start", C(0)))
        if seq is not None and isinstance(s0, int):
            return eng.new_list(st, node, [TUP((C(i + s0), x)) for i, x in enumerate(seq)], extra="enum")
        return weak_list(eng, st, node, TUP((TOP(), eng.elem_of(A[0], st, node))), "enum")
    if fn == "zip":
        seqs = [eng.exact_iter(v, st, node) for v in A]
        if A and all(s is not None for s in seqs):
            return eng.new_list(st, node, [TUP(t) for t in zip(*seqs)], extra="zip")
        return weak_list(eng, st, node, TUP([eng.elem_of(v, st, node) for v in A]), "zip")
    if fn in ("map", "filter") and len(A) >= 2:
        seq = eng.exact_iter(A[1], st, node)
        try:
            if fn == "map" and seq is not None and len(A) == 2 and len(seq) <= 60:
                return eng.new_list(st, node, [eng.call(A[0], [x], {}, st, node) for x in seq], extra="map")
            e = [eng.elem_of(v, st, node) for v in A[1:]]
            if fn == "map":
                return weak_list(eng, st, node, eng.call(A[0], e, {}, st, node), "map")
            if not (len(A[0]) == 1 and const1(A[0], 0) is None):
                eng.call(A[0], e, {}, st, node)
            return weak_list(eng, st, node, e[0], "filter")
        except PathDead:
            return weak_list(eng, st, node, EMPTY, "map")
    if fn in ("min", "max", "sum"):
        if "key" in kwargs:
            try:
                eng.call(kwargs["key"], [eng.elem_of(A[0], st, node)], {}, st, node)
            except PathDead:
                pass
        vals = A if len(A) > 1 else (eng.exact_iter(A[0], st, node) if A else None)
        if vals:
            cs = [consts(x) for x in vals]
            if all(c is not None and len(c) == 1 and isinstance(c[0], (int, float)) for c in cs) and "key" not in kwargs:
                return C({"min": min, "max": max, "sum": sum}[fn]([c[0] for c in cs]))
        if fn == "sum":
            return TOP(dep(_all_labels(A, {}, eng, st)))
        if len(A) == 1:
            return eng.elem_of(A[0], st, node)
        s = EMPTY
        for v in A:
            s = s | v
        if any(a.k == "sym" for a in s):
            return TOP(dep(labels(s)))
        return frozenset(a if a.k != "const" else Atom("top", None, a.l) for a in s) or TOP()
    if fn in ("any", "all") and A:
        seq = eng.exact_iter(A[0], st, node)
        if seq is not None:
            tr = [eng.truth(x, st) for x in seq]
            if fn == "any":
                if any(t == {True} for t in tr):
                    return C(True)
                if all(t == {False} for t in tr):
                    return C(False)
            else:
                if any(t == {False} for t in tr):
                    return C(False)
                if all(t == {True} for t in tr):
                    return C(True)
        return BOOL
    if fn in ("int", "float", "str", "bool", "abs", "round", "repr", "complex"):
        if not A:
            return C({"int": 0, "float": 0.0, "str": "", "bool": False}.get(fn, ""))
        ls = dep(_all_labels(A, kwargs))
        if fn == "bool":
            tr = eng.truth(A[0], st)
            return frozenset().union(*[C(t) for t in tr]) if tr else BOOL
        out = EMPTY
        for a in A[0]:
            if a.k == "const" and len(A) == 1:
                try:
                    v = {"int": int, "float": float, "str": str, "abs": abs, "round": round, "repr": repr}[fn](a.p[1])
                    out = out | C(v, dep(a.l))
                    continue
                except (ValueError, TypeError, KeyError, OverflowError):
                    if fn in ("int", "float"):
                        if eng.handlers:
                            eng.do_raise(EXT("builtins.ValueError" if isinstance(a.p[1], str) else "builtins.TypeError"), node, st)
                        continue
            if a.k == "sym" and fn == "int":
                out = out | frozenset([a])
                continue
            if fn in ("str", "repr") and a.k == "obj":
                o = st.get(a.p)
                if o is not None and o.kind == "inst" and o.cls is not None:
                    for mname in (("__str__", "__repr__") if fn == "str" else ("__repr__",)):
                        if eng.find_method(o.cls, mname, st):
                            try:
                                out = out | eng.call(eng.getattr(frozenset([a]), mname, st, node), [], {}, st, node)
                            except PathDead:
                                pass
                            break
                    else:
                        out = out | TOP(ls)
                    continue
            out = out | TOP(ls)
        if not out:
            raise PathDead()
        return out
    if fn == "next" and A:
        e = eng.elem_of(A[0], st, node)
        if len(A) > 1:
            e = e | A[1]
        return e
    if fn == "print":
        for v in A:
            for a in v:
                o = st.get(a.p) if a.k == "obj" else None
                if o is not None and o.kind == "inst" and o.cls is not None:
                    for mname in ("__str__", "__repr__"):
                        if eng.find_method(o.cls, mname, st):
                            try:
                                eng.call(eng.getattr(frozenset([a]), mname, st, node), [], {}, st, node)
                            except PathDead:
                                pass
                            break
        return NONE
    if fn in ("globals", "locals", "vars", "eval", "exec", "open", "input", "id", "hash", "compile", "format", "chr", "ord", "divmod", "pow", "slice", "memoryview"):
        if fn == "slice":
            v = list(A) + [NONE] * (3 - len(A))
            if len(A) == 1:
                v = [NONE, A[0], NONE]
            return mk("slice", tuple(v))
        if fn == "vars" and A:
            for a in A[0]:
                o = st.get(a.p) if a.k == "obj" else None
                if o is not None and o.kind == "inst":
                    oid, n = eng.alloc(st, node, "dict", extra="vars")
                    n.attrs = dict(o.attrs)
                    st.new(oid, n)
                    return mk("obj", oid)
        if fn == "open":
            p = const1(A[0]) if A else None
            if isinstance(p, str) and p.startswith(eng.proj.repo + "/"):
                import os.path
                eng.opened.append((os.path.normpath(p), eng.where(node), eng.frames[-1].func.qual if eng.frames[-1].func else eng.frames[-1].mod, const1(A[1], "r") if len(A) > 1 else const1(kwargs.get("mode", C("r")), "?")))
                return EXT("file:" + p, dep(_all_labels(A, kwargs)))
            return EXT("open()", dep(_all_labels(A, kwargs)))
        return TOP(dep(_all_labels(A, kwargs)))
    if fn == "object":
        oid, o = eng.alloc(st, node, "inst", extra="object")
        st.new(oid, o)
        return mk("obj", oid)
    if fn[:1].isupper():   # exception classes
        return EXT("builtins." + fn + "()")
    return None


def has_attr(eng, a, n, st):
    if a.k == "obj":
        o = st.get(a.p)
        if o is None:
            return {True, False}
        if o.kind == "inst":
            v = o.attrs.get(n)
            if v is not None and not any(x.k == "unbound" for x in v):
                return {True}
            if o.cls is not None:
                if eng.find_class_attr(o.cls, n, st) is not None:
                    return {True}
                if a.p in eng.an.open_objs:
                    return {True, False}
                if o.cls.all_ext() or eng.find_method(o.cls, "__getattr__", st):
                    return {True, False}
                if v is None and n not in OBJECT_ATTRS:
                    return {False}
            return {True, False}
        if o.kind in ("list", "dict", "set"):
            return {hasattr({"list": list, "dict": dict, "set": set}[o.kind], n)}
    if a.k == "cls":
        if eng.find_class_attr(a.p, n, st) is not None:
            return {True}
        return {False} if not a.p.all_ext() and n not in OBJECT_ATTRS else {True, False}
    if a.k == "const":
        return {hasattr(a.p[1], n)}
    if a.k == "tup":
        return {hasattr((), n)}
    if a.k == "mod":
        o = st.get(eng.module_oid(a.p))
        return {True} if o is not None and n in o.attrs else {True, False}
    if a.k in ("fn", "bound"):
        if n in ("__name__", "__qualname__", "__doc__", "__module__", "__call__"):
            return {True}
        return {True, False} if (n or "").startswith("__") or n in eng.fn_attrs else {False}
    if a.k == "arr":
        return {n in ("shape", "ndim", "size", "T", "dtype", "reshape", "tolist", "ravel", "flatten", "copy", "astype", "__array__", "__len__", "__getitem__", "__iter__", "item", "mean")} if n else {True, False}
    return {True, False}
