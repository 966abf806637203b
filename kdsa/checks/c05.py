"""C05: operator vocabularies agree across all tables.

Every operator a model offers is taken from the model's own tables and followed, by kdsa.grid (an abstract interpretation
of the source over exact algebraic values; nothing of kd is run), through every routine that gives it a meaning: execution,
the torch twin, splitting into terms, text, LaTeX and re-evaluation for plots.  The meanings must be one and the same."""
import ast, builtins, itertools, json, os, re, types
from fractions import Fraction
from ..gridcheck import *
from ..report import AnalysisBroken, run_scenarios
from ..algebra import jet
from .. import gridlib
from .c04 import FUN, EXE, VIZ, SP, tokens, node, points, column, network, sga_fit, outcome

STR, TEX, PRO = "kd.model.discover.stridge", "kd.viz.discover_eq2latex", "kd.model.discover.program"
HALF = Poly.c(Fraction(1, 2))


def D(f, axes):
    """an unevaluated derivative of f along axes (a string of axis names)"""
    if len(f.t) == 1:
        (m, c), = f.t.items()
        if len(m) == 1:
            (a, e), = m
            if e == 1 and a[0] == "f" and a[1] == "D":
                g, s = a[2]
                old = next(iter(next(iter(s.t))))[0][1]
                return fn("D", g, V("".join(sorted(old + axes)))) * c
    return fn("D", f, V("".join(sorted(axes))))


def V(n):
    return Poly.atom(("v", n))


def op(name, *a):
    return fn("op:" + ("laplacian" if name.startswith("lap") else name), *a)


MEAN = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
    "n2": lambda a: a.power(2), "n3": lambda a: a.power(3), "n4": lambda a: a.power(4), "n5": lambda a: a.power(5),
    "neg": lambda a: -a, "inv": lambda a: a.inv(), "sin": lambda a: fn("sin", a), "cos": lambda a: fn("cos", a),
    "tan": lambda a: fn("tan", a), "tanh": lambda a: fn("tanh", a), "exp": lambda a: fn("exp", a), "log": lambda a: fn("log", a),
    "sqrt": lambda a: a.power(HALF), "abs": lambda a: fn("abs", a), "max": lambda a, b: fn("max", a, b),
    "min": lambda a, b: fn("min", a, b), "logabs": lambda a: fn("log", fn("abs", a)), "expneg": lambda a: fn("exp", -a),
    "sigmoid": lambda a: (1 + fn("exp", -a)).inv()}
ORDER = {"diff": 1, "diff2": 2, "diff3": 3, "diff4": 4, "Diff": 1, "Diff2": 2, "Diff_3": 1, "Diff2_3": 2}
GRID = {"Diff": 2, "Diff2": 2, "lap": 2, "Diff_3": 3, "Diff2_3": 3, "lap_3": 3}      # operators of one dimension


def base(name):
    return name[:-2] if name.endswith("_t") else name


def meaning(name, args, coord="x"):
    """what the name says, as an algebraic value of its operands; None when the name says nothing we know"""
    b = base(name)
    if b in MEAN:
        return MEAN[b](*args)
    if b in ORDER:
        return D(args[0], coord * ORDER[b])
    return op(b, *args)


# ---------------------------------------------------------------------------- ordinary operands
def nominal(p, loose=False):
    """p for operands of ordinary size: guards against overflow and zero do not bite, tiny offsets are nothing.
    loose: |z| under a logarithm or root is z"""
    out = Poly.c(0)
    for m, c in p.t.items():
        q = Poly.c(c)
        for a, e in m:
            q = q * natom(a, loose).power(e)
        out = out + q
    return out


def natom(a, loose):
    if a[0] == "p":
        q = nominal(a[1], loose)
        c = q.t.get(frozenset(), 0)
        if c and abs(c) <= Fraction(1, 10 ** 6) and len(q.t) > 1:
            q = q - c
        return q
    if a[0] != "f":
        return Poly.atom(a)
    args = [nominal(x, loose) if isinstance(x, Poly) else x for x in a[2]]
    if a[1].startswith("where_"):
        t = holds(a[1][6:], args[0], args[1])
        if t is not None:
            return args[2] if t else args[3]
    if loose and a[1] in ("log", "pow") and isinstance(args[0], Poly):
        args[0] = noabs(args[0])
        if a[1] == "pow":
            return args[0].power(args[1])
    if a[1] in ("max", "min") and len(args) == 2:
        args = sorted(args, key=lambda x: show(x))
    return fn(a[1], *args)


def noabs(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1:
            (a, e), = m
            if e == 1 and a[0] == "f" and a[1] == "abs":
                return a[2][0]
    return p


def holds(o, a, b):
    """a o b for ordinary a (0.01 < |a| < 50)"""
    flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
    if a.const() is not None and b.const() is None and o in flip:
        return holds(flip[o], b, a)
    k = b.const()
    if k is None or a.const() is not None:
        return None
    pos = noabs(a) is not a
    if k >= 50 or (k <= -50):
        big = k >= 50
    elif pos and abs(k) <= Fraction(1, 100):
        big = False
    elif k == 0 and o in ("Eq", "NotEq"):
        return o == "NotEq"
    else:
        return None
    return {"Lt": big, "LtE": big, "Gt": not big, "GtE": not big, "Eq": False, "NotEq": True}.get(o)


def same(p, want):
    for loose in (False, True):
        if nominal(p, loose) == nominal(want, loose):
            return True
    return False


# ---------------------------------------------------------------------------- tables
def table(ev):
    """{announced name: token} and {registered key: token} of the operator library"""
    fm = ev.get(FUN, "function_map")
    if not isinstance(fm, dict):
        raise AnalysisBroken("kd.model.discover.functions.function_map is not a table of operators")
    return {k: t for k, t in fm.items() if ev.getattr(t, "arity") > 0}


def library(ev, key, nvar=3):
    """tokens of a library that offers one operator (registered key) with u1, u2 and x1…"""
    ct = ev.get(FUN, "create_tokens")
    prot = key.startswith("protected_")
    toks = ev.call(ct, [], dict(n_input_var=nvar, function_set=[key[10:] if prot else key], protected=prot,
                                task_type="pde", n_state_var=2))
    return {ev.getattr(t, "name"): t for t in toks}


def value(ev, key, axes=("r",), nvar=3):
    """the operator applied to (u1, u2) resp. (u1, x1) by the executor of the search"""
    by = library(ev, key, nvar)
    name = ev.getattr(table(ev)[key], "name")
    ar = ev.getattr(by[name], "arity")
    d = base(name) in ORDER
    ops = ["u1"] + (["x1" if d else "u2"] if ar > 1 else []) + ["u1"] * (ar - 2)
    trav = [by[name]] + [by[o] for o in ops]
    if name.endswith("_t"):
        u = Arr(ev, [N("r"), 2], lambda pos: Poly.atom(("j", "uv"[int(pos[1].const())], ())), torch=True)
        return ev.call(ev.get(EXE, "python_execute_torch"), [trav, [u], [column(ev, a) for a in SP[nvar]]])
    return ev.call(ev.get(EXE, "python_execute"),
                   [trav, [field(ev, "u", axes), field(ev, "v", axes)], [coord(ev, a, True) for a in SP[nvar]]])


def element(ev, v):
    """a generic element of an array"""
    if isinstance(v, (Poly, int, Fraction)) and not isinstance(v, bool):
        return Poly.c(v)
    pos = tuple(Poly.atom(("i", "g%d" % k)) if d.const() is None else P(0) for k, d in enumerate(v.dims))
    p = v.at(pos)
    return ev.B.simp(p) if isinstance(p, Poly) else p


def sample(ev, name, torch, n=1):
    if torch:
        return Poly.atom(("j", name, ()))
    return Poly.atom(("s", name, tuple(Poly.atom(("i", "g%d" % k)) for k in range(n))))


def operators():
    """one task per registered operator: arity, value, twin"""
    ev = Ev(PROJECT())
    return [execution(k) for k in table(ev)]


def execution(key):
    name0 = "operator %s" % key

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        tok = table(ev)[key]
        name, ar = ev.getattr(tok, "name"), ev.getattr(tok, "arity")
        b = base(name)
        sub.count("operators")
        want = None
        if b in MEAN:
            need = MEAN[b].__code__.co_argcount
            if need != ar:
                sub.find("operator-arity", key, "operator %s is announced with %d operand(s) but takes %d" % (key, ar, need), name0)
                return
        elif b in ORDER or b in GRID:
            need = 2 if b in ORDER else 1
            if need != ar:
                sub.find("operator-arity", key, "operator %s is announced with %d operand(s) but takes %d" % (key, ar, need), name0)
                return
        else:
            binding(R, key, tok, ar)
            return
        if b in ORDER or b in GRID:
            nd = GRID.get(b, 1)
            axes = ["x", "t"] if nd == 1 else ["t"] + SP[nd]
            vals(R, name0, lambda: value(ev, key, axes, nd), key, None)
            return
        t = name.endswith("_t")
        a = [sample(ev, "u", t), sample(ev, "v", t)]
        vals(R, name0, lambda: value(ev, key), key, MEAN[b](*a[:ar]))
    return (name0, f)


def vals(R, name, thunk, key, want):
    sub, ev = R.sub, R.ev
    for kind, v, taken in R.paths(name, thunk):
        if kind == "raise" or v is None:
            x = v if kind == "raise" else (ev.caught[-1] if ev.caught else None)
            sub.find("operator-fails", key, "%s cannot be evaluated: %s" % (name, (x.name + " " + (x.msg or "")) if x else "no value"),
                     where(x) if x else name)
            return
        if not isinstance(v, (Arr, Poly)):
            R.undecided(name, "value %r" % (v,))
            return
        if want is None:
            sub.count("operator_values")
            continue
        try:
            p = element(ev, v)
        except (Unmodelled, NotPoly) as e:
            R.undecided(name, e)
            return
        if not isinstance(p, Poly):
            R.undecided(name, repr(p))
            return
        sub.count("operator_values")
        if not same(p, want):
            sub.find("operator-value", key, "%s computes %s where its name says %s" % (name, short(p), show(want)), name)
            return


def short(p):
    return show(nominal(p))[:160]


def binding(R, key, tok, ar):
    """an operator whose data are not available here: its implementation must accept the announced operands"""
    ev = R.ev
    f = ev.getattr(tok, "function")
    while not isinstance(f, Func) and hasattr(f, "func"):
        f = f.func
    if not isinstance(f, Func):
        R.undecided("operator " + key, "implementation %r" % (f,))
        return
    a = f.node.args
    need = len(a.posonlyargs) + len(a.args) - len(a.defaults)
    most = len(a.posonlyargs) + len(a.args)
    R.sub.count("operator_bindings")
    if not (need <= ar + 1 and (ar <= most or a.vararg)):
        R.sub.find("operator-arity", key, "operator %s is announced with %d operand(s) but %s takes %d" % (key, ar, f.node.name, need),
                   "operator " + key)


# ---------------------------------------------------------------------------- text
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sympynames.txt")) as _f:
    KNOWN = set(_f.read().split())      # the public names of SymPy
KNOWN |= {n for n, o in vars(builtins).items() if isinstance(o, types.BuiltinFunctionType)}
SYM = {"Add": lambda *a: sum(a, P(0)), "Mul": lambda *a: prod(a), "Pow": lambda a, b: a.power(b), "exp": lambda a: fn("exp", a),
       "sin": lambda a: fn("sin", a), "cos": lambda a: fn("cos", a), "tan": lambda a: fn("tan", a), "tanh": lambda a: fn("tanh", a),
       "log": lambda a: fn("log", a), "sqrt": lambda a: a.power(HALF), "Abs": lambda a: fn("abs", a), "abs": lambda a: fn("abs", a),
       "Max": lambda a, b: fn("max", a, b), "Min": lambda a, b: fn("min", a, b), "max": lambda a, b: fn("max", a, b),
       "min": lambda a, b: fn("min", a, b), "harmonic": lambda a: op("harmonic", a)}


class NoMeaning(Exception):
    pass


def prod(a):
    q = P(1)
    for x in a:
        q = q * x
    return q


def sympify(text, local=None, leaf=None):
    """the value sympy's parser gives to a text (names in `local` are symbols, other unknown calls stay unevaluated)"""
    try:
        tree = ast.parse(text, mode="eval").body
    except SyntaxError as e:
        raise NoMeaning("%r is not an expression" % text)

    def go(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return Poly.c(n.value)
        if isinstance(n, ast.Name):
            if local is not None and n.id not in local and n.id in KNOWN:
                raise NoMeaning("the name %s is read as SymPy's %s" % (n.id, n.id))
            return V(n.id)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -go(n.operand)
        if isinstance(n, ast.BinOp):
            a, b = go(n.left), go(n.right)
            o = type(n.op).__name__
            if o in ("Add", "Sub", "Mult", "Div", "Pow"):
                return {"Add": a.__add__, "Sub": a.__sub__, "Mult": a.__mul__, "Div": a.__truediv__, "Pow": a.power}[o](b)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not n.keywords:
            k = n.func.id
            if k == "Derivative":
                ax = ""
                for i, x in enumerate(n.args[1:]):
                    if isinstance(x, ast.Tuple) and len(x.elts) == 2 and isinstance(x.elts[1], ast.Constant):
                        ax += [x.elts[0].id] * x.elts[1].value
                    elif isinstance(x, ast.Constant) and ax:
                        ax += ax[-2:] * (x.value - 1)
                    elif isinstance(x, ast.Name):
                        ax += x.id[:1] if len(x.id) == 1 else x.id
                    else:
                        raise NoMeaning("derivative along %s" % ast.unparse(x))
                return D(go(n.args[0]), axis_string(ax))
            a = [go(x) for x in n.args]
            if k in SYM:
                try:
                    return SYM[k](*a)
                except TypeError:
                    raise NoMeaning("%s with %d argument(s)" % (k, len(a)))
            if k in KNOWN and (local is None or k not in local):
                raise NoMeaning("%s is SymPy's own %s" % (k, k))
            return op(base(k), *a)
        raise NoMeaning("%s in %r" % (ast.unparse(n), text))
    return go(tree)


def axis_string(s):
    return "".join("xyz"[int(c) - 1] for c in s.replace("x", "")) if "x1" in s or "x2" in s or "x3" in s else s


def operands(name, ar):
    return ["u1", "x1"] if base(name) in ORDER else (["u1", "u2"] + ["u1"] * ar)[:ar]


def wanted(name, leaves):
    ops = [V(x) for x in leaves]
    return meaning(name, ops, "x")


def texts():
    ev = Ev(PROJECT())
    names = sorted({ev.getattr(t, "name") for t in table(ev).values()})
    return [text(n, ev.getattr([t for t in table(ev).values() if ev.getattr(t, "name") == n][0], "arity")) for n in names]


def text(name, ar):
    """the operator in the text form of an equation, in the SymPy form of a program, and in LaTeX"""
    tname = "text of operator %s" % name

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        leaves = operands(name, ar)
        want = wanted(name, leaves)

        def nd():
            c = ev.get(STR, "Node")
            n = ev.call(c, [name])
            ev.getattr(n, "children").extend(ev.call(c, [x]) for x in leaves)
            return n

        def judge(kind, s, local):
            if not isinstance(s, str):
                R.undecided(tname, "%s gives %r" % (kind, s))
                return
            sub.count("operator_texts")
            try:
                p = sympify(s, local)
            except (NoMeaning, NotPoly) as e:
                sub.find("operator-text", "%s|%s" % (name, kind), "%s writes %s(%s) as %s: %s" % (
                    kind, name, ",".join(leaves), s, e), kind)
                return
            if not same(p, want) and not (kind == "convert_to_sympy" and p == op(base(name), *[V(x) for x in leaves])):
                sub.find("operator-text", "%s|%s" % (name, kind), "%s writes %s(%s) as %s" % (kind, name, ",".join(leaves), s), kind)
        for k, v, _ in R.paths(tname, lambda: ev.call(ev.getattr(nd(), "to_sympy_string"), [])):
            if k == "raise":
                sub.find("operator-text", "%s|raise" % name, "%s has no text: %s" % (name, v.name), where(v))
            else:
                judge("to_sympy_string", v, None)
        conv = ev.module(PRO).get("convert_to_sympy") if PRO in ev.proj.index else None
        if conv is not None and name != "harmonic":
            for k, v, _ in R.paths(tname + " in a program", lambda: infix(ev, ev.call(conv, [nd()]))):
                if k == "ok" and isinstance(v, str):
                    cap = {"add": "Add", "mul": "Mul", "pow": "Pow"}
                    for a, b in cap.items():          # build_tree gives SymPy's names to these before
                        v = v.replace(a + "(", b + "(") if v.startswith(a + "(") else v
                    judge("convert_to_sympy", v, None)
    return (tname, f)


def infix(ev, n):
    """a program tree in function notation"""
    if isinstance(n, (str, Poly)):
        return n if isinstance(n, str) else str(n.const())
    k = list(ev.getattr(n, "children"))
    v = ev.getattr(n, "val")
    v = gridlib.text(ev, v)
    return "%s(%s)" % (v, ",".join(infix(ev, c) for c in k)) if k else v


LEAVES = ["u1", "u2", "x1", "x2", "p1", "gamma", "beta", "E", "I", "S", "visc", "nu", "zeta", "pi", "conductivity", "Q", "N"]


def latex_leaf(name, notation):
    """a leaf of an equation term is one symbol when the LaTeX renderer reads the text back"""
    tname = "LaTeX of the leaf %s, %s" % (name, notation)

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        seen = []

        def parse(ev, a, k, n):
            seen.append((a, k))
            return Unk("parsed")
        ev.handlers["sympy.parsing.sympy_parser.parse_expr"] = parse
        ev.handlers["sympy.parse_expr"] = parse
        ev.handlers["sympy.sympify"] = parse

        def th():
            c = ev.get(STR, "Node")
            n = ev.call(c, ["mul"])
            ev.getattr(n, "children").extend([ev.call(c, [name]), ev.call(c, ["u1"])])
            return ev.call(ev.get(TEX, "_discover_term_node_to_latex"), [n], {"notation": notation})
        try:
            ev.explore(th)
        except (Unmodelled, NotPoly, RecursionError) as e:
            if not seen:
                R.undecided(tname, e)
                return
        sub.count("routines_evaluated")
        if not seen:
            R.undecided(tname, "the term is not parsed")
            return
        a, k = seen[0]
        text = a[0]
        local = k.get("local_dict", a[1] if len(a) > 1 else None)
        tr = k.get("transformations", a[2] if len(a) > 2 else None)
        if not isinstance(text, str) or not isinstance(local, (dict, type(None))):
            R.undecided(tname, "parse_expr(%r)" % (text,))
            return
        sub.count("latex_leaves")
        if tr == "all" or (isinstance(tr, (tuple, list)) and any("split" in repr(x) or "implicit" in repr(x) for x in tr)):
            if name not in (local or {}):
                sub.find("latex-leaf", "split", "%s: the LaTeX renderer splits the name %s into letters" % (tname, name), tname)
                return
            sub.find("latex-leaf", "split-calls", "%s: the LaTeX renderer splits unknown function names into letters" % tname, tname)
            return
        if name.isidentifier() and name not in (local or {}) and name in KNOWN:
            sub.find("latex-leaf", "%s" % name, "%s: the parameter is read as SymPy's %s" % (tname, name), tname)
    return (tname, f)


class SymV(Inst):
    """a SymPy expression: the exact value of the text it was parsed from"""
    def __init__(self, p, local=None):
        k = "Add" if len(p.t) > 1 else "Symbol" if sympoly(p) else "Mul"
        Inst.__init__(self, Cls("Sympy" + k, "sympy", [Ext("sympy." + k), Ext("sympy.Basic"), Ext("sympy.Expr")], {}, None))
        self.p = p
        c = leading(p)
        self.attrs.update({"is_Add": k == "Add", "is_Mul": k == "Mul", "is_Number": p.const() is not None, "is_Symbol": k == "Symbol",
                           "is_number": p.const() is not None, "is_Pow": False, "is_negative": None, "args": tuple(SymV(Poly({m: x})) for m, x in p.t.items()) if k == "Add" else (),
                           "as_coeff_Mul": Native(lambda ev, a, k, n: (c, SymV(p / c))),
                           "could_extract_minus_sign": Native(lambda ev, a, k, n: c < 0),
                           "doit": Native(lambda ev, a, k, n: self), "xreplace": Native(lambda ev, a, k, n: self),
                           "free_symbols": [], "atoms": Native(lambda ev, a, k, n: [])})

    def __eq__(self, o):
        return isinstance(o, (int, Fraction)) and self.p.const() == o

    __hash__ = object.__hash__


def sympoly(p):
    return len(p.t) == 1 and len(next(iter(p.t))) == 1 and next(iter(p.t.values())) == 1


def leading(p):
    c = Fraction(1)
    if len(p.t) == 1:
        c = next(iter(p.t.values()))
    elif p.t and len({abs(x) for x in p.t.values()}) == 1:
        c = abs(next(iter(p.t.values())))
    return c


def latex_of(p):
    """how SymPy prints a polynomial"""
    out = ""
    for m, c in sorted(p.t.items(), key=lambda i: (i[1] < 0, len(i[0]), repr(i[0]))):
        f = " ".join(("u_{%s}" % show(a[2][1]) if a[0] == "f" else a[1]) + ("^{%s}" % e if e != 1 else "") for a, e in sorted(m, key=repr))
        c_ = abs(c)
        out += (" - " if out else "- ") if c < 0 else " + " if out else ""
        out += f if c_ == 1 and f else ("%s %s" % (c_, f)).strip()
    return out


def equation(notation, expand, coefs):
    """the LaTeX of a whole DISCOVER equation: every coefficient multiplies its whole term"""
    tname = "LaTeX of a DISCOVER equation, %s%s, coefficients %s" % (notation, ", expanded" if expand else "", coefs)

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        u, v, x = V("u"), V("v"), V("x")
        vals_ = [u * v, u + v, -u, u - x, P(1), u.power(2) * x + v + P(1)]
        parse = lambda ev, a, k, n: SymV(vals_[int(a[0][1:])])
        for h in ("sympy.parsing.sympy_parser.parse_expr", "sympy.parse_expr", "sympy.sympify"):
            ev.handlers[h] = parse
        for h in ("Integer", "Float", "Rational"):
            ev.handlers["sympy." + h] = lambda ev, a, k, n: a[0] if len(a) == 1 else Fraction(a[0], a[1])
        pr = lambda ev, a, k, n: latex_of(a[0].p) if isinstance(a[0], SymV) else Unk("latex")
        for h in ("sympy.latex", "sympy.printing.latex", "sympy.printing.latex.latex"):
            ev.handlers[h] = pr

        def th():
            for c in list(ev.module(TEX).values()):
                if isinstance(c, Cls) and any(isinstance(b, Ext) and b.name.endswith("Printer") for b in c.mro()[-1].bases + c.bases):
                    c.attrs["doprint"] = Native(lambda ev, a, k, n: pr(ev, a[-1:], k, n))
            terms = [stub({"val": "mul", "children": [], "to_sympy_string": Native(lambda ev, a, k, n, i=i: "T%d" % i)}) for i in order]
            prog = stub({"w": list(cs), "STRidge": stub({"terms": terms})})
            return ev.call(ev.get(TEX, "discover_program_to_latex"), [prog], dict(notation=notation, expand_derivatives=expand))
        for order in (range(6), (2, 0, 5, 1, 4, 3)):
            cs = [Fraction(c) for c in coefs]
            for kind, s, _ in R.paths(tname, th):
                if kind == "raise":
                    sub.find("equation-latex", "raise", "%s: %s %s" % (tname, s.name, s.msg or ""), where(s))
                    continue
                if not isinstance(s, str) or "<?>" in s:
                    R.undecided(tname, repr(s))
                    continue
                sub.count("equation_texts")
                want = sum((Poly.c(c) * vals_[i] for c, i in zip(cs, order)), P(0))
                lab = "%s|%s" % (notation, expand)
                try:
                    got = Tex(s.strip("$").partition("=")[2], "xyzt").whole()
                except (NoMeaning, NotPoly, ValueError) as e:
                    sub.find("equation-latex", lab, "%s: %s: %s" % (tname, s, e), tname)
                    continue
                if got != want:
                    sub.find("equation-latex", lab, "%s: terms %s are written %s" % (tname, [latex_of(vals_[i]) for i in order], s), tname)
    return (tname, f)


# ---------------------------------------------------------------------------- plots
def plot(name, ar):
    tname = "DISCOVER plots: operator %s" % name

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        b = base(name)
        if b not in MEAN and b not in ORDER and not b.startswith("lap"):
            return
        if b == "laplacian":
            return
        nd = GRID.get(b, 1)
        axes = SP[nd]
        leaves = ["u1", "x1"][:ar]
        def th():
            kw = {} if nd == 1 else {"spatial_coords_list": [coord(ev, a) for a in axes], "spatial_dxs": [H[a] for a in axes]}
            return ev.call(ev.get(VIZ, "_evaluate_term_recursively"),
                           [node(name, *[node(x) for x in leaves]), field(ev, "u", axes), coord(ev, "x")], kw)
        want = None
        if b in MEAN:
            i = Poly.atom(("i", "g0"))
            want = MEAN[b](*[Poly.atom(("s", "u", (i,))), Poly.atom(("x0", "x")) + i * H["x"]][:ar])
        vals(R, tname, th, "plot|" + name, want)
        sub.count("plot_operators")
    return (tname, f)


# ---------------------------------------------------------------------------- splitting into terms
def split(outer, inner, side, torch):
    names = tuple(n + "_t" if torch else n for n in (outer, inner))
    tname = "terms of %s with %s as operand %d" % (names[0], names[1], side + 1)

    def f(sub):
        R = Runner(sub)
        ev = R.ev

        def run(trav):
            if torch:
                u = Arr(ev, [N("r"), 3], lambda pos: Poly.atom(("j", "uvw"[int(pos[1].const())], ())), torch=True)
                return ev.call(ev.get(EXE, "python_execute_torch"), [trav, [u], [column(ev, "x")]])
            return ev.call(ev.get(EXE, "python_execute"),
                           [trav, [field(ev, n, ["r"]) for n in "uvw"], [coord(ev, "x", True)]])

        def th():
            ct = ev.get(FUN, "create_tokens")
            toks = ev.call(ct, [], dict(n_input_var=1, function_set=list(dict.fromkeys(names)), protected=False, task_type="pde", n_state_var=3))
            by = {ev.getattr(t, "name"): t for t in toks}
            u = iter(["u1", "u2", "u3"])
            ari = ev.getattr(by[names[1]], "arity")
            subtree = lambda: [by[names[1]]] + [by[next(u)] for _ in range(ari)]
            trav = [by[names[0]]]
            for j in range(ev.getattr(by[names[0]], "arity")):
                trav += subtree() if j == side else [by[next(u)]]
            whole = run(list(trav))
            st = ev.call(ev.get(STR, "STRidge"), [list(trav)])
            terms = ev.getattr(st, "terms_token")
            return whole, [run(list(t)) for t in terms], [repr_tok(ev, t) for t in terms]

        for kind, v, _ in R.paths(tname, th):
            if kind == "raise":
                sub.find("term-split", "%s|%s" % names, "%s: %s" % (tname, v.name), where(v))
                continue
            whole, terms, txt = v
            if not all(isinstance(x, Arr) for x in [whole] + terms):
                R.undecided(tname, repr(v))
                continue
            try:
                w, ts = element(ev, whole), [element(ev, x) for x in terms]
            except (Unmodelled, NotPoly) as e:
                R.undecided(tname, e)
                continue
            sub.count("term_splits")
            if len(ts) > 6 or not any(sum((c * x for c, x in zip(s, ts)), P(0)) == w for s in itertools.product((1, -1), repeat=len(ts))):
                sub.find("term-split", "%s|%s|%d" % (names + (side,)), "%s: the terms %s do not add up to the expression" % (tname, txt), tname)
            elif base(names[0]) in ("add", "sub") and len(ts) < 2:
                sub.find("term-split", "%s|%s|%d" % (names + (side,)), "%s: the expression is kept as one term" % tname, tname)
    return (tname, f)


def repr_tok(ev, t):
    return [ev.getattr(x, "name") for x in t]


# ---------------------------------------------------------------------------- the switch from numpy to torch
def switch(names):
    tname = "torch twins of %s" % ",".join(names)

    def f(sub):
        R = Runner(sub)
        ev = R.ev

        def th():
            att = ev.get(FUN, "add_torch_tokens")
            ct = ev.get(FUN, "create_tokens")
            toks = ev.call(ct, [], dict(n_input_var=3, function_set=list(names), protected=False, task_type="pde"))
            lib = ev.call(ev.get("kd.model.discover.library", "Library"), [toks])
            ev.call(ev.getattr(lib, "add_torch_tokens"), [ev.call(att, [list(names)], {"protected": False})])
            P_ = ev.get(PRO, "Program")
            P_.attrs["library"] = lib
            by = {ev.getattr(t, "name"): t for t in toks}
            out = {}
            for n in names:
                p = Inst(P_)
                p.attrs["traversal"] = [by[n]] + [by["u1"], by["x1"]][:ev.getattr(by[n], "arity")]
                p.attrs["set_stridge"] = Native(lambda *a: None)
                ev.call(ev.getattr(p, "switch_tokens"), [])
                out[n] = [ev.getattr(t, "name") for t in ev.getattr(p, "traversal")]
            return out
        for kind, v, _ in R.paths(tname, th):
            if kind == "raise":
                sub.find("torch-switch", tname, "%s: %s %s" % (tname, v.name, v.msg or ""), where(v))
                continue
            for n, t in v.items():
                sub.count("torch_switches")
                if t[0] != n + "_t" or any(not x[0] in "ux" for x in t[1:]):
                    sub.find("torch-switch", n, "switching %s to torch gives %s" % (n, t), tname)
    return (tname, f)


# ---------------------------------------------------------------------------- vocabularies offered
def offered(sub):
    """every operator named by a packaged configuration, a default or the runner is registered"""
    R = Runner(sub)
    ev = R.ev
    fm = ev.get(FUN, "function_map")
    have = set(fm) | {"const"}
    rows = []
    root = os.path.join(os.environ.get("KDSA_REPO", "/repo"), "kd/model/discover/config")
    for fn_ in sorted(os.listdir(root)):
        if fn_.endswith(".json"):
            src = re.sub(r"(?m)//.*$", "", open(os.path.join(root, fn_), encoding="utf-8").read())
            task = json.loads(re.sub(r",(\s*[}\]])", r"\1", src)).get("task", {})
            if task.get("function_set"):
                rows.append((fn_, list(task["function_set"])))
    if not rows:
        raise AnalysisBroken("C05: no packaged configuration names operators")
    try:
        K = ev.get("kd.model.kd_discover", "KD_Discover")
        for a in ("_DIFF_TOKENS_BY_DIM", "_DIFF_TOKENS_TORCH_BY_DIM"):
            t = K.attrs.get(a)
            if isinstance(t, dict):
                rows += [("KD_Discover.%s[%s]" % (a, d), list(l)) for d, l in t.items()]
    except (Unmodelled, PyRaise) as e:
        R.undecided("default operators of KD_Discover", e)
    for lab, names in rows:
        for n in names:
            sub.count("offered_names")
            if isinstance(n, str) and n not in have:
                sub.find("unknown-operator", "%s|%s" % (lab, n), "%s offers the operator %s, which is not registered" % (lab, n), lab)
        tw = [n for n in names if isinstance(n, str) and n.endswith("_t")]
        if tw and len(tw) != len([n for n in names if n != "const"]):
            sub.find("mixed-twins", lab, "%s mixes numpy and torch operators: %s" % (lab, names), lab)


def dims():
    """the derivative operators chosen for d spatial axes are those of d axes"""
    out = []
    for torch in (False, True):
        for nd in (1, 2, 3):
            def f(sub, nd=nd, torch=torch):
                R = Runner(sub)
                ev = R.ev
                base_ = ["add", "mul", "div", "diff", "diff2", "diff3", "diff4", "n2"]
                if torch:
                    base_ = [b + "_t" for b in base_]
                name = "default operators for %d spatial axes%s" % (nd, ", torch" if torch else "")

                def th():
                    K = ev.get("kd.model.kd_discover", "KD_Discover")
                    o = Inst(K)
                    o.attrs.update(config_task={"function_set": list(base_)}, _base_function_set=list(base_),
                                   data_class=stub({"get_data": Native(lambda *a: {"n_input_dim": nd})}))
                    ev.call(ev.getattr(o, "_auto_select_function_set"), [])
                    return ev.getattr(o, "config_task")["function_set"]
                if ev.get("kd.model.kd_discover", "KD_Discover") is None:
                    return
                for kind, v, _ in R.paths(name, th):
                    if kind != "ok":
                        continue
                    sub.count("default_sets")
                    for n in v:
                        d = GRID.get(base(n), 1 if base(n) in ORDER else None)
                        if d is not None and d != nd and not torch or (torch != n.endswith("_t")):
                            sub.find("default-operators", "%s|%s" % (name, n), "%s include %s" % (name, n), name)
                    if not any(base(n) in ORDER or base(n) in GRID for n in v):
                        sub.find("default-operators", name, "%s include no derivative" % name, name)
                    for n in base_:
                        if base(n) not in ORDER and n not in v:
                            sub.find("default-operators", "%s|lost %s" % (name, n), "%s lost %s" % (name, n), name)
            out.append(("default operators %d %s" % (nd, torch), f))
    return out


# ---------------------------------------------------------------------------- regression names
def regression(names):
    tname = "named expression with %s" % ",".join(names)

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        n = len(names)
        toks = ["add"] + [x for i in range(1, n + 1) for x in (["mul"] if i < n else []) + ["x%d" % i]]
        expr = ",".join(toks)
        want = ",".join(names[int(t[1:]) - 1] if t[0] == "x" else t for t in toks)
        g = ev.get("kd.model.kd_discover_regression", "KD_Discover_Regression")
        for kind, v, _ in R.paths(tname, lambda: ev.call(ev.getattr(g, "_render_named_expression"), [expr, list(names)])):
            if kind != "ok" or not isinstance(v, str):
                R.undecided(tname, repr(v))
                continue
            sub.count("named_expressions")
            if v != want:
                sub.find("named-expression", tname, "%s is printed as %s" % (expr, v), tname)
    return (tname, f)


# ---------------------------------------------------------------------------- SGA
EQN = "kd.model.sga.sgapde.equation"
SGAM = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
        "^2": lambda a: a.power(2), "^3": lambda a: a.power(3)}


def sga_tables(axes, lhs):
    tname = "SGA operator tables of (%s)" % ",".join(axes)

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        ev.assume.append(lambda c: {"Eq": False, "NotEq": True}.get(c.op))      # samples are not exactly zero
        for kind, c, _ in R.paths(tname, lambda: sga_fit(ev, axes, False, ("u", "v"), "u", lhs, {})):
            if kind != "ok":
                continue
            tabs = {}
            for t in ("ROOT", "OPS", "OP1", "OP2", "ALL"):
                try:
                    a = ev.getattr(c, t)
                except PyRaise:
                    continue
                tabs[t] = rows(ev, a)
            if not all(tabs.get(t) for t in ("ROOT", "OPS", "OP1", "OP2")):
                R.undecided(tname, "tables %s" % {k: bool(v) for k, v in tabs.items()})
                continue
            meant = {}
            for t, rs in tabs.items():
                for name, ar, fun in rs:
                    if ar == 0:
                        continue
                    sub.count("sga_entries")
                    key = "%s|%s" % (t, name)
                    if t in ("OP1", "OP2") and ar != int(t[2]):
                        sub.find("sga-arity", key, "%s lists %s with %s operands" % (t, name, ar), tname)
                        continue
                    try:
                        if name in ("d", "d^2") and meant.setdefault("fun " + name, fun) is fun:
                            continue
                        if name in ("d", "d^2"):
                            if ar != 2:
                                sub.find("sga-arity", key, "%s announces %s with %s operands" % (t, name, ar), tname)
                                continue
                            got = None
                            u = field(ev, "u", axes)
                            v = ev.call(fun, [u, H[axes[0]], 0])
                            got = element(ev, v)
                        else:
                            a = [field(ev, n, ["r"]) for n in ("u", "v")][:ar]
                            got = element(ev, ev.call(fun, a))
                    except PyRaise as e:
                        sub.find("sga-arity", key, "%s: %s cannot take %s operands (%s)" % (t, name, ar, e.name), tname)
                        continue
                    except (Unmodelled, NotPoly) as e:
                        R.undecided(tname, e)
                        continue
                    if name in SGAM:
                        need = SGAM[name].__code__.co_argcount
                        if need != ar:
                            sub.find("sga-arity", key, "%s announces %s with %s operands" % (t, name, ar), tname)
                        elif got != SGAM[name](*[sample(ev, n, False) for n in ("u", "v")][:ar]):
                            sub.find("sga-value", key, "%s: %s computes %s" % (t, name, show(got)), tname)
                    elif meant.setdefault(name, (got, t))[0] != got:
                        sub.find("sga-value", key, "%s: %s computes something else than in %s" % (t, name, meant[name][1]), tname)
            new = sorted({(n, a) for t in tabs for n, a, _ in tabs[t] if a} - set(SGA_OPS))
            if new:
                R.undecided(tname, "operators %s have no meaning here" % new)
    return (tname, f)


def rows(ev, a):
    """the entries of an object table"""
    if isinstance(a, Arr):
        return None
    try:
        out = []
        for r in (a.items if hasattr(a, "items") and not isinstance(a, dict) and not callable(a.items) else a):
            r = list(r)
            out.append((r[0], int(Poly.c(r[1]).const()), r[2]))
        return out
    except (TypeError, IndexError, NotPoly, AttributeError):
        return None


class Tex:
    """reads the LaTeX of an SGA equation back"""
    def __init__(self, s, axes):
        self.s, self.i, self.axes = s, 0, axes

    def fail(self, why):
        raise NoMeaning("%s at %d of %r" % (why, self.i, self.s))

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " ~" or self.s.startswith("\\,", self.i):
            self.i += 2 if self.s.startswith("\\,", self.i) else 1

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def group(self):
        if not self.eat("{"):
            self.fail("no group")
        d, j = 1, self.i
        while d and self.i < len(self.s):
            d += {"{": 1, "}": -1}.get(self.s[self.i], 0)
            self.i += 1
        return self.s[j:self.i - 1]

    def whole(self):
        v = self.sum()
        self.ws()
        if self.i != len(self.s):
            self.fail("left over")
        return v

    def sum(self):
        neg = self.eat("-")
        v = self.product()
        v = -v if neg else v
        while True:
            if self.eat("+"):
                v = v + self.product()
            elif self.eat("-"):
                v = v - self.product()
            else:
                return v

    def product(self):
        v = self.factor()
        while True:
            if self.eat("\\cdot"):
                v = v * self.factor()
                continue
            self.ws()
            if self.i < len(self.s) and self.s[self.i] not in "+-)}&=" and not self.s.startswith("\\right", self.i):
                v = v * self.factor()
                continue
            return v

    def factor(self):
        v = self.atom()
        sub, sup = "", None
        while True:
            if self.i < len(self.s) and self.s[self.i] == "_":
                if sub:
                    self.fail("double subscript")
                self.i += 1
                sub = self.group() if self.s[self.i:self.i + 1] == "{" else self.char()
            elif self.i < len(self.s) and self.s[self.i] == "^":
                if sup is not None:
                    self.fail("double superscript")
                self.i += 1
                sup = int(self.group() if self.s[self.i:self.i + 1] == "{" else self.char())
            else:
                break
        if sub:
            if any(c not in self.axes for c in sub):
                self.fail("subscript %s" % sub)
            v = D(v, sub)
        return v.power(sup) if sup is not None else v

    def char(self):
        self.i += 1
        return self.s[self.i - 1]

    def atom(self):
        self.ws()
        if self.eat("\\frac"):
            a, b = self.group(), self.group()
            if a.startswith("\\partial"):
                return self.partial(a, b)
            return Tex(a, self.axes).whole() / Tex(b, self.axes).whole()
        if self.eat("(") or self.eat("\\left("):
            v = self.sum()
            if not self.eat(")") and not self.eat("\\right)"):
                self.fail("no )")
            return v
        j = self.i
        if self.s[j:j + 1] == "\\":
            self.i += 1
        while self.i < len(self.s) and self.s[self.i].isalnum():
            if self.s[j].isdigit() and not self.s[self.i].isdigit():
                break
            self.i += 1
        while self.s[j:j + 1].isdigit() and self.i < len(self.s) and (self.s[self.i].isdigit() or self.s[self.i] == "."):
            self.i += 1
        w = self.s[j:self.i]
        if not w or w == "\\":
            self.fail("no symbol")
        return Poly.c(Fraction(w)) if w[0].isdigit() else V(w.lstrip("\\"))

    def partial(self, a, b):
        m = re.fullmatch(r"\\partial(?:\^\{(\d)\})?\s+(.*)", a)
        n = re.fullmatch(r"\\partial\s+(\w)(?:\^\{(\d)\})?", b)
        if not m or not n or (m.group(1) or "1") != (n.group(2) or "1"):
            self.fail("derivative %s over %s" % (a, b))
        t = Tex(m.group(2), self.axes)
        v = t.factor()
        t.ws()
        if t.i != len(t.s):
            self.fail("the derivative sign stands before a product")
        return D(v, n.group(1) * int(m.group(1) or 1))


SGA_OPS = [("+", 2), ("-", 2), ("*", 2), ("/", 2), ("d", 2), ("d^2", 2), ("^2", 1), ("^3", 1)]


def sga_latex(outer, notation):
    """the LaTeX of every tree outer(inner(…), …) reads back as the tree"""
    tname = "SGA LaTeX (%s): trees under %s" % (notation, outer[0])

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        ops = SGA_OPS
        def node_(o, a, b):
            return (o[0], [a] if o[1] == 1 else [a, "x" if o[0][0] == "d" else b])
        inners = ["u", "ux", "nu"]
        for o in ops:
            inners.append(node_(o, "u", "v"))
            if o[0] in ("d", "d^2"):
                inners.append((o[0], ["u", "y"]))
        deep = [node_(p, node_(q, "u", "v"), "ux") for p in ops for q in ops]
        for inner in inners + deep:
            for t in ([node_(outer, inner, "v")] + ([node_(outer, "v", inner)] if outer[1] == 2 and outer[0][0] != "d" else [])):
                name = "%s %s" % (tname, t)
                for kind, v, _ in R.paths(name, lambda: ev.call(ev.get(EQN, "_render_tree"), [levels_of(*t)], {"notation": notation})):
                    if kind != "ok" or not isinstance(v, str):
                        R.undecided(name, repr(v))
                        continue
                    sub.count("latex_trees")
                    lab = "%s|%s|%s" % (notation, outer[0], inner if isinstance(inner, str) else inner[0])
                    try:
                        want = sga_mean(t)
                    except (NotPoly, ZeroDivisionError):
                        continue
                    try:
                        got = Tex(v, "xyzt").whole()
                    except (NoMeaning, NotPoly, ZeroDivisionError) as e:
                        sub.find("sga-latex", lab, "the tree %s is written %s: %s" % (flat(t), v, e), tname)
                        continue
                    if got != want:
                        sub.find("sga-latex", lab, "the tree %s is written %s, which says something else" % (flat(t), v), tname)
    return (tname, f)


def flat(t):
    return t if isinstance(t, str) else "%s(%s)" % (t[0], ",".join(flat(x) for x in t[1]))


def levels_of(o, subs):
    """levels of an SGA tree given as nested (name, children) or leaf names"""
    levels, row = [], [(o, subs)]
    while row:
        nxt, lv = [], []
        for t in row:
            if isinstance(t, str):
                lv.append(stub({"name": t, "child_num": 0, "child_st": None}))
            else:
                lv.append(stub({"name": t[0], "child_num": len(t[1]), "child_st": len(nxt)}))
                nxt += t[1]
        levels.append(lv)
        row = nxt
    return stub({"tree": levels})


def sga_mean(t):
    if isinstance(t, str):
        return D(V("u"), "x") if t == "ux" else V(t)
    k = [sga_mean(x) for x in t[1]]
    if t[0] in ("d", "d^2"):
        return D(k[0], (t[1][1]) * (2 if t[0] == "d^2" else 1))
    return SGAM[t[0]](*k)


def sga_equation(notation, coefs):
    """a whole SGA equation: every coefficient multiplies its whole term, zero terms are left out"""
    tname = "SGA equation, %s, coefficients %s" % (notation, coefs)

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        trees = [None, None, ("+", ["u", "v"]), ("*", [("-", ["u", "v"]), "ux"]), ("d", [("*", ["u", "v"]), "x"]), ("/", ["u", ("+", ["u", "v"])]), ("^2", ["u"])]
        cs = [Fraction(c) for c in coefs]

        def th():
            T, D_ = ev.get(EQN, "SGAEquationTerm"), ev.get(EQN, "SGAEquationDetails")
            ts = [ev.call(T, [], dict(label=["u", "ux"][i] if t is None else "generated", source="default" if t is None else "generated",
                                      coefficient=c, tree=None if t is None else levels_of(*t)))
                  for i, (t, c) in enumerate(zip(trees, cs))]
            d = ev.call(D_, [], dict(lhs="u_t", terms=tuple(ts)))
            return [ev.call(ev.get(EQN, "sga_equation_to_latex"), [d], dict(include_coefficients=w, notation=notation)) for w in (True, False)]
        for kind, v, _ in R.paths(tname, th):
            if kind == "raise":
                sub.find("sga-equation", "raise", "%s: %s %s" % (tname, v.name, v.msg or ""), where(v))
                continue
            for with_c, s in zip((True, False), v):
                if not isinstance(s, str) or "<?>" in s:
                    R.undecided(tname, repr(s))
                    continue
                sub.count("equation_texts")
                want = sum((Poly.c(c if with_c else (c > 0) - (c < 0)) * (V("u") if i == 0 else D(V("u"), "x") if i == 1 else sga_mean(t))
                            for i, (c, t) in enumerate(zip(cs, trees))), P(0))
                try:
                    got = Tex(s.partition("=")[2], "xyzt").whole()
                except (NoMeaning, NotPoly, ValueError) as e:
                    sub.find("sga-equation", notation, "%s: %s: %s" % (tname, s, e), tname)
                    continue
                if got != want:
                    sub.find("sga-equation", notation, "%s: written %s" % (tname, s), tname)
    return (tname, f)


def sga_labels(axes, lhs, target):
    tname = "SGA equation of %s with left side %s on (%s)" % (target, lhs, ",".join(axes))

    def f(sub):
        R = Runner(sub)
        ev = R.ev

        def th():
            c = sga_fit(ev, axes, False, ("u", "v"), target, lhs, {})
            l = ev.call(ev.get(EQN, "_infer_lhs_label"), [ev.getattr(c, "config")])
            return ev.call(ev.get(EQN, "_format_lhs"), [l]), list(ev.getattr(c, "default_names"))
        for kind, v, _ in R.paths(tname, th):
            if kind != "ok":
                continue
            l, names = v
            if not isinstance(l, str) or names is None:
                R.undecided(tname, repr(v))
                continue
            sub.count("sga_labels")
            try:
                got = Tex(l, "xyzt").whole()
            except NoMeaning as e:
                got = e
            if got != D(V(target), lhs):
                sub.find("sga-label", "lhs|%s" % target + lhs, "%s: the left side is printed as %s" % (tname, l), tname)
            if names[:1] != [target]:
                sub.find("sga-label", "default|%s" % target, "%s: the fixed candidate %s is printed as %s" % (tname, target, names), tname)
    return (tname, f)


# ---------------------------------------------------------------------------- DLGA
def dlga(ops):
    tname = "DLGA equation with operators %s" % ",".join(ops)

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        known = ["u", "u_x", "u_xx", "u_xxx", "u_t", "u_tt"]

        def cf():
            return Arr(ev, [len(ops) + 1, 1], lambda pos: Poly.c(int(pos[0].const()) + 2))

        def th():
            m = ev.call(ev.get("kd.model.kd_dlga", "KD_DLGA"), [], dict(operators=list(ops), epi=0.1, input_dim=2))
            chrom = [[k] for k in range(len(ops))] + [[0, 0] + ([1] if len(ops) > 1 else [])]
            a = ev.call(ev.getattr(m, "convert_chrom_to_eq"), [chrom, "u_t", cf()])
            mod = ev.module("kd.model.kd_dlga")
            b = ev.call(ev.get("kd.viz.dlga_eq2latex", "dlga_eq2latex"), [],
                        dict(chromosome=chrom, coefficients=cf(), lhs_name_str="u_tt", operator_names=list(ops)))
            return a, b
        mono = lambda p: sum((Poly.c(2 + k) * name(o) for k, o in enumerate(ops)), P(0)) + \
            Poly.c(len(ops) + 2) * name(ops[0]).power(2) * (name(ops[1]) if len(ops) > 1 else 1)
        name = lambda o: D(V("u"), o[2:]) if o[2:] else V("u")
        for kind, v, _ in R.paths(tname, th):
            if kind != "ok":
                continue
            for kind_, s in zip(("convert_chrom_to_eq", "dlga_eq2latex"), v):
                if not isinstance(s, str):
                    R.undecided(tname, "%s: %r" % (kind_, s))
                    continue
                sub.count("dlga_texts")
                l, _, r = s.strip("$").partition("=")
                try:
                    got = Tex(texify(r), "xt").whole()
                    left = Tex(texify(l), "xt").whole()
                except (NoMeaning, NotPoly, ValueError) as e:
                    sub.find("dlga-text", kind_, "%s writes %s: %s" % (kind_, s, e), tname)
                    continue
                if got != mono(0):
                    sub.find("dlga-text", kind_, "%s with operators %s writes %s" % (kind_, ops, s), tname)
                if left != D(V("u"), "t" if kind_[0] == "c" else "tt"):
                    sub.find("dlga-text", kind_ + "|lhs", "%s writes the left side as %s" % (kind_, l), tname)
    return (tname, f)


def texify(s):
    return re.sub(r"_([xt]+)", r"_{\1}", s).replace("*", "\\cdot ")


def dlga_unknown(sub):
    """an operator KD_DLGA does not know may not shift the others"""
    R = Runner(sub)
    ev = R.ev
    ops = ["u", "u_xxxx", "u_xx"]

    def th():
        m = ev.call(ev.get("kd.model.kd_dlga", "KD_DLGA"), [], dict(operators=list(ops), epi=0.1, input_dim=2))
        net = network()
        m.attrs["Net"] = stub({"__call__": net, "load_state_dict": Native(lambda *a: None), "eval": Native(lambda *a: None)})
        m.attrs["Net"].cls.attrs["__call__"] = net
        m.attrs["best_epoch"] = 1
        return ev.call(ev.getattr(m, "generate_meta_data"), [points(ev, ["x", "t"])])
    name = "KD_DLGA with an unknown operator"
    for kind, v, _ in R.paths(name, th, must=False):
        if kind == "ok" and isinstance(v, Arr):
            n = v.dims[1].const() if v.ndim == 2 else None
            sub.find("dlga-unknown", "library", "%s: the library of %s has %s columns" % (name, ops, n), name)
    sub.count("rejections")


# ----------------------------------------------------------------------------
SELF = """
import numpy as np


def div(a, b):
    return np.where(np.abs(b) > 0.001, np.divide(a, b), 1.)


def swapped(a, b):
    return np.where(np.abs(b) > 0.001, np.divide(b, a), 1.)


def root(a):
    return np.sqrt(np.abs(a))
"""


def selftest():
    from ..selftest import Overlay
    from ..report import Ctx
    proj = Overlay(PROJECT(), "kd._kdsa_op", SELF)
    ev = Ev(proj)
    a, b = field(ev, "u", ["r"]), field(ev, "v", ["r"])
    u, v = sample(ev, "u", False), sample(ev, "v", False)
    for q, args, want, ok in (("div", [a, b], MEAN["div"](u, v), True), ("swapped", [a, b], MEAN["div"](u, v), False),
                              ("root", [a], MEAN["sqrt"](u), True), ("root", [a], MEAN["abs"](u), False)):
        got = element(ev, ev.call(ev.get("kd._kdsa_op", q), args))
        if same(got, want) != ok:
            raise AnalysisBroken("C05 self-test: %s gives %s" % (q, show(got)))
    for s, want, ok in (("u \\cdot u_{x}", V("u") * D(V("u"), "x"), True), ("u^{2}_{x}", D(V("u").power(2), "x"), False),
                        ("(u^{2})_{x}", D(V("u").power(2), "x"), True), ("\\frac{\\partial u}{\\partial x}", D(V("u"), "x"), True)):
        if (Tex(s, "xt").whole() == want) != ok:
            raise AnalysisBroken("C05 self-test: %s" % s)
    if sympify("Add(u1, Mul(u2, -1))") != V("u1") - V("u2") or sympify("Derivative(u1, x1, x1)") != D(V("u1"), "xx"):
        raise AnalysisBroken("C05 self-test: text")


def run(ctx):
    ctx.rule("abstract interpretation of every routine that gives an operator a meaning yields an exact algebraic value of the operands; "
             "for operands of ordinary size it must equal what the operator's name says")
    ctx.rule("texts and LaTeX the renderers produce for every operator, and for every operator inside every other, are read back by the "
             "rules of SymPy's parser resp. of mathematical notation and must mean the operator tree they were made from")
    ctx.assumptions += ["guards against overflow and division by zero (|x| > 50 or |x| < 0.01) do not bite",
                        "|x| under a logarithm or square root is an accepted extension",
                        "operators of the quasi-geostrophic task (ddx, ddy, adv, …) need data that are not packaged: only their operand count is decided"]
    selftest()
    ev = Ev(PROJECT())
    tab = table(ev)
    ar = {ev.getattr(t, "name"): ev.getattr(t, "arity") for t in tab.values()}
    tasks = operators() + texts()
    tasks += [plot(n, a) for n, a in sorted(ar.items())]
    for nt in ("subscript", "leibniz"):
        tasks += [latex_leaf(n, nt) for n in LEAVES]
        tasks += [equation(nt, e, c) for e in (False, True) for c in ((2, "1/4", -1, "-3/2", 1, "-1/8"), ("-1/2", -1, 1, 3, -2, 1))]
        tasks += [sga_equation(nt, c) for c in ((2, "1/4", -1, "-3/2", 1, "-1/8", 3), ("-1/2", 0, 1, 3, -2, 1, 0))]
        tasks += [sga_latex(o, nt) for o in SGA_OPS]
    numeric = [n for n in ar if n in MEAN]
    torch = [n for n in ar if n.endswith("_t") and base(n) in MEAN]
    for n in numeric:
        tasks += [split(o, n, s, False) for o in ("add", "sub") for s in (0, 1)]
        tasks += [split(n, "add", s, False) for s in range(ar[n])]
    for n in torch:
        tasks += [split(o, base(n), s, True) for o in ("add", "sub") for s in (0, 1)]
        tasks += [split(base(n), "sub", s, True) for s in range(ar[n])]
    twins = [n for n in ar if n + "_t" in ar]
    tasks += [switch([n, "add"]) for n in twins if n != "add"] + [switch(twins)]
    tasks += [("offered operators", offered)] + dims()
    tasks += [regression(v) for v in (["a", "b"], ["x2", "x1"], ["x", "x1", "x10"], ["temp%d" % i for i in range(12)],
                                      ["x%d" % (12 - i) for i in range(12)], ["mul", "add"])]
    tasks += [sga_tables(a, l) for a, l in ((["x", "t"], "t"), (["t", "x", "y"], "t"), (["x", "y"], "y"))]
    tasks += [sga_labels(a, l, t) for a, l, t in ((["x", "t"], "t", "u"), (["x", "y"], "y", "u"), (["t", "y", "x"], "t", "v"), (["x", "t"], "x", "v"))]
    known = ["u", "u_x", "u_xx", "u_xxx", "u_t", "u_tt"]
    tasks += [dlga(o) for o in (known, known[::-1], ["u_xx", "u"], ["u_t", "u_xxx", "u_x"], ["u_x"])]
    tasks += [("KD_DLGA with an unknown operator", dlga_unknown)]
    run_scenarios(ctx, tasks)
    for k, n in (("operators", 55), ("operator_values", 45), ("operator_texts", 90), ("plot_operators", 35), ("latex_leaves", 30),
                 ("latex_trees", 900), ("equation_texts", 24), ("term_splits", 120), ("torch_switches", 20), ("offered_names", 30), ("default_sets", 6),
                 ("named_expressions", 6), ("sga_entries", 60), ("sga_labels", 4), ("dlga_texts", 10), ("rejections", 1)):
        ctx.floor(k, n)
    for n, _ in tasks[::17]:
        ctx.sample(n)
