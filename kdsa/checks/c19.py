"""C19: every data set the package lists is loadable by its name, with consistent metadata.

The loaders are interpreted abstractly, once per listed name, with the shapes found in the headers of the shipped
data files; nothing of kd is executed."""
import ast, os
from pathlib import PurePosixPath
from ..worlds import *
from ..values import *
from .. import datafiles as DF
from ..report import AnalysisBroken
from ..selftest import Overlay

SPACE, TIME = {"x"}, {"t", "tt"}


class Files(Analysis):
    """reads of data files are answered from the header of the file; failures are recorded, not guessed"""
    implicit_raise = False

    def __init__(self, repo):
        self.repo = repo
        self.problems = []      # (rule, what, message, where)
        self.opened_files = []
        self.rawvals = {}
        self.n = 0

    def dirof(self, mod):
        return PurePosixPath(self.repo) / str(mod).replace(".", "/")

    def ext_call(self, eng, name, args, kwargs, st, node):
        if name in ("importlib.resources.files", "pkg_resources.resource_filename"):
            c = consts(args[0]) if args else None
            if c and len(c) == 1:
                m = c[0]
                d = self.dirof(m)
                if not os.path.isdir(str(d)):
                    self.problem("data-package-missing", str(m), "data package %s does not exist" % m, eng, node)
                    raise PathDead()
                if name.startswith("pkg"):
                    k = consts(args[1]) if len(args) > 1 else None
                    return C(str(d / k[0])) if k and len(k) == 1 else None
                return C(d)
            if args and any(a.k == "mod" for a in args[0]):
                (a,) = args[0]
                return C(self.dirof(a.p))
            return None
        if name in ("importlib.resources.as_file",):
            return args[0]
        if name == "numpy.load" or name.endswith(".loadmat") or name in ("numpy.loadtxt", "numpy.genfromtxt", "pandas.read_csv"):
            c = consts(args[0]) if args else (consts(kwargs["file_name"]) if "file_name" in kwargs else None)
            if not c:
                return None
            out = EMPTY
            for p in c:
                r = self.read(str(p), name, eng, st, node)
                if r is not None:
                    out = out | r
            if not out:
                if eng.handlers:
                    eng.do_raise(EXT("builtins.FileNotFoundError"), node, st)
                raise PathDead()
            return out
        if name in ("os.path.exists", "os.path.isfile") and args and consts(args[0]):
            out = EMPTY
            for p in consts(args[0]):
                out = out | C(os.path.exists(str(p)) if str(p).startswith("/") else False)
            return out
        return None

    def problem(self, rule, what, msg, eng, node):
        self.problems.append((rule, what, msg, eng.where(node)))

    def read(self, p, reader, eng, st, node):
        if not p.startswith("/"):
            self.problem("file-relative-path", p, "opens %r, which depends on the working directory" % p, eng, node)
            return None
        rel = os.path.relpath(p, self.repo)
        if not os.path.exists(p):
            cand = p + ".mat"
            if reader.endswith("loadmat") and os.path.exists(cand):
                p = cand
            else:
                self.problem("data-file-missing", rel, "opens %s, which is not shipped" % rel, eng, node)
                return None
        self.opened_files.append(rel)
        try:
            d = DF.read(p)
        except (ValueError, KeyError, IndexError) as ex:
            self.problem("data-file-unreadable", rel, "opens %s: %s" % (rel, ex), eng, node)
            return None
        stem = os.path.splitext(os.path.basename(p))[0]
        if reader == "numpy.load":
            if not p.endswith(".npy"):
                self.problem("data-file-format", rel, "reads %s with numpy.load" % rel, eng, node)
                return None
            if len(d["shape"]) == 1:
                self.rawvals["%s.%s" % (stem, stem.rpartition("_")[2])] = DF.npy_vector(d)
            return ARR(tuple((k,) for k in d["shape"]), None, frozenset(["var:%s.%s" % (stem, stem.rpartition("_")[2])]))
        if reader.endswith("loadmat"):
            if not p.endswith(".mat"):
                self.problem("data-file-format", rel, "reads %s with loadmat" % rel, eng, node)
                return None
            self.n += 1
            oid = ("mat", p, getattr(node, "lineno", 0), self.n)
            o = HObj("dict", None, NOL)
            for k, v in d.items():
                self.rawvals["%s.%s" % (stem, k)] = v["values"]
                o.attrs[k] = ARR(tuple((x,) for x in v["shape"]), None, frozenset(["var:%s.%s" % (stem, k)]))
            for k in ("__header__", "__version__", "__globals__"):
                o.attrs[k] = TOP()
            st.new(oid, o)
            return mk("obj", oid)
        return None

    def missing_attr(self, eng, what, name, node, st):
        self.problem("attribute-missing", "%s.%s" % (what, name), "%s has no %s" % (what, name), eng, node)

    def shape_mismatch(self, eng, what, node, st, *a):
        pass


def reshape_rule(an):
    """a two-dimensional field is re-laid only by transposition"""
    def hook(eng, a, old, new, node, st, *rest):
        pass
    return hook


def vars_of(v):
    return sorted(l[4:] for l in dep(labels(v)) if l.startswith("var:"))


def dims(v):
    """exact dimensions of an array value, or None"""
    out = set()
    for a in v:
        if a.k != "arr" or a.p.axes is None:
            return None
        t = []
        for f in a.p.axes:
            n = 1
            for x in f:
                if not isinstance(x, int):
                    return None
                n *= x
            t.append(n)
        out.add(tuple(t))
    return out.pop() if len(out) == 1 else None


def run_call(ctx, an, w, f, args, kw, tag):
    n0 = len(an.problems)
    r = w.call(f, args, kw, tag)
    probs = an.problems[n0:]
    ctx.count("abstract_calls")
    return r, probs


def objs(w, v, cls="PDEDataset"):
    out = []
    for a in v or ():
        o = w.st.get(a.p) if a.k == "obj" else None
        if o is None or o.kind != "inst" or cls not in str(o.cls):
            return None
        out.append(o)
    return out


def report(ctx, name, probs):
    for rule, what, msg, where in probs:
        ctx.find(rule, "%s|%s" % (name, what), "%s: %s" % (name, msg), where)


def check_ds(ctx, an, w, label, r, probs, name=None):
    """label: the entry point; r: its abstract result"""
    report(ctx, label, probs)
    if r is None:
        if not probs:
            ctx.find("load-raises", label, "%s raises" % label)
        return None
    os_ = objs(w, r)
    if os_ is None or not os_:
        if not probs:
            ctx.find("load-returns-other", label, "%s may return %s instead of a data set" % (label, describe(r)))
        return None
    ctx.count("datasets_loaded")
    for o in os_:
        u, x, t = (o.attrs.get(k, EMPTY) for k in ("usol", "x", "t"))
        du, dx, dt = dims(u), dims(x), dims(t)
        if None in (du, dx, dt):
            ctx.count("shape_not_known")
            ctx.notes.append("%s: shapes not determined" % label)
        else:
            ctx.count("shapes_compared")
            ctx.sample({"entry": label, "usol": du, "x": dx, "t": dt, "files": sorted(set(an.opened_files))[-3:]})
            if len(dx) != 1 or len(dt) != 1 or du != (dx[0], dt[0]):
                ctx.find("shape-inconsistent", label, "%s: usol %s, x %s, t %s" % (label, du, dx, dt))
            elif min(du) < 8:
                ctx.find("shape-inconsistent", label, "%s: only %s points" % (label, du))
        for attr, v, bad in (("x", x, TIME), ("t", t, SPACE), ("usol", u, SPACE | TIME)):
            for n in vars_of(v):
                if n.rpartition(".")[2] in bad:
                    ctx.find("wrong-variable", "%s|%s" % (label, attr), "%s: %s is read from variable %s" % (label, attr, n))
        if not vars_of(u):
            ctx.find("wrong-variable", "%s|usol" % label, "%s: the field does not come from a data file" % label)
        ctx.count("variables_traced", 3)
        if name is not None:
            for attr in ("registry_name", "equation_name"):
                v = consts(o.attrs.get(attr, EMPTY))
                if v != [name]:
                    ctx.find("name-not-attached", "%s|%s" % (label, attr), "%s: %s is %s" % (label, attr, describe(o.attrs.get(attr, EMPTY))))
            v = consts(o.attrs.get("legacy_name", EMPTY))
            if not v or any(not isinstance(s, str) for s in v):
                ctx.find("name-not-attached", "%s|legacy_name" % label, "%s: legacy_name is %s" % (label, describe(o.attrs.get("legacy_name", EMPTY))))
            for a in o.attrs.get("aliases", NONE):
                h = w.st.get(a.p) if a.k == "obj" else None
                if h is None or h.kind != "dict":
                    ctx.find("name-not-attached", "%s|aliases" % label, "%s: aliases is %s" % (label, describe(o.attrs.get("aliases", EMPTY))))
    return os_


def pairs(w, v):
    """a domain value: None, or {axis: (lo, hi)}; 'bad' when not understood"""
    c = consts(v)
    if c == [None]:
        return None
    out = {}
    for a in v:
        o = w.st.get(a.p) if a.k == "obj" else None
        if o is None or o.kind != "dict":
            return "bad"
        for k, x in o.attrs.items():
            lo_hi = None
            for b in x:
                if b.k == "tup" and len(b.p) == 2:
                    lo_hi = tuple(const1(y) for y in b.p)
                elif b.k == "obj" and w.st.get(b.p) is not None and w.st.get(b.p).elems is not None:
                    lo_hi = tuple(const1(y) for y in w.st.get(b.p).elems)
            out[k] = lo_hi
    return out


def check_domain(ctx, an, w, label, dom, x, t):
    if dom is None:
        return
    if dom == "bad":
        ctx.notes.append("%s: domain not understood" % label)
        return
    for k, p in dom.items():
        ctx.count("domain_bounds")
        if k not in ("x", "t"):
            ctx.find("domain-axis", "%s|%s" % (label, k), "%s: domain names axis %r, the data have x and t" % (label, k))
            continue
        if p is None or len(p) != 2 or None in p:
            ctx.notes.append("%s: bounds of %s not constant" % (label, k))
            continue
        if not p[0] < p[1]:
            ctx.find("domain-order", "%s|%s" % (label, k), "%s: domain of %s is %s" % (label, k, p))
        for n in vars_of(x if k == "x" else t):
            vals = an.rawvals.get(n)
            if vals:
                lo, hi = min(vals), max(vals)
                eps = 0.02 * (hi - lo)
                ctx.count("domain_compared_with_file")
                if p[0] < lo - eps or p[1] > hi + eps:
                    ctx.find("domain-outside-data", "%s|%s" % (label, k), "%s: domain of %s is %s, the data cover [%g, %g]" % (label, k, p, lo, hi))


def vocabulary(ctx, w):
    """token -> arity of the DISCOVER function library"""
    ar = {}
    v = w.get("kd.model.discover.functions", "function_map")
    for a in v:
        o = w.st.get(a.p) if a.k == "obj" else None
        if o is None:
            continue
        for k, x in o.attrs.items():
            for b in x:
                t = w.st.get(b.p) if b.k == "obj" else None
                n = const1(t.attrs.get("arity", EMPTY)) if t is not None else None
                if isinstance(k, str):
                    ar[k] = n
    return ar


def prefix_error(toks, ar):
    need = 1
    for i, t in enumerate(toks):
        if need == 0:
            return "%d surplus tokens after position %d" % (len(toks) - i, i)
        if len(t) > 1 and t[0] in "ux" and t[1:].isdigit():
            need -= 1
        elif t in ar:
            if ar[t] is None:
                return None
            need += ar[t] - 1
        else:
            return "token %r is not in the library" % t
    return "%d operands missing" % need if need else None


class Reg:
    """the registry as the loaders see it"""
    def __init__(self, w):
        self.w = w
        v = w.get("kd.dataset", "PDE_REGISTRY")
        self.o = None
        for a in v:
            o = w.st.get(a.p) if a.k == "obj" else None
            if o is not None and o.kind == "dict":
                self.o = o

    def entry(self, name):
        for a in (self.o.attrs.get(name, EMPTY) if self.o else EMPTY):
            return w_obj(self.w, a)
        return None


def w_obj(w, a):
    return w.st.get(a.p) if a.k == "obj" else None


def names_of(ctx, w):
    r = w.call(w.get("kd.dataset", "list_available_datasets"), [], {}, "list")
    out = []
    for a in r or ():
        o = w.st.get(a.p) if a.k == "obj" else None
        if o is not None and o.elems is not None:
            for e in o.elems:
                c = const1(e)
                if not isinstance(c, str):
                    return None
                out.append(c)
        else:
            c = consts(w.eng.elem_of(frozenset([a]), w.st, w.nd("ln")))
            if not c:
                return None
            out += c
    return out


def mkworld(proj=None):
    from ..worlds import PROJECT
    p = proj or PROJECT()
    an = Files(p.repo)
    w = World(an, p)
    w.enter("kd.dataset")
    return an, w


def literal(w, v, d=0):
    """fold an abstract value into a Python literal; raises ValueError when it is not constant"""
    if len(v) != 1 or d > 6:
        raise ValueError
    (a,) = v
    if a.k == "const":
        return a.p[1]
    if a.k == "tup":
        return tuple(literal(w, x, d + 1) for x in a.p)
    o = w_obj(w, a)
    if o is not None and o.kind == "dict" and not o.summ:
        return {k: literal(w, x, d + 1) for k, x in o.attrs.items()}
    if o is not None and o.kind == "list" and o.elems is not None:
        return [literal(w, x, d + 1) for x in o.elems]
    raise ValueError


SELF = """
import numpy as np
from scipy.io import loadmat
from importlib import resources
from kd.dataset import PDEDataset
def relative():
    return np.load("u.npy")
def missing():
    return loadmat(resources.files("kd.dataset.data") / "no_such_file.mat")
def swapped():
    d = loadmat(resources.files("kd.dataset.data") / "fisher_groundtruth.mat")
    return PDEDataset("s", x=d["t"], t=d["x"], usol=d["U"])
"""


def self_test(ctx):
    from ..worlds import PROJECT
    from ..report import Ctx
    p = PROJECT()
    an, w = mkworld(Overlay(p, "kdsa_self", SELF))
    c = Ctx("C19")
    for n in ("relative", "missing", "swapped"):
        r, probs = run_call(c, an, w, w.get("kdsa_self", n), [], {}, n)
        check_ds(c, an, w, n, r, probs)
    rules = {f["rule"] for f in c.findings.values()}
    need = {"file-relative-path", "data-file-missing", "wrong-variable"}
    if not need <= rules:
        raise AnalysisBroken("self-test: rules %s did not fire" % sorted(need - rules))
    ctx.count("self_test_rules_fired", len(need))


RULES = [
    "every name in list_available_datasets() is loaded by abstract interpretation of load_pde with the shapes of the shipped files; the result is a data set and nothing else (load-raises, load-returns-other, data-file-missing, file-relative-path)",
    "the field has shape (len x, len t) and field, x and t come from the file variables of that role (shape-inconsistent, wrong-variable)",
    "name, legacy name and aliases are attached; caller options take effect; unknown names raise (name-not-attached, option-ignored, option-refused, unknown-name-accepted)",
    "the true equation is a complete prefix expression over the operator library; declared domain, shape, status and model flags agree with the data and with each other (sym-true, domain-*, metadata-shape, status-inconsistent, model-flags-differ)",
    "regression tables, deprecated loaders and RegularData names are loaded the same way",
]


def run(ctx, proj=None):
    for r in RULES:
        ctx.rule(r)
    self_test(ctx)
    an, w = mkworld(proj)
    names = names_of(ctx, w)
    if not names:
        raise AnalysisBroken("the list of data set names is not a list of constants")
    ctx.count("names", len(names))
    reg = Reg(w)
    if reg.o is None:
        raise AnalysisBroken("PDE_REGISTRY is not a dictionary")
    extra = set(k for k in reg.o.attrs if isinstance(k, str)) ^ set(names)
    for k in sorted(extra):
        ctx.find("listing-differs", k, "%r is in only one of PDE_REGISTRY and list_available_datasets()" % k)
    if len(set(names)) != len(names):
        ctx.find("listing-differs", "duplicates", "list_available_datasets() repeats a name")
    ar = vocabulary(ctx, w)
    if len(ar) < 10:
        raise AnalysisBroken("operator library not understood")
    flagsets = {}
    for name in names:
        ctx.guard("load:" + name, one_name, ctx, an, w, reg, name, ar, flagsets)
    maj = sorted(flagsets.values(), key=lambda s: -list(flagsets.values()).count(s))[0] if flagsets else None
    for n, s in flagsets.items():
        if s != maj:
            ctx.find("model-flags-differ", n, "%s declares support for %s, the other data sets for %s" % (n, sorted(s), sorted(maj)))
    # unknown names are refused
    for fn in ("load_pde", "load_regression", "get_dataset_sym_true"):
        r, _ = run_call(ctx, an, w, w.get("kd.dataset", fn), [C("no such data set")], {}, "unknown:" + fn)
        if r is not None:
            ctx.find("unknown-name-accepted", fn, "%s returns %s for an unknown name instead of raising" % (fn, describe(r)))
    ctx.guard("regression", regression, ctx, an, w)
    for fn in ("load_burgers_equation", "load_kdv_equation"):
        ctx.guard(fn, legacy, ctx, an, w, fn)
    ctx.guard("regular", regular, ctx, an, w)
    dup_keys(ctx, w.eng.proj)
    ctx.counts["functions"] = len(w.eng.funcs_seen)
    ctx.floor("names", 5)
    ctx.floor("true_equations", 4)
    ctx.counts["data_files_opened"] = len(set(an.opened_files))


def one_name(ctx, an, w, reg, name, ar, flagsets):
    label = "load_pde(%r)" % name
    load = w.get("kd.dataset", "load_pde")
    r, probs = run_call(ctx, an, w, load, [C(name)], {}, "load:" + name)
    os_ = check_ds(ctx, an, w, label, r, probs, name)
    e = reg.entry(name)
    if e is None:
        return
    # options given by the caller take effect
    if os_:
        dom = w.dict({"x": TUP((C(0.25), C(0.5))), "t": TUP((C(0.25), C(0.5)))}, None, "dom")
        r2, p2 = run_call(ctx, an, w, load, [C(name)], {"domain": dom, "epi": C(0.125)}, "opt:" + name)
        report(ctx, label, p2)
        if r2 is None:
            ctx.find("option-refused", label, "%s does not accept the options domain and epi" % label)
        for o in objs(w, r2) or ():
            ctx.count("options_traced", 2)
            if o.attrs.get("domain") != dom:
                ctx.find("option-ignored", "%s|domain" % label, "%s: the given domain is not used" % label)
            if consts(o.attrs.get("epi", EMPTY)) != [0.125]:
                ctx.find("option-ignored", "%s|epi" % label, "%s: the given epi is not used" % label)
        for o in os_:
            check_domain(ctx, an, w, label, pairs(w, o.attrs.get("domain", NONE)), o.attrs.get("x"), o.attrs.get("t"))
            try:
                sh = literal(w, e.attrs["shape"]) if "shape" in e.attrs else None
            except ValueError:
                sh = None
            if sh and dims(o.attrs.get("usol", EMPTY)) not in (None, tuple(sh)):
                ctx.find("metadata-shape", name, "%s: registered shape %s, loaded %s" % (name, sh, dims(o.attrs["usol"])))
    # metadata
    st_ = None
    try:
        st_ = literal(w, e.attrs.get("status", C("active")))
        models = literal(w, e.attrs.get("models", EMPTY))
        if not isinstance(models, dict) or any(not isinstance(v, bool) for v in models.values()):
            ctx.find("model-flags-differ", name, "%s: model support is not a table of booleans: %r" % (name, models))
        else:
            flagsets[name] = frozenset(models)
            ctx.count("model_flags", len(models))
            if st_ == "pending" and any(models.values()):
                ctx.find("status-inconsistent", name, "%s is pending but declares support for %s" % (name, [k for k, v in models.items() if v]))
            if st_ == "active" and not any(models.values()):
                ctx.find("status-inconsistent", name, "%s is active but no model supports it" % name)
    except ValueError:
        ctx.notes.append("%s: model flags not constant" % name)
    if st_ is not None and st_ not in ("active", "pending", "legacy"):
        ctx.find("status-inconsistent", name, "%s has the unknown status %r" % (name, st_))
    r, _ = run_call(ctx, an, w, w.get("kd.dataset", "get_dataset_sym_true"), [C(name)], {}, "sym:" + name)
    cs = consts(r) if r is not None else None
    if not cs:
        ctx.find("sym-true", name, "get_dataset_sym_true(%r) gives %s" % (name, r and describe(r)))
        return
    try:
        decl = literal(w, e.attrs.get("sym_true", NONE))
        if cs != [decl]:
            ctx.find("sym-true", name, "get_dataset_sym_true(%r) gives %r, the entry says %r" % (name, cs, decl))
    except ValueError:
        pass
    for s in cs:
        if s is None:
            continue
        ctx.count("true_equations")
        err = prefix_error(s.split(","), ar)
        if err:
            ctx.find("sym-true", name, "%s: true equation %r: %s" % (name, s, err))


def regression(ctx, an, w):
    names = ["tlc_cc_t1", "tlc_cc_t2"]
    ent = {}
    try:
        v = w.get("kd.dataset", "_REGRESSION_REGISTRY")
        for a in v:
            o = w_obj(w, a)
            if o is not None and o.kind == "dict":
                names = [k for k in o.attrs if isinstance(k, str)]
                for k in names:
                    try:
                        ent[k] = literal(w, o.attrs[k])
                    except ValueError:
                        pass
    except Exception:
        pass
    for n in names:
        label = "load_regression(%r)" % n
        r, probs = run_call(ctx, an, w, w.get("kd.dataset", "load_regression"), [C(n)], {}, label)
        report(ctx, label, probs)
        if r is None:
            if not probs:
                ctx.find("load-raises", label, "%s raises" % label)
            continue
        ctx.count("regressions")
        for a in r:
            if a.k != "tup" or len(a.p) != 3:
                ctx.find("load-returns-other", label, "%s returns %s instead of (X, y, meta)" % (label, describe(r)))
                continue
            X, y, meta = a.p
            dX, dy = dims(X), dims(y)
            md = None
            for b in meta:
                o = w_obj(w, b)
                md = o.attrs if o is not None and o.kind == "dict" else None
            if md is None or not {"var_names", "target_name"} <= set(md):
                ctx.find("regression-meta", label, "%s: meta lacks var_names or target_name" % label)
            try:
                vn = literal(w, md["var_names"]) if md and "var_names" in md else None
            except ValueError:
                vn = None
            if dX and dy and (len(dX) != 2 or len(dy) != 1 or dX[0] != dy[0]):
                ctx.find("shape-inconsistent", label, "%s: X %s, y %s" % (label, dX, dy))
            if dX and vn is not None and len(dX) == 2 and len(vn) != dX[1]:
                ctx.find("regression-meta", label, "%s: %d variable names for %d columns" % (label, len(vn), dX[1]))
            if vn is not None and len(set(vn)) != len(vn):
                ctx.find("regression-meta", label, "%s: repeated variable name" % label)
            for l in vars_of(X):
                pass
        e = ent.get(n)
        if isinstance(e, dict) and "x_cols" in e and "y_col" in e:
            f = os.path.join(an.repo, "kd", "dataset", "data", str(e.get("file")))
            ncol = DF.read(f)["shape"][-1] if os.path.exists(f) and f.endswith(".npy") else None
            cols = list(e["x_cols"]) + [e["y_col"]]
            if len(set(cols)) != len(cols):
                ctx.find("regression-columns", label, "%s: target column %s is among the inputs %s" % (label, e["y_col"], e["x_cols"]))
            if ncol and any(not -ncol <= c < ncol for c in cols):
                ctx.find("regression-columns", label, "%s: columns %s, the file has %d" % (label, cols, ncol))


def legacy(ctx, an, w, fn):
    label = "%s()" % fn
    r, probs = run_call(ctx, an, w, w.get("kd.dataset", fn), [], {}, fn)
    for o in check_ds(ctx, an, w, label, r, probs) or ():
        check_domain(ctx, an, w, label, pairs(w, o.attrs.get("domain", NONE)), o.attrs.get("x"), o.attrs.get("t"))


def regular(ctx, an, w):
    names = None
    v = w.get("kd.data", "data_list")
    try:
        names = literal(w, v)
    except ValueError:
        pass
    if not names:
        raise AnalysisBroken("kd.data.data_list is not a list of names")
    for n in names:
        label = "RegularData(%r)" % n
        r, p0 = run_call(ctx, an, w, w.get("kd.data", "RegularData"), [C(n)], {}, label)
        if r is None:
            ctx.find("load-raises", label, "%s raises" % label)
            continue
        n0 = len(an.problems)
        ok = w.method(r, "load_data", [], {}, label + ".load")
        report(ctx, label, an.problems[n0:])
        if ok is None:
            if not an.problems[n0:]:
                ctx.find("load-raises", label, "%s.load_data() raises" % label)
            continue
        d = w.method(r, "get_data", [], {}, label + ".get")
        ctx.count("regular_data")
        for a in d or ():
            o = w_obj(w, a)
            if o is None or o.kind != "dict":
                ctx.find("load-returns-other", label, "%s.get_data() gives %s" % (label, describe(d)))
                continue
            for k in ("u", "ut", "X", "sym_true"):
                if k not in o.attrs or NONE & o.attrs[k]:
                    ctx.find("regular-data-incomplete", "%s|%s" % (label, k), "%s.get_data() lacks %s" % (label, k))
            du, dut = dims(o.attrs.get("u", EMPTY)), dims(o.attrs.get("ut", EMPTY))
            X = None
            for b in o.attrs.get("X", EMPTY):
                h = w_obj(w, b)
                if h is not None and h.elems:
                    X = dims(h.elems[0])
            if du and X and X[0] != du[0]:
                ctx.find("shape-inconsistent", label, "%s: field %s, x %s" % (label, du, X))
            if du and dut and du != dut:
                ctx.find("shape-inconsistent", label, "%s: field %s, time derivative %s" % (label, du, dut))
            for k in ("u",):
                for nme in vars_of(o.attrs.get(k, EMPTY)):
                    if nme.rpartition(".")[2] in SPACE | TIME:
                        ctx.find("wrong-variable", "%s|%s" % (label, k), "%s: %s is read from variable %s" % (label, k, nme))


def dup_keys(ctx, proj):
    for m in proj.all():
        if not m.name.startswith("kd.dataset"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict):
                ks = [k.value for k in n.keys if isinstance(k, ast.Constant)]
                ctx.count("dict_literals")
                for k in set(x for x in ks if ks.count(x) > 1):
                    ctx.find("duplicate-key", "%s|%s" % (m.name, k), "%s: the key %r appears twice in one table, the first entry is lost" % (m.name, k), "%s:%d" % (m.rel, n.lineno))
