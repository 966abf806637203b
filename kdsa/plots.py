"""Abstract plotting sessions: figures opened and closed, files written, results returned.

State tokens (st.may): ("fig", n, site) a figure that may be open; st.must: ("wrote", path) a file
written on every path so far; st.may: ("wrote?", path)."""
import ast
from .values import *
from .worlds import *
from .interp import Analysis, PathDead
from . import scenarios as S

PYPLOT = "matplotlib.pyplot."
FIG = "matplotlib.pyplot.figure()"
# pyplot functions that neither open nor need a figure
PASSIVE = {"close", "rc", "rcdefaults", "rc_context", "cycler", "get_cmap", "show", "switch_backend", "ion", "ioff", "get_fignums", "fignum_exists",
           "isinteractive", "style", "rcParams", "rcParamsDefault", "colormaps", "Normalize", "Figure", "Axes", "cm", "get_backend", "setp", "getp",
           "get_figlabels", "np", "Line2D", "Text", "interactive", "pause", "draw_if_interactive", "set_loglevel", "cla", "clf"}
FIGNUM = frozenset(["fignum"])
OUT = "/kd-user-output"
CFG = "/kd-configured-output"
CWD = "/kd-cwd"


def figkey(t):
    return "fig:%d@%s" % (t[1], t[2])


class PlotAn(Analysis):
    loop_iters = 3

    def __init__(self):
        self.writes = []        # (path const or None, description, where)
        self.exit_states = []
        self.known = 0
        self.lost = []          # (token, site where a second figure overlapped)
        self.made = 0
        self.closed = 0
        self.unresolved = []
        self.fset = set()

    # ------------------------------------------------------------------ figures
    def open_fig(self, eng, st, node):
        n = 1 + max([t[1] for t in st.may if t[0] == "fig"], default=0)
        site = eng.where(node)
        self.made += 1
        for t in st.may:
            if t[0] == "fig" and t[2] == site and n > 6:
                n = t[1]        # opened again and again in a loop
        st.may = st.may | {("fig", n, site)}
        return mk("ext", FIG, frozenset([figkey(("fig", n, site))]))

    def current(self, eng, st, node):
        ts = [t for t in st.may if t[0] == "fig"]
        if not ts:
            return self.open_fig(eng, st, node)
        n = max(t[1] for t in ts)
        return mk("ext", FIG, frozenset(figkey(t) for t in ts if t[1] == n))

    def close(self, st, args):
        ts = [t for t in st.may if t[0] == "fig"]
        self.closed += 1
        if not ts:
            return
        if not args or args[0] == NONE:
            top = max(t[1] for t in ts)
            drop = [t for t in ts if t[1] == top]
        else:
            v = args[0]
            ls = {l for l in labels(v) if l.startswith("fig:")}
            cs = [a.p[1] for a in v if a.k == "const"]
            if "all" in cs:
                drop = ts
            elif ls:
                drop = [t for t in ts if figkey(t) in ls]
            elif any(isinstance(c, int) for c in cs):
                drop = [t for t in ts if t[1] in cs]
            else:
                top = max(t[1] for t in ts)
                drop = [t for t in ts if t[1] == top]
        st.may = st.may - frozenset(drop)

    def narrowed(self, eng, st, removed, kept):
        gone = {l for l in labels(removed) if l.startswith("fig:")} - {l for l in labels(kept) if l.startswith("fig:")}
        if gone:
            st.may = frozenset(t for t in st.may if not (t[0] == "fig" and figkey(t) in gone))
        # a file written before every value that is left was returned
        if kept:
            both = frozenset.intersection(*[a.l for a in kept])
            st.must = st.must | {("wrote", l[6:]) for l in both if l.startswith("wrote:")}

    def returned(self, eng, func, val, st, node):
        w = frozenset("wrote:" + t[1] for t in st.must if t[0] == "wrote")
        if w and val:
            return frozenset(Atom(a.k, a.p, a.l | w) for a in val)

    def deep_fault(self, eng, h, st):
        # a failure inside a callee reaches the handler of a caller with the callee's figures open
        figs = frozenset(t for t in st.may if t[0] == "fig")
        return bool(figs) and not any(figs <= e.may for v, e in h.states if v is None)

    def fault(self, eng, node, fault, st, h):
        # a statement that only releases figures, or only imports, is not what fails
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            h.states[:] = [x for x in h.states if x[1] is not fault]
            return
        before = {t for t in fault.may if t[0] == "fig"}
        after = {t for t in st.may if t[0] == "fig"}
        if after < before:
            fault.may = fault.may - (before - after)

    # ------------------------------------------------------------------ files
    def paths(self, v):
        out = []
        for a in v:
            if a.k == "const" and isinstance(a.p[1], str):
                out.append(a.p[1])
            elif a.k == "const" and a.p[0] == "PurePosixPath":
                out.append(str(a.p[1]))
            elif a.k == "const" and a.p[1] is None:
                continue
            else:
                out.append(None)
        return out

    def wrote(self, eng, v, what, st, node, directory=False):
        ps = self.paths(v)
        for p in ps or [None]:
            self.writes.append((p, what, eng.where(node), directory, "" if p else describe(v), labels(v)))
        if not directory and len(ps) == 1 and ps[0]:
            st.must = st.must | {("wrote", ps[0])}

    def arg(self, args, kwargs, i, name):
        if len(args) > i:
            return args[i]
        return kwargs.get(name, EMPTY)

    def ext_call(self, eng, name, args, kwargs, st, node):
        last = name.rsplit(".", 1)[-1]
        if name.startswith(PYPLOT) and name.count(".") == 2 and not name.endswith(")"):
            if last == "figure":
                num = self.arg(args, kwargs, 0, "num")
                ls = [l for l in labels(num) if l.startswith("fig:")]
                if ls:
                    return mk("ext", FIG, frozenset(ls))
                return self.open_fig(eng, st, node)
            if last in ("subplots", "subplot_mosaic"):
                f = self.open_fig(eng, st, node)
                return TUP([f, TOP(labels(f))])
            if last == "gcf":
                return self.current(eng, st, node)
            if last == "close":
                self.close(st, args or list(kwargs.values()))
                return NONE
            if last == "get_fignums":
                return TUP([C(t, FIGNUM) for t in sorted({t[1] for t in st.may if t[0] == "fig"})], FIGNUM)
            if last not in PASSIVE:
                self.current(eng, st, node)
        if name in ("builtins.set", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.frozenset") and args and args[0] and all(
                a.k == "tup" and FIGNUM <= a.l for a in args[0]):
            return args[0]      # the numbers of the open figures, whatever they are kept in
        if last == "savefig" or name in (PYPLOT + "imsave", "numpy.save", "numpy.savez", "numpy.savetxt", "numpy.savez_compressed"):
            self.wrote(eng, self.arg(args, kwargs, 0, "fname"), last, st, node)
            return NONE
        if name.startswith(FIG) and last in ("number",):
            return None
        if name in ("builtins.open", "io.open"):
            m = self.arg(args, kwargs, 1, "mode")
            if any(isinstance(a.p[1], str) and set(a.p[1]) & set("wax+") for a in m if a.k == "const"):
                self.wrote(eng, self.arg(args, kwargs, 0, "file"), "open", st, node)
        if name in ("os.makedirs", "os.mkdir"):
            self.wrote(eng, self.arg(args, kwargs, 0, "name"), last, st, node, True)
        if name in ("os.rename", "os.replace", "shutil.copy", "shutil.copyfile", "shutil.move", "shutil.copy2"):
            self.wrote(eng, self.arg(args, kwargs, 1, "dst"), last, st, node)
        if name in ("torch.save", "pickle.dump", "json.dump", "joblib.dump"):
            v = self.arg(args, kwargs, 1, "f")
            if any(p for p in self.paths(v)):
                self.wrote(eng, v, last, st, node)
        if name == "graphviz.render" or (last == "render" and name.startswith("graphviz")):
            self.wrote(eng, self.arg(args, kwargs, 0, "filename"), last, st, node)
        if name in ("os.getcwd",):
            return C(CWD)
        if name in ("pathlib.Path.cwd",):
            from pathlib import PurePosixPath
            return C(PurePosixPath(CWD))
        return None

    def method_hook(self, eng, b, name, args, kwargs, st, node):
        base = frozenset([b])
        if name == "savefig":
            self.wrote(eng, self.arg(args, kwargs, 0, "fname"), name, st, node)
            return NONE
        if b.k == "const" and b.p[0] == "PurePosixPath":
            if name in ("write_bytes", "write_text", "touch"):
                self.wrote(eng, base, name, st, node)
                return TOP()
            if name == "mkdir":
                self.wrote(eng, base, name, st, node, True)
                return NONE
            if name == "open":
                m = self.arg(args, kwargs, 0, "mode")
                if any(isinstance(a.p[1], str) and set(a.p[1]) & set("wax+") for a in m if a.k == "const"):
                    self.wrote(eng, base, name, st, node)
            if name in ("exists", "is_file") and ("wrote", str(b.p[1])) in st.must:
                return C(True)
            if name in ("unlink",):
                st.must = st.must - {("wrote", str(b.p[1]))}
            if name in ("rename", "replace"):
                self.wrote(eng, self.arg(args, kwargs, 0, "target"), name, st, node)
                st.must = st.must - {("wrote", str(b.p[1]))}
                return self.arg(args, kwargs, 0, "target")
            if name in ("symlink_to", "hardlink_to"):
                self.wrote(eng, base, name, st, node)
                return NONE
        return None

    def unknown_call(self, eng, a, args, kwargs, st, node):
        # method of an unknown object: recognised by its name
        f = getattr(node, "func", None)
        if isinstance(f, ast.Attribute):
            if f.attr == "savefig":
                self.wrote(eng, self.arg(args, kwargs, 0, "fname"), "savefig", st, node)
                return NONE
        return None


# ---------------------------------------------------------------------------- sessions
def arrays(n):
    """required keyword arguments of the public plotting functions"""
    a = lambda t, *d: arr(list(d), t)
    return {"x_coords": a("o:x_coords", "nx"), "t_coords": a("o:t_coords", "nt"), "true_field": a("o:true_field", "nx", "nt"),
            "predicted_field": a("o:predicted_field", "nx", "nt"), "actual": a("o:actual", "n"), "predicted": a("o:predicted", "n"),
            "slice_times": a("o:slice_times", "ns"), "coordinates": a("o:coordinates", "n", 2), "residual_field": a("o:residual_field", "nx", "nt"),
            "spatial_coords": TOP(frozenset(["o:spatial_coords"]))}


MODELS = ["dlga", "discover", "spr", "regression", "sga", "pysr", "eqgpt"]


def make_model(w, name):
    cls = {"dlga": ("kd.model.kd_dlga", "KD_DLGA"), "discover": ("kd.model.kd_discover", "KD_Discover"), "spr": ("kd.model.kd_discover", "KD_Discover_SPR"),
           "regression": ("kd.model.kd_discover_regression", "KD_Discover_Regression"), "sga": ("kd.model.kd_sga", "KD_SGA"),
           "pysr": ("kd.model.kd_pysr", "KD_PySR"), "eqgpt": ("kd.model.kd_eqgpt", "KD_EqGPT")}[name]
    return w.call(w.get(*cls), [], {}, "make." + name)


def session(an=None, proj=None):
    an = an or PlotAn()
    w = World(an, proj)
    w.enter()
    return w


def options(w, items, rest=True, tag="options"):
    o = w.dict(items, tag=tag)
    if rest:
        (a,) = o
        w.st.mut(a.p).complete = False
    return o


def results(w, v):
    """the VizResult-like objects of a value: (attrs or None, atom)"""
    out = []
    for a in v:
        o = w.st.get(a.p) if a.k == "obj" else None
        out.append((o if o is not None and o.kind == "inst" else None, a))
    return out


def seq_values(w, v):
    """(elements, exactly?) of a sequence value"""
    out, exact = [], True
    for a in v:
        if a.k == "tup":
            out += list(a.p)
            continue
        o = w.st.get(a.p) if a.k == "obj" else None
        if o is None or o.kind not in ("list", "set"):
            exact = False
            continue
        if o.elems is not None:
            out += list(o.elems)
        if o.summ:
            out.append(o.summ)
            exact = False
        elif o.elems is None:
            exact = False
    return out, exact


def nonempty(w, v):
    """may / must the sequence be non-empty"""
    may, must = False, True
    for a in v:
        if a.k == "tup":
            n = len(a.p) > 0
            may |= n
            must &= n
            continue
        o = w.st.get(a.p) if a.k == "obj" else None
        if o is None or o.kind not in ("list", "set"):
            may, must = True, False
            continue
        if o.elems is not None and not o.multi:
            n = len(o.elems) > 0
            may |= n
            must &= n
        else:
            may |= bool(o.summ) or bool(o.elems)
            must = False
    return may, must


def figures_in(w, v, seen=None, depth=0):
    seen = seen if seen is not None else set()
    out = set()
    for a in v:
        if a.k == "ext" and a.p == FIG:
            out |= {l for l in a.l if l.startswith("fig:")}
        if depth > 6:
            continue
        if a.k == "tup":
            for x in a.p:
                out |= figures_in(w, x, seen, depth + 1)
        elif a.k == "obj" and a.p not in seen:
            seen.add(a.p)
            o = w.st.get(a.p)
            if o is not None and o.kind in ("inst", "list", "dict", "set"):
                for x in list(o.attrs.values()) + list(o.elems or []) + [o.summ]:
                    out |= figures_in(w, x, seen, depth + 1)
    return out
