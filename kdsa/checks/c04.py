"""C04: every numerical derivative is the derivative it is named after.

The routines are evaluated by kdsa.grid over symbolic grid lengths, spacings and field samples (nothing of kd is run);
the element of the result at every boundary row and at a generic interior row is an exact polynomial in the samples,
and the Taylor moment conditions of kdsa.stencil decide whether it approximates the derivative.  Automatic derivatives
are evaluated over jets of an unknown function and compared with the expected jet polynomial."""
import itertools, os
from ..gridcheck import *
from ..report import AnalysisBroken, run_scenarios
from ..algebra import fn, jet, diff
from .. import gridlib
from fractions import Fraction

SP = {1: ["x"], 2: ["x", "y"], 3: ["x", "y", "z"]}


# ---------------------------------------------------------------------------- reporting
def stencils(R, name, arr, f, axes, target, group=None, **kw):
    """group: the routine a defect is attributed to (several configurations may run the same code)"""
    sub = R.sub
    if arr is None and R.single and R.ev.caught and all(explicit(x) for x in R.ev.caught):
        sub.find("derivative-missing", name, "%s gives no array: %s" % (name, R.ev.caught[-1].msg or R.ev.caught[-1].name),
                 where(R.ev.caught[-1]))
        return
    if not isinstance(arr, Arr):
        R.undecided(name, "the result is %r" % (arr,))
        return
    sub.count("derivative_arrays_decided")
    try:
        bad = list(stencil.check(R.ev, arr, f, axes, target, H, **kw))
    except (Unmodelled, NotPoly, RecursionError) as e:
        R.undecided(name, e)
        return
    tot = 0
    for label, msg, sg in bad:
        if sg == "unknown":
            R.undecided(name, msg)
            continue
        tot += 1
        if tot > 24:
            break
        used = {a for b in target for a, e in zip(axes, b) if e}
        if group and len(used) == 1:
            (a,) = used
            label = label.replace(a + "=", "")
            sg = sg.replace("d" + a, "h").replace("@" + a, "@")
        sub.find("derivative-stencil", "%s|%s|%s" % (group or name, label or "all rows", sg),
                 "%s at row %s: %s" % (name, label or "any", msg), name)


def outcome(R, name, thunk, use):
    for kind, v, taken in R.paths(name, thunk):
        if kind == "raise":
            R.sub.find("derivative-raises", "%s|%s" % (name, v.name),
                       "%s raises %s on a well formed grid" % (name, v.name), where(v))
        else:
            use(v)


def unit(axes, ax, order):
    return {tuple(order if a == ax else 0 for a in axes): P(1)}


# ---------------------------------------------------------------------------- operators of the search
FUN, EXE = "kd.model.discover.functions", "kd.model.discover.execute"


def tokens(ev, names, nvar):
    """the token library a search over the operators `names` would use"""
    ct = ev.get(FUN, "create_tokens")
    toks = ev.call(ct, [], dict(n_input_var=nvar, function_set=list(names), protected=False, task_type="pde"))
    return {ev.getattr(t, "name"): t for t in toks}


def numpy_token(tok, nd, k, target):
    """the operator tok of the search, applied to the field by the executor of the search"""
    def f(sub):
        R = Runner(sub)
        ev = R.ev
        axes = ["x", "t"] if nd == 1 else (["t"] + SP[nd])
        def th():
            by = tokens(ev, [tok], nd)
            ar = ev.getattr(by[tok], "arity")
            trav = [by[tok], by["u1"]] + ([by["x%d" % k]] if ar == 2 else [])
            X = [coord(ev, a, True) for a in SP[nd]]
            return ev.call(ev.get(EXE, "python_execute"), [trav, [field(ev, "u", axes)], X])
        name = "operator %s along x%d, %d-D" % (tok, k, nd)
        outcome(R, name, th, lambda v: stencils(
            R, name, v, "u", axes, target(axes), rows=4 if "lap" in tok else 8, inner=1,
            periodic=axes if nd == 2 else ()))
    return ("numpy operator %s x%d" % (tok, k), f)


def numpy_tokens():
    out = []
    for tok, o in (("diff", 1), ("diff2", 2), ("diff3", 3), ("diff4", 4)):
        out.append(numpy_token(tok, 1, 1, lambda axes, o=o: unit(axes, "x", o)))
    for nd, fam in ((2, (("Diff", 1), ("Diff2", 2))), (3, (("Diff_3", 1), ("Diff2_3", 2)))):
        for tok, o in fam:
            for k in range(1, nd + 1):
                out.append(numpy_token(tok, nd, k, lambda axes, o=o, k=k, nd=nd: unit(axes, SP[nd][k - 1], o)))
        out.append(numpy_token("lap" if nd == 2 else "lap_3", nd, 1, lambda axes, nd=nd: {
            tuple(2 if a == b else 0 for b in axes): P(1) for a in SP[nd]}))
    return out


# ---------------------------------------------------------------------------- plain routines
def plain(name, mod, qual, args, axes, ax, order, kw=None, wrap=None, **opt):
    """mod.qual(*args(ev)) differentiates the field along ax"""
    def f(sub):
        R = Runner(sub)
        ev = R.ev
        def th():
            parts = qual.split(".")
            g = ev.get(mod, parts[0])
            for p in parts[1:]:
                g = ev.getattr(g, p)
            v = ev.call(g, args(ev), kw or {})
            return wrap(ev, v) if wrap else v
        o = dict(inner=1)
        o.update(opt)
        outcome(R, name, th, lambda v: stencils(R, name, v, "u", axes, unit(axes, ax, order), **o))
    return (name, f)


def plain_all():
    out = []
    dx = H["x"]
    for o in (1, 2, 3, 4):
        zm = 2 if o > 2 else 0
        out.append(plain("kd.utils.FiniteDiff order %d" % o, "kd.utils.utils_fd", "FiniteDiff",
                         lambda ev, o=o: [field(ev, "u", ["x"]), dx, o], ["x"], "x", o, zero_margin=zm))
        out.append(plain("kd.utils.solver order %d" % o, "kd.utils.solver", "FiniteDifferenceOperator.diff",
                         lambda ev, o=o: [field(ev, "u", ["x", "t"]), dx, o], ["x", "t"], "x", o))
        out.append(plain("pde_find.FiniteDiff d=%d" % o, "kd.model.discover.task.pde.pde_find", "FiniteDiff",
                         lambda ev, o=o: [field(ev, "u", ["x"]), dx, o], ["x"], "x", o))
    for m in ("utils_fd", "utils_v1"):
        mod = "kd.model.discover.task.pde." + m
        for q, o in (("FiniteDiff", 1), ("FiniteDiff2", 2)):
            out.append(plain("%s.%s" % (m, q), mod, q, lambda ev: [field(ev, "u", ["x"]), dx], ["x"], "x", o))
    mod = "kd.model.discover.task.pde.utils_v1"
    for q, o in (("Diff", 1), ("Diff2", 2), ("Diff3", 3), ("Diff4", 4)):
        out.append(plain("utils_v1.%s" % q, mod, q,
                         lambda ev: [field(ev, "u", ["x", "t"]), coord(ev, "x", True), 1], ["x", "t"], "x", o))
    for q, o in (("Diff", 1), ("Diff2", 2)):
        for axes in (["x", "t"], ["t", "x"], ["x", "y", "t"]):
            for k, a in enumerate(axes):
                out.append(plain("sga %s axis %d of %s" % (q, k, "".join(axes)), "kd.model.sga.sgapde.PDE_find", q,
                                 lambda ev, axes=axes, k=k, a=a: [field(ev, "u", axes), H[a], k], axes, a, o))
    return out


# ---------------------------------------------------------------------------- data sets and derived data
def dataset(ev, axes, legacy, fields=("u",), target="u", lhs="t", **kw):
    DS = ev.get("kd.dataset", "PDEDataset")
    if legacy:
        return ev.call(DS, ["q"], dict(x=coord(ev, "x"), t=coord(ev, "t"), usol=field(ev, target, ["x", "t"]), **kw))
    return ev.call(DS, ["q"], dict(fields_data={f: field(ev, f, axes) for f in fields},
                                   coords_1d={a: coord(ev, a) for a in axes}, axis_order=list(axes),
                                   target_field=target, lhs_axis=lhs, **kw))


def adapter(axes, legacy, target="u", lhs="t", fields=("u",)):
    name = "DISCOVER data of %s" % ("a legacy data set" if legacy else "%s(%s), lhs %s" % (target, ",".join(axes), lhs))

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        def th():
            ds = dataset(ev, axes, legacy, fields, target, lhs)
            ad = ev.call(ev.get("kd.model.discover.adapter", "DiscoverRegularAdapter"), [ds])
            return ev.call(ev.getattr(ad, "get_data"), [])["ut"]
        order = ["x", "t"] if legacy else [lhs] + [a for a in axes if a != lhs]
        ax = order if legacy else axes
        outcome(R, name, th, lambda v: stencils(R, name, v, target, ax, unit(ax, lhs, 1), order=order, inner=1))
    return (name, f)


def getderiv(ax):
    name = "PDEDataset.get_derivative(%r)" % ax

    def f(sub):
        R = Runner(sub)
        def th():
            ds = dataset(R.ev, ["x", "t"], True)
            return R.ev.call(R.ev.getattr(ds, "get_derivative"), [ax])
        outcome(R, name, th, lambda v: stencils(R, name, v, "u", ["x", "t"], unit(["x", "t"], ax, 1), inner=1))
    return (name, f)


FILES = {"x": lambda ev: coord(ev, "x"), "t": lambda ev: coord(ev, "t"), "tt": lambda ev: coord(ev, "t")}


def regular(cls, src):
    """kd.data / kd.model.discover.dataset RegularData(source).load_data(): ut"""
    name = "%s.RegularData(%r)" % (cls, src)

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        def load(ev, a, k, n):
            b = os.path.basename(str(a[0]))
            if "_x" in b:
                return coord(ev, "x")
            if "_t" in b:
                return coord(ev, "t")
            return field(ev, "u", ["x", "t"])

        def mat(ev, a, k, n):
            d = {q: g(ev) for q, g in FILES.items()}
            d.update({q: field(ev, "u", ["x", "t"]) for q in ("usol", "uu", "u")})
            return d
        ev.handlers.update({"numpy.load": load, "scipy.io.loadmat": mat})
        def th():
            o = ev.call(ev.get(cls, "RegularData"), [src])
            ev.call(ev.getattr(o, "load_data"), [])
            return ev.call(ev.getattr(o, "get_data"), [])["ut"]
        outcome(R, name, th, lambda v: stencils(R, name, v, "u", ["x", "t"], unit(["x", "t"], "t", 1), inner=1))
    return (name, f)


def sga_fit(ev, axes, legacy, fields, target, lhs, kw):
    ds = dataset(ev, axes, legacy, fields, target, lhs)
    m = ev.call(ev.get("kd.model.kd_sga", "KD_SGA"), [], kw)
    solver = Native(lambda ev, a, k, n: stub({"run": Native(lambda ev, a, k, n: ("eq", Poly.atom(("v", "s"))))}))
    ev.call(ev.getattr(m, "fit_dataset"), [ds], dict(solver_cls=solver))
    return ev.getattr(m, "context_")


def sga(axes, legacy=False, fields=("u",), target="u", lhs="t", **kw):
    name = "SGA context of %s" % ("a legacy data set" if legacy else "%s(%s), lhs %s%s" % (
        target, ",".join(axes), lhs, ", " + ",".join("%s=%s" % i for i in kw.items()) if kw else ""))

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        sp = kw.get("primary_spatial_axis") or next((a for a in axes if a == "x" and a != lhs),
                                                    [a for a in axes if a != lhs][0])
        def use(c):
            for attr, ax, o in (("ut", lhs, 1), ("ux", sp, 1), ("uxx", sp, 2), ("uxxx", sp, 3),
                                ("ut_origin", lhs, 1), ("ux_origin", sp, 1), ("uxx_origin", sp, 2),
                                ("uxxx_origin", sp, 3)):
                a = ev.getattr(c, attr)
                if a is not None:
                    stencils(R, name + ": " + attr, a, target, axes, unit(axes, ax, o), inner=1,
                             group="SGA %s derivative of order %d" % ("lhs" if ax == lhs else "primary", o))
            g = ev.getattr(c, "grad_fields")
            want = {"%s_%s" % (fl, a): (fl, a) for fl in fields for a in axes if a != lhs}
            for k, v in sorted(g.items()):
                if k in want:
                    fl, a = want[k]
                    stencils(R, name + ": " + k, v, fl, axes, unit(axes, a, 1), inner=1)
                    sub.count("gradient_fields")
        outcome(R, name, lambda: sga_fit(ev, axes, legacy, fields, target, lhs, kw), use)
    return (name, f)


def sga_autograd(axes, fields=("u",), target="u", lhs="t", legacy=False):
    """SGA with automatic derivatives: the surrogate is an unknown function of the (normalized) coordinates"""
    name = "SGA autograd context of %s(%s)" % (target, ",".join(axes))

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        sp = "x" if "x" in axes else [a for a in axes if a != lhs][0]
        made = []
        def train(ev, a, k, n):
            value = a[1] if len(a) > 1 else k["field_value"]
            fl = next(f for f in fields if value.at(tuple(Poly.atom(("i", "z")) for _ in value.dims)) ==
                      Poly.atom(("s", f, tuple(Poly.atom(("i", "z")) for _ in value.dims))))
            norm = k.get("normalize")

            def net(ev, a, k, n):
                z = a[-1]
                if isinstance(z, Arr) and not z.leaf and z.dims[0].const() == 1:
                    return Arr(ev, [1, 1], lambda pos: Poly.atom(("v", "probe")), torch=True)
                if not isinstance(z, Arr) or not z.leaf:
                    raise Unmodelled("the network is not evaluated at coordinates: %r" % (z,))
                v = Poly.atom(("j", fl, ()))
                if norm is True:
                    red = lambda q: gridlib.reduction(ev, q, gridlib.reshape(ev, value, [-1]), [], {}, None)
                    v = (v - red("mean")) / red("std")
                return Arr(ev, [z.dims[0], 1], lambda pos: v, torch=True)
            made.append(norm)
            o = stub({"to": Native(lambda ev, a, k, n: o), "eval": Native(lambda ev, a, k, n: o),
                      "modules": Native(lambda ev, a, k, n: [])})
            o.cls.attrs["__call__"] = Native(net)
            return (o, {})
        def th():
            mod = ev.module("kd.model.sga.sgapde.context")
            if "train_metanet" not in mod:
                raise Unmodelled("no surrogate training found")
            mod["train_metanet"] = Native(train)
            return sga_fit(ev, axes, legacy, fields, target, lhs, {"use_autograd": True})
        ev.handlers["os.path.exists"] = lambda ev, a, k, n: False       # no stored surrogate
        ev.assume.append(lambda c: {"Eq": False, "NotEq": True}.get(c.op) if spread(c.a) and P0(c.b) else None)
        def use(c):
            for attr, ax, o in (("ut", lhs, 1), ("ux", sp, 1), ("ut_origin", lhs, 1), ("ux_origin", sp, 1)) + (
                    (("uxx", sp, 2), ("uxxx", sp, 3), ("uxx_origin", sp, 2), ("uxxx_origin", sp, 3)) if len(axes) == 2 else ()):
                grid_jets(R, "%s: %s" % (name, attr), ev.getattr(c, attr), jet(target, **{ax: o}))
            g = ev.getattr(c, "grad_fields")
            for fl in fields:
                for a in axes:
                    if isinstance(g, dict) and a != lhs and "%s_%s" % (fl, a) in g:
                        grid_jets(R, "%s: %s_%s" % (name, fl, a), g["%s_%s" % (fl, a)], jet(fl, **{a: 1}))
        outcome(R, name, th, use)
    return (name, f)


def spread(p):
    """a standard deviation of the data: not zero on a field that varies"""
    try:
        (m, c), = P(p).t.items()
        (a, e), = m
        return a[0] == "f" and a[1] == "std"
    except (ValueError, TypeError, AttributeError, NotPoly, Unmodelled):
        return False


def P0(p):
    try:
        return P(p).const() == 0
    except (TypeError, NotPoly, Unmodelled):
        return False


def grid_jets(R, name, arr, want):
    """every element of a gridded array is the expected derivative"""
    ev, sub = R.ev, R.sub
    if not isinstance(arr, Arr):
        R.undecided(name, "the result is %r" % (arr,))
        return
    sub.count("derivative_arrays_decided")
    try:
        pos = [stencil.positions(ev, "g%d" % k, 1, d)[1][1] for k, d in enumerate(arr.dims)]
        v = arr.at(tuple(pos))
        v = ev.B.simp(v) if isinstance(v, Poly) else v
    except (Unmodelled, NotPoly) as e:
        R.undecided(name, e)
        return
    if not isinstance(v, Poly):
        R.undecided(name, repr(v))
    elif v != want:
        sub.find("derivative-wrong", "%s|%s" % (name, stencil.short(v, 200)),
                 "%s is %s where %s is announced" % (name, stencil.short(v), show(want)), name)


VIZ = "kd.viz.discover_viz"


def node(val, *ch):
    return stub({"val": val, "children": list(ch)}, "Node")


def viz_term(tok, nd, k, order):
    """the value a DISCOVER plot computes for a term of the discovered equation"""
    name = "DISCOVER plots: %s%s, %d-D" % (tok, "" if tok.startswith("lap") else " along x%d" % k, nd)

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        axes = SP[nd]
        def th():
            nod = node(tok, node("u1"), *([] if tok.startswith("lap") else [node("x%d" % k)]))
            kw = {} if nd == 1 else {"spatial_coords_list": [coord(ev, a) for a in axes], "spatial_dxs": [H[a] for a in axes]}
            return ev.call(ev.get(VIZ, "_evaluate_term_recursively"), [nod, field(ev, "u", axes), coord(ev, "x")], kw)
        target = {tuple(2 if a == b else 0 for b in axes): P(1) for a in axes} if tok.startswith("lap") else \
            unit(axes, axes[k - 1], order)
        outcome(R, name, th, lambda v: stencils(R, name, v, "u", axes, target, rows=4 if nd > 1 else 8, inner=1))
    return (name, f)


def viz_all():
    out = [viz_term(t, 1, 1, o) for t, o in (("diff", 1), ("diff2", 2), ("diff3", 3), ("diff4", 4))]
    out += [viz_term("lap", 1, 1, 2)]
    for nd, fam in ((2, (("Diff", 1), ("Diff2", 2), ("lap", 2))), (3, (("Diff_3", 1), ("Diff2_3", 2), ("lap_3", 2)))):
        for t, o in fam:
            out += [viz_term(t, nd, k, o) for k in ([1] if t.startswith("lap") else range(1, nd + 1))]
    return out


def derived_all():
    out = [adapter(["x", "t"], True)]
    for axes, lhs, tg in ((["t", "x", "y"], "t", "u"), (["x", "y", "t"], "t", "u"), (["x", "t", "y"], "t", "v"),
                          (["y", "x", "t"], "t", "u"), (["z", "t", "x", "y"], "t", "u"), (["x", "y", "z", "t"], "t", "v")):
        out.append(adapter(axes, False, tg, lhs, ("u", "v")))
    out += [getderiv("x"), getderiv("t")]
    for cls in ("kd.data", "kd.model.discover.dataset"):
        for src in ("chafee-infante", "Burgers", "Kdv"):
            out.append(regular(cls, src))
    out += [sga(["x", "t"], legacy=True), sga(["x", "t"]), sga(["t", "x"]), sga(["x", "y", "t"]),
            sga(["t", "y", "x"], fields=("u", "v")), sga(["y", "x", "t"], fields=("u", "v"), target="v"),
            sga(["x", "y", "t"], primary_spatial_axis="y"), sga(["x", "y", "z", "t"]), sga(["x", "y"], lhs="y"),
            sga(["x", "t"], lhs="x")]
    return out


# ---------------------------------------------------------------------------- automatic differentiation
def jets(R, name, arr, want, rule="derivative-wrong"):
    """every row of the array is the expected differential polynomial"""
    sub, ev = R.sub, R.ev
    if arr is None and R.ev.caught:
        sub.find("derivative-missing", name, "%s gives no value: %s" % (name, R.ev.caught[-1].msg or R.ev.caught[-1].name),
                 where(R.ev.caught[-1]))
        return
    arr = arr if isinstance(arr, Arr) else None
    if arr is None or arr.ndim > 2 or (arr.ndim == 2 and arr.dims[1].const() != 1):
        R.undecided(name, "the result is %r" % (arr,))
        return
    sub.count("derivative_arrays_decided")
    for label, pos in stencil.positions(ev, "r", 1, arr.dims[0]):
        try:
            v = arr.at((pos,) + (P(0),) * (arr.ndim - 1))
            v = ev.B.simp(v) if isinstance(v, Poly) else v
        except (Unmodelled, NotPoly) as e:
            R.undecided(name, e)
            return
        if not isinstance(v, Poly):
            R.undecided(name, repr(v))
            return
        if v != want and not any(v == w for w in alternatives(want)):
            sub.find(rule, "%s|%s" % (name, stencil.short(v, 200)),
                     "%s is %s where %s is announced" % (name, stencil.short(v), show(want)), name)
            return


def alternatives(want):
    """sqrt(|u|) is an accepted extension of sqrt(u)"""
    yield Poly({frozenset((alt(a), e) for a, e in m): c for m, c in want.t.items()})


def alt(a):
    if a[0] == "f" and a[1] == "pow" and a[2][1] == Poly.c(Fraction(1, 2)):
        return next(iter(next(iter(fn("pow", fn("abs", a[2][0]), a[2][1]).t))))[0]
    return a


def points(ev, names, n="r"):
    """a matrix of coordinates with one named coordinate per column"""
    a = Arr(ev, [N(n), len(names)], lambda pos: Poly.atom(("c", names[int(pos[1].const())])),
            leaf=[(c, 1) for c in names], torch=True)
    return a


def column(ev, c, n="r"):
    return points(ev, [c], n)


def network(fields=("u",)):
    """an unknown smooth function of the columns it is given"""
    def f(ev, a, k, n):
        z = a[-1]
        if not isinstance(z, Arr) or not z.leaf:
            raise Unmodelled("the network is not evaluated at coordinates: %r" % (z,))
        return Arr(ev, [z.dims[0], len(fields)], lambda pos: Poly.atom(("j", fields[int(pos[1].const())], ())), torch=True)
    return Native(f)


def torch_token(tok, nd, k, want, var=1, fields=("u", "v")):
    def f(sub):
        R = Runner(sub)
        ev = R.ev
        name = "operator %s along x%d, %d-D, field %s" % (tok, k, nd, fields[var - 1])
        def th():
            ct = ev.get(FUN, "create_tokens")
            toks = ev.call(ct, [], dict(n_input_var=nd, function_set=[tok], protected=False, task_type="pde", n_state_var=2))
            by = {ev.getattr(t, "name"): t for t in toks}
            trav = [by[tok], by["u%d" % var]] + ([by["x%d" % k]] if ev.getattr(by[tok], "arity") == 2 else [])
            cols = [column(ev, a) for a in SP[nd]]
            u = Arr(ev, [N("r"), 2], lambda pos: Poly.atom(("j", fields[int(pos[1].const())], ())), torch=True)
            return ev.call(ev.get(EXE, "python_execute_torch"), [trav, [u], cols])
        outcome(R, name, th, lambda v: jets(R, name, v, want(fields[var - 1])))
    return ("torch operator %s x%d u%d" % (tok, k, var), f)


def torch_all():
    out = []
    for o, tok in enumerate(("diff_t", "diff2_t", "diff3_t", "diff4_t"), 1):
        for k in (1, 2, 3):
            a = SP[3][k - 1]
            out.append(torch_token(tok, 3, k, lambda f, a=a, o=o: jet(f, **{a: o}), var=1 + k % 2))
    for nd in (1, 2, 3):
        out.append(torch_token("lap_t", nd, 1, lambda f, nd=nd: sum((jet(f, **{a: 2}) for a in SP[nd]), P(0))))
    return out


def pinn_lhs(how):
    """the left hand side u_t the PINN search regresses on"""
    name = "PINN left hand side (%s)" % how

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        TASK = "kd.model.discover.task.pde.pde_pinn"
        if how == "pinn_loss":
            for fields in (("u",), ("u", "v")):
                got = []
                def th(fields=fields, got=got):
                    got.clear()
                    prog = stub({"STRidge": stub({"calculate_RHS": Native(lambda ev, a, k, n: (got.append(a), a[2])[1])})})
                    model = stub({"net_u": network(fields)})
                    ev.call(ev.get("kd.model.discover.loss", "pinn_loss"),
                            [model, prog, [column(ev, "x"), column(ev, "y")], column(ev, "t"), [1]])
                    return got[0][2] if got else None
                outcome(R, name, th, lambda v: jets(R, name, v, jet("u", t=1)))
            return
        cls = ev.get(TASK, "PDEPINNTask")
        sp = ["x"] if how == "AD" else ["x", "y"]
        def th():
            o = Inst(cls)
            net = network(("u", "v") if how == "multi_AD" else ("u",))
            model = stub({"net_u": net, "device": "cpu",
                          "collocation_point": ([column(ev, a) for a in sp], column(ev, "t"))})
            o.attrs.update({"cut_ratio": Poly.atom(("v", "cut")), "eq_num": 2, "sym_true_input": None})
            if how == "AD":
                ev.call(ev.getattr(o, "AD_generate_1D"), [points(ev, sp + ["t"]), model])
            else:
                ev.call(ev.getattr(o, "AD_generate_mD"), [model])
                ev.call(ev.getattr(o, "reset_ut"), [1])
            return ev.getattr(o, "ut")
        outcome(R, name, th, lambda v: jets(R, name, v, jet("v" if how == "multi_AD" else "u", t=1)))
    return (name, f)


def dlga(base=False):
    """the library a KD_DLGA search evaluates: u, u_x, u_t, … at the points it is given"""
    name = "%sDLGA.generate_meta_data" % ("" if base else "KD_")

    def f(sub):
        R = Runner(sub)
        ev = R.ev
        ops = ["u_xxx", "u", "u_x", "u_tt", "u_xx", "u_t"]
        def th():
            if base:
                m = ev.call(ev.get("kd.model.dlga", "DLGA"), [], dict(epi=0.1, input_dim=2))
            else:
                m = ev.call(ev.get("kd.model.kd_dlga", "KD_DLGA"), [], dict(operators=list(ops), epi=0.1, input_dim=2))
            net = network()
            m.attrs["Net"] = stub({"__call__": net, "load_state_dict": Native(lambda *a: None), "eval": Native(lambda *a: None)})
            m.attrs["Net"].cls.attrs["__call__"] = net
            m.attrs["best_epoch"] = 1
            th_ = ev.call(ev.getattr(m, "generate_meta_data"), [points(ev, ["x", "t"])])
            return m, th_
        def use(v):
            m, theta = v
            cnt = lambda op: jet("u", x=op.count("x"), t=op.count("t"))
            md = ev.getattr(m, "metadata")
            for op in sorted(md):
                jets(R, "%s: metadata[%r]" % (name, op), md[op], cnt(op))
            for op in ("u_t", "u_tt"):
                jets(R, "%s: %s" % (name, op), ev.getattr(m, op), cnt(op))
            for k, op in enumerate(["u", "u_x", "u_xx", "u_xxx", "u_t", "u_tt"] if base else ops):
                c = gridlib.getview(ev, theta, (slice(None), k)) if isinstance(theta, Arr) else theta
                jets(R, "%s: column %r of the library" % (name, op), c, cnt(op))
        outcome(R, name, th, use)
    return (name, f)


# ---- EqGPT words
TERMS = "kd.model.eqgpt.calculate_terms"


class Word:
    """Differential polynomial a vocabulary word spells: u with coordinate subscripts, products by juxtaposition,
    a parenthesis followed by coordinates is differentiated."""
    FUNS = ("sinh", "sin", "exp", "sqrt", "BiLaplace", "Laplace")

    def __init__(self, s, sp):
        self.s, self.i, self.sp, self.used = s, 0, sp, set()

    def peek(self, k=1):
        return self.s[self.i:self.i + k]

    def eat(self, x):
        if self.s.startswith(x, self.i):
            self.i += len(x)
            return True
        return False

    def parse(self):
        v = self.expr()
        if self.i != len(self.s):
            raise ValueError(self.s)
        return v

    def expr(self):
        v = self.term()
        while self.peek() in ("+", "-") and self.peek():
            sg = 1 if self.eat("+") else (self.eat("-"), -1)[1]
            v = v + self.term() * P(sg)
        return v

    def term(self):
        if self.eat("-"):
            return -self.term()
        v = self.factor()
        while self.i < len(self.s) and self.peek() not in ("+", "-", ")"):
            if self.eat("/"):
                v = v / self.factor()
            else:
                self.eat("*")
                v = v * self.factor()
        return v

    def factor(self):
        v = self.base()
        if self.eat("^"):
            neg = self.eat("-")
            k = ""
            while self.peek().isdigit():
                k += self.peek()
                self.i += 1
            v = v.power(-int(k) if neg else int(k))
        return v

    def coords(self):
        k = ""
        while self.peek() and self.peek() in AX:
            k += self.peek()
            self.i += 1
        self.used |= set(k)
        return k

    def base(self):
        for f in self.FUNS:
            if self.eat(f):
                if self.eat("("):
                    x = self.expr()
                    if not self.eat(")"):
                        raise ValueError(self.s)
                else:
                    c = self.peek()
                    if c not in AX or not c:
                        raise ValueError(self.s)
                    self.i += 1
                    self.used.add(c)
                    x = Poly.atom(("c", c))
                if f == "sqrt":
                    return fn("pow", x, P(Fraction(1, 2)))
                if f.endswith("Laplace"):
                    lap = lambda y: sum((diff(diff(y, a), a) for a in self.sp), P(0))
                    return lap(x) if f == "Laplace" else lap(lap(x))
                return fn(f, x)
        if self.eat("("):
            x = self.expr()
            if not self.eat(")"):
                raise ValueError(self.s)
            for a in self.coords():
                x = diff(x, a)
            return x
        if self.eat("u"):
            k = self.coords()
            return jet("u", **{a: k.count(a) for a in set(k)})
        c = self.peek()
        if c and c in AX:
            self.i += 1
            self.used.add(c)
            return Poly.atom(("c", c))
        k = ""
        while self.peek().isdigit():
            k += self.peek()
            self.i += 1
        if not k:
            raise ValueError(self.s)
        return P(int(k))


VARSETS = (["t", "x"], ["x", "t"], ["x", "y"], ["t", "x", "y"], ["x", "y", "z"], ["t", "x", "y", "z"])


def words(ev):
    """(word) of the vocabulary the evaluators can be asked for"""
    voc = ev.get(TERMS, "word2id")
    if not isinstance(voc, dict):
        raise AnalysisBroken("C04: no vocabulary in %s" % TERMS)
    return [w for w in voc if isinstance(w, str) and w not in ("<pad>", "E", "S", "+", "*", "/")]


def eqgpt(fname, variables, chunk):
    def f(sub):
        R = Runner(sub)
        ev = R.ev
        g = ev.get(TERMS, fname)
        sp = [v for v in variables if v != "t"]
        for w in words(ev):
            try:
                p = Word(w, sp)
                want = p.parse()
            except ValueError:
                R.undecided("EqGPT word %r" % w, "not spelled in the term grammar")
                continue
            if p.used - set(variables) or ("Laplace" in w and "y" not in sp) or ("BiLaplace" in w and len(sp) != 2):
                continue
            sub.count("words_evaluated")
            name = "EqGPT %s(%r)" % (fname, w)
            args = [w, network(), points(ev, variables), list(variables)]
            if fname == "calculate_terms":
                args += [N("x"), N("t")]
            def th(args=args):
                return ev.call(ev.get(TERMS, fname), [args[0], args[1], points(ev, variables)] + args[3:])
            outcome(R, name, th, lambda v, name=name, want=want: (
                sub.find("derivative-missing", name, "%s gives no value in variables %s" % (name, variables), name)
                if v is None else jets(R, name, v, want)))
    return ("%s over %s" % (fname, "".join(variables)), f)


def eqgpt_all():
    return [eqgpt(n, vs, 0) for n in ("calculate_terms", "calculate_terms_PINN") for vs in VARSETS]


def ad_all():
    return [sga_autograd(["x", "t"], legacy=True), sga_autograd(["t", "x"]), sga_autograd(["x", "y", "t"], ("u", "v")),
            sga_autograd(["y", "t", "x"], ("u", "v"), "v")] + torch_all() + [pinn_lhs(h) for h in ("pinn_loss", "AD", "multi_AD")] + [dlga(), dlga(True)] + eqgpt_all()


SELF = """
import numpy as np
import torch


def good(u, h):
    n = u.size
    d = np.zeros(n)
    for i in range(1, n - 1):
        d[i] = (u[i + 1] - u[i - 1]) / (2 * h)
    d[0] = (-3.0 / 2 * u[0] + 2 * u[1] - u[2] / 2) / h
    d[n - 1] = (3.0 / 2 * u[n - 1] - 2 * u[n - 2] + u[n - 3] / 2) / h
    return d


def bad_edge(u, h):
    d = good(u, h)
    d[-1] = (u[-1] - u[-2]) / (2 * h)
    return d


def bad_sign(u, h):
    return (np.roll(u, 1) - np.roll(u, -1)) / (2 * h)


def jet(net, z):
    u = net(z)
    return torch.autograd.grad(outputs=u.sum(), inputs=z, create_graph=True)[0][:, 1]
"""


def selftest():
    from ..report import Ctx
    from ..selftest import Overlay
    proj = Overlay(PROJECT(), "kd._kdsa_fd", SELF)
    for q, expect in (("good", 0), ("bad_edge", 1), ("bad_sign", 3)):
        sub = Ctx("C04")
        sub.seen = set()
        R = Runner(sub, proj)
        ev = R.ev
        outcome(R, q, lambda: ev.call(ev.get("kd._kdsa_fd", q), [field(ev, "u", ["x"]), H["x"]]),
                lambda v: stencils(R, q, v, "u", ["x"], unit(["x"], "x", 1), inner=1, periodic=["x"]))
        if len(sub.findings) < expect or (expect == 0 and sub.findings) or sub.counts.get("undecided"):
            raise AnalysisBroken("C04 self-test: %s gave %s %s" % (q, sorted(sub.findings), sub.notes))
    for want, n in ((jet("u", t=1), 0), (jet("u", x=1), 1)):
        sub = Ctx("C04")
        sub.seen = set()
        R = Runner(sub, proj)
        ev = R.ev
        outcome(R, "jet", lambda: ev.call(ev.get("kd._kdsa_fd", "jet"), [network(), points(ev, ["x", "t"])]),
                lambda v: jets(R, "jet", v, want))
        if len(sub.findings) != n or sub.counts.get("undecided"):
            raise AnalysisBroken("C04 self-test: jet gave %s %s" % (sorted(sub.findings), sub.notes))


def run(ctx):
    ctx.rule("finite differences: abstract interpretation of the routine's source over symbolic lengths, spacings and samples gives "
             "each element of the result as an exact linear form in the samples; at every edge row and at a generic interior row it "
             "must satisfy the Taylor moment conditions of the announced derivative (first order at edges, second in the interior)")
    ctx.rule("automatic derivatives: the source is interpreted over jets of an unknown smooth function; the element of the result must be "
             "the differential polynomial its name spells")
    ctx.assumptions += [
        "grids are equispaced with at least 16 points per axis; arithmetic is exact (rounding is not modelled)",
        "the 2-D spatial operator family of the search (Diff, Diff2, lap on t,x,y) treats the field as periodic",
        "orders 3 and 4 of kd.utils.FiniteDiff leave two zero rows at each edge (documented)",
        "files the packaged loaders read hold arrays in the layout the loader documents"]
    selftest()
    tasks = numpy_tokens() + plain_all() + derived_all() + viz_all() + ad_all()
    if ctx.thorough:
        for axes in list(itertools.permutations("xyt")) + list(itertools.permutations("xyzt"))[::2]:
            tasks.append(adapter(list(axes), False, "v", "t", ("u", "v")))
            for lhs in axes:
                tasks.append(sga(list(axes), fields=("u", "v"), target="v", lhs=lhs))
            tasks.append(sga_autograd(list(axes), ("u", "v"), "v"))
    run_scenarios(ctx, tasks)
    ctx.floor("derivative_arrays_decided", 480)
    ctx.floor("words_evaluated", 300)
    for n, _ in tasks[::9]:
        ctx.sample(n)
