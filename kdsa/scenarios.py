"""Abstract client programs: every public entry point driven with caller-owned inputs.

Each scenario is a function (World) -> None.  Scenario inputs are symbolic: array contents are unknown,
sizes are distinct symbols, options range over their defaults joined with an unknown value."""
from .worlds import *
from .values import *

FLOAT = TOP


def opt(*consts):
    v = EMPTY
    for c in consts:
        v = v | C(c)
    return v


ANY = TOP()


def legacy_ds(w, how="kw", own=True):
    PD = w.get("kd.dataset", "PDEDataset")
    dom = w.dict({"x": TUP((TOP(), TOP())), "t": TUP((TOP(), TOP()))}, "@domain" if own else None, "dom")
    x, t, u = [arr(d, "@" + n if own else None) for d, n in ((["nx"], "x"), (["nt"], "t"), (["nx", "nt"], "usol"))]
    if how == "kw":
        ds = w.call(PD, [C("burgers")], dict(pde_data=NONE, domain=NONE | dom, epi=C(0.001), x=x, t=t, usol=u), "ds")
    else:
        d = w.dict({"x": x, "t": t, "usol": u}, "@pde_data" if own else None, "pde")
        ds = w.call(PD, [C("burgers")], dict(pde_data=d, domain=dom), "ds")
    if ds is not None and own:
        w.own(ds, "@dataset")
    return ds


def nd_ds(w, axes=("x", "y", "t"), params=True, own=True, target="u", lhs="t", extra_field=True):
    PD = w.get("kd.dataset", "PDEDataset")
    dims = ["n" + a for a in axes]
    L = (lambda n: "@" + n) if own else (lambda n: None)
    fields = {target: arr(dims, L("field." + target))}
    if extra_field:
        fields["v"] = arr(dims, L("field.v"))
    fd = w.dict(fields, "@fields_data" if own else None, "fd")
    cd = w.dict({a: arr(["n" + a], L("coord." + a)) for a in axes}, "@coords_1d" if own else None, "cd")
    ao = w.list([C(a) for a in axes], "@axis_order" if own else None, "ao")
    kw = dict(fields_data=fd, coords_1d=cd, axis_order=ao, target_field=C(target), lhs_axis=C(lhs))
    if params:
        kw["param_fields"] = w.dict({"nu": arr(dims, L("param.nu"))}, "@param_fields" if own else None, "pf")
    ds = w.call(PD, [C("custom")], kw, "ds")
    if ds is not None and own:
        w.own(ds, "@dataset")
    return ds


DATASETS = {
    "legacy": lambda w, own=True: legacy_ds(w, "kw", own),
    "legacy_dict": lambda w, own=True: legacy_ds(w, "dict", own),
    "nd_xt": lambda w, own=True: nd_ds(w, ("x", "t"), False, own),
    "nd_xt_p": lambda w, own=True: nd_ds(w, ("x", "t"), True, own),
    "nd_txy": lambda w, own=True: nd_ds(w, ("t", "x", "y"), False, own),
    "nd_xyt": lambda w, own=True: nd_ds(w, ("x", "y", "t"), True, own),
    "nd_xyzt": lambda w, own=True: nd_ds(w, ("x", "y", "z", "t"), True, own),
}


# ---------------------------------------------------------------- dataset methods
def ds_methods(w, ds):
    for name, args, kw in (
            ("get_datapoint", [ANY, ANY], {}), ("get_data", [], {}), ("sample", [ANY], {"method": C("random")}),
            ("sample", [ANY], {"method": C("uniform")}), ("sample", [ANY], {"method": C("spline")}), ("mesh", [], {}),
            ("mesh", [], {"indexing": C("xy")}), ("mesh_bounds", [], {}), ("get_boundaries", [], {}),
            ("get_domain", [], {}), ("get_derivative", [C("x")], {}), ("get_derivative", [C("t")], {}),
            ("get_range", [TUP((ANY, ANY)), TUP((ANY, ANY))], {}), ("get_size", [], {}), ("plot_solution", [], {}),
            ("__repr__", [], {}), ("__getitem__", [C("x")], {})):
        w.method(ds, name, args, kw, "ds." + name)


# ---------------------------------------------------------------- estimators
def mk_dlga(w, own=True, kwargs=None):
    ops = w.list([C(s) for s in ("u", "u_x", "u_xx", "u_xxx")], "@operators" if own else None, "ops")
    return w.call(w.get("kd.model", "KD_DLGA"), [], dict(dict(operators=ops, epi=C(0.1), input_dim=C(2), verbose=BOOL), **(kwargs or {})), "mk_dlga")


def dlga_fit_dataset(w, ds, m=None, src=None):
    m = m or mk_dlga(w)
    w.method(m, "fit_dataset", [ds], dict(sample=NONE | ANY, sample_method=opt("random", "uniform", "spline"),
                                          Xy_from=src or (C("sample") | C("mesh"))), "dlga.fit_dataset")
    return m


def dlga_fit(w, m=None):
    m = m or mk_dlga(w)
    w.method(m, "fit", [arr(["n", 2], "@X"), arr(["n", 1], "@y")], {}, "dlga.fit")
    w.method(m, "predict", [arr(["k", 2], "@Xnew")], {}, "dlga.predict")
    return m


def mk_sga(w, **over):
    kw = dict(sga_run=ANY, num=ANY, depth=ANY, width=ANY, seed=mk("top", None, frozenset(["seed"])),
              use_autograd=BOOL, use_metadata=BOOL, delete_edges=BOOL)
    kw.update(over)
    return w.call(w.get("kd.model", "KD_SGA"), [], kw, "mk_sga")


def sga_fit(w, ds, m=None):
    m = m or mk_sga(w)
    w.method(m, "fit_dataset", [ds], {"problem_name": NONE | ANY}, "sga.fit_dataset")
    w.method(m, "equation_latex", [], {}, "sga.equation_latex")
    return m


def mk_discover(w, cls="KD_Discover", ops=True, config=True, over=None):
    kw = dict(n_iterations=ANY, n_samples_per_batch=ANY, seed=mk("top", None, frozenset(["seed"])), out_path=C("./log/"))
    if ops:
        kw["binary_operators"] = w.list([C(s) for s in ("add", "mul", "diff")], "@binary_operators", "bops")
        kw["unary_operators"] = w.list([C(s) for s in ("n2",)], "@unary_operators", "uops")
    if config:
        kw["config_out"] = w.dict({"task": w.dict({"eq_num": C(1)}, "@config_out", "ct")}, "@config_out", "co")
    kw.update(over or {})
    return w.call(w.get("kd.model", cls), [], kw, "mk_" + cls)


def discover_import(w, ds, m=None):
    m = m or mk_discover(w)
    w.method(m, "import_dataset", [ds], {}, "discover.import_dataset")
    return m


def discover_fit(w, ds, m=None):
    m = m or mk_discover(w)
    w.method(m, "fit_dataset", [ds], {"n_epochs": ANY}, "discover.fit_dataset")
    return m


SPR_OPT = dict(sample=NONE | ANY, sample_ratio=ANY, colloc_num=NONE | ANY,
               random_state=mk("top", None, frozenset(["seed"])),
               noise_level=NONE | ANY, data_ratio=NONE | ANY, spline_sample=BOOL, cut_quantile=NONE | ANY)


def spr_import(w, ds, m=None, **over):
    m = m or mk_discover(w, "KD_Discover_SPR", ops=False)
    w.method(m, "import_dataset", [ds], dict(SPR_OPT, **over), "spr.import_dataset")
    return m


def spr_fit(w, ds, m=None, **over):
    m = m or mk_discover(w, "KD_Discover_SPR", ops=False)
    w.method(m, "fit_dataset", [ds], dict(SPR_OPT, **over), "spr.fit_dataset")
    return m


def spr_fit_xy(w, m=None):
    m = m or mk_discover(w, "KD_Discover_SPR", ops=False)
    dom = w.list([arr([2], "@domains"), arr([2], "@domains")], "@domains", "domains")
    w.method(m, "fit", [arr(["n", 2], "@X"), arr(["n", 1], "@y"), dom], {}, "spr.fit")
    return m


def sparse_data(w):
    d = w.call(w.get("kd.data", "SparseData"), [arr(["n", 2], "@X"), arr(["n", 1], "@y")], {}, "sparse")
    w.method(d, "process_data", [w.list([arr([2], "@domains"), arr([2], "@domains")], "@domains", "domains")], {}, "sparse.process")
    w.method(d, "get_data")
    return d


def regular_data(w):
    for src in ("chafee-infante", "Burgers", "Kdv"):
        d = w.call(w.get("kd.data", "RegularData"), [C(src)], {}, "regular" + src)
        if d is not None:
            for m in ("load_data", "process_data", "get_data", "info"):
                w.method(d, m)
    return d


def dataset_fns(w):
    for n in ("load_burgers_equation", "load_kdv_equation", "list_available_datasets"):
        w.call(w.get("kd.dataset", n), [], {}, n)
    reg = w.get("kd.dataset", "PDE_REGISTRY")
    for name in consts(w.eng.elem_of(reg, w.st, w.nd("reg"))) or []:
        w.call(w.get("kd.dataset", "get_dataset_sym_true"), [C(name)], {}, "sym:" + name)
        ds = w.call(w.get("kd.dataset", "load_pde"), [C(name)], {"epi": ANY}, "load:" + name)
    for name in ("tlc_cc_t1", "tlc_cc_t2"):
        w.call(w.get("kd.dataset", "load_regression"), [C(name)], {}, "reg:" + name)
    for f, a in (("load_pde_dataset", [ANY]), ("load_mat_file", [ANY])):
        w.call(w.get("kd.dataset", f), a, {}, f)
    PL = w.get("kd.dataset._base", "PDEDataLoader")
    l = w.call(PL, [ANY], {}, "loader")
    w.method(l, "load_data", [], {"equation_name": ANY | NONE, "file": ANY | NONE}, "loader.load")


def base_params(w, m):
    w.method(m, "get_params", [BOOL], {}, "get_params")
    w.method(m, "set_params", [], {"epi": ANY}, "set_params")
    w.method(m, "__repr__", [], {}, "repr")
    return m


def discover_inner(w, m=None):
    m = m or mk_discover(w)
    for n in ("Burgers", "chafee-infante", "Kdv"):
        w.method(m, "import_inner_data", [C(n)], {}, "inner:" + n)
    return m


def discover_extra(w, m):
    for n in ("info", "print_pq", "plot"):
        w.method(m, n, [], {}, n)
    w.method(m, "plot", [C("tree")], {}, "plot:tree")
    w.method(m, "train_one_step", [], {"epoch": ANY, "verbose": BOOL}, "one_step")
    w.method(m, "predict", [arr(["k", 2], "@Xnew")], {}, "predict")
    return m


def sga_extra(w, m):
    for n in ("equation_latex", "equation_structure_latex", "plot_results"):
        w.method(m, n, [], {}, n)
    return m


def regr_fit(w, m=None):
    m = m or mk_discover(w, "KD_Discover_Regression")
    w.method(m, "fit", [arr(["n", "p"], "@X"), arr(["n"], "@y")],
             {"var_names": NONE | w.list([C("a"), C("b")], "@var_names", "vn")}, "regr.fit")
    w.method(m, "predict", [arr(["k", "p"], "@Xnew")], {}, "regr.predict")
    return m


def mk_pysr(w):
    return w.call(w.get("kd.model.kd_pysr", "KD_PySR"), [], dict(
        niterations=ANY, binary_operators=w.list([C("+")], "@binary_operators", "b"),
        unary_operators=w.list([C("sin")], "@unary_operators", "u"),
        extra_model_kwargs=w.dict({"maxsize": C(5)}, "@extra_model_kwargs", "e")), "mk_pysr")


def pysr_fit(w, m=None):
    m = m or mk_pysr(w)
    w.method(m, "fit", [arr(["n", "p"], "@X"), arr(["n"], "@y")], {}, "pysr.fit")
    w.method(m, "predict", [arr(["k", "p"], "@Xnew")], {}, "pysr.predict")
    w.method(m, "equation_latex", [], {}, "pysr.latex")
    return m


def mk_eqgpt(w):
    return w.call(w.get("kd.model.kd_eqgpt", "KD_EqGPT"), [], dict(
        optimize_epochs=C(5), samples_per_epoch=C(400), case_filter=opt("N", "all"), seed=C(0, frozenset(["seed"])),
        retrain_surrogate=BOOL), "mk_eqgpt")


def eqgpt_fit(w, m=None):
    m = m or mk_eqgpt(w)
    w.method(m, "fit_pretrained", [], {}, "eqgpt.fit")
    return m


VIZ = ["plot_training_curve", "plot_validation_curve", "plot_search_evolution", "plot_optimization", "plot_time_slices",
       "render_equation", "plot_residuals", "plot_field_comparison", "plot_derivative_relationships", "plot_parity"]


def viz_all(w, m, only=None):
    for n in VIZ:
        if only and n not in only:
            continue
        f = w.get("kd.viz", n)
        kw = {}
        if n == "plot_field_comparison":
            kw = {"x_coords": NONE | arr(["a"], "@x_coords"), "t_coords": NONE | arr(["b"], "@t_coords"), "true_field": NONE | arr(["a", "b"], "@true_field"),
                  "predicted_field": NONE | arr(["a", "b"], "@pred_field")}
        elif n == "plot_time_slices":
            kw = {"x_coords": NONE | arr(["a"], "@x_coords"), "t_coords": NONE | arr(["b"], "@t_coords"), "true_field": NONE | arr(["a", "b"], "@true_field"),
                  "predicted_field": NONE | arr(["a", "b"], "@pred_field"), "slice_times": NONE | arr(["s"], "@slice_times")}
        elif n == "plot_residuals":
            kw = {"actual": NONE | arr(["a"], "@actual"), "predicted": NONE | arr(["a"], "@predicted"), "coordinates": NONE | arr(["a", 2], "@coordinates")}
        kw = {k: v for k, v in kw.items() if accepts(w, f, k)}
        w.call(f, [m], kw, "viz." + n)


def accepts(w, f, k):
    for a in f:
        if a.k == "fn":
            g = a.p.node.args
            if g.kwarg or k in [x.arg for x in g.posonlyargs + g.args + g.kwonlyargs]:
                return True
    return False
