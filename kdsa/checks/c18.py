"""C18: field values stay paired with their own coordinates.

The data paths are evaluated by kdsa.grid with opaque samples: coordinate i of axis a is the atom a[i], the field value
at grid point (i, j) is the atom u[i,j].  Whatever a routine hands on is then inspected symbolically: at a generic row the
columns must hold exactly the coordinates that index the sample in the value (random draws, permutations and
interpolation are opaque but tracked), and the columns must come in the declared order."""
from fractions import Fraction as F
import itertools
import random
from ..gridcheck import *
from ..report import AnalysisBroken, run_scenarios
from ..rnd import Random, REDUCERS
from .. import gridlib
from .c04 import node
from ..algebra import show, fn

SP = {1: ["x"], 2: ["x", "y"], 3: ["x", "y", "z"]}
BASE = "kd.dataset"


def S(name, *idx):
    return Poly.atom(("s", name, tuple(P(i) for i in idx)))


def axis_coord(ev, a):
    return Arr(ev, [N(a)], lambda pos: S(a, *pos))


def deep(p, out=None):
    """sample and interpolation atoms an element is built from (reductions are constants of the data set)"""
    out = set() if out is None else out
    for a in p.atoms():
        if a[0] in ("s", "interp"):
            out.add(a)
        elif a[0] == "f" and a[1].split("(")[0] not in REDUCERS:
            for x in a[2]:
                deep(x, out)
        elif a[0] == "p":
            deep(a[1], out)
        elif a[0] == "e":
            raise Unmodelled("an element the evaluator did not resolve")
    return out


class Unresolved(Exception):
    """neither equal nor provably different"""


def number(p, env):
    """p at a sample of its unknowns (opaque terms get a value that depends on their arguments only)"""
    tot = F(0)
    for m, c in p.t.items():
        v = F(c)
        for at, e in m:
            v = v * atom_number(at, env) ** e
        tot += v
    return tot


def pick(env, key, lo, hi):
    if key not in env:
        r = env["rng"]
        env[key] = F(r.randrange(lo, hi))
    return env[key]


def atom_number(at, env):
    k = at[0]
    if k in ("fdiv", "fmod"):
        x, y = number(at[1], env), number(at[2], env)
        if y == 0:
            raise Unresolved()
        return F(x // y) if k == "fdiv" else x - y * (x // y)
    if k == "n":
        return pick(env, at, 64, 90)
    if k == "i":
        r = env["ranges"].get(at)
        if r is None:
            return pick(env, at, 0, 64)
        lo, hi = number(r[0], env), number(r[1], env)
        return pick(env, at, int(lo), max(int(lo) + 1, int(hi) + 1))
    if k == "f":
        return pick(env, ("f", at[1]) + tuple(number(a, env) for a in at[2]), 0, 4096)
    if k == "s":
        return pick(env, ("s", at[1]) + tuple(number(a, env) for a in at[2]), 0, 4096)
    return pick(env, at, 1, 4096)


def same(ev, a, b, axes):
    """equal for every value of the unknowns?  Different only when a sample of the unknowns shows it."""
    a, b = ev.B.simp(a), ev.B.simp(b)
    if not (a - b).t:
        return True
    # write every opaque row number that is taken apart by // and % as a grid point
    raw = set()
    def walk(q):
        for t in q.atoms():
            if t[0] in ("fdiv", "fmod"):
                walk(t[1]), walk(t[2])
            elif t[0] in ("f", "i"):
                raw.add(t)
    walk(a), walk(b)
    for t in sorted(raw, key=str):
        for order in itertools.permutations(axes):
            flat = Poly.c(0)
            for ax in order:
                at = ("i", "g_" + ax)
                ev.B.ranges[at] = (Poly.c(0), N(ax) - 1)
                flat = flat * N(ax) + Poly.atom(at)
            ev.B._memo.clear()
            if not (ev.B.simp(a.subst({t: flat})) - ev.B.simp(b.subst({t: flat}))).t:
                return True
    for seed in range(8):
        env = {"rng": random.Random(seed), "ranges": ev.B.ranges}
        if number(a, env) != number(b, env):
            return False
    raise Unresolved("%s and %s" % (show(a)[:80], show(b)[:80]))


class Rows:
    """Decides that y (one value per row) belongs to the coordinates X (one column per axis, in this order)."""
    def __init__(self, R, axes, cols, fields=("u",)):
        self.R, self.ev, self.axes, self.cols, self.fields = R, R.ev, axes, cols, fields

    def generic(self, n, tag="row"):
        """positions to inspect: one generic row; for a full grid, one generic grid point"""
        ev = self.ev
        n = P(n)
        out = []
        for order in itertools.permutations(self.axes):
            d = Poly.c(1)
            for a in order:
                d = d * N(a)
            if n == d:
                flat = Poly.c(0)
                for a in order:
                    at = ("i", "%s_%s" % (tag, a))
                    ev.B.ranges[at] = (Poly.c(0), N(a) - 1)
                    flat = flat * N(a) + Poly.atom(at)
                out.append(flat)
                if len(out) >= 24:
                    break
        if not out:
            at = ("i", tag)
            ev.B.ranges[at] = (Poly.c(0), n - 1)
            out.append(Poly.atom(at))
        ev.B._memo.clear()
        return out

    def pair(self, name, cols, value):
        """None, or what is wrong with one row"""
        ev = self.ev
        value = ev.B.simp(value)
        at = [a for a in deep(value)]
        hits = [a for a in at if a[0] == "interp" or a[1] in self.fields]
        other = [a for a in at if a not in hits]
        if other:
            return "the value contains %s" % show(Poly.atom(other[0]))
        if len(hits) != 1:
            return "the value is built from %s" % (", ".join(sorted(show(Poly.atom(h)) for h in hits)) or "no sample")
        h = hits[0]
        if h[0] == "s":
            idx = dict(zip(self.axes, h[2]))
            for c, a in zip(cols, self.cols):
                ca = deep(ev.B.simp(c))
                if len(ca) != 1:
                    return "column %s holds %s" % (a, show(c))
                (q,) = ca
                if q[0] != "s" or q[1] != a:
                    return "the column of %s holds %s" % (a, show(Poly.atom(q)))
                if not same(ev, q[2][0], idx[a], self.axes):
                    return "%s goes with %s" % (show(Poly.atom(h)), show(Poly.atom(q)))
            return None
        # interpolated: z was sampled on src, evaluated at pts
        (z,) = [a for a in deep(h[3])] or [None]
        idx = dict(zip(self.axes, z[2]))
        by = {}
        for s, v in zip(h[1], h[2]):
            (q,) = deep(s)
            if q[2][0] != idx.get(q[1]):
                return "the interpolant is fitted to values of %s along %s" % (show(Poly.atom(z)), show(Poly.atom(q)))
            by[q[1]] = v
        for c, a in zip(cols, self.cols):
            if a not in by:
                return "no coordinate %s" % a
            if not same(ev, P(c), by[a], self.axes):
                return "the value interpolated at %s = %s goes with %s" % (a, show(by[a]), show(P(c)))
        return None

    def decide(self, n, check):
        """None when the rows are right, a message when they are wrong; any parametrisation of the rows may show either"""
        wrong, open_ = None, None
        for p in self.generic(n):
            try:
                m = check(p)
            except Unresolved as e:
                open_ = e
                continue
            if m is None:
                return None
            wrong = wrong or m
        if wrong is None and open_ is not None:
            raise open_
        return wrong

    def matrix(self, name, X, y, fields=None):
        """X: (rows, axes), y: (rows,) or (rows, 1)"""
        R, ev = self.R, self.ev
        if not (isinstance(X, Arr) and isinstance(y, Arr)):
            return R.undecided(name, "pairs %r, %r" % (X, y))
        if X.ndim != 2 or X.dims[1].const() != len(self.cols):
            return self.bad(name, "the coordinate matrix is %r, %d columns expected" % (X, len(self.cols)))
        if y.ndim == 2 and y.dims[1].const() == 1:
            g = lambda p: y.at((p, Poly.c(0)))
        elif y.ndim == 1:
            g = lambda p: y.at((p,))
        else:
            return self.bad(name, "the values are %r" % (y,))
        if X.dims[0] != y.dims[0]:
            return self.bad(name, "%s coordinate rows and %s values" % (show(X.dims[0]), show(y.dims[0])))
        R.sub.count("paired_arrays_decided")
        try:
            m = self.decide(X.dims[0], lambda p: self.pair(name, [X.at((p, Poly.c(c))) for c in range(len(self.cols))], g(p)))
            if m:
                return self.bad(name, m)
        except (Unmodelled, Unresolved, NotPoly, RecursionError, ValueError) as e:
            R.undecided(name, e)

    def grid(self, name, coords, U, order):
        """coords: the coordinate vectors by axis name, U: the array over the axes in this order"""
        R, ev = self.R, self.ev
        if not isinstance(U, Arr) or not all(isinstance(c, Arr) for c in coords.values()):
            return R.undecided(name, "grid %r" % (U,))
        if U.ndim != len(order):
            return self.bad(name, "the values are %r" % (U,))
        R.sub.count("paired_arrays_decided")
        pos, by = [], {}
        for k, a in enumerate(order):
            d = U.dims[k]
            c = coords.get(a)
            full = c is not None and c.ndim > 1 and list(c.dims) == list(U.dims)
            if c is not None and not full and gridlib.prod(c.dims) != d:
                return self.bad(name, "%s coordinates %s for %s rows of the field" % (show(gridlib.prod(c.dims)), a, show(d)))
            at = ("i", "q_" + a)
            ev.B.ranges[at] = (Poly.c(0), d - 1)
            pos.append(Poly.atom(at))
            by[a] = pos[-1]
        ev.B._memo.clear()
        try:
            cols = []
            for a in self.cols:
                if a not in coords:
                    continue
                c = coords[a]
                full = c.ndim > 1 and list(c.dims) == list(U.dims)
                cols.append((a, c.at(tuple(pos) if full else tuple(by[a] if d.const() != 1 else Poly.c(0) for d in c.dims))))
            sub = Rows(R, self.axes, [a for a, _ in cols], self.fields)
            m = sub.pair(name, [v for _, v in cols], U.at(tuple(pos)))
        except (Unmodelled, Unresolved, NotPoly, RecursionError, ValueError) as e:
            return R.undecided(name, e)
        if m:
            self.bad(name, m)

    def bad(self, name, m):
        self.R.sub.find("pairing", name, "%s: %s" % (name, m), name)


# ---------------------------------------------------------------------------- set-up
FALSE_OPS = ("Eq", "Lt", "LtE", "Gt", "GtE", "NotEq")


def assume(c):
    """well formed data: finite, evenly spaced, no degenerate steps, draws no larger than the grid"""
    if c.op in ("allclose", "isclose", "isfinite", "array_equal"):
        return c.op != "isclose"
    if c.desc.startswith("any(") and "== 0" in c.desc:
        return False
    if c.op in ("Lt", "LtE") and isinstance(c.a, Poly) and isinstance(c.b, Poly) and c.b.const() is not None and 0 < c.b.const() < 5 \
            and c.a.atoms() and all(t[0] == "n" for t in c.a.atoms()):
        return False
    return None


def start(sub):
    R = Runner(sub)
    R.rnd = Random(R.ev)
    R.ev.assume.append(assume)
    return R


def go(R, name, thunk, use, must=True, outer=False):
    def th():
        R.rnd.reset()
        R.ev.outer = []
        v = thunk()
        o, R.ev.outer = R.ev.outer, None
        return v, list(R.rnd.losses), o
    for kind, v, taken in R.paths(name, th, must):
        if kind == "ok":
            R.path = taken
            R.rnd.losses = v[1]
            if outer and v[2]:
                R.sub.find("pairing", name, "%s: each of the %s rows is combined with every other row (a column with a flat vector)"
                           % (name, show(v[2][0][0])), name)
            use(v[0])


def dataset(ev, axes, legacy, fields=("u",), target="u", lhs="t", params=(), order=None):
    DS = ev.get(BASE, "PDEDataset")
    kw = {}
    if params:
        kw["param_fields"] = {f: field(ev, f, axes) for f in params}
    if legacy:
        return ev.call(DS, ["q"], dict(x=axis_coord(ev, "x"), t=axis_coord(ev, "t"), usol=field(ev, target, ["x", "t"]), **kw))
    return ev.call(DS, ["q"], dict(fields_data={f: field(ev, f, axes) for f in fields}, coords_1d={a: axis_coord(ev, a) for a in (order or axes)},
                                   axis_order=list(axes), target_field=target, lhs_axis=lhs, **kw))


def meth(ev, o, n, *a, **k):
    return ev.call(ev.getattr(o, n), list(a), k)


# ---------------------------------------------------------------------------- data sets
M = Poly.atom(("n", "m"))


def sampling(method):
    name = "PDEDataset.sample(%r)" % method

    def f(sub):
        R = start(sub)
        def th():
            ds = dataset(R.ev, ["x", "t"], True)
            return meth(R.ev, ds, "sample", M, method=method)
        go(R, name, th, lambda v: Rows(R, ["x", "t"], ["x", "t"]).matrix(name, v[0], v[1]))
    return (name, f)


def nd_coords(axes):
    """the coordinates handed over in another order than the axes"""
    return list(reversed(axes))


def plain_sets():
    out = []

    def mesh(sub):
        name = "PDEDataset.mesh()"
        R = start(sub)
        def th():
            ds = dataset(R.ev, ["x", "t"], True)
            return meth(R.ev, ds, "mesh"), meth(R.ev, R.ev.getattr(ds, "usol"), "reshape", -1, 1)
        go(R, name, th, lambda v: Rows(R, ["x", "t"], ["x", "t"]).matrix(name + " with usol.reshape(-1, 1)", v[0], v[1]))
    out.append(("mesh", mesh))

    def point(sub):
        name = "PDEDataset.get_datapoint()"
        R = start(sub)
        def th():
            ds = dataset(R.ev, ["x", "t"], True)
            ix = [Poly.atom(("i", k)) for k in ("px", "pt")]
            for k, a in (("px", "x"), ("pt", "t")):
                R.ev.B.ranges[("i", k)] = (Poly.c(0), N(a) - 1)
            R.ev.B._memo.clear()
            return ix, meth(R.ev, ds, "get_datapoint", *ix)
        def use(v):
            ix, v = v
            R.sub.count("paired_arrays_decided")
            r = Rows(R, ["x", "t"], ["x", "t"])
            m = r.pair(name, [P(v[0]), P(v[1])], P(v[2]))
            if not m and P(v[2]) != S("u", *ix):
                m = "the value is %s" % show(P(v[2]))
            if m:
                r.bad(name, m)
        go(R, name, th, use)
    out.append(("get_datapoint", point))

    def rng(sub):
        name = "PDEDataset.get_range()"
        R = start(sub)
        k = [0]
        def search(ev, a, kw, n):
            q = gridlib.iterate(ev, a[1], n) if isinstance(a[1], (list, tuple, Arr)) else [a[1]]
            out = []
            for _ in q:
                out.append(Poly.atom(("n", "cut%d" % k[0])))
                k[0] += 1
            return out if isinstance(a[1], (list, tuple, Arr)) else out[0]
        R.ev.handlers["numpy.searchsorted"] = search
        def th():
            k[0] = 0
            ds = dataset(R.ev, ["x", "t"], True)
            v = Poly.atom(("v", "a")), Poly.atom(("v", "b"))
            return meth(R.ev, ds, "get_range", v, v)
        go(R, name, th, lambda v: Rows(R, ["x", "t"], ["x", "t"]).grid(name, {"x": v["x"], "t": v["t"]}, v["usol"], ["x", "t"]))
    out.append(("get_range", rng))

    def boundaries(sub):
        name = "PDEDataset.get_boundaries()"
        for axes in (None, ["t", "y", "x"]):
            R = start(sub)
            def th():
                ds = dataset(R.ev, axes or ["x", "t"], axes is None, order=nd_coords(axes) if axes else None)
                return meth(R.ev, ds, "get_boundaries")
            def use(v):
                for a in axes or ["x", "t"]:
                    R.sub.count("paired_arrays_decided")
                    for k, f in enumerate(("min", "max")):
                        if P(v[a][k]) != gridlib.reduction(R.ev, f, axis_coord(R.ev, a), [], {}, None):
                            Rows(R, [], []).bad(name, "the %s of %s is %s" % (f, a, show(P(v[a][k]))))
            go(R, name, th, use)
    out.append(("get_boundaries", boundaries))
    return out


# ---------------------------------------------------------------------------- DISCOVER adapters
ND = ((["t", "x", "y"], "t"), (["x", "y", "t"], "t"), (["y", "t", "x"], "t"), (["x", "y", "z", "t"], "t"), (["t", "z", "y", "x"], "t"),
      (["x", "y", "t"], "y"))


def regular_adapter(axes, lhs, legacy=False):
    name = "DISCOVER data of %s" % ("a legacy data set" if legacy else "u(%s), lhs %s" % (",".join(axes), lhs))

    def f(sub):
        R = start(sub)
        ev = R.ev
        def th():
            ds = dataset(ev, axes, legacy, ("v", "u"), "u", lhs, ("p", "q"), nd_coords(axes))
            ad = ev.call(ev.get("kd.model.discover.adapter", "DiscoverRegularAdapter"), [ds])
            return meth(ev, ad, "get_data")
        def use(d):
            sp = [a for a in axes if a != lhs]
            order = ["x", "t"] if legacy else [lhs] + sp
            X = d["X"]
            if len(X) != len(sp):
                Rows(R, axes, axes).bad(name, "%d coordinate vectors for %d spatial axes" % (len(X), len(sp)))
            co = dict(zip(sp, X))
            for fl, arr in [("u", d["u"])] + list(zip(d.get("param_names", []), d.get("param_data", []))):
                Rows(R, axes, sp, (fl,)).grid("%s: %s" % (name, fl), co, arr, order)
            if len(d.get("param_data", [])) != 2:
                Rows(R, axes, axes).bad(name, "%d parameter fields of 2" % len(d.get("param_data", [])))
        go(R, name, th, use)
    return ("regular " + name, f)


def sparse_adapter(axes, lhs, legacy=False, params=(), **kw):
    name = "DISCOVER sparse data of %s%s%s" % (
        "a legacy data set" if legacy else "u(%s), lhs %s" % (",".join(axes), lhs),
        "".join(", %s" % k if v is True else ", %s=%s" % (k, show(P(v))) for k, v in sorted(kw.items())),
        ", with a parameter field" if params else "")

    def f(sub):
        R = start(sub)
        ev = R.ev
        ev.assume.append(lambda c: False if "shape" in c.desc and c.op in ("Eq", "NotEq") else None)
        def th():
            ds = dataset(ev, axes, legacy, ("v", "u"), "u", lhs, params, nd_coords(axes))
            ad = ev.call(ev.get("kd.model.discover.adapter", "DiscoverSparseAdapter"), [ds], dict(kw))
            return meth(ev, ad, "get_data")
        def use(d):
            cols = [a for a in axes if a != lhs] + [lhs]
            r = Rows(R, axes, cols)
            for X, y in (("X_u_train", "u_train"), ("X_u_val", "u_val"), ("X_star", "u_star")):
                if X in d and y in d:
                    r.matrix("%s: %s and %s" % (name, X, y), d[X], d[y])
                else:
                    R.undecided(name, "no %s" % X)
            for fl, arr in zip(d.get("param_names", []), d.get("param_data", [])):
                # the rows of X_star are the points the parameter field must be given at
                v = gridlib.reshape(ev, arr, [-1]) if isinstance(arr, Arr) else arr
                Rows(R, axes, cols, (fl,)).matrix("%s: X_star and parameter field %s" % (name, fl), d["X_star"], v)
        go(R, name, th, use)
    return ("sparse " + name, f)


def sparse_all():
    m = Poly.atom(("n", "m"))
    h = F(1, 10)
    out = [sparse_adapter(["x", "t"], "t", True, sample=m), sparse_adapter(["x", "t"], "t", True, ("p",), sample_ratio=h),
           sparse_adapter(["x", "t"], "t", True, sample=m, noise_level=h, random_state=3),
           sparse_adapter(["x", "t"], "t", True, sample=m, data_ratio=h, random_state=3),
           sparse_adapter(["x", "t"], "t", True, spline_sample=True, sample_ratio=h),
           sparse_adapter(["x", "t"], "t", True, spline_sample=True, sample=m, noise_level=h),
           sparse_adapter(["x", "t"], "t", True, sample=m, cut_quantile=h),
           sparse_adapter(["x", "t"], "t", True, ("p",), sample=m, cut_quantile=h),
           sparse_adapter(["x", "t"], "t", True, spline_sample=True, cut_quantile=h)]
    for axes, lhs in ND:
        out.append(sparse_adapter(axes, lhs, False, ("p",), sample=m, noise_level=h, random_state=3))
    return out


def sparse_data(nd):
    """kd.data.SparseData.process_data"""
    def f(sub):
        for mod in ("kd.data",):
            name = "%s.SparseData, %d columns" % (mod, nd + 1)
            R = start(sub)
            ev = R.ev
            def th():
                n = Poly.atom(("n", "rows"))
                xt = Arr(ev, [n, nd + 1], lambda pos: S("c%d" % int(pos[1].const()), pos[0]))
                u = Arr(ev, [n, 1], lambda pos: S("u", *[pos[0]] * (nd + 1)))
                sd = ev.call(ev.get(mod, "SparseData"), [xt, u])
                b = Arr(ev, [nd + 1], lambda pos: Poly.atom(("v", "b")))
                meth(ev, sd, "process_data", (b, b))
                return meth(ev, sd, "get_data")
            def use(d):
                ax = ["c%d" % k for k in range(nd + 1)]
                for X, y in (("X_u_train", "u_train"), ("X_u_val", "u_val")):
                    Rows(R, ax, ax).matrix("%s: %s and %s" % (name, X, y), d[X], d[y])
            go(R, name, th, use)
    return ("SparseData %d" % nd, f)


# ---------------------------------------------------------------------------- training pairs
def net_stub(ev):
    """a network: its value at a row is an unknown function of the row's columns"""
    def f(ev, a, k, n):
        z = next((x for x in a if isinstance(x, Arr)), None)
        if z is None or z.ndim != 2 or z.dims[1].const() is None:
            return Unk("network output")
        c = int(z.dims[1].const())
        return Arr(ev, [z.dims[0], 1], lambda pos: Poly.atom(("f", "net", tuple(z.at((pos[0], Poly.c(j))) for j in range(c)))), torch=True)
    o = stub({"load_state_dict": Native(lambda *a: None), "eval": Native(lambda *a: None), "train": Native(lambda *a: None)})
    o.cls.attrs["__call__"] = Native(f)
    o.attrs["to"] = Native(lambda *a: o)
    for m in ("parameters", "state_dict", "cpu", "cuda", "float", "double"):
        o.attrs[m] = Native(lambda *a: o if m in ("cpu", "cuda", "float", "double") else Unk("parameters"))
    return o


def losses(R, name, axes, cols, fields=("u",), need=1):
    """every regression loss compares the network at a row's coordinates with the sample of that row"""
    ev = R.ev
    r = Rows(R, axes, cols, fields)
    seen = 0
    net = lambda a: any(t[0] == "f" and t[1] == "net" for t in ev.B.simp(a.at((Poly.atom(("i", "r0")),) + (Poly.c(0),) * (a.ndim - 1))).atoms())
    for pred, target, line, fn_ in R.rnd.losses:
        if isinstance(pred, Arr) and isinstance(target, Arr) and not net(pred) and net(target):
            pred, target = target, pred
        if not (isinstance(pred, Arr) and isinstance(target, Arr)):
            R.undecided(name, "loss of %r and %r" % (pred, target))
            continue
        seen += 1
        R.sub.count("paired_arrays_decided")
        if pred.dims != target.dims:
            dp, dt = [" x ".join(show(d) for d in a.dims) for a in (pred, target)]
            r.bad(name, "%s predictions are compared with %s values" % (dp, dt))
            continue
        try:
            def check(p):
                pos = (p,) + tuple(Poly.c(0) for _ in pred.dims[1:])
                el = ev.B.simp(pred.at(pos))
                nets = [a for a in el.atoms() if a[0] == "f" and a[1] == "net"]
                if len(nets) != 1:
                    raise Unresolved("prediction %s" % show(el)[:120])
                return r.pair(name, list(nets[0][2]), target.at(pos))
            m = r.decide(pred.dims[0], check)
            if m:
                r.bad(name, m)
        except (Unmodelled, Unresolved, NotPoly, RecursionError, ValueError) as e:
            R.undecided(name, e)
    if seen < need:
        R.undecided(name, "%d losses of %d were seen" % (seen, need))


def dlga_train(base, one_d):
    name = "%sDLGA training pairs%s" % ("" if base else "KD_", " (1-D targets)" if one_d else "")

    def f(sub):
        R = start(sub)
        ev = R.ev
        n = Poly.atom(("n", "rows"))
        def th():
            if base:
                m = ev.call(ev.get("kd.model.dlga", "DLGA"), [], dict(epi=0.1, input_dim=2, max_iter=1))
            else:
                m = ev.call(ev.get("kd.model.kd_dlga", "KD_DLGA"), [], dict(operators=["u", "u_x"], epi=0.1, input_dim=2, max_iter=1))
            m.attrs["Net"] = net_stub(ev)
            X = Arr(ev, [n, 2], lambda pos: S("xt"[int(pos[1].const())], pos[0]))
            y = Arr(ev, [n] if one_d else [n, 1], lambda pos: S("u", pos[0], pos[0]))
            return meth(ev, m, "train_NN", X, y)
        go(R, name, th, lambda v: losses(R, name, ["x", "t"], ["x", "t"]), outer=True)
    return (name, f)


def dlga_dataset(sample, how):
    name = "KD_DLGA.fit_dataset(sample%s)" % ("=None" if sample is None else ", %r" % how)

    def f(sub):
        R = start(sub)
        ev = R.ev
        class Got(Exception):
            pass
        def th():
            m = ev.call(ev.get("kd.model.kd_dlga", "KD_DLGA"), [], dict(operators=["u", "u_x"], epi=0.1, input_dim=2, max_iter=1))
            got = []
            m.attrs["fit"] = Native(lambda ev, a, k, n: got.append((list(a) + list(k.values()))[:2]) or m)
            ds = dataset(ev, ["x", "t"], True)
            ev.call(ev.getattr(m, "fit_dataset"), [ds], dict(sample=sample, sample_method=how))
            return got
        def use(got):
            if len(got) != 1:
                return R.undecided(name, "fit was called %d times" % len(got))
            Rows(R, ["x", "t"], ["x", "t"]).matrix(name, *got[0])
        go(R, name, th, use)
    return (name, f)


def metann(axes, fields=("u",)):
    name = "SGA surrogate training on u(%s)" % ",".join(axes)

    def f(sub):
        R = start(sub)
        ev = R.ev
        def th():
            ev.module("kd.model.sga.sgapde.metann")["Net"] = Native(lambda ev, a, k, n: net_stub(ev))
            return ev.call(ev.get("kd.model.sga.sgapde.metann", "train_metanet"),
                           [{a: axis_coord(ev, a) for a in nd_coords(axes)}, field(ev, "u", axes)], dict(axis_order=list(axes), max_epoch=1))
        go(R, name, th, lambda v: losses(R, name, axes, axes), outer=True)
    return (name, f)


def sga_context(axes, legacy=False, lhs="t", **kw):
    name = "SGA context of %s%s" % ("a legacy data set" if legacy else "u(%s), lhs %s" % (",".join(axes), lhs),
                                    "".join(", %s" % k for k in kw))

    def f(sub):
        R = start(sub)
        ev = R.ev
        def th():
            ds = dataset(ev, axes, legacy, ("u",), "u", lhs, (), nd_coords(axes))
            m = ev.call(ev.get("kd.model.kd_sga", "KD_SGA"), [], dict(lhs_axis=lhs, **kw))
            solver = Native(lambda ev, a, k, n: stub({"run": Native(lambda ev, a, k, n: ("eq", Poly.atom(("v", "s"))))}))
            ev.call(ev.getattr(m, "fit_dataset"), [ds], dict(solver_cls=solver))
            return ev.getattr(m, "context_")
        def use(c):
            r = Rows(R, axes, axes)
            r.grid(name, ev.getattr(c, "coords_1d"), ev.getattr(c, "u"), axes)
            grids = ev.getattr(c, "coord_grids")
            r.grid(name + ": coordinate grids", grids, ev.getattr(c, "u"), axes)
            if kw.get("delete_edges"):
                u = ev.getattr(c, "u")
                if isinstance(u, Arr) and u.dims[axes.index("x")] == N("x"):
                    r.bad(name, "the x axis is not cropped")
        go(R, name, th, use)
    return (name, f)


# ---------------------------------------------------------------------------- plots
class Done(Exception):
    pass


def sga_plot(axes, legacy=False, lhs="t", **kw):
    name = "SGA field comparison of u(%s), lhs %s%s" % (",".join(axes), lhs, "".join(", %s" % k for k in kw))

    def f(sub):
        R = start(sub)
        ev = R.ev
        def th():
            got = []
            def rec(ev, a, k, n):
                got.append((a, k))
                raise Done()
            ev.module("kd.viz._contracts")["FieldComparisonData"] = Native(rec)
            ds = dataset(ev, axes, legacy, ("u",), "u", lhs, (), nd_coords(axes))
            m = ev.call(ev.get("kd.model.kd_sga", "KD_SGA"), [], dict(lhs_axis=lhs, **kw))
            solver = Native(lambda ev, a, k, n: stub({"run": Native(lambda ev, a, k, n: ("eq", Poly.atom(("v", "s"))))}))
            ev.call(ev.getattr(m, "fit_dataset"), [ds], dict(solver_cls=solver))
            ad = ev.call(adapter_class(ev, "kd.viz._adapters.sga"), [])
            try:
                ev.call(ev.getattr(ad, "render"), [stub({"kind": "field_comparison", "target": m, "options": {}}), stub({"options": {}})])
            except Done:
                pass
            return got
        go(R, name, th, lambda got: comparison(R, name, axes, [a for a in axes if a != lhs], lhs, got))
    return (name, f)


def comparison(R, name, axes, sp, lhs, got, fields=("u",), time=True):
    if not got:
        return R.sub.count("rejecting_paths")       # a warning is returned instead of a figure
    a, k = got[0]
    names = ["spatial_coords", "t_coords", "true_field", "predicted_field"]
    d = dict(zip(names, a))
    d.update(k)
    sc = d.get("spatial_coords")
    if sc is None:
        sc = d.get("x_coords")
    sc = list(sc) if isinstance(sc, (list, tuple)) else [sc]
    co = dict(zip(sp, sc))
    if time:
        co[lhs] = d["t_coords"]
    for w in ("true_field", "predicted_field"):
        Rows(R, axes, list(co), fields).grid("%s: %s" % (name, w), co, d[w], sp + [lhs])


def adapter_class(ev, mod):
    for v in ev.module(mod).values():
        v = ev.force(v)
        if isinstance(v, Cls) and v.mod == mod and v.find("render") is not None:
            return v
    raise AnalysisBroken("no adapter class in %s" % mod)


def field_record(ev, got):
    def rec(ev, a, k, n):
        got.append((a, k))
        raise Done()
    ev.module("kd.viz._contracts")["FieldComparisonData"] = Native(rec)


def discover_plot(axes, lhs="t", legacy=False):
    name = "DISCOVER field comparison of %s" % ("a legacy data set" if legacy else "u(%s), lhs %s" % (",".join(axes), lhs))

    def f(sub):
        R = start(sub)
        ev = R.ev
        def th():
            got = []
            field_record(ev, got)
            ds = dataset(ev, axes, legacy, ("u",), "u", lhs, (), nd_coords(axes))
            ad = ev.call(ev.get("kd.model.discover.adapter", "DiscoverRegularAdapter"), [ds])
            data = dict(meth(ev, ad, "get_data"))
            data["ut"] = data["u"]          # any field known at the grid points
            w = Arr(ev, [1], lambda pos: Poly.c(1))
            prog = stub({"w": w, "STRidge": stub({"terms": [node("u1")]})}, "Program")
            model = stub({"data_class": stub({"get_data": Native(lambda *a: data)}), "searcher": stub({"best_p": [prog]}), "best_p": [prog]})
            rad = ev.call(adapter_class(ev, "kd.viz._adapters.discover"), [])
            try:
                res = ev.call(ev.getattr(rad, "render"), [stub({"kind": "field_comparison", "target": model, "options": {}}),
                                                          stub({"options": {}})])
            except Done:
                pass
            return got
        def use(got):
            sp = [a for a in axes if a != lhs]
            if not got:
                return R.sub.count("rejecting_paths")       # a warning is returned instead of a figure
            a, k = got[0]
            sc = k.get("spatial_coords")
            if sc is None:
                sc = [k.get("x_coords", a[0] if a else None)]
            co = dict(zip(sp, sc))
            for w in ("true_field", "predicted_field"):
                Rows(R, axes, list(co)).grid("%s: %s" % (name, w), co, k.get(w), sp + [lhs])
        go(R, name, th, use)
    return (name, f)


def pinn(axes, legacy=False, **kw):
    name = "PINN training pairs of %s" % ("a legacy data set" if legacy else "u(%s)" % ",".join(axes))

    def f(sub):
        R = start(sub)
        ev = R.ev
        ev.assume.append(lambda c: False if "shape" in c.desc and c.op in ("Eq", "NotEq") else None)
        def th():
            ds = dataset(ev, axes, legacy, ("u",), "u", "t", (), nd_coords(axes))
            ad = ev.call(ev.get("kd.model.discover.adapter", "DiscoverSparseAdapter"), [ds], dict(sample=M))
            data = meth(ev, ad, "get_data")
            cls = ev.get("kd.model.discover.pinn", "PINN_model")
            m = Inst(cls)
            opt = stub({k: Native(lambda *a: None) for k in ("zero_grad", "step")})
            m.attrs.update({"device": "cpu", "nn": net_stub(ev), "pretrain_epoch": 1, "duration": 5, "cur_epoch": 0, "pretrain_path": "p", "pinn_path": "p",
                            "pretrain_path_load": None, "optimizer_pretrain": opt, "optimizer": opt, "blgs_optimizer": opt, "pinn_epoch": 1,
                            "writer": stub({k: Native(lambda *a: None) for k in ("add_scalar", "add_scalars")}), "cache": {}})
            ev.module("kd.model.discover.pinn")["mse_loss"] = Native(lambda ev, a, k, n: R.rnd.loss(a[0], a[1], n))
            meth(ev, m, "import_outter_data", data)
            # the network input is normalised before it is used: keep the raw columns
            m.attrs["net_u"] = Native(lambda ev, a, k, n: ev.call(m.attrs["nn"], [col(ev, a[0], n)], {}))
            meth(ev, m, "pretrain")
            return m
        def use(m):
            cols = [a for a in axes if a != "t"] + ["t"]
            losses(R, name, axes, cols, need=2)
            x, t, u = m.attrs["x"], m.attrs["t"], m.attrs["u_train"]
            R.sub.count("paired_arrays_decided")
            if all(isinstance(v, Arr) for v in list(x) + [t, u]):
                for v, a in zip(list(x) + [t], cols):
                    if v.dims[0] != u.dims[0]:
                        Rows(R, axes, cols).bad(name, "%s values of %s are kept for %s values of the field after the first training"
                                                % (show(v.dims[0]), a, show(u.dims[0])))
        go(R, name, th, use)
    return (name, f)


def col(ev, x, n):
    return ev.call(Ext("torch.cat"), [x], {"axis": 1}) if isinstance(x, list) else x


def eqgpt():
    name = "EqGPT surrogate training pairs"

    def f(sub):
        R = start(sub)
        ev = R.ev
        def th():
            ev.module("kd.model.eqgpt.neural_network")["NN"] = Native(lambda ev, a, k, n: net_stub(ev))
            m = Inst(ev.get("kd.model.kd_eqgpt", "KD_EqGPT"))
            m.attrs["surrogate_epochs"] = 500
            data = Arr(ev, [Poly.atom(("n", "rows")), 3], lambda pos: S(("t", "x", "u")[int(pos[1].const())], *([pos[0]] * (2 if pos[1].const() == 2 else 1))))
            ev.module("kd.model.kd_eqgpt")["range"] = Native(lambda ev, a, k, n: [499])
            meth(ev, m, "_train_single_surrogate", "G1", data, stub({"__truediv__": Native(lambda *a: "p")}), "cpu", "cpu")
            return m
        go(R, name, th, lambda m: losses(R, name, ["t", "x"], ["t", "x"]), outer=True)
    return (name, f)


def builtin_1d(src, spline):
    name = "built-in data %r of the PINN search%s" % (src, ", sampled by position" if spline else "")

    def f(sub):
        R = start(sub)
        ev = R.ev
        def mat(ev, a, k, n):
            d = {q: axis_coord(ev, q) for q in "xt"}
            d.update({q: field(ev, "u", ["x", "t"]) for q in ("usol", "uu", "u")})
            d["U"] = field(ev, "u", ["t", "x"])
            return d
        ev.handlers["scipy.io.loadmat"] = mat
        ev.handlers["numpy.real"] = lambda ev, a, k, n: a[0]
        def th():
            return ev.call(ev.get("kd.model.discover.task.pde.dataset", "load_1d_data"), [src, F(1, 10), F(1, 10), "p"], {"spline_sample": spline})
        def use(v):
            fm = src.startswith("fisher")
            r = Rows(R, ["t", "x"] if fm else ["x", "t"], ["x", "t"])
            r.matrix(name + ": training set", v[0], v[1])
            r.matrix(name + ": validation set", v[3], v[4])
            r.matrix(name + ": whole field", v[6][0], v[6][1])
        go(R, name, th, use)
    return (name, f)


# ----------------------------------------------------------------------------
SELF = """
import numpy as np


def good(x, t, u):
    X, T = np.meshgrid(x, t, indexing='ij')
    i = np.random.permutation(u.size)
    return np.column_stack((X.ravel(), T.ravel()))[i], u.reshape(-1, 1)[i]


def swapped(x, t, u):
    X, T = np.meshgrid(x, t)
    return np.column_stack((X.ravel(), T.ravel())), u.reshape(-1, 1)


def drawn(x, t, u):
    i = np.random.choice(u.size, 10)
    j = np.random.choice(u.size, 10)
    X, T = np.meshgrid(x, t, indexing='ij')
    return np.column_stack((X.ravel()[i], T.ravel()[i])), u.ravel()[j]


def seeded(x, t, u):
    np.random.seed(1)
    i = np.random.permutation(u.size)
    np.random.seed(1)
    j = np.random.permutation(u.size)
    X, T = np.meshgrid(x, t, indexing='ij')
    return np.column_stack((X.ravel()[i], T.ravel()[i])), u.ravel()[j]


def columns(x, t, u):
    X, T = np.meshgrid(x, t, indexing='ij')
    return np.column_stack((T.ravel(), X.ravel())), u.ravel()
"""


class Probe:
    thorough = False

    def __init__(self):
        self.found, self.open = [], []
        self.seen, self.sites, self.facts, self.notes = set(), set(), {}, []

    def count(self, *a):
        pass

    sample = count

    def find(self, rule, c, msg, where=None):
        self.found.append(msg)


def selftest():
    from ..selftest import Overlay
    proj = Overlay(PROJECT(), "kd._kdsa_pair", SELF)
    for fn_, ok in (("good", True), ("swapped", False), ("drawn", False), ("seeded", True), ("columns", False)):
        p = Probe()
        R = Runner(p, proj)
        R.rnd = Random(R.ev)
        v = []
        R.rnd.reset()
        r = R.ev.explore(lambda: R.ev.call(R.ev.get("kd._kdsa_pair", fn_), [axis_coord(R.ev, "x"), axis_coord(R.ev, "t"), field(R.ev, "u", ["x", "t"])]))
        for (kind, v), _ in r:
            if kind != "ok":
                raise AnalysisBroken("C18 self-test: %s raises %s" % (fn_, v))
            Rows(R, ["x", "t"], ["x", "t"]).matrix(fn_, v[0], v[1])
        if bool(p.found) == ok or p.notes:
            raise AnalysisBroken("C18 self-test: %s gives %s %s" % (fn_, p.found, p.notes))


def all_tasks(thorough=False):
    tasks = [sampling(m) for m in ("random", "uniform", "spline")] + plain_sets()
    tasks += [regular_adapter(["x", "t"], "t", True)] + [regular_adapter(a, l) for a, l in ND] + sparse_all()
    tasks += [sparse_data(k) for k in (1, 2, 3)]
    tasks += [dlga_train(b, o) for b in (0, 1) for o in (0, 1)]
    tasks += [dlga_dataset(None, "random"), dlga_dataset(M, "random"), dlga_dataset(M, "uniform"), dlga_dataset(M, "spline")]
    tasks += [metann(a) for a in (["x", "t"], ["t", "x", "y"], ["x", "y", "z", "t"])]
    tasks += [sga_context(["x", "t"], True), sga_context(["t", "x"]), sga_context(["x", "y", "t"]),
              sga_context(["x", "t"], True, delete_edges=True), sga_context(["t", "x"], delete_edges=True)]
    tasks += [sga_plot(["x", "t"], True), sga_plot(["t", "x"]), sga_plot(["t", "y", "x"]), sga_plot(["x", "t"], True, delete_edges=True),
              sga_plot(["t", "x"], delete_edges=True), sga_plot(["x", "y"], lhs="y"), sga_plot(["z", "x", "t", "y"])]
    tasks += [discover_plot(["x", "t"], "t", True)] + [discover_plot(a, l) for a, l in ND]
    tasks += [pinn(["x", "t"], True), pinn(["t", "x", "y"]), pinn(["x", "y", "z", "t"]), ("EqGPT", eqgpt()[1])]
    tasks += [builtin_1d(s, sp) for s in ("Burgers2", "KS", "KS_sine", "KS2", "fisher", "fisher_linear") for sp in (False, True)]
    if thorough:
        m = Poly.atom(("n", "m"))
        for order in itertools.permutations("txyz"):
            axes = list(order)
            tasks += [regular_adapter(axes, "t"), discover_plot(axes, "t"), sga_plot(axes), metann(axes), sga_context(axes)]
        for order in itertools.permutations("txy"):
            axes = list(order)
            for lhs in axes:
                tasks += [regular_adapter(axes, lhs), discover_plot(axes, lhs), sga_plot(axes, lhs=lhs), sga_context(axes, lhs=lhs),
                          sparse_adapter(axes, lhs, False, ("p",), sample=m), sparse_adapter(axes, lhs, False, ("p",), sample_ratio=F(1, 10))]
    return tasks


def run(ctx):
    ctx.rule("abstract interpretation of the data paths over opaque samples u[i,j], x[i], t[j]: at a generic row (grid point) of whatever is handed "
             "on, each coordinate column must hold the coordinate that indexes the sample in the value, in the declared column order")
    ctx.rule("random draws, permutations and sorts are opaque index maps named by the generator state they start from, so two shuffles are the same "
             "only when the generator was restored in between; interpolation must be evaluated at the coordinates the value is listed with")
    ctx.rule("a training loss must compare the network at a row's coordinates with the sample of that row; a column may not be broadcast against a flat vector")
    ctx.assumptions += ["grids have at least 64 points along every axis, finite values and evenly spaced distinct coordinates",
                        "coordinates and values of a file that is loaded belong together (the fisher files hold U(t, x), the others u(x, t))"]
    selftest()
    tasks = all_tasks(ctx.thorough)
    run_scenarios(ctx, tasks)
    ctx.floor("paired_arrays_decided", 300)
    ctx.floor("routines_evaluated", 70)
    for n, _ in tasks[::7]:
        ctx.sample(n)
