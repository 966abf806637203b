"""Random draws, re-indexing and regression losses for the abstract evaluator (kdsa.grid).

A draw that selects or permutes rows is an index array whose element p is the opaque atom draw_k(p): equal draws (the
same generator state, the same length) give equal atoms, different draws different ones.  Noise is an opaque value."""
from .grid import Arr, Native, Unk, Inst, Cls, Unmodelled, PyRaise, Ext, P, low, is_num, Rng, Poly, Cond
from .algebra import show, fdiv, fmod
from . import gridlib
from .gridlib import prod, tochain, copy, iterate

REDUCERS = {"min", "max", "mean", "std", "var", "sum", "median", "prod", "norm", "argmax", "argmin", "nanmean", "nanmax", "nanmin"}


def opaque(name, *args):
    return Poly.atom(("f", name, tuple(P(a) for a in args)))


def index(name, m):
    return lambda ev: Arr(ev, [m], lambda pos: opaque(name, *pos))


class Random:
    """The generators of one evaluation: every stream is a state that each draw advances."""
    def __init__(self, ev, slack=True):
        self.ev = ev
        self.table = {}
        self.state = ("global",)
        self.tstate = ("torch",)
        self.draws = 0
        self.losses = []
        ev.handlers.update(self.handlers())
        ev.slack = slack

    def reset(self):
        self.state, self.tstate = ("global",), ("torch",)
        self.losses = []
        self.draws = 0

    def name(self, key):
        if key not in self.table:
            self.table[key] = len(self.table)
        return self.table[key]

    # ------------------------------------------------------------------ draws
    def draw(self, g, op, n, *shape):
        """the next draw of stream g; n: population size or distribution"""
        st = g.get()
        self.draws += 1
        key = (st, op, str(n), tuple(map(str, shape)))
        k = self.name(key)
        g.put((st, op, str(n), tuple(map(str, shape))))
        return k

    def choice(self, ev, g, args, kw, node, op="choice"):
        pop = args[0] if args else kw.get("a", kw.get("high"))
        size = args[1] if len(args) > 1 else kw.get("size")
        src = None
        if isinstance(pop, (Arr, list, tuple, Rng)):
            src = tochain(ev, list(pop) if isinstance(pop, tuple) else pop)
            n = src.dims[0] if isinstance(src, Arr) else None
        elif is_num(pop):
            n = P(pop)
        else:
            return Unk("choice of %r" % (pop,))
        if n is None:
            return Unk("choice of %r" % (pop,))
        if size is None:
            k = self.draw(g, op, n)
            i = opaque("draw%d" % k, 0)
            return i if src is None else gridlib.getitem(ev, src, i, node)
        if isinstance(size, (Unk, list)):
            return Unk("size of a draw")
        dims = [P(x) for x in size] if isinstance(size, tuple) else [P(size)]
        k = self.draw(g, op, n, *map(show, dims))
        idx = Arr(ev, dims, lambda pos: opaque("draw%d" % k, *pos))
        idx.bound = n
        return idx if src is None else gridlib.getitem(ev, src, idx, node)

    def permutation(self, ev, g, args, kw, node):
        a = args[0] if args else kw.get("x")
        if is_num(a):
            n, src = P(a), None
        else:
            src = tochain(ev, a)
            if not isinstance(src, Arr):
                return Unk("permutation of %r" % (a,))
            n = src.dims[0]
        k = self.draw(g, "perm", n)
        idx = Arr(ev, [n], lambda pos: opaque("draw%d" % k, *pos))
        return idx if src is None else gridlib.getitem(ev, src, idx, node)

    def shuffle(self, ev, g, args, kw, node):
        a = ev.force(args[0])
        if isinstance(a, list):
            # the order of a Python list after the call is unknown
            a[:] = [Unk("element of a shuffled list") for _ in a]
            return None
        if not isinstance(a, Arr):
            return None
        k = self.draw(g, "perm", a.dims[0])
        self.permute(a, lambda p: opaque("draw%d" % k, p))
        return None

    def permute(self, a, f):
        old = a.snap()
        if a.base is None:
            a._f = lambda pos: old((f(pos[0]),) + tuple(pos[1:]))
        else:
            a.set(lambda pos: old((f(pos[0]),) + tuple(pos[1:])))

    def noise(self, ev, g, dims, op):
        if dims is None:
            return opaque("noise%d" % self.draw(g, op, "scalar"))
        k = self.draw(g, op, "noise", *map(show, dims))
        return Arr(ev, dims, lambda pos: opaque("noise%d" % k, *pos))

    def generator(self, seed):
        """an object of numpy.random.Generator / RandomState"""
        if seed is None or isinstance(seed, (Unk,)):
            self.fresh = getattr(self, "fresh", 0) + 1
            seed = "unseeded%d" % self.fresh
        elif isinstance(seed, Inst) and hasattr(seed, "stream"):
            return seed
        o = Inst(Cls("Generator", "numpy.random", [], {}, None))
        st = Own(("seed", str(seed)))
        o.stream = st
        for n in METHODS:
            o.attrs[n] = Native(lambda ev, a, k, nd, n=n: self.op(ev, st, n, a, k, nd), n)
        o.attrs["bit_generator"] = Unk("bit generator")
        return o

    def op(self, ev, g, n, args, kw, node):
        if n in ("choice", "randint", "integers"):
            if n != "choice":
                hi = args[1] if len(args) > 1 and is_num(args[1]) else args[0]
                size = kw.get("size", args[2] if len(args) > 2 else None)
                return self.choice(ev, g, [hi] + ([size] if size is not None else []), {}, node, n)
            return self.choice(ev, g, args, kw, node)
        if n in ("permutation", "permuted"):
            return self.permutation(ev, g, args, kw, node)
        if n == "shuffle":
            return self.shuffle(ev, g, args, kw, node)
        if n == "seed":
            g.put(("seed", str(args[0] if args else kw.get("seed"))))
            return None
        if n == "get_state":
            return ("rngstate", g.get())
        if n == "set_state":
            s = args[0]
            g.put(s[1] if isinstance(s, tuple) and s and s[0] == "rngstate" else ("unknown state", self.draw(g, "x", 0)))
            return None
        size = kw.get("size")
        if n in ("rand", "randn"):
            dims = [P(x) for x in args] if args else None
        elif n in ("random", "random_sample", "ranf", "standard_normal", "sample", "standard_cauchy"):
            size = args[0] if args else size
            dims = sized(size)
        else:
            size = args[2] if len(args) > 2 else size
            dims = sized(size)
            if size is None:
                for x in list(args[:2]) + [kw.get("loc"), kw.get("scale")]:
                    if isinstance(x, Arr):
                        dims = list(x.dims)
        return self.noise(ev, g, dims, n)

    # ------------------------------------------------------------------ handlers
    def handlers(self):
        H = {}
        g = Glob(self, "state")
        for n in METHODS:
            H["numpy.random." + n] = (lambda ev, a, k, nd, n=n: self.op(ev, g, n, a, k, nd))
        H["numpy.random.default_rng"] = H["numpy.random.RandomState"] = H["numpy.random.Generator"] = \
            lambda ev, a, k, nd: self.generator(a[0] if a else k.get("seed"))
        py = Glob(self, "pystate")
        self.pystate = ("python",)
        for n in ("shuffle", "seed", "random", "uniform", "choice", "randint"):
            if n in ("shuffle", "seed", "random"):
                H["random." + n] = (lambda ev, a, k, nd, n=n: self.op(ev, py, n, a, k, nd))
        tg = Glob(self, "tstate")
        H["torch.randperm"] = lambda ev, a, k, nd: self.permutation(ev, tg, a, k, nd)
        H["torch.manual_seed"] = lambda ev, a, k, nd: self.op(ev, tg, "seed", a, k, nd)
        for n in ("randn", "rand"):
            H["torch." + n] = lambda ev, a, k, nd, n=n: self.op(
                ev, tg, n, list(a[0]) if a and isinstance(a[0], (tuple, list)) else a, k, nd)
        for n in ("randn_like", "rand_like"):
            H["torch." + n] = lambda ev, a, k, nd, n=n: self.noise(ev, tg, list(tochain(ev, a[0]).dims), n)
        H["numpy.unravel_index"] = unravel
        H["numpy.setdiff1d"] = self.setdiff
        H["numpy.linspace"] = H["torch.linspace"] = linspace
        H["numpy.repeat"] = repeat
        H["numpy.tile"] = tile
        H["arr.repeat"] = lambda ev, a, k, nd: (tile_t if a[0].torch else repeat)(ev, a, k, nd)
        H["arr.sort"] = self.sort_method
        H["numpy.sort"] = lambda ev, a, k, nd: self.sorted(ev, copy(ev, tochain(ev, a[0])))
        H["numpy.argsort"] = self.argsort
        H["numpy.unique"] = self.unique
        H["arr.argsort"] = self.argsort
        H["builtins.sorted"] = self.py_sorted
        H["scipy.interpolate.interp2d"] = interp2d
        H["scipy.interpolate.RegularGridInterpolator"] = rgi
        H["scipy.interpolate.griddata"] = self.griddata
        H["torch.nn.MSELoss"] = lambda ev, a, k, nd: Native(lambda ev, a, k, nd: self.loss(a[0], a[1], nd), "MSELoss")
        H["torch.nn.functional.mse_loss"] = lambda ev, a, k, nd: self.loss(a[0], a[1], nd)
        H["torch.cuda.device_count"] = lambda ev, a, k, nd: 0
        for r in ("lhs",):
            H["pyDOE.lhs"] = H["pyDOE2.lhs"] = lambda ev, a, k, nd: self.noise(ev, g, [P(a[1] if len(a) > 1 else k.get("samples")), P(a[0])], "lhs")
        H["torch.split"] = H["numpy.split"] = H["numpy.array_split"] = lambda ev, a, k, nd: Unk("split")
        return H

    def loss(self, pred, target, node):
        self.losses.append((pred, target, getattr(node, "lineno", "?"), ""))
        return Unk("loss")

    def griddata(self, ev, a, k, nd):
        pts = a[0] if a else k.get("points")
        vals = a[1] if len(a) > 1 else k.get("values")
        self.losses.append((pts, vals, getattr(nd, "lineno", "?"), "griddata"))
        return Unk("griddata")

    def setdiff(self, ev, a, k, nd):
        x, y = tochain(ev, a[0]), tochain(ev, a[1])
        if not isinstance(x, Arr) or not isinstance(y, Arr) or x.ndim != 1:
            return Unk("setdiff1d")
        t = self.name(("setdiff", tuple(map(show, x.dims)), elem(y)))
        f = x.snap()
        m = x.dims[0] - prod(y.dims)
        return Arr(ev, [m], lambda pos: f((opaque("rest%d" % t, *pos),)))

    def sorted(self, ev, a):
        if not isinstance(a, Arr):
            return a
        t = self.name(("sort", elem(a)))
        if a.ndim == 1:
            self.permute(a, lambda p: opaque("order%d" % t, p))
            return a
        return Unk("sorted matrix")

    def unique(self, ev, a, k, nd):
        """distinct values: of a vector of coordinates, all of them, in ascending order"""
        x = tochain(ev, a[0])
        if not isinstance(x, Arr) or len(a) > 1 or k:
            return Unk("unique")
        if x.ndim > 1:
            x = gridlib.reshape(ev, x, [prod(x.dims)], nd)
        return self.sorted(ev, copy(ev, x))

    def sort_method(self, ev, a, k, nd):
        if isinstance(a[0], Arr):
            if a[0].torch:
                r = self.sorted(ev, copy(ev, a[0]))
                return (r, Unk("order"))
            if isinstance(self.sorted(ev, a[0]), Unk):
                raise Unmodelled("sorting a matrix in place")
        return None

    def argsort(self, ev, a, k, nd):
        x = tochain(ev, a[0])
        if not isinstance(x, Arr) or x.ndim != 1:
            return Unk("argsort")
        t = self.name(("sort", elem(x)))
        return Arr(ev, list(x.dims), lambda pos: opaque("order%d" % t, *pos))

    def py_sorted(self, ev, a, k, nd):
        if isinstance(a[0], Arr) and a[0].dims[0].const() is None:
            return self.sorted(ev, copy(ev, a[0]))
        return gridlib.builtin(ev, "sorted", a, k, nd)


METHODS = ("choice", "randint", "integers", "permutation", "permuted", "shuffle", "seed", "get_state", "set_state", "rand", "randn",
           "random", "random_sample", "uniform", "normal", "standard_normal", "sample", "laplace", "exponential")


class Own:
    def __init__(self, st):
        self.st = st

    def get(self):
        return self.st

    def put(self, s):
        self.st = s


class Glob:
    def __init__(self, r, name):
        self.r, self.n = r, name

    def get(self):
        return getattr(self.r, self.n)

    def put(self, s):
        setattr(self.r, self.n, s)


def elem(a):
    try:
        return tuple(show(d) for d in a.dims), show(a.at(tuple(Poly.atom(("i", "r%d" % k)) if d.const() != 1 else Poly.c(0)
                                                               for k, d in enumerate(a.dims))))
    except Unmodelled:
        return id(a)


def sized(size):
    if size is None:
        return None
    if isinstance(size, Unk):
        raise Unmodelled("size of a draw")
    return [P(x) for x in size] if isinstance(size, (tuple, list)) else [P(size)]


def linspace(ev, args, kw, node):
    a, b = args[0], args[1]
    n = args[2] if len(args) > 2 else kw.get("num", kw.get("steps", 50))
    for v in (a, b, n):
        if not is_num(v):
            return Unk("linspace")
    a, b, n = P(a), P(b), P(n)
    return Arr(ev, [n], lambda pos: a + opaque("fraction", pos[0], n - 1) * (b - a), torch=False)


def unravel(ev, args, kw, node):
    idx, shape = tochain(ev, args[0]), args[1] if len(args) > 1 else kw.get("shape")
    if kw.get("order", "C") != "C" or isinstance(shape, Unk):
        return Unk("unravel_index")
    shape = [P(s) for s in (shape if isinstance(shape, (tuple, list)) else [shape])]
    f = idx.snap() if isinstance(idx, Arr) else (lambda pos: P(idx))
    out = []
    for k in range(len(shape)):
        def g(pos, k=k):
            flat = f(pos)
            for d in reversed(shape[k + 1:]):
                flat = fdiv(flat, d)
            return ev.B.simp(fmod(flat, shape[k]) if k else flat)
        out.append(Arr(ev, list(idx.dims), g) if isinstance(idx, Arr) else g(()))
    return tuple(out)


def repeat(ev, args, kw, node):
    a = tochain(ev, args[0])
    r = args[1] if len(args) > 1 else kw.get("repeats")
    ax = args[2] if len(args) > 2 else kw.get("axis")
    if not isinstance(a, Arr) or not is_num(r):
        return Unk("repeat")
    r = P(r)
    if ax is None:
        a, ax = gridlib.reshape(ev, a, [prod(a.dims)], node), 0
    ax = gridlib.axis_of(ev, ax, a.ndim, node)
    f = a.snap()
    dims = list(a.dims)
    dims[ax] = dims[ax] * r
    return Arr(ev, dims, lambda pos: f(tuple(ev.B.simp(fdiv(p, r)) if k == ax else p for k, p in enumerate(pos))), torch=a.torch)


def tile(ev, args, kw, node):
    a = tochain(ev, args[0])
    r = args[1] if len(args) > 1 else kw.get("reps")
    if not isinstance(a, Arr) or isinstance(r, Unk):
        return Unk("tile")
    reps = [P(x) for x in r] if isinstance(r, (tuple, list)) else [P(r)]
    dims = list(a.dims)
    f = a.snap()
    lead = max(0, len(reps) - a.ndim)
    reps = [Poly.c(1)] * (a.ndim - len(reps)) + reps
    dims = [Poly.c(1)] * lead + dims

    def g(pos):
        q = [p if reps[k] == Poly.c(1) else Poly.c(0) if dims[k].const() == 1 else ev.B.simp(fmod(p, dims[k])) for k, p in enumerate(pos)]
        return f(tuple(q[lead:]))
    return Arr(ev, [d * x for d, x in zip(dims, reps)], g, torch=a.torch)


def tile_t(ev, args, kw, node):
    r = args[1:] if len(args) > 2 or is_num(args[1]) else args[1]
    return tile(ev, [args[0], tuple(r)], {}, node)


def vector(ev, v):
    v = tochain(ev, v)
    if isinstance(v, Arr) and v.ndim > 1:
        v = gridlib.reshape(ev, v, [prod(v.dims)])
    return v


def interp2d(ev, args, kw, node):
    """f(xn, yn)[j, i] interpolates z[j, i] given on (x[i], y[j])"""
    names = ("x", "y", "z")
    x, y, z = [args[k] if len(args) > k else kw.get(names[k]) for k in range(3)]
    x, y, z = vector(ev, x), vector(ev, y), tochain(ev, z)
    if not all(isinstance(v, Arr) for v in (x, y, z)) or z.ndim != 2:
        return Unk("interp2d")
    sample = lambda: z.at((Poly.atom(("i", "rj")), Poly.atom(("i", "ri"))))
    xs, ys = x.at((Poly.atom(("i", "ri")),)), y.at((Poly.atom(("i", "rj")),))
    zs = sample()

    def f(ev, a, k, n):
        xn, yn = vector(ev, a[0]), vector(ev, a[1])
        if not (isinstance(xn, Arr) and isinstance(yn, Arr)):
            return Unk("interp2d value")
        fx, fy = xn.snap(), yn.snap()
        return Arr(ev, [yn.dims[0], xn.dims[0]], lambda pos: Poly.atom(("interp", (xs, ys), (fx((pos[1],)), fy((pos[0],))), zs)))
    return Native(f, "interp2d")


def rgi(ev, args, kw, node):
    pts, vals = args[0], args[1]
    pts = iterate(ev, pts, node)
    if isinstance(pts, Unk) or not isinstance(vals, Arr):
        return Unk("interpolator")
    pts = [vector(ev, p) for p in pts]
    ix = [Poly.atom(("i", "r%d" % k)) for k in range(len(pts))]
    src = tuple(p.at((i,)) for p, i in zip(pts, ix))
    zs = vals.at(tuple(ix))

    def f(ev, a, k, n):
        q = tochain(ev, a[0])
        if not isinstance(q, Arr) or q.ndim < 1 or q.dims[-1].const() != len(pts):
            return Unk("interpolated value")
        g = q.snap()
        return Arr(ev, q.dims[:-1], lambda pos: Poly.atom(("interp", src, tuple(g(tuple(pos) + (Poly.c(c),)) for c in range(len(pts))), zs)))
    return Native(f, "interpolator")
