"""Driver for pyirf.interpolation (C22 - C29)."""
import math

from common import *
from pyirf import interpolation as I
from pyirf.interpolation.base_interpolators import PDFNormalization

NORM = dict(area=PDFNormalization.AREA, cone=PDFNormalization.CONE_SOLID_ANGLE)
INT = dict(lin=I.GridDataInterpolator, nn=I.ParametrizedNearestNeighborSearcher, pnn=I.DiscretePDFNearestNeighborSearcher,
           mm=I.MomentMorphInterpolator, quant=I.QuantileInterpolator)
EXT = dict(nsx=I.ParametrizedNearestSimplexExtrapolator, ve=I.ParametrizedVisibleEdgesExtrapolator,
           nn=I.ParametrizedNearestNeighborSearcher, pnn=I.DiscretePDFNearestNeighborSearcher,
           mmx=I.MomentMorphNearestSimplexExtrapolator)
ALL = {**INT, **EXT}
EST = dict(param=I.ParametrizedComponentEstimator, pdf=I.DiscretePDFComponentEstimator, aeff=I.EffectiveAreaEstimator,
           radmax=I.RadMaxEstimator, edisp=I.EnergyDispersionEstimator, psf=I.PSFTableEstimator)


# ------------------------------------------------------------------- grids --
def grid1(ctx, n=None):
    r = ctx.rng
    n = n or r.choice([2, 2, 3, 4, 6])
    if r.random() < 0.4:
        p = np.array(sorted(r.sample(range(-8, 20), n))) / r.choice([1, 2, 4])
    else:
        p = np.cumsum(ctx.np.uniform(0.05, 2, n)) - r.choice([0, 3])
    return p.reshape(-1, 1) * 1.0


def degenerate(p):
    n = len(p)
    s = np.max(np.ptp(p, axis=0))
    sc = np.ptp(p, axis=0)
    z = p / np.where(sc > 0, sc, 1)
    for a in range(n):
        for b in range(a):
            for c in range(b):
                u_, v_ = z[b] - z[a], z[c] - z[a]
                if abs(u_[0] * v_[1] - u_[1] * v_[0]) < 2e-2:
                    return True
    return s == 0


def grid2(ctx):
    r = ctx.rng
    k = r.randrange(6)
    if k == 0:
        nx, ny = r.choice([(2, 2), (2, 3), (3, 2), (3, 3)])
        xs, ys = sorted(r.sample(range(-6, 6), nx)), sorted(r.sample(range(-6, 6), ny))
        p = np.array([(x, y) for x in xs for y in ys]) / r.choice([1, 2, 4]) * r.choice([(1, 1), (1, 10), (10, 1), (0.25, 4)])
    else:
        n = r.choice([3, 4, 5, 6, 7])
        while True:
            p = ctx.np.uniform(-1, 1, (n, 2))
            if not degenerate(p):
                break
        if k == 1:
            p = np.round(p * 32) / 16
            if degenerate(p):
                return grid2(ctx)
        if k == 2:      # cosine of zenith and azimuth in degrees
            p = p * [0.2, 20] + [0.8, 100]
        if k == 3:
            p = p * 10.0 ** r.randrange(-3, 4)
    p = p[ctx.np.permutation(len(p))]
    return p * 1.0


def inside_target(ctx, p):
    """(target, witness) with target in the hull of the points."""
    r = ctx.rng
    n, d = p.shape
    k = r.randrange(6)
    w = np.zeros(n)
    if k == 0:
        w[r.randrange(n)] = 1
        return p[np.argmax(w)].copy(), w
    if k == 1:
        i, j = r.sample(range(n), 2)
        w[i] = 0.5 if r.random() < 0.5 else 0.5 + r.choice([-1, 1]) * 10 ** -r.uniform(5, 11)
        w[j] = 1 - w[i]
    else:
        idx = r.sample(range(n), min(n, d + 1 if k < 4 else n))
        w[idx] = ctx.np.dirichlet(np.ones(len(idx)))
    return w @ p, w


def outside_target(ctx, p):
    r = ctx.rng
    lo, hi = p.min(axis=0), p.max(axis=0)
    c, s = (lo + hi) / 2, (hi - lo)
    if p.shape[1] == 2 and r.random() < 0.2:      # exactly in line with two grid points
        i, j = r.sample(range(len(p)), 2)
        return p[i] + (p[j] - p[i]) * r.choice([-3.0, -1.0, -0.5, 1.5, 2.0, 4.0])
    while True:
        x = c + s * ctx.np.uniform(-1, 1, p.shape[1]) * r.choice([0.6, 1, 3])
        if np.any(x < lo - 1e-3 * s) or np.any(x > hi + 1e-3 * s):
            return x
        if p.shape[1] == 2 and r.random() < 0.3:
            return x                                # may be in the hull or not


def targets(ctx, p, n, want="any"):
    r = ctx.rng
    out = []
    for _ in range(n):
        if want == "in" or (want == "any" and r.random() < 0.5):
            out.append(inside_target(ctx, p))
        else:
            out.append((outside_target(ctx, p), None))
    return out


# --------------------------------------------------------------- templates --
def rand_shape(ctx):
    return ctx.rng.choice([(), (1,), (3,), (2, 2), (1, 3), (2, 1, 2)])


def affine_table(ctx, p, n):
    c = np.round(ctx.np.normal(0, 1, (n, p.shape[1] + 1)), 3)
    return c, (c[:, 0][:, None] + c[:, 1:] @ p.T).T


def bump(ctx, edges, kind):
    """contents (not density) of one template on the bins"""
    r = ctx.rng
    nb = len(edges) - 1
    a, b = edges[0], edges[-1]
    if kind == "smooth":
        from scipy.stats import norm
        m = a + (b - a) * r.uniform(0.35, 0.65)
        s = (b - a) * r.uniform(0.06, 0.09)
        return np.diff(norm.cdf(edges, m, s))
    if kind == "single":
        x = np.zeros(nb)
        x[r.randrange(nb)] = 1
        return x
    if kind == "empty":
        return np.zeros(nb)
    if kind == "sparse":
        x = ctx.np.uniform(0.1, 1, nb) * (ctx.np.random(nb) < 0.4)
        x[r.randrange(nb)] = 0.5
        return x
    return ctx.np.uniform(0.05, 1, nb)


def binsize(edges, norm):
    return np.diff(edges) if norm == "area" else np.diff(2 * np.pi * 2 * np.sin(edges / 2) ** 2)


def pdf_table(ctx, n, shape, ax, edges, norm, kinds):
    """n tables; edges in canonical units; shape[ax] bins; normalised lines, some of them empty"""
    r = ctx.rng
    out = np.empty((n,) + shape)
    mv = np.moveaxis(out, ax + 1, -1)
    w = binsize(edges, norm)
    for idx in np.ndindex(*mv.shape[:-1]):
        c = bump(ctx, edges, r.choice(kinds))
        s = c.sum()
        mv[idx] = c / w / s if s > 0 else 0
    return out


# -------------------------------------------------------------------- calls --
def invoke(fn, enc):
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = fn()
    except Exception as e:
        return {"k": "raise", "type": exc_name(e), "msg": str(e)[:200]}, None
    warned = any(x.category is UserWarning for x in w)
    try:
        a = np.asarray(enc(r))
        out = dict(k="ok", shape=list(a.shape), v=nums(a.ravel()), warned=warned)
    except Exception as e:
        out = {"k": "malformed", "type": exc_name(e), "msg": str(e)[:200]}
    return out, r


class Obj:
    """An estimator or a raw inter-/extrapolator under test."""

    def __init__(self, ctx, name, cls, grid, values, method, extra="none", axis=0, edges=None, eunit="none", norm="area",
                 unit="none", m=1, ord=2, fill="none", floor=(1.0, "m2"), affine=(), smooth=False, flat_grid=False,
                 defaults=True, qres=None, full_axis=None, gd=None):
        """values: array (n, ...), numbers in `unit`; axis: index of the bins in a table (0-based)"""
        self.name, self.cls, self.grid, self.method, self.extra = name, cls, grid, method, extra
        r = ctx.rng
        shape = values.shape[1:] or (1,)
        self.ev = dict(op="init", name=name, cls=cls, grid=nums(grid), values=[nums(v.ravel()) for v in values], shape=list(shape),
                       axis=axis + 1, edges=qrec(edges if edges is not None else [], eunit), unit=unit, norm=norm, method=method,
                       extra=extra, m=m, ord=ord, fill=fill if isinstance(fill, str) else num(fill),
                       floor=dict(v=num(floor[0]), u=floor[1]), bad="", affine=nums(affine) if len(affine) else [], smooth=smooth,
                       levels=int(round(1 / qres)) if qres else 0, kind=(gd or {}).get("method", "linear"),
                       outside=num((gd or {}).get("fill_value", math.nan)))
        g = grid.copy()
        if flat_grid:
            g = g[:, 0]
        ik, ek = {}, {}
        for meth, kw in ((method, ik), (extra, ek)):
            if meth in ("nn", "pnn") and ord != 2:
                kw["norm_ord"] = ord
            if meth == "ve" and m != 1:
                kw["m"] = m
            if meth == "quant" and qres:
                kw["quantile_resolution"] = qres
            if norm == "cone" and cls != "psf" and meth != "none":
                kw["normalization"] = NORM[norm]
        vals = values.copy()
        if gd and method == "lin":
            ik.update(gd)
        if cls == "raw":
            a = (g, edges.copy(), vals) if edges is not None else (g, vals)
            kw = ik
            self.make = lambda: ALL[method](*a, **kw)
        else:
            kw = {}
            if not (r.random() < 0.3 and method == ("quant" if cls in ("pdf", "edisp", "psf") else "lin")):
                kw["interpolator_cls"] = INT[method]
            if ik or r.random() < 0.3:
                kw["interpolator_kwargs"] = ik
            if extra != "none":
                kw["extrapolator_cls"] = EXT[extra]
                if ek or r.random() < 0.3:
                    kw["extrapolator_kwargs"] = ek
            if cls == "param":
                a = (g, vals)
            elif cls == "pdf":
                a = (g, edges.copy(), vals)
            elif cls == "aeff":
                a = (g, vals * UNITS[unit])
                if floor != (1.0, "m2") or r.random() < 0.3:
                    kw["min_effective_area"] = floor[0] * UNITS[floor[1]]
            elif cls == "radmax":
                a = (g, vals)
                if fill != "none":
                    kw["fill_value"] = fill if isinstance(fill, str) else float(fill)
            elif cls == "edisp":
                a = (g, edges.copy(), vals)
                if axis != len(shape) - 2 or r.random() < 0.3:
                    kw["axis"] = r.choice([axis + 1, axis - len(shape)])
            elif cls == "psf":
                a = (g, edges * UNITS[eunit], vals / UNITS[unit])
                if axis != len(shape) - 1 or r.random() < 0.3:
                    kw["axis"] = r.choice([axis + 1, axis - len(shape)])
            self.make = lambda: EST[cls](*a, **kw)
        self.obj = None

    def init(self):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.obj = self.make()
            self.ev["out"] = dict(k="ok")
        except Exception as e:
            self.ev["out"] = {"k": "raise", "type": exc_name(e), "msg": str(e)[:200]}
        return self.ev

    def enc(self, x):
        return canon(x, "m2") if self.cls == "aeff" else canon(x, 1 / u.sr) if self.cls == "psf" else plain(x)

    def call(self, ctx, x, w=None, bad=""):
        x = np.array(x, dtype=float)
        t = x.copy()
        if self.cls == "raw" or ctx.rng.random() < 0.6:
            t = t[np.newaxis]
        if bad == "list":
            t = t.tolist()
        elif bad == "several":
            t = np.array([x, x])
        elif bad == "dimension":
            t = np.append(x, 0.5) if len(x) < 3 else x[:-1]
            t = t if ctx.rng.random() < 0.5 else t[np.newaxis]
        out, r = invoke(lambda: self.obj(t), self.enc)
        self.last = r
        return dict(op="call", name=self.name, target=nums(x), witness=nums(w) if w is not None else [], bad=bad, out=out)


def session(ctx, tag, objs, tg):
    """Construct all objects, then call them in turn; some calls are repeated, some results overwritten."""
    r = ctx.rng
    ev = [o.init() for o in objs]
    plan = [(o, x) for o in objs if o.obj is not None for x in tg]
    if len(objs) > 1:
        r.shuffle(plan)
    for k, (o, (x, w)) in enumerate(plan):
        ev.append(o.call(ctx, x, w))
        if r.random() < 0.15 and isinstance(o.last, np.ndarray) and o.last.flags.writeable:
            o.last[...] = 77 * (o.last.unit if isinstance(o.last, u.Quantity) else 1)
            ev.append(dict(op="scribble", name=o.name))
            ev.append(o.call(ctx, x, w))
        elif r.random() < 0.1:
            ev.append(o.call(ctx, x, w))
    ctx.w.trace(ctx.id(tag), ev)


# the grids of the model on axes of different scale
STRETCH = [(1, 1), (1, 1), (1, 1), (1, 10), (8, 1), (0.25, 4), (20, 0.5)]
SHIFT = [(0, 0), (-1, -1), (-1, -1), (-0.5, -0.5), (-1, 100), (4, -2)]


def lattice_targets(ctx, n, want="any"):
    return [(np.array([ctx.rng.randrange(-2, 7) / 2, ctx.rng.randrange(-2, 7) / 2]), None) for _ in range(n)]


def decades(ctx):
    """Grids of parameters of any size (powers of two: points on a line stay on it)."""
    return 2.0 ** ctx.rng.randrange(-30, 31) if ctx.rng.random() < 0.2 else 1.0


def grids(ctx, nbeh, n2, n1):
    """2D grids of the model, random 2D grids, 1D grids, with some targets."""
    b = [x["grid"] for x in ctx.mine(ctx.beh) if "grid" in x]
    ctx.rng.shuffle(b)
    for g in b[:nbeh]:
        p = np.array(g, dtype=float)[ctx.np.permutation(len(g))]
        sc, sh = np.array(ctx.rng.choice(STRETCH)) * decades(ctx), np.array(ctx.rng.choice(SHIFT))
        yield "lat", (p + sh) * sc, lambda k, want="any", sc=sc, sh=sh: [((x + sh) * sc, w) for x, w in lattice_targets(ctx, k, want)]
    for _ in range(n2):
        p = grid2(ctx) * decades(ctx)
        yield "rnd", p, lambda k, want="any", p=p: targets(ctx, p, k, want)
    for _ in range(n1):
        p = grid1(ctx) * decades(ctx)
        if ctx.rng.random() < 0.5:
            p = p[ctx.np.permutation(len(p))]
        yield "one", p, lambda k, want="any", p=p: targets(ctx, p, k, want)


# --------------------------------------------------------- parametrised ----
def part_param(methods, cls="param"):
    def part(ctx):
        r = ctx.rng
        for tag, p, tg in grids(ctx, ctx.n(160, 4000), ctx.n(240, 3000), ctx.n(80, 800)):
            S = rand_shape(ctx)
            N = int(np.prod(S)) if S else 1
            aff = ()
            v = ctx.np.normal(0, 1, (len(p), N)) * 10.0 ** r.randrange(-3, 4)
            if r.random() < 0.4:
                aff, v = affine_table(ctx, p, N)
            elif r.random() < 0.2:
                v = np.round(v * 4)
            v = v.reshape((len(p),) + S)
            objs = []
            for k, (m, x) in enumerate(r.sample(methods, min(len(methods), r.choice([1, 2])))):
                objs.append(Obj(ctx, f"E{k}", cls, p, v, m, x, m=r.choice([1, 1, 2, 3, 7]), ord=r.choice([2, 2, 1, 3]),
                                flat_grid=p.shape[1] == 1 and r.random() < 0.4))
            session(ctx, tag, objs, tg(r.choice([2, 4])))
    return part


def part_sweep(ctx):
    """One extrapolator, many targets around grids on axes of different scale."""
    r = ctx.rng
    for tag, p, tg in grids(ctx, ctx.n(64, 1500), ctx.n(24, 300), 0):
        v = ctx.np.normal(0, 1, (len(p), 1))
        session(ctx, tag, [Obj(ctx, "S", "param", p, v, "nn", "nsx" if r.random() < 0.8 else "ve")], tg(12))


def part_raw(ctx):
    """The inter- and extrapolators used without an estimator."""
    r = ctx.rng
    for _ in range(ctx.n(160, 1600)):
        m = r.choice({"C23": ["lin"], "C24": ["nsx", "ve"], "C29": ["nn", "nn", "pnn"]}[ctx.prop])
        p = (grid2(ctx) if r.random() < 0.6 else grid1(ctx)) * decades(ctx)
        want = "in" if m == "lin" else "out" if m in ("nsx", "ve") else "any"
        tg = targets(ctx, p, 3, want)
        if want == "out":      # not in the hull
            tg = [(x, None) for x, _ in tg if outside_hull(p, x)]
        S = rand_shape(ctx)
        v = ctx.np.normal(0, 1, (len(p),) + S)
        if m == "nn" and r.random() < 0.3:      # templates may hold anything
            v[ctx.np.random(v.shape) < 0.2] = r.choice([np.nan, np.inf, -np.inf, -0.0])
        kw = {}
        if m == "pnn":
            nb = r.choice([2, 5])
            v = ctx.np.uniform(0, 1, (len(p),) + S + (nb,))
            kw = dict(edges=np.linspace(0, 1, nb + 1), axis=len(S))
        cls = "raw"
        if m == "lin":
            # further arguments are those of scipy's griddata
            kw["gd"] = r.choice([None, None, {"fill_value": -7.25}, {"method": "linear"}, {"method": "nearest"}, {"method": "nearest"}])
            if r.random() < 0.5:
                tg = targets(ctx, p, 3)
            if kw["gd"] and r.random() < 0.4:
                cls, tg = "param", [(x, w) for x, w in tg if not outside_hull(p, x)]
        session(ctx, "raw", [Obj(ctx, "R", cls, p, v, m, m=r.choice([1, 2, 4, 6, 11]), ord=r.choice([2, 1, 3, 4]),
                                 flat_grid=p.shape[1] == 1 and r.random() < 0.4, **kw)], tg)


def outside_hull(p, x):
    from scipy.spatial import Delaunay
    if p.shape[1] == 1:
        return x[0] < p.min() or x[0] > p.max()
    return Delaunay(p).find_simplex(x, tol=1e-6) < 0


def part_3d(ctx):
    r = ctx.rng
    for _ in range(ctx.n(60, 600)):
        n = r.choice([4, 5, 7, 9])
        p = ctx.np.uniform(-1, 1, (n, 3))
        while abs(np.linalg.det(p[1:4] - p[0])) < 0.05:
            p = ctx.np.uniform(-1, 1, (n, 3))
        aff, v = affine_table(ctx, p, 2)
        if r.random() < 0.4:
            aff, v = (), ctx.np.normal(0, 1, (n, 2))
        m, x = r.choice([("lin", "none"), ("lin", "nn"), ("nn", "nn"), ("lin", "nsx"), ("lin", "ve")])
        tg = []
        for _ in range(3):
            if r.random() < 0.6:
                w = ctx.np.dirichlet(np.ones(n) * 2) if r.random() < 0.7 else np.eye(n)[r.randrange(n)]
                tg.append((w @ p, w))
            else:
                q_ = p.max(axis=0) + ctx.np.uniform(0.01, 1, 3)
                tg.append((q_ if r.random() < 0.5 else np.where(ctx.np.random(3) < 0.5, q_, 0) if False else q_, None))
        objs = [Obj(ctx, "E", "param", p, v, m, x, affine=aff)]
        if r.random() < 0.4:
            edges = np.linspace(0, 1, 4)
            objs.append(Obj(ctx, "F", "pdf", p, pdf_table(ctx, n, (3,), 0, edges, "area", ["rand"]), *r.choice([("mm", "none"), ("pnn", "mmx"), ("pnn", "pnn")]), edges=edges))
        session(ctx, "3d", objs, tg)


# ---------------------------------------------------------------- malformed --
NAN, INF = float("nan"), float("inf")
VARIANTS = {b: [None] for b in ("grid_list", "grid_object", "grid_complex", "grid_text", "values_list", "edges_list", "few_points", "more_values",
                                "more_points", "interp_class", "extrap_class", "unit", "call")}
VARIANTS.update(bins=[3, 5], m_number=[0, -1, -0.0, 0.5, 1.5, INF, -INF, NAN], m_type=["1", None, [1], {}],
                ord=[0, -1, -2, 0.5, 1.5, INF, -INF, NAN, "2", "nuc", None, [2]], fill_3d=[0.9, "infer"])


def part_malformed(ctx):
    r = ctx.rng
    every = [(b, base, x) for b in VARIANTS for x in VARIANTS[b] for base in ("param", "pdf") for _ in range(4 if b.endswith("class") or b in ("unit", "call") else 1)]
    todo = list(ctx.mine(every)) + [None] * ctx.n(160, 2400)
    for todo_k in todo:
        p = grid2(ctx) if r.random() < 0.6 else grid1(ctx)
        n, d = p.shape
        bad, base, var = todo_k or (r.choice(list(VARIANTS)), r.choice(["param", "pdf"]), None)
        if todo_k is None:
            var = r.choice(VARIANTS[bad])
        edges = np.linspace(0, 1, 4)
        if base == "param":
            v, args = ctx.np.normal(0, 1, (n, 2)), None
            o = Obj(ctx, "E", "param", p, v, "lin", "nsx")
        else:
            v = pdf_table(ctx, n, (3,), 0, edges, "area", ["rand"])
            o = Obj(ctx, "E", "pdf", p, v, "quant", "mmx", edges=edges, axis=0)
        kw = {}
        g, vv, ee = p, v, edges
        cls = EST[base]
        if bad == "call":
            ev = [o.init()]
            x, w = (targets(ctx, p, 1, "any"))[0]
            for _ in range(3):
                ev.append(o.call(ctx, x, w, bad=r.choice(["list", "several", "dimension", ""])))
            ctx.w.trace(ctx.id("bad"), ev)
            continue
        if bad == "grid_list":
            g = p.tolist()
        elif bad == "grid_object":
            g = p.astype(object)
        elif bad == "grid_complex":
            g = p.astype(complex)
        elif bad == "grid_text":
            g = p.astype(str)
        elif bad == "values_list":
            vv = v.tolist()
        elif bad == "edges_list":
            ee = edges.tolist()
        elif bad == "few_points":
            g, vv = p[:d], v[:d]
        elif bad == "more_values":
            vv = np.concatenate([v, v[:1]])
        elif bad == "more_points":
            g = np.concatenate([p, p[:1] + 0.37])
        elif bad == "bins":
            ee = np.linspace(0, 1, var)
            if r.random() < 0.5:
                cls = ALL["quant"]
        elif bad == "interp_class":
            kw["interpolator_cls"] = r.choice([INT["mm"], INT["quant"], INT["pnn"], EXT["nsx"], dict] if base == "param" else
                                              [INT["lin"], INT["nn"], EXT["mmx"], dict])
        elif bad == "extrap_class":
            kw["extrapolator_cls"] = r.choice([EXT["mmx"], EXT["pnn"], INT["lin"], list] if base == "param" else
                                              [EXT["nsx"], EXT["ve"], EXT["nn"], INT["mm"], list])
        elif bad in ("m_number", "m_type"):
            base, cls = "param", EST["param"]
            vv = ctx.np.normal(0, 1, (n, 2))
            kw = dict(extrapolator_cls=EXT["ve"], extrapolator_kwargs=dict(
                m=var))
        elif bad == "ord":
            k, key = r.choice([("interpolator_cls", "interpolator_kwargs"), ("extrapolator_cls", "extrapolator_kwargs")])
            kw = {k: (INT["nn"] if base == "param" else INT["pnn"]), key: dict(norm_ord=var)}
        elif bad == "fill_3d":
            g = ctx.np.uniform(0, 1, (6, 3))
            cls, base, vv = EST["radmax"], "radmax", ctx.np.uniform(0.1, 1, (6, 2))
            kw = dict(fill_value=var)
        elif bad == "unit":
            if r.random() < 0.5:
                cls, base = EST["aeff"], "aeff"
                vv = ctx.np.uniform(1, 2, (n, 2)) * r.choice([u.m, u.s, u.one])
            else:
                cls, base = EST["psf"], "psf"
                vv = pdf_table(ctx, n, (3,), 0, edges, "cone", ["rand"]) * r.choice([u.one, u.sr])
                ee = edges * u.deg
        if bad in ("edges_list", "bins") and base == "param":
            continue
        a = (g, ee, vv) if base in ("pdf", "psf") else (g, vv)
        ev = dict(o.ev, bad=bad)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cls(*a, **kw)
            ev["out"] = dict(k="ok")
        except Exception as e:
            ev["out"] = {"k": "raise", "type": exc_name(e), "msg": str(e)[:200]}
        ctx.w.trace(ctx.id("bad"), [ev])


# ---------------------------------------------------------------------- aeff --
def part_aeff(ctx):
    r = ctx.rng
    for tag, p, tg in grids(ctx, ctx.n(80, 2000), ctx.n(160, 2000), ctx.n(80, 800)):
        S = rand_shape(ctx)
        un = r.choice(AREA)
        v = 10.0 ** ctx.np.uniform(-3, 7, (len(p),) + S)
        if r.random() < 0.5:
            v = 10.0 ** ctx.np.uniform(-1.5, 1.5, (len(p),) + S)
        v = np.where(ctx.np.random(v.shape) < r.choice([0, 0.2]), 0, v)
        v = to_unit(v, "m2", un)
        fu = r.choice(AREA)
        floor = r.choice([(1.0, "m2"), (1.0, "m2"), (to_unit(r.choice([10, 0.3, 2.5]), "m2", fu).item(), fu)])
        k = dict(ord=r.choice([2, 1]), flat_grid=p.shape[1] == 1 and r.random() < 0.4)
        m, x = r.choice([("lin", "none"), ("lin", "nsx"), ("lin", "ve"), ("lin", "nn"), ("nn", "nn"), ("nn", "nsx")])
        session(ctx, tag, [Obj(ctx, "A", "aeff", p, v, m, x, unit=un, floor=floor, **k)], tg(3))


def part_radmax(ctx):
    r = ctx.rng
    for tag, p, tg in grids(ctx, ctx.n(120, 3000), ctx.n(200, 2500), ctx.n(200, 1600)):
        S = rand_shape(ctx)
        v = ctx.np.uniform(0.01, 0.5, (len(p),) + S)
        fv = r.choice([0.5, 0.7, 2.0, float(v.max())])
        v = np.where(ctx.np.random(v.shape) < r.choice([0, 0.2, 0.5]), fv, v)
        fill = r.choice(["none", "infer", fv, fv])
        m, x = r.choice([("lin", "none"), ("lin", "nsx"), ("lin", "ve"), ("lin", "nn"), ("nn", "nn"), ("nn", "nsx"), ("nn", "ve")])
        session(ctx, tag, [Obj(ctx, "M", "radmax", p, v, m, x, fill=fill, ord=r.choice([2, 1]), m=r.choice([1, 2]),
                               flat_grid=p.shape[1] == 1 and r.random() < 0.4)], tg(4))


# ---------------------------------------------------------------------- pdfs --
def rand_edges(ctx, smooth=False):
    r = ctx.rng
    nb = r.choice([30, 60]) if smooth else r.choice([2, 3, 6, 10])
    if smooth or r.random() < 0.6:
        e = np.linspace(0, 1, nb + 1) * r.choice([1, 2, 0.1]) + r.choice([0, 0, 0.5])
    else:
        e = np.cumsum(ctx.np.uniform(0.3, 1, nb + 1))
    return e


def pdf_obj(ctx, name, p, methods, smooth=False, qres=None):
    r = ctx.rng
    cls = r.choice(["pdf", "edisp", "psf"])
    e = rand_edges(ctx, smooth)
    nb = len(e) - 1
    norm, un, eu = "area", "none", "none"
    if cls == "psf":
        norm, un, eu = "cone", r.choice(["sr", "deg2"]), r.choice(ANGLE)
        e = (e - e[0]) * r.choice([0.5, 0.02])
        e = e * min(1, 2.5 / e[-1]) * r.choice([1, 1, 1, 1e-4])
        if smooth:
            e = e + 0.01 * e[-1]
    elif cls == "pdf" and r.random() < 0.3:
        norm, e = "cone", (e - e[0])
        e = e * min(1, 2.5 / e[-1])
    else:               # bins of quantities with large or small numbers
        e = e * r.choice([1, 1, 1, 1, 1e9, 1e12, 1e-9])
    other = r.choice([(), (2,), (2, 2)])
    if cls == "pdf":
        shape, ax = other + (nb,), len(other)
    elif cls == "edisp":
        shape, ax = r.choice([((2, nb, 2), 1), ((1, nb, 1), 1), ((3, nb, 1), 1), ((nb, 2), 0), ((2, nb), 1), ((nb, 2, 2), 0), ((nb,), 0)])
    else:
        shape, ax = r.choice([((2, 1, nb), 2), ((2, 2, nb), 2), ((2, nb), 1), ((2, nb, 2), 1), ((nb, 2), 0), ((nb,), 0)])
    kinds = ["smooth"] * 6 + ["empty"] if smooth else r.choice([["rand"], ["rand", "sparse", "single"], ["sparse", "single", "empty"] + ["rand"] * 4])
    m, x = r.choice(methods)
    ec = e
    if eu != "none":
        eshow = to_unit(e, "rad", eu)
        ec = (eshow * UNITS[eu]).to_value(u.rad)
    v = pdf_table(ctx, len(p), shape, ax, ec, norm, kinds)
    if un != "none":
        v = (v / u.sr).to_value(1 / UNITS[un])
    return Obj(ctx, name, cls, p, v, m, x, axis=ax, edges=eshow if eu != "none" else e, eunit=eu, norm=norm, unit=un,
               ord=r.choice([2, 1]), smooth=smooth, qres=qres, flat_grid=p.shape[1] == 1 and r.random() < 0.4)


MM = [("mm", "none"), ("mm", "mmx"), ("mm", "mmx"), ("mm", "pnn"), ("pnn", "mmx")]
QQ = [("quant", "none"), ("quant", "mmx"), ("quant", "pnn")]


def part_pdf(ctx):
    r = ctx.rng
    for tag, p, tg in grids(ctx, ctx.n(60, 1000), ctx.n(100, 1500), ctx.n(100, 1500)):
        session(ctx, tag, [pdf_obj(ctx, "P", p, MM + QQ)], tg(2))


def part_morph(ctx):
    r = ctx.rng
    for b in ctx.mine([x for x in ctx.beh if "f" in x]):
        f, g = np.array(b["f"], float), np.array(b["g"], float)
        e = r.choice([np.arange(len(f) + 1.0), np.arange(1.0, len(f) + 2) ** 2 / 4])
        norm = r.choice(["area", "cone"])
        e = e * (1 if norm == "area" else 2 / e[-1])
        w = binsize(e, norm)
        v = np.array([f / (f @ w), g / (g @ w)])
        o = Obj(ctx, "B", "pdf", np.array([[0.0], [1.0]]), v, "mm", "mmx", edges=e, norm=norm, axis=0)
        session(ctx, "beh", [o], [(np.array([x]), None) for x in r.sample([0, 1, 0.25, 0.5, 0.375, 0.8, -0.3, 1.4], 3)])
    for tag, p, tg in grids(ctx, ctx.n(40, 800), ctx.n(80, 1000), ctx.n(80, 1000)):
        session(ctx, tag, [pdf_obj(ctx, "P", p, MM, smooth=r.random() < 0.3)], tg(2))


def part_quantile(ctx):
    r = ctx.rng
    for b in ctx.mine([x for x in ctx.beh if "f" in x])[::1 if ctx.n(0, 1) else 2]:
        f, g = np.array(b["f"], float), np.array(b["g"], float)
        e = np.arange(1.0, len(f) + 2) ** 2 / 4
        v = np.array([f / (f @ np.diff(e)), g / (g @ np.diff(e))])
        o = Obj(ctx, "B", "pdf", np.array([[0.0], [1.0]]), v, "quant", "none", edges=e, axis=0, qres=0.1)
        session(ctx, "behq", [o], [(np.array([x]), None) for x in r.sample([0, 1, 0.25, 0.5, 0.375, 0.8], 2)])
    for tag, p, tg in grids(ctx, ctx.n(24, 300), ctx.n(48, 600), ctx.n(48, 600)):
        session(ctx, tag, [pdf_obj(ctx, "Q", p, QQ[:1], smooth=True)], tg(2, "in"))
    for tag, p, tg in grids(ctx, ctx.n(30, 300), ctx.n(60, 600), ctx.n(60, 600)):      # the construction itself
        session(ctx, tag, [pdf_obj(ctx, "Q", p, QQ[:1], qres=r.choice([0.1, 0.05, 0.06, 1 / 33, 0.02]))], tg(2, "in"))


NN = [("nn", "nn"), ("nn", "none"), ("lin", "nn"), ("nn", "nsx")]
PARTS = {
    "C22": [part_malformed, part_3d, part_param([("lin", "none"), ("lin", "nsx"), ("lin", "nn"), ("nn", "ve"), ("nn", "none")])],
    "C23": [part_param([("lin", "none"), ("lin", "nsx")]), part_raw, part_3d],
    "C24": [part_param([("lin", "nsx"), ("lin", "ve"), ("nn", "ve"), ("lin", "nsx"), ("lin", "ve")]), part_raw, part_sweep],
    "C25": [part_pdf],
    "C26": [part_morph, part_quantile],
    "C27": [part_aeff],
    "C28": [part_radmax],
    "C29": [part_param(NN), part_raw],
}


if __name__ == "__main__":
    main(PARTS)
