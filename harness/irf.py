"""Driver for pyirf.irf (C14 - C17): sessions filling events and observing a table."""
from common import *
from simlib import rand_info, build, rand_energy_bins, rand_fov_bins
from pyirf import irf as I
from pyirf.irf.energy_dispersion import energy_migration_matrix, energy_dispersion_to_migration

BKG = u.Unit("s-1 TeV-1 sr-1")
# per kind: the columns, one per axis, and their dimension
KINDS = dict(
    eff_e=[("true_energy", "E")],
    eff_ef=[("true_energy", "E"), ("true_source_fov_offset", "A")],
    eff_polar=[("true_energy", "E"), ("true_source_fov_offset", "A"), ("true_source_fov_position_angle", "P")],
    eff_lonlat=[("true_energy", "E"), ("true_source_fov_lon", "L"), ("true_source_fov_lat", "L")],
    edisp=[("true_energy", "E"), ("reco_energy", "M"), ("true_source_fov_offset", "A")],
    emig=[("true_energy", "E"), ("reco_energy", "E"), ("true_source_fov_offset", "A")],
    psf=[("true_energy", "E"), ("true_source_fov_offset", "A"), ("theta", "A")],
    bkg2d=[("reco_energy", "E"), ("reco_source_fov_offset", "A")],
    bkg3d=[("reco_energy", "E"), ("reco_source_fov_lon", "L"), ("reco_source_fov_lat", "L")],
)


def compute(kind, tab, b, info, sub, tobs):
    if kind == "eff_e":
        return I.effective_area_per_energy(tab, info, b[0])
    if kind == "eff_ef":
        return I.effective_area_per_energy_and_fov(tab, info, b[0], b[1])
    if kind == "eff_polar":
        return I.effective_area_3d_polar(tab, info, b[0], b[1], b[2])
    if kind == "eff_lonlat":
        return I.effective_area_3d_lonlat(tab, info, b[0], b[1], b[2], *([] if sub == 20 else [sub]))
    if kind == "edisp":
        return I.energy_dispersion(tab, b[0], b[2], b[1])
    if kind == "emig":
        return energy_migration_matrix(tab, b[0], b[1], b[2])
    if kind == "psf":
        return I.psf_table(tab, b[0], b[2], b[1])
    if kind == "bkg2d":
        return I.background_2d(tab, b[0], b[1], tobs)
    if kind == "bkg3d":
        return I.background_3d_lonlat(tab, b[0], b[1], b[2], tobs)


UNIT = dict(edisp="one", emig="one", psf="sr")


def enc_for(kind):
    def enc(x):
        if kind.startswith("eff"):
            v = canon(x, "m2")
        elif kind.startswith("bkg"):
            v = canon(x, BKG)
        elif kind == "psf":
            v = canon(x, 1 / u.sr)
        else:
            v = plain(x)
        v = np.asarray(v, dtype=float)
        return dict(shape=list(v.shape), v=nums(v.reshape(-1)))
    return enc


def session(ctx, tag, kind, edges, eu, cols, cu, weights, stops, rec=None, sub=20, tobs=None, extra=None):
    """edges[k] in unit eu[k]; cols[k] event column in unit cu[k]."""
    spec = KINDS[kind]
    info = build(rec) if rec else None
    b = [q(e, x) for e, x in zip(edges, eu)]
    tq = q(tobs[0], tobs[1]) if tobs else None
    n = len(cols[0])
    if n and ctx.rng.random() < 0.06:           # a long table: many copies of the same events
        cp = Copies(ctx, n, (900, 5000, 30000, 110000))
        weights = np.ceil(weights / weights.max() * 40) / 8
        tab = QTable()
        for (name, _), c, x in zip(spec, cols, cu):
            tab[name] = q(relayout(ctx, cp.put(c)), x)
        if kind.startswith("bkg") or ctx.rng.random() < 0.3:
            tab["weight"] = relayout(ctx, cp.put(weights))
        kw = dict(kind=kind, ax=[qrec(e, x) for e, x in zip(edges, eu)], cu=cu, sub=sub)
        if rec:
            kw["info"] = rec
        if tobs:
            kw["tobs"] = dict(v=num(tobs[0]), u=tobs[1])
        ctx.w.trace(ctx.id(tag + "-copies"), [
            dict(op="fill", rows=[[num(c[k]) for c in cols] for k in range(n)], w=nums(weights), times=[int(x) for x in cp.times]),
            dict(op="observe", out=call(lambda: compute(kind, tab, b, info, sub, tq), enc_for(kind)))], **kw)
    stops = sorted(set(stops) | {n})
    ev, done = [], 0
    for s in stops:
        if s > done:
            ev.append(dict(op="fill", rows=[[num(c[k]) for c in cols] for k in range(done, s)], w=[num(weights[k]) for k in range(done, s)]))
            done = s
        tab = QTable()
        for (name, _), c, x in zip(spec, cols, cu):
            tab[name] = q(c[:s], x)
        if kind.startswith("bkg") or ctx.rng.random() < 0.3:
            tab["weight"] = weights[:s]
        ev.append(dict(op="observe", out=call(lambda: compute(kind, tab, b, info, sub, tq), enc_for(kind))))
    kw = dict(kind=kind, ax=[qrec(e, x) for e, x in zip(edges, eu)], cu=cu, sub=sub)
    if rec:
        kw["info"] = rec
    if tobs:
        kw["tobs"] = dict(v=num(tobs[0]), u=tobs[1])
    ctx.w.trace(ctx.id(tag), ev, **kw)


BASE_INFO = dict(n="1000000", index="-2", emin=dict(v="1", u="TeV"), emax=dict(v="8", u="TeV"), impact=dict(v="500", u="m"),
                 vmin=dict(v="0", u="rad"), vmax=dict(v=num(0.06), u="rad"))


def beh_session(ctx, kind, b):
    E, M, F = np.array([1.0, 2, 8]), np.array([0.5, 1, 1.5, 3]), np.array([0, 0.01, 0.04])
    e, m, f = (np.array([float(x[k]) for x in b["evs"]]) for k in range(3))
    part = np.array(b["part"])
    o = np.argsort(part, kind="stable")
    e, m, f, part = e[o], m[o], f[o], part[o]
    stop = {int((part == 1).sum())}
    w = e
    d = {"eff_e": ([E], [e], ["TeV"]), "eff_ef": ([E, F], [e, f], ["TeV", "rad"]),
         "eff_polar": ([E, F, M], [e, f, m], ["TeV", "rad", "rad"]),
         "eff_lonlat": ([E, F, M], [e, f, m], ["TeV", "rad", "deg"]),
         "edisp": ([E, M, F], [e, m * e, f], ["TeV", "none", "rad"]), "emig": ([E, M, F], [e, m, f], ["TeV", "TeV", "rad"]),
         "psf": ([E, F, M], [e, f, m], ["TeV", "rad", "deg"]), "bkg2d": ([E, F], [e, f], ["TeV", "rad"]),
         "bkg3d": ([E, F, M], [e, f, m], ["TeV", "rad", "deg"])}[kind]
    cu = ["TeV" if x == "none" else x for x in d[2]]
    session(ctx, "beh-" + kind, kind, d[0], d[2], d[1], cu, w, stop, rec=BASE_INFO if kind.startswith("eff") else None,
            tobs=(2.0, "h") if kind.startswith("bkg") else None)


def column(ctx, r, edges, n, exact, dim):
    """Values inside, outside and - where exact - on the edges."""
    fin = edges[np.isfinite(edges)]
    span = fin[-1] - fin[0]
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.2 and exact:
            v = float(r.choice(list(fin)))
        elif k < 0.9:
            j = r.randrange(len(fin) - 1)
            v = fin[j] + (fin[j + 1] - fin[j]) * r.uniform(0.01, 0.99)
        elif k < 0.95:
            v = fin[-1] + span * r.uniform(0.01, 0.5)
        else:
            v = fin[0] - span * r.uniform(0.01, 0.5) if dim == "L" else fin[0] * r.uniform(0, 0.99)
        out.append(float(v))
    return np.array(out)


def uneven(ctx, r, lo, hi, n):
    while True:
        x = np.sort(np.concatenate([[lo, hi], ctx.np.uniform(lo, hi, n - 1)]))
        if np.diff(x).min() > (hi - lo) * 1e-3:
            return x


def rand_session(ctx, kinds):
    r = ctx.rng
    kind = r.choice(kinds)
    rec, lim, v = rand_info(r, point=None if kind == "eff_e" else False)
    if kind == "eff_ef" and r.random() < 0.03:
        rec, lim, v = rand_info(r, point=True)
    if kind == "eff_lonlat":
        rec, lim, v = rand_info(r, point=False, vc=r.choice([(0.0, 10.0), (0.0, 0.5), (1.0, 6.0), (0.0, 2.0), (0.1, 8.0), (0.0, 30.0)]))
    edges, eu, cols, cu = [], [], [], []
    n = r.choice([0, 1, 5, 20, 60, 60])
    sub = r.choice([20, 20, 5, 8]) if kind == "eff_lonlat" else 20
    emin = None
    for name, dim in KINDS[kind]:
        if dim == "E":
            if kind.startswith("eff"):
                e = rand_energy_bins(ctx, r, lim)[:r.choice([3, 5, 9])]
                e = np.unique(e)
                e = e[np.concatenate([[True], np.diff(e) > e[:-1] * 1e-3])]
                if len(e) < 2 or np.isinf(e[-1]) and len(e) < 3:
                    e = np.array([0.1, 1.0, 10.0])
            else:
                e = r.choice([np.geomspace(0.01, 100, r.choice([2, 3, 5])), uneven(ctx, r, 0.1, 30, r.choice([1, 2, 4])),
                              np.array([0.5, 1.0, 2.0, 4.0])])
            un = r.choice(ENERGY)
            c = r.choice(ENERGY) if r.random() < 0.4 else un
            emin = e
        elif dim == "M":
            e = r.choice([np.linspace(0.2, 5, r.choice([2, 5, 9])), uneven(ctx, r, 0.1, 4, r.choice([2, 4])), np.array([0.25, 0.5, 1.0, 1.5, 4.0])])
            un, c = "none", r.choice(ENERGY)
        elif dim == "A":
            e = np.linspace(0, 3, 4) if r.random() < 0.2 else uneven(ctx, r, r.choice([0.0, 0.0, 0.1]), r.choice([0.3, 5.0, 10.0]), r.choice([1, 2, 3]))
            if kind.startswith("eff"):
                e = np.unique(rand_fov_bins(ctx, r, v)[:4])
                e = e[np.concatenate([[True], np.diff(e) > 1e-3])]
                if len(e) < 2:
                    e = np.array([0.0, 1.0, 5.0])
            elif r.random() < 0.15:
                e = e * 1e-5
            un = r.choice(ANGLE)
            c = r.choice(ANGLE) if r.random() < 0.4 else un
        elif dim == "P":
            e = r.choice([np.linspace(0, 360, r.choice([2, 3, 5])), uneven(ctx, r, 0, 360, r.choice([1, 2, 4]))])
            un = r.choice(ANGLE)
            c = r.choice(ANGLE) if r.random() < 0.4 else un
        else:
            hi = v[1] if kind == "eff_lonlat" else r.choice([1.0, 3.0, 30.0])
            e = r.choice([np.linspace(-hi, hi, r.choice([2, 3, 4])), uneven(ctx, r, -hi * 1.2, hi * 1.1, r.choice([1, 2, 3])),
                          uneven(ctx, r, 0, hi, r.choice([1, 2]))])
            un = r.choice(ANGLE)
            c = r.choice(ANGLE) if r.random() < 0.4 else un
        if dim == "M":
            mu = column(ctx, r, e, n, False, dim)
            mu = np.abs(mu) + 1e-3 * (mu == 0)
            true = to_unit(cols[0], cu[0], "TeV")
            cols.append(to_unit(mu * true, "TeV", c))
            edges.append(e)
        else:
            col = column(ctx, r, to_unit(e, {"E": "TeV"}.get(dim, "deg"), un) if un == c else e, n, un == c, dim)
            edges.append(to_unit(e, {"E": "TeV"}.get(dim, "deg"), un))
            if dim == "E" and kind == "edisp" and n:
                col = np.where(col <= 0, float(to_unit(0.3, "TeV", un)) if un == c else 0.3, col)
            cols.append(col if un == c else to_unit(col, {"E": "TeV"}.get(dim, "deg"), c))
        eu.append(un)
        cu.append(c)
    w = ctx.np.exponential(1, n) * 10 ** r.uniform(-6, 6) if r.random() < 0.7 else np.ones(n)
    tobs = (float(to_unit(r.choice([1.0, 50.0, 0.1]), "h", x := r.choice(TIME))), x) if kind.startswith("bkg") else None
    stops = {r.randrange(n + 1)} if r.random() < 0.4 else set()
    session(ctx, kind, kind, edges, eu, cols, cu, w, stops, rec=rec if kind.startswith("eff") else None, sub=sub, tobs=tobs)


def part(kinds, quick, every=1):
    def go(ctx):
        beh = ctx.mine(ctx.beh)
        for k, b in enumerate(beh):
            if ctx.tier == "quick":
                if k % every == ctx.seed % every:
                    beh_session(ctx, kinds[(k // every) % len(kinds)], b)
            else:
                for kind in kinds:
                    beh_session(ctx, kind, b)
        for _ in range(ctx.n(quick, quick * 10)):
            rand_session(ctx, kinds)
    return go


def part_ratio(ctx):
    r = ctx.rng
    for _ in range(ctx.n(60, 600)):
        n = r.choice([1, 3, 6])
        ns = ctx.np.integers(0, 50, n)
        nt = ns + ctx.np.integers(1, 1000, n)
        if r.random() < 0.3:
            nt = nt + ctx.np.random(n)
        au = r.choice(AREA) if r.random() < 0.85 else r.choice(["m", "s", "TeV"])
        a = float(to_unit(r.choice([1e6, 2.5e5]), "m2", au)) if au in AREA else 3.0
        ctx.w.trace(ctx.id("ratio"), [dict(op="ratio", nsel=nums(ns), nsim=nums(nt), area=dict(v=num(a), u=au), out=call(
            lambda: I.effective_area(ns, nt, q(a, au)), lambda x: dict(v=nums(canon(x, "m2")))))])


def part_tomig(ctx):
    r = ctx.rng
    for _ in range(ctx.n(300, 3000)):
        ne, nm, nf = r.choice([2, 3, 5]), r.choice([2, 4, 9, 20]), r.choice([1, 2])
        te = r.choice([np.geomspace(0.1, 10, ne + 1), uneven(ctx, r, 0.5, 20, ne), np.arange(1.0, ne + 2)])
        mg = r.choice([np.linspace(0.2, 5, nm + 1), np.geomspace(0.25, 4, nm + 1), np.linspace(0.5, 1.5, nm + 1)])
        h = ctx.np.integers(0, 6, (ne, nm, nf)) * (ctx.np.random((ne, nm, nf)) < r.choice([1, 0.5, 0.2]))
        if r.random() < 0.4:
            h[r.randrange(ne), :, r.randrange(nf)] = 0
        if r.random() < 0.1:
            h[:] = 0
        same = r.random() < 0.2            # one dispersion at all energies
        if same:
            te = np.arange(ne + 1) * r.choice([0.25, 1.0, 3.0]) + r.choice([0.5, 2.0])
            h[:] = h[:1]
        s = h.sum(axis=1, keepdims=True)
        disp = h / np.where(s == 0, 1, s) / np.diff(mg)[None, :, None]
        mode = r.randrange(4)
        ng = np.unique(np.concatenate([[te[0], te[-1]], ctx.np.choice(te, r.randrange(1, ne + 1))])) if mode == 0 else \
            te[r.randrange(ne):] if mode == 1 else te
        if r.random() < 0.15:
            ng = np.unique(np.concatenate([ng, ctx.np.uniform(te[0], te[-1], 2)]))
            ng = ng[np.concatenate([[True], np.diff(ng) > 1e-3 * ng[:-1]])]
        if same:           # also much finer bins
            x = r.uniform(te[0], te[-2])
            ng = np.unique(np.concatenate([ctx.np.uniform(te[0], te[-1], 3), x + (te[1] - te[0]) * 10 ** -r.uniform(0.5, 5) * np.arange(3)]))
            ng = ng[np.concatenate([[True], np.diff(ng) > 1e-6 * (te[1] - te[0])])]
        tu, nu, ru = r.choice(ENERGY), r.choice(ENERGY), r.choice(ENERGY)
        if same or r.random() < 0.6:
            tu = nu = ru
        c = 0.5 * (ng[1:] + ng[:-1])
        m2 = r.randrange(4)
        pick = float(r.choice(list(c)))
        if m2 == 0:      # all edges of one true energy bin, plus outside
            re = np.concatenate([[mg[0] * c[0] * 0.5], mg * pick, [mg[-1] * c[-1] * 2]])
            re = np.unique(np.maximum(re, re[0]))
            re = re[np.concatenate([[True], np.diff(re) > 1e-6 * re[:-1]])]
        elif m2 == 1:
            re = mg * pick
        elif m2 == 2:
            re = np.geomspace(mg[0] * c[0] * 0.4, mg[-1] * c[-1] * 2, r.choice([2, 5, 12]))
        else:
            re = np.unique(ctx.np.choice(mg * pick, min(len(mg), r.randrange(2, 5)), replace=False))
        tev, ngv, rev = to_unit(te, "TeV", tu), to_unit(ng, "TeV", nu), to_unit(re, "TeV", ru)
        if nu != tu:     # the conversion may push the outer edges over the border of the old range
            d = np.clip(to_unit(ngv, nu, tu), tev[0], tev[-1])
            if not (np.all(to_unit(ngv, nu, tu) == d)):
                nu = tu
                ngv = to_unit(ng, "TeV", nu)
        ctx.w.trace(ctx.id("mig"), [dict(op="to_migration", te=qrec(tev, tu), migra=nums(mg), newte=qrec(ngv, nu), reco=qrec(rev, ru),
                                         disp=nums(disp), out=call(
            lambda: energy_dispersion_to_migration(disp, q(tev, tu), mg, q(ngv, nu), q(rev, ru)), lambda x: dict(m=nums(plain(x)))))])


main({"C14": [part(["eff_e", "eff_ef", "eff_polar", "eff_lonlat"], 500, 4), part_ratio],
      "C15": [part(["edisp", "emig"], 400, 4), part_tomig],
      "C16": [part(["psf"], 500, 4)], "C17": [part(["bkg2d", "bkg3d"], 500, 4)]})
