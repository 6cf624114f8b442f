"""Driver for pyirf.binning (C01 - C04)."""
from common import *
from pyirf import binning as B

KINDS = {"energy": ENERGY, "angle": ANGLE, "none": ["none"]}


SEEN = {}


def rand_edges(ctx, n, kind, lo=None):
    """Increasing edges, sometimes regular, sometimes very uneven."""
    r = ctx.rng
    mode = r.randrange(4)
    if mode == 0:
        e = np.arange(n + 1) * r.choice([0.25, 0.5, 1.0, 2.0]) + r.choice([0, 0.5, 1.0])
    elif mode == 1:
        e = np.geomspace(0.01 * r.choice([1, 3.7]), 10 ** r.uniform(0.1, 2.5), n + 1)
    elif mode == 2:
        e = np.cumsum(ctx.np.exponential(1.0, n + 1) + 1e-3)
    else:
        e = np.sort(ctx.np.choice(np.arange(1, 10 * n + 12), n + 1, replace=False)).astype(float) / 4
    if kind == "none" and r.random() < 0.4:
        e = e - r.choice([1.0, 2.5, 10.0])
    if n > 1 and (n, kind) in SEEN and r.random() < 0.15:      # an earlier range, divided differently
        e = SEEN[n, kind].copy()
        e[1:-1] = e[0] + (e[-1] - e[0]) * np.sort(ctx.np.uniform(0.02, 0.98, n - 1))
        if np.min(np.diff(e)) <= 1e-3 * (e[-1] - e[0]) / n:
            e = SEEN[n, kind].copy()
    SEEN[n, kind] = e.copy()
    return e


def values_around(ctx, edges, n, exact):
    """Values inside, outside and (if exact) precisely on the edges."""
    r, out = ctx.rng, []
    fin = edges[np.isfinite(edges)]
    span = fin[-1] - fin[0] if len(fin) > 1 else 1.0
    for _ in range(n):
        k = r.random()
        if k < 0.35 and exact:
            v = r.choice(list(edges))
            if r.random() < 0.4 and np.isfinite(v):
                v = np.nextafter(v, r.choice([-np.inf, np.inf]))
        elif k < 0.75:
            j = r.randrange(len(fin) - 1)
            v = fin[j] + (fin[j + 1] - fin[j]) * r.uniform(0.01, 0.99)
        elif k < 0.85:
            v = fin[0] - span * r.uniform(0.01, 2)
        elif k < 0.95:
            v = fin[-1] + span * r.uniform(0.01, 2)
        else:
            v = r.choice([np.nan, np.inf, -np.inf])
        out.append(float(v))
    return np.array(out)


# ------------------------------------------------------------------- C01 ----
def ev_indices(values, vu, edges, eu, how="q", cp=None):
    def enc(r):
        idx, valid = r
        idx, valid = np.asarray(idx), np.asarray(valid)
        if how == "2d":
            assert idx.shape == valid.shape == data.shape
            idx, valid = idx.ravel(), valid.ravel()
        if cp:
            both = cp.fold(np.column_stack([idx, valid]))
            idx, valid = both[:, 0], both[:, 1].astype(bool)
        return {"idx": [str(int(x)) for x in idx], "valid": [bool(x) for x in valid]}
    data, bins = q(cp.put(values) if cp else values, vu), q(edges, eu)
    if how == "column":
        data = QTable({"x": data})["x"]
    elif how == "2d":       # e.g. one value for each telescope
        data = data.reshape(values.shape[0] // 3, 3, order="C")
    return dict(op="indices", data=qrec(values, vu), edges=qrec(edges, eu),
                out=call(lambda: B.calculate_bin_indices(data, bins), enc))


def part_indices(ctx):
    for b in ctx.mine(ctx.beh):
        e = np.array(b["edges"]) / 2
        v = np.array([x["x"] for x in b["evs"]]) / 2
        un = ctx.rng.choice(["none", "TeV", "deg"])
        ctx.w.trace(ctx.id("beh"), [ev_indices(v, un, e, un)])
    for _ in range(ctx.n(600, 6000)):
        r = ctx.rng
        kind = r.choice(["energy", "angle", "none"])
        vu = r.choice(KINDS[kind])
        same = kind == "none" or r.random() < 0.5
        eu = vu if same else r.choice(KINDS[kind])
        same = vu == eu
        n = r.choice([1, 1, 2, 3, 5, 9, 20])
        edges = rand_edges(ctx, n, kind)
        if r.random() < 0.3:
            edges = np.concatenate([[-np.inf], edges, [np.inf]])
        elif r.random() < 0.2:
            edges = np.append(edges, np.inf)
        values = values_around(ctx, edges, r.choice([0, 1, 5, 30]), same)
        if r.random() < 0.1:
            edges, values = np.round(edges * 4), np.round(np.nan_to_num(values, nan=0, posinf=9, neginf=-9) * 4)
            if len(np.unique(edges[np.isfinite(edges)])) == len(edges):
                edges, values = edges.astype(int), values.astype(int)
            else:
                continue
            if not same:
                continue
        ev = [ev_indices(to_unit(values, eu, vu) if not same else values, vu, edges, eu,
                         r.choice(["q", "column"]) if kind != "none" else "q", Copies(ctx, len(values)) if r.random() < 0.06 and len(values) else None)]
        if len(values) == 30 and r.random() < 0.3:
            ev.append(ev_indices(to_unit(values, eu, vu) if not same else values, vu, edges, eu, "2d"))
        if kind != "none" and r.random() < 0.1:
            ev.append(ev_indices(values, vu, edges, "none"))
        ctx.w.trace(ctx.id("idx"), ev)


# ------------------------------------------------------------------- C02 ----
TYPES = ["gamma", "proton", "electron", "helium", "iron-56"]


def observe(events, bins, key, canonical):
    cols = {}
    if "t" in events:
        cols["particle_type"] = np.array(events["t"], dtype=str)
    tab = QTable()
    tab[key] = events["v"]
    if "t" in events:
        tab["particle_type"] = np.array(events["t"], dtype="<U16")
    if "w" in events:
        tab["weight"] = events["w"]
    tab["other"] = np.arange(len(events["v"]))

    def enc(h):
        names = set(h.colnames) - {key + "_low", key + "_high", key + "_center", "n", "n_weighted"}
        types = sorted(c[2:] for c in names if c.startswith("n_") and not c.endswith("_weighted"))
        c = lambda x: nums(canon(x, canonical)) if canonical != "one" else nums(plain(x))
        return dict(low=c(h[key + "_low"]), high=c(h[key + "_high"]), center=c(h[key + "_center"]),
                    n=nums(plain(h["n"])), nw=nums(plain(h["n_weighted"])), types=types,
                    nt=[nums(plain(h["n_" + t])) for t in types],
                    wt=[nums(plain(h[f"n_{t}_weighted"])) for t in types])
    return dict(op="observe", out=call(lambda: B.create_histogram_table(tab, bins, key=key) if key != "reco_energy"
                                       else B.create_histogram_table(tab, bins), enc))


def hist_copies(ctx, edges, eu, values, vu, weights, types, key):
    """A long table: many copies of a few events."""
    cp = Copies(ctx, len(values))
    d = {"v": q(relayout(ctx, cp.put(values)), vu)}
    if weights is not None:
        weights = np.round(weights / max(1e-300, np.max(weights)) * 40) / 8
        d["w"] = relayout(ctx, cp.put(weights))
    if types is not None:
        d["t"] = cp.put(np.array(types))
    ev = [dict(op="fill", v={"v": num(values[k]), "u": vu}, w=num(weights[k]) if weights is not None else "1",
               p=types[k] if types is not None else "", times=int(cp.times[k])) for k in range(len(values))]
    ctx.w.trace(ctx.id("copies"), ev + [observe(d, q(edges, eu), key, CANONICAL[eu])], edges=qrec(edges, eu))


def hist_session(ctx, tag, edges, eu, values, vu, weights, types, key, stops):
    ev = []
    bins = q(edges, eu)
    for k in range(len(values) + 1):
        if k in stops:
            d = {"v": q(values[:k], vu)}
            if weights is not None:
                d["w"] = weights[:k]
            if types is not None:
                d["t"] = types[:k]
            ev.append(observe(d, bins, key, CANONICAL[eu]))
        if k < len(values):
            ev.append(dict(op="fill", v={"v": num(values[k]), "u": vu},
                           w=num(weights[k]) if weights is not None else "1",
                           p=types[k] if types is not None else ""))
    ctx.w.trace(ctx.id(tag), ev, edges=qrec(edges, eu))


def part_hist(ctx):
    for b in ctx.mine(ctx.beh):
        e = np.array(b["edges"]) / 2
        v = np.array([x["x"] for x in b["evs"]]) / 2
        hist_session(ctx, "beh", e, "TeV", v, "TeV", np.array([x["w"] / 2 for x in b["evs"]]),
                     [x["p"] for x in b["evs"]], "reco_energy", {len(v)})
    for _ in range(ctx.n(240, 2500)):
        r = ctx.rng
        kind = r.choice(["energy", "energy", "angle", "none"])
        eu = r.choice(KINDS[kind])
        vu = eu if r.random() < 0.5 else r.choice(KINDS[kind])
        edges = rand_edges(ctx, r.choice([1, 1, 2, 3, 5, 9]), kind)
        n = r.choice([0, 1, 2, 10, 40])
        values = np.array([v for v in values_around(ctx, edges, n, vu == eu) if np.isfinite(v)])
        values = to_unit(values, eu, vu)
        n = len(values)
        wmode = r.randrange(4)
        weights = None if wmode == 0 else (ctx.np.integers(0, 4, n) if wmode == 1 else
                                           ctx.np.exponential(1, n) * 10 ** r.uniform(-5, 5))
        types = None if r.random() < 0.4 else [r.choice(TYPES[:r.randrange(1, 6)]) for _ in range(n)]
        if n and r.random() < 0.08:
            hist_copies(ctx, edges, eu, values, vu, weights, types, r.choice(["reco_energy", "true_energy"]))
        hist_session(ctx, "hist", edges, eu, values, vu, weights, types,
                     r.choice(["reco_energy", "true_energy", "x"]), {n} | {r.randrange(n + 1)})


# ------------------------------------------------------------------- C03 ----
def rows(a):
    a = np.asarray(a, dtype=float)
    return [[num(x) for x in row] for row in a.reshape(-1, a.shape[-1])]


def val(x, unit):
    return np.asarray(x) if unit == "none" else x.to_value(UNITS[unit])


def has_unit(x, unit):
    return getattr(x, "unit", None) == (None if unit == "none" else UNITS[unit])


def part_helpers(ctx):
    r = ctx.rng
    for _ in range(ctx.n(200, 2000)):
        kind = r.choice(["energy", "angle", "none"])
        un = r.choice(KINDS[kind])
        n = r.choice([1, 2, 3, 6])
        lead = r.choice([(), (), (1,), (3,), (2, 2)])
        arr = np.array([rand_edges(ctx, n, kind) for _ in range(int(np.prod(lead)))]).reshape(lead + (n + 1,))
        if r.random() < 0.2:
            arr[..., -1] = np.inf
        arr = arr * r.choice([1, 1, 1, 1e-12, 1e-9, 1e6])
        bins = q(arr, un)

        def enc(x):
            lo, hi, jo = x
            assert np.shape(jo) == arr.shape and np.shape(lo) == lead + (n,) and np.shape(hi) == lead + (n,)
            return dict(lo=rows(val(lo, un)), hi=rows(val(hi, un)), joined=rows(val(jo, un)),
                        unitkept=has_unit(lo, un) and has_unit(hi, un) and has_unit(jo, un))

        def f():
            lo, hi = B.split_bin_lo_hi(bins)
            return lo, hi, B.join_bin_lo_hi(lo, hi)
        ev = [dict(op="split", rows=rows(arr), out=call(f, enc))]
        # join of independent parts
        lo, hi = arr[..., :-1].copy(), arr[..., 1:].copy()
        if n > 1 and r.random() < 0.6:
            k, idx = r.randrange(n - 1), tuple(r.randrange(m) for m in lead)
            which = r.choice([lo, hi])
            pos = idx + ((k + 1,) if which is lo else (k,))
            ref = arr[idx][np.isfinite(arr[idx])]
            which[pos] += r.choice([0.3, -0.4, 0.01, 3.0, 100.0]) * (np.diff(ref).max() + abs(which[pos]))
        ev.append(dict(op="join", lo=rows(lo), hi=rows(hi),
                       out=call(lambda: B.join_bin_lo_hi(q(lo, un), q(hi, un)),
                                lambda j: dict(joined=rows(val(j, un)), unitkept=has_unit(j, un)))))
        # overflow bins
        e = rand_edges(ctx, n, kind)
        for _ in range(2):
            z = e.copy()
            if r.random() < 0.3:
                z = np.append(z, np.inf)
            k = r.random()
            if k < 0.2:
                z = np.concatenate([[-np.inf], z])
            elif k < 0.4 and z[0] > 0:
                z = np.concatenate([[0.0], z])
            elif k < 0.5 and z[0] > 0:
                z = np.concatenate([[-1.0], z])
            pos = r.choice([True, False])
            ev.append(dict(op="overflow", edges=nums(z), positive=pos,
                           out=call(lambda: B.add_overflow_bins(q(z, un), positive=pos) if r.random() < 0.5 or not pos
                                    else B.add_overflow_bins(q(z, un)),
                                    lambda x: dict(edges=nums(val(x, un)), unitkept=has_unit(x, un)))))
        ev.append(dict(op="center", edges=nums(e), out=call(
            lambda: B.bin_center(q(e, un)), lambda x: dict(c=nums(val(x, un)), unitkept=has_unit(x, un)))))
        # bins per decade
        nd = r.choice([1, 2, 3, 4, 5, 7, 10, 20])
        u1, u2 = r.choice(ENERGY), r.choice(ENERGY)
        emin = r.choice([0.01, 0.1, 1.0, 0.02, 10 ** r.uniform(-3, 2)])
        emax = emin * 10 ** (r.choice([r.randrange(1, 40) / nd, r.uniform(0.05, 4), r.randrange(1, 4)]))
        emin, emax = float(to_unit(emin, "TeV", u1)), float(to_unit(emax, "TeV", u2))

        def name(x):
            return next((k for k in ENERGY if UNITS[k] == x.unit), "other")
        kw = dict(bins_per_decade=nd) if nd != 5 or r.random() < 0.5 else {}
        ev.append(dict(op="decade", emin=dict(v=num(emin), u=u1), emax=dict(v=num(emax), u=u2), n=nd, out=call(
            lambda: B.create_bins_per_decade(emin * UNITS[u1], emax * UNITS[u2], **kw),
            lambda x: dict(edges=nums(canon(x, "TeV")), unit=name(x)))))
        ctx.w.trace(ctx.id("edge"), ev)


# ------------------------------------------------------------------- C04 ----
def part_resample(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        kind = r.choice(["none", "energy", "angle"])
        ou = r.choice(KINDS[kind])
        nu = ou if r.random() < 0.7 else r.choice(KINDS[kind])
        n = r.choice([2, 3, 4, 5, 8]) if r.random() < 0.95 else 120
        old = np.cumsum(ctx.np.uniform(0.5, 2, n + 1)) if r.random() < 0.7 else np.arange(n + 1) * 0.5 + 1
        if r.random() < 0.3:
            old = old - r.choice([old[1], old[1], 1.0, 2.5, old[-1]])
        inner = old
        if n >= 3 and r.random() < 0.25:
            old = old.copy()
            k = r.randrange(3)
            if k != 1:
                old[-1] = np.inf
            if k != 0:
                old[0] = -np.inf
        mode = r.randrange(5)
        fin = old[np.isfinite(old)]
        pick = np.sort(ctx.np.choice(fin, min(len(fin), r.randrange(2, n + 2)), replace=False))
        span = inner[-1] - inner[0]
        if mode == 0:
            new = pick
        elif mode == 1:
            new = fin.copy()
        elif mode == 2:      # covers the whole range, arbitrary inside
            new = np.unique(np.concatenate([[inner[0] - span * 3, inner[-1] + span * 3],
                                            ctx.np.uniform(inner[0], inner[-1], r.randrange(0, 5))]))
        elif mode == 3:      # subset and outside bins
            new = np.concatenate([[inner[0] - 3 * span, inner[0] - 2 * span], pick, [inner[-1] + 2 * span, inner[-1] + 3 * span]])
        else:
            new = np.unique(np.concatenate([pick, ctx.np.uniform(inner[0], inner[-1], r.randrange(0, 4))]))
        if r.random() < 0.15 and mode in (2, 3):
            new = np.concatenate([new[:-1], [np.inf]])
        new = to_unit(new, ou, nu)
        if nu != ou and mode != 2 and mode != 3:
            # the conversion may push the outer edges over the border: keep to covering binnings
            continue
        nd = r.choice([1, 1, 2, 3])
        axis = r.randrange(nd)
        shape = [r.choice([1, 2, 3]) for _ in range(nd)]
        shape[axis] = n
        data = ctx.np.exponential(1, shape) * r.choice([1, 1e-3, 1e4])
        if r.random() < 0.3:
            data = ctx.np.integers(0, 5, shape)
            if r.random() < 0.5:
                data = data.astype(float)
        if r.random() < 0.4:
            data = data * (ctx.np.random(shape) < 0.5)
        if nd > 1 and r.random() < 0.4:
            np.moveaxis(data, axis, -1)[(0,) * (nd - 1)] = 0
        du = r.choice(["none", "none", "m2", "one"])
        ax = axis if r.random() < 0.7 else axis - nd
        args = (q(data, du), q(old, ou), q(new, nu))

        def slices(a, m):
            a = np.asarray(a)
            want = list(shape)
            want[axis] = m
            assert list(a.shape) == want, a.shape
            return [nums(x) for x in np.moveaxis(a, axis, -1).reshape(-1, m)]
        m = len(new) - 1
        out = call(lambda: B.resample_histogram1d(*args, axis=ax) if ax != 0 or r.random() < 0.5
                   else B.resample_histogram1d(*args),
                   lambda x: dict(data=slices(val(x, du), m), unitkept=has_unit(x, du) or du == "one"))
        ctx.w.trace(ctx.id("res"), [dict(op="resample", old=qrec(old, ou), new=qrec(new, nu),
                                         data=slices(data, n), out=out)])


main({"C01": [part_indices], "C02": [part_hist], "C03": [part_helpers], "C04": [part_resample]})
