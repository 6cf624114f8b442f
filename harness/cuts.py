"""Driver for pyirf.cuts (C05, C06)."""
from common import *
import operator
from pyirf import cuts as C
from pyirf.binning import calculate_bin_indices

OPS = dict(ge=operator.ge, gt=operator.gt, le=operator.le, lt=operator.lt)
NPOPS = dict(ge=lambda x, c: x >= c, gt=np.greater, le=np.less_equal, lt=lambda x, c: x < c)
VKIND = {"angle": ANGLE, "energy": ENERGY, "none": ["none"]}


def opt(x, unit):
    return {"v": "0", "u": "absent"} if x is None else {"v": num(x), "u": unit}


def ev_percentile(vals, vu, bvals, bu, edges, eu, fill, fu, p, lo=None, lu=None, hi=None, hu=None, sigma=None,
                  min_events=10, scalar=False, cp=None):
    kw = {}
    put = cp.put if cp else lambda x: x
    if lo is not None:
        kw["min_value"] = q(lo, lu)
    if hi is not None:
        kw["max_value"] = q(hi, hu)
    if sigma is not None:
        kw["smoothing"] = sigma
    if min_events != 10:
        kw["min_events"] = min_events
    vu_c = CANONICAL[vu]

    def enc(r):
        cut = np.asarray(canon(r["cut"], vu_c))
        cols = [cut] if scalar else list(cut.T)
        e = CANONICAL[eu]
        return dict(low=nums(canon(r["low"], e)), high=nums(canon(r["high"], e)), center=nums(canon(r["center"], e)),
                    n=nums(plain(r["n_events"])), cuts=[nums(c) for c in cols])
    perc = p[0] if scalar else p
    if not scalar and len(p) % 2:
        perc = np.array(p)
    f32 = np.asarray(vals).dtype.itemsize < 8
    return dict(op="percentile", vals=qrec(vals, vu), bvals=qrec(bvals, bu), edges=qrec(edges, eu), fill=opt(fill, fu),
                lo=opt(lo, lu), hi=opt(hi, hu), p=[num(x) for x in p], sigma="none" if sigma is None else num(sigma),
                min_events=min_events, times=[int(x) for x in cp.times] if cp else [], rtol="5e-6" if f32 else "1e-10",
                out=call(lambda: C.calculate_percentile_cut(q(put(vals), vu), q(put(bvals), bu), q(edges, eu), q(fill, fu),
                                                            percentile=perc, **kw), enc))


def part_percentile(ctx):
    r = ctx.rng
    for b in ctx.mine(ctx.beh):
        v = np.array([float(e["v"]) for e in b["evs"]])
        x = np.array([float(e["b"]) for e in b["evs"]])
        ctx.w.trace(ctx.id("beh"), [
            ev_percentile(v, "deg", x, "TeV", np.array([0.0, 2, 3]), "TeV", 99.0, "deg", [0, 25, 68, 100], min_events=2),
            ev_percentile(v, "none", x, "TeV", np.array([0.0, 2, 3]), "TeV", 99.0, "none", [68], scalar=True, min_events=1,
                          lo=0.0, lu="none", hi=3.0, hu="none")])
    for _ in range(ctx.n(400, 4000)):
        kind = r.choice(list(VKIND))
        vu = r.choice(VKIND[kind])
        alt = lambda: r.choice(VKIND[kind])
        nb = r.choice([1, 2, 3, 6, 12, 12, 30])
        eu = r.choice(ENERGY)
        bu = eu if r.random() < 0.5 else r.choice(ENERGY)
        edges = np.geomspace(0.05, 20, nb + 1) if r.random() < 0.6 else np.sort(ctx.np.uniform(0.1, 10, nb + 1))
        if r.random() < 0.15:
            edges = np.concatenate([[0.0], edges, [np.inf]])
            nb += 2
        n = r.choice([0, 1, 8, 20, 60, 150])
        lo_e, hi_e = np.log10(np.clip(edges[edges > 0][0] / 2, 1e-3, None)), np.log10(edges[np.isfinite(edges)][-1] * 2)
        bvals = 10 ** ctx.np.uniform(lo_e, hi_e, n)
        if bu == eu and n > 3 and r.random() < 0.5:
            bvals[:2] = [edges[0], edges[-1]]
        if n and r.random() < 0.2:
            bvals[r.randrange(n)] = np.nan
        vals = ctx.np.uniform(0, 1, n) ** 2 * r.choice([0.3, 1, 40])
        signed = r.random() < 0.3
        if signed:
            vals = vals - r.choice([0.1, 0.3, 3])
        if r.random() < 0.3:
            vals = np.round(vals, 2)          # ties
        if n and r.random() < 0.2:
            vals[ctx.np.random(n) < 0.15] = np.nan
        if r.random() < 0.12:
            vals = np.nan_to_num(vals * 10, posinf=99).astype(r.choice([np.int64, np.int32]))
        elif r.random() < 0.12:
            vals = vals.astype(np.float32)
        un = lambda x, to: x if to == vu else float(to_unit(x, vu, to))
        fu, lu, hu = alt(), alt(), alt()
        scale = r.choice([0.05, 0.3, 1, 5])
        lo = un(scale * r.uniform(0.1, 0.5), lu) if r.random() < 0.35 else None
        hi = un(scale * r.uniform(0.6, 2), hu) if r.random() < 0.35 else None
        if signed and r.random() < 0.5:       # a limit of exactly zero
            lo, hi = r.choice([(0.0, None), (None, 0.0), (0.0, hi), (lo and -lo, 0.0)])
        scalar = r.random() < 0.5
        p = [r.choice([0, 10, 30, 68, 90, 95.0, 99.5, 100, r.uniform(0, 100)]) for _ in range(1 if scalar else r.randrange(1, 5))]
        sigma = r.choice([None, None, None, 0.2, 0.5, 1, 2.3])
        if sigma and not np.all(np.isfinite(np.asarray(vals, float)) | np.isnan(np.asarray(vals, float))):
            sigma = None
        fill = un(r.choice([0.0, 0.3, 2.5, 99.0]), fu)
        ctx.w.trace(ctx.id("pc"), [ev_percentile(vals, vu, to_unit(bvals, eu, bu), bu, edges, eu, fill, fu, p, lo, lu, hi, hu,
                                                 sigma, r.choice([0, 1, 2, 5, 10, 10, 10, 30]), scalar,
                                                 Copies(ctx, n) if n and r.random() < 0.05 else None)])


# ------------------------------------------------------------------- C06 ----
def ev_evaluate(vals, vu, bvals, bu, edges, eu, cuts, cu, op, how="direct", kind="qtable", pre=None, cp=None):
    tab = QTable()
    tab["low"], tab["high"] = q(edges[:-1], eu), q(edges[1:], eu)
    tab["center"] = 0.5 * (tab["low"] + tab["high"])
    tab["cut"] = q(cuts, cu)
    put = cp.put if cp else lambda x: x
    v, b = q(put(np.asarray(vals)), vu), q(put(np.asarray(bvals)), bu)
    tab0 = tab
    if kind == "table":
        tab = Table(tab)
    elif kind == "dict":
        tab = {c: tab[c] for c in tab.colnames}

    comparison = (NPOPS if len(vals) % 3 == 0 else OPS)[op]

    def go():
        if how == "index":
            idx, valid = calculate_bin_indices(b, q(edges, eu))
            if pre is not None:
                valid = valid & put(np.array(pre, dtype=bool))
            return C.evaluate_binned_cut_by_index(v, idx, valid, tab, comparison)
        return C.evaluate_binned_cut(v, b, tab, comparison)
    return dict(op="evaluate", vals=qrec(vals, vu), bvals=qrec(bvals, bu), edges=qrec(edges, eu), cuts=qrec(cuts, cu),
                cmp=op, how=how, kind=kind, pre=[] if pre is None else pre, out=call(go, lambda m: dict(mask=[bool(x) for x in (cp.fold(m) if cp else np.asarray(m))])))


def part_evaluate(ctx):
    r = ctx.rng
    for b in ctx.mine(ctx.beh):
        v = np.array([float(e["v"]) for e in b["evs"]])
        x = np.array([float(e["b"]) for e in b["evs"]])
        ctx.w.trace(ctx.id("beh"), [ev_evaluate(v, "deg", x, "TeV", np.array([0.0, 2, 3]), "TeV", np.array([1.0, 2.0]), "deg", op, how)
                                    for op in OPS for how in ("direct", "index")])
    for _ in range(ctx.n(500, 5000)):
        kind = r.choice(list(VKIND))
        vu, cu = r.choice(VKIND[kind]), r.choice(VKIND[kind])
        if r.random() < 0.5:
            cu = vu
        eu, bu = r.choice(ENERGY), r.choice(ENERGY)
        if r.random() < 0.5:
            bu = eu
        nb = r.choice([1, 2, 5, 9])
        edges = np.sort(ctx.np.choice(np.arange(1, 60), nb + 1, replace=False)) / 8
        if r.random() < 0.2:
            edges[-1] = np.inf
        n = r.choice([0, 1, 10, 40])
        cuts = ctx.np.uniform(-1 if kind == "none" else 0.1, 2, nb)
        if r.random() < 0.2:
            cuts[r.randrange(nb)] = r.choice([np.nan, np.inf, -np.inf])
        vals = to_unit(ctx.np.uniform(-1 if kind == "none" else 0, 2, n), cu, vu)
        bvals = to_unit(ctx.np.uniform(0, 9, n), eu, bu)
        if n:
            for k in range(n // 3):
                j = r.randrange(n)
                if vu == cu:
                    vals[j] = r.choice(list(cuts))
                if bu == eu:
                    bvals[r.randrange(n)] = r.choice(list(edges))
            if r.random() < 0.2:
                bvals[r.randrange(n)] = np.nan
            if r.random() < 0.2:
                vals[r.randrange(n)] = np.nan
        ev = [ev_evaluate(vals, vu, bvals, bu, edges, eu, cuts, cu, op, r.choice(["direct", "index"]),
                          cp=Copies(ctx, n) if n and r.random() < 0.02 else None) for op in OPS]
        if n and r.random() < 0.3:
            # only some of the events that lie in a bin are marked as valid
            ev.append(ev_evaluate(vals, vu, bvals, bu, edges, eu, cuts, cu, r.choice(list(OPS)), "index",
                                  pre=[r.random() < 0.6 for _ in range(n)]))
        if r.random() < 0.1:
            ev.append(ev_evaluate(vals, vu, bvals, bu, edges, eu, cuts, cu, "ge", r.choice(["direct", "index"]),
                                  r.choice(["table", "dict"])))
        ctx.w.trace(ctx.id("cut"), ev)


def part_compare(ctx):
    r = ctx.rng
    for _ in range(ctx.n(300, 3000)):
        nb = r.choice([1, 2, 5])
        cu, eu = r.choice(ANGLE + ["none"]), r.choice(ENERGY)
        # a cut per bin, or one for each of some percentiles
        npc = r.choice([(), (), (), (1,), (2,)])
        base = dict(edges=np.geomspace(0.1, 10, nb + 1), cut=ctx.np.uniform(0.1, 0.5, (nb,) + npc))
        nt = r.choice([0, 1, 2, 2, 3, 4])
        tabs, rec = [], []
        for k in range(nt):
            e, c, cu2, eu2 = base["edges"].copy(), base["cut"].copy(), cu, eu
            if r.random() < 0.3:
                how = r.randrange(7 if npc else 6)
                if how == 6:
                    c = c[:, 0] if r.random() < 0.5 else np.column_stack([c, c])
                elif how == 0:
                    c[(r.randrange(nb),) + tuple(r.randrange(k) for k in npc)] *= 1 + 10 ** -r.uniform(0.1, 6)
                elif how == 1:
                    e[r.randrange(nb + 1)] *= 1 + 1e-3
                elif how == 2:
                    e, c = e[:-1], c[:-1]
                    if len(c) == 0:
                        e, c = base["edges"].copy(), base["cut"].copy()
                elif how == 3:
                    cu2 = r.choice(ANGLE) if cu != "none" else cu      # same numbers, other unit
                elif how == 4:
                    eu2 = r.choice(ENERGY)
                else:
                    e, c = np.append(e, 20.0), np.concatenate([c, c[:1]])
            t = QTable()
            t["low"], t["high"] = q(e[:-1], eu2), q(e[1:], eu2)
            t["cut"] = q(c, cu2)
            tabs.append(t)
            rec.append(dict(low=qrec(e[:-1], eu2), high=qrec(e[1:], eu2), cut=qrec(c.ravel(), cu2), shape=list(c.shape[1:])))
        ctx.w.trace(ctx.id("cmp"), [dict(op="compare", tables=rec,
                                         out=call(lambda: C.compare_irf_cuts(tabs), lambda m: dict(match=bool(m))))])


main({"C05": [part_percentile], "C06": [part_evaluate, part_compare]})
