"""Driver for pyirf.benchmarks (C18)."""
from common import *
from pyirf import benchmarks as BM
from pyirf.benchmarks.energy_bias_resolution import energy_resolution_absolute_68, inter_quantile_distance

FN = dict(median=np.nanmedian, mean=np.nanmean, iqd=inter_quantile_distance, abs68=energy_resolution_absolute_68,
          maxabs=lambda x: np.nanmax(np.abs(x)))
ONE = 0.6826894921370859


def edges_values(ctx, r, nb, n):
    """TeV edges and energies inside, outside and on edges, with units."""
    eu = r.choice(ENERGY)
    vu = eu if r.random() < 0.6 else r.choice(ENERGY)
    e = r.choice([np.geomspace(0.1, 10, nb + 1), np.sort(ctx.np.uniform(0.1, 10, nb + 1)), np.concatenate([[0.0], np.geomspace(0.2, 9, nb), [np.inf]])])
    fin = e[np.isfinite(e) & (e > 0)]
    v = 10 ** ctx.np.uniform(np.log10(fin[0]) - 0.3, np.log10(fin[-1]) + 0.3, n)
    E, V = to_unit(e, "TeV", eu), to_unit(v, "TeV", vu)
    if vu == eu and n > 2 and r.random() < 0.6:
        V[:2] = [r.choice(list(E[np.isfinite(E) & (E > 0)])) for _ in range(2)]
    return E, eu, V, vu


def binned(ctx, r):
    nb, n = r.choice([1, 2, 3, 6]), r.choice([0, 1, 2, 10, 50, 120])
    if r.random() < 0.02:
        nb, n = r.choice([2, 3, 25]), 2500
    E, eu, V, vu = edges_values(ctx, r, nb, n)
    kind = r.choice(["true", "reco"])
    other = V * ctx.np.lognormal(0, 0.3, n)
    ou = r.choice(ENERGY)
    other = to_unit(other, vu, ou)
    tr, tu, re, ru = (V, vu, other, ou) if kind == "true" else (other, ou, V, vu)
    return E, eu, tr, tu, re, ru, kind, n


def part_angular(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        E, eu, tr, tu, re, ru, kind, n = binned(ctx, r)
        au = r.choice(ANGLE)
        th = to_unit(np.abs(ctx.np.normal(0, 0.2, n)), "deg", au)
        if r.random() < 0.3:
            th = np.round(th, 2)
        if n and r.random() < 0.15:
            th[ctx.np.random(n) < 0.2] = np.nan
        rtol = "1e-10"
        if r.random() < 0.1:
            th, rtol = th.astype(np.float32), "5e-6"
        qs = r.choice([[ONE], [0.68], [0.25, 0.5, 0.95], [0.95, 0.1], [0.0, 1.0], (0.33, 0.66)])
        tab = QTable()
        for name, c, x in [("true_energy", tr, tu), ("theta", th, au), ("reco_energy", re, ru)]:
            tab[name] = q(c, x)
        kw = {} if kind == "true" and r.random() < 0.7 else dict(energy_type=kind)
        scalar = len(qs) == 1
        if qs != [ONE] or r.random() < 0.3:
            kw["quantile"] = qs[0] if scalar and r.random() < 0.5 else qs
        b = q(E, eu)

        def enc(t):
            k = kind + "_energy"
            res = [nums(canon(t[f"angular_resolution_{x * 100:.0f}"], "rad")) for x in qs]
            return dict(low=nums(canon(t[k + "_low"], "TeV")), high=nums(canon(t[k + "_high"], "TeV")),
                        center=nums(canon(t[k + "_center"], "TeV")), n=nums(plain(t["n_events"])), res=res)
        en, un = (tr, tu) if kind == "true" else (re, ru)
        ctx.w.trace(ctx.id("ang"), [dict(op="angular", edges=qrec(E, eu), energy=qrec(en, un), theta=qrec(th, au), q=[num(x) for x in qs], rtol=rtol,
                                         out=call(lambda: BM.angular_resolution(tab, b, **kw), enc))])


def part_bias(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        E, eu, tr, tu, re, ru, kind, n = binned(ctx, r)
        if n and r.random() < 0.15:
            (re if kind == "true" else tr)[ctx.np.random(n) < 0.2] = np.nan
        fb, fr = ("median", "iqd") if r.random() < 0.5 else (r.choice(["median", "mean"]), r.choice(["iqd", "abs68", "maxabs"]))
        kw = {} if kind == "true" and r.random() < 0.7 else dict(energy_type=kind)
        if fb != "median":
            kw["bias_function"] = FN[fb]
        if fr != "iqd":
            kw["resolution_function"] = FN[fr]
        tab = QTable()
        tab["reco_energy"], tab["true_energy"] = q(re, ru), q(tr, tu)
        tab["theta"] = np.zeros(n) * u.deg
        b = q(E, eu)

        def enc(t):
            k = kind + "_energy"
            return dict(low=nums(canon(t[k + "_low"], "TeV")), high=nums(canon(t[k + "_high"], "TeV")),
                        center=nums(canon(t[k + "_center"], "TeV")), n=nums(plain(t["n_events"])),
                        bias=nums(plain(t["bias"])), resolution=nums(plain(t["resolution"])))
        ctx.w.trace(ctx.id("bias"), [dict(op="bias", edges=qrec(E, eu), true=qrec(tr, tu), reco=qrec(re, ru), type=kind, fb=fb, fr=fr, rtol="1e-10",
                                          out=call(lambda: BM.energy_bias_resolution(tab, b, **kw), enc))])


def disp_event(h, mg):
    """h: counts (energy, migration, fov)"""
    s = h.sum(axis=1, keepdims=True)
    d = h / np.where(s == 0, 1, s) / np.diff(mg)[None, :, None]
    rows = [nums(d[a, :, f]) for a in range(h.shape[0]) for f in range(h.shape[2])]

    def enc(x):
        b, rs = (np.asarray(plain(y), dtype=float) for y in x)
        assert b.shape == rs.shape
        return dict(shape=list(b.shape), bias=nums(b.reshape(-1)), resolution=nums(rs.reshape(-1)))
    return dict(op="from_dispersion", migra=nums(mg), rows=rows, shape=[h.shape[0], h.shape[2]],
                out=call(lambda: BM.energy_bias_resolution_from_energy_dispersion(d, mg), enc))


def part_disp(ctx):
    r = ctx.rng
    for b in ctx.mine(ctx.beh):
        h = np.array(b["counts"], dtype=float)
        ctx.w.trace(ctx.id("beh"), [disp_event(h[None, :, None], np.array([0.2, 0.5, 1, 1.5, 4]))])
    for _ in range(ctx.n(300, 3000)):
        ne, nm, nf = r.choice([1, 2, 3]), r.choice([3, 5, 10, 30]), r.choice([1, 2])
        mg = r.choice([np.linspace(0.2, 5, nm + 1), np.geomspace(0.25, 4, nm + 1), np.sort(ctx.np.uniform(0.1, 3, nm + 1))])
        h = np.round(ctx.np.exponential(3, (ne, nm, nf))) if r.random() < 0.5 else ctx.np.random((ne, nm, nf))
        if r.random() < 0.7:
            h[:, 0, :] = 0
        if r.random() < 0.3:
            h *= ctx.np.random(h.shape) < 0.4
        ctx.w.trace(ctx.id("disp"), [disp_event(h, mg)])


main({"C18": [part_angular, part_bias, part_disp]})
