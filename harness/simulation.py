"""Driver for pyirf.simulations and pyirf.spectral (C11 - C13)."""
from common import *
import tempfile
from simlib import *
from pyirf import spectral as SP
from pyirf.simulations import SimulatedEventsInfo

POINT, DIFF = SP.POINT_SOURCE_FLUX_UNIT, SP.DIFFUSE_FLUX_UNIT


def out(fn):
    return call(fn, lambda r: dict(n=nums(plain(r))))


def ev_basic(rec, e, eu, fo, fu):
    i = build(rec)
    E, F = q(e, eu), q(fo, fu)
    er, fr = qrec(e, eu), qrec(fo, fu)
    return [dict(op="per_energy", info=rec, e=er, out=out(lambda: i.calculate_n_showers_per_energy(E))),
            dict(op="per_fov", info=rec, f=fr, out=out(lambda: i.calculate_n_showers_per_fov(F))),
            dict(op="per_energy_fov", info=rec, e=er, f=fr, out=out(lambda: i.calculate_n_showers_per_energy_and_fov(E, F)))]


def part_basic(ctx):
    r = ctx.rng
    for b in ctx.mine(ctx.beh):
        rec = dict(n="1000000", index=b["index"], emin=dict(v="0.1", u="TeV"), emax=dict(v="10", u="TeV"), impact=dict(v="300", u="m"),
                   vmin=dict(v=b["vmin"], u="rad"), vmax=dict(v=b["vmax"], u="rad"))
        rec = {k: (num(float(x)) if isinstance(x, str) else dict(v=num(float(x["v"])), u=x["u"])) for k, x in rec.items()}
        e, fo = np.array([float(x) for x in b["e"]]), np.array([float(x) for x in b["f"]])
        ctx.w.trace(ctx.id("beh"), ev_basic(rec, e, "TeV", fo, "rad"))
    for _ in range(ctx.n(700, 7000)):
        rec, lim, v = rand_info(r)
        eu, fu = r.choice(ENERGY), r.choice(ANGLE)
        ctx.w.trace(ctx.id("sim"), ev_basic(rec, to_unit(rand_energy_bins(ctx, r, lim), "TeV", eu), eu,
                                            to_unit(rand_fov_bins(ctx, r, v), "deg", fu), fu))
        if r.random() < 0.1:
            g = r.choice([-0.999, -0.5, 0.0, 1.0, 2, -1, -1.0001, -3])
            ctx.w.trace(ctx.id("new"), [dict(op="new_info", index=num(g), out=call(
                lambda: SimulatedEventsInfo(1000, 1 * u.GeV, 1 * u.TeV, 100 * u.m, g, 0 * u.deg, 5 * u.deg), lambda x: {}))])


def part_3d(ctx):
    r = ctx.rng
    for _ in range(ctx.n(300, 3000)):
        rec, lim, v = rand_info(r)
        i = build(rec)
        eu, fu, pu = r.choice(ENERGY), r.choice(ANGLE), r.choice(ANGLE)
        e = to_unit(rand_energy_bins(ctx, r, lim), "TeV", eu)[:5]
        fo = to_unit(rand_fov_bins(ctx, r, v), "deg", fu)
        n = r.choice([1, 2, 3, 5])
        p = r.choice([np.linspace(0, 360, n + 1), np.sort(ctx.np.uniform(0, 360, n + 1)), np.linspace(-180, 180, n + 1),
                      np.concatenate([[0.0], np.sort(ctx.np.uniform(0, 360, n - 1)), [360.0]])])
        p = to_unit(p, "deg", pu)
        ctx.w.trace(ctx.id("polar"), [dict(op="polar", info=rec, e=qrec(e, eu), f=qrec(fo, fu), p=qrec(p, pu),
                                           out=out(lambda: i.calculate_n_showers_3d_polar(q(e, eu), q(fo, fu), q(p, pu))))])
    for _ in range(ctx.n(200, 2000)):
        rec, lim, v = rand_info(r, point=False, vc=r.choice([(0.0, 10.0), (0.0, 0.5), (1.0, 6.0), (0.0, 2.0), (3.0, 3.5), (0.1, 8.0), (0.0, 30.0)]))
        i = build(rec)
        eu, lu, bu = r.choice(ENERGY), r.choice(ANGLE), r.choice(ANGLE)
        if r.random() < 0.5:
            lu = bu
        e = to_unit(rand_energy_bins(ctx, r, lim), "TeV", eu)[:3]
        hi = v[1]
        nl, nb = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])

        def grid(n):
            m = r.randrange(4)
            if m == 0:
                return np.linspace(-hi * 1.2, hi * 1.2, n + 1)
            if m == 1:
                return np.linspace(-hi, hi, n + 1)
            if m == 2:
                return np.sort(ctx.np.uniform(-hi * 1.5, hi * 1.5, n + 1))
            return np.sort(ctx.np.uniform(0, hi * 1.1, n + 1))
        lon, lat = to_unit(grid(nl), "deg", lu), to_unit(grid(nb), "deg", bu)
        sub = r.choice([20, 20, 5, 10, 7])
        a = () if sub == 20 and r.random() < 0.5 else (sub,)
        ctx.w.trace(ctx.id("lonlat"), [dict(op="lonlat", info=rec, e=qrec(e, eu), lon=qrec(lon, lu), lat=qrec(lat, bu), sub=sub,
                                            out=out(lambda: i.calculate_n_showers_3d_lonlat(q(e, eu), q(lon, lu), q(lat, bu), *a)))])


# --------------------------------------------------------------------- C13 --
def flux_unit(r, diffuse):
    return dict(e=r.choice(ENERGY), a=r.choice(AREA), t=r.choice(["s", "h", "s"]), s=r.choice(["sr", "sr", "deg2"]) if diffuse else "none")


def apu(fu):
    x = 1 / (UNITS[fu["e"]] * UNITS[fu["a"]] * UNITS[fu["t"]])
    return x if fu["s"] == "none" else x / UNITS[fu["s"]]


NAMED = dict(
    CRAB_HEGRA=dict(kind="powerlaw", norm=2.83e-11, index=-2.62, eref=("TeV", 1.0), fu=dict(e="TeV", a="cm2", t="s", s="none")),
    CRAB_MAGIC_JHEAP2015=dict(kind="logparabola", norm=3.23e-11, a=-2.47, b=-0.24, eref=("TeV", 1.0), fu=dict(e="TeV", a="cm2", t="s", s="none")),
    PDG_ALL_PARTICLE=dict(kind="powerlaw", norm=1.8e4, index=-2.7, eref=("GeV", 1.0), fu=dict(e="GeV", a="m2", t="s", s="sr")),
    IRFDOC_PROTON_SPECTRUM=dict(kind="powerlaw", norm=9.8e-6, index=-2.62, eref=("TeV", 1.0), fu=dict(e="TeV", a="cm2", t="s", s="sr")),
    IRFDOC_ELECTRON_SPECTRUM=dict(kind="bump", norm=2.385e-9, index=-3.43, eref=("TeV", 1.0), mu=-0.101, sigma=0.741, f=1.950,
                                  fu=dict(e="TeV", a="cm2", t="s", s="sr")),
)


def rand_spectrum(ctx, r, diffuse=None, kinds=("powerlaw", "logparabola", "bump", "table", "named")):
    """(record, object)"""
    kind = r.choice(kinds)
    if kind == "named":
        ok = [k for k, v in NAMED.items() if (diffuse is None or (v["fu"]["s"] != "none") == diffuse) and v["kind"] in kinds]
        name = r.choice(ok)
        d = NAMED[name]
        rec = {k: (num(v) if isinstance(v, float) else v) for k, v in d.items() if k != "eref"}
        rec["eref"] = dict(v=num(d["eref"][1]), u=d["eref"][0])
        return rec, getattr(SP, name)
    d = r.random() < 0.5 if diffuse is None else diffuse
    fu = flux_unit(r, d)
    ru = r.choice(ENERGY)
    eref = float(to_unit(r.choice([1.0, 0.1, 10.0, 0.35]), "TeV", ru))
    norm = 10 ** r.uniform(-15, 3)
    rec = dict(kind=kind, fu=fu, norm=num(norm), eref=dict(v=num(eref), u=ru))
    plain = r.random() < 0.2               # 1 TeV, the reference energy of the signatures
    if plain and kind != "bump":
        eref, ru = 1.0, "TeV"
        rec["eref"] = dict(v="1", u="TeV")
    Q, ER = norm * apu(fu), q(eref, ru)
    ref = () if plain else (ER,)
    if kind == "powerlaw":
        g = r.choice([-2, -2.62, -1, -3.3, 0, -2.0])
        rec["index"] = num(g)
        return rec, SP.PowerLaw(Q, g, *ref) if r.random() < 0.7 else SP.PowerLaw(index=g, e_ref=ER, normalization=Q)
    if kind == "logparabola":
        a, b = r.uniform(-3, -1), r.choice([-0.24, 0.0, -0.1, 0.05])
        rec.update(a=num(a), b=num(b))
        return rec, SP.LogParabola(Q, a, b, *ref) if r.random() < 0.7 else SP.LogParabola(b=b, a=a, e_ref=ER, normalization=Q)
    if kind == "bump":
        g, fb, mu, sg = r.uniform(-4, -2), r.choice([1.95, 0.0, 0.3]), r.uniform(-0.5, 0.5), r.choice([0.741, 0.2, 1.5])
        rec.update(index=num(g), f=num(fb), mu=num(mu), sigma=num(sg))
        return rec, SP.PowerLawWithExponentialGaussian(Q, g, ER, fb, mu, sg)
    n = r.choice([2, 3, 6])
    tu = r.choice(ENERGY)
    en = np.sort(10 ** ctx.np.uniform(-2, 2, n))
    while np.min(np.diff(np.log(en))) < 0.05:
        en = np.sort(10 ** ctx.np.uniform(-2, 2, n))
    ev = to_unit(en, "TeV", tu)
    fl = norm * en ** r.uniform(-3, 0) * ctx.np.uniform(0.5, 2, n)
    loge, logf = r.random() < 0.7, r.random() < 0.7
    perm = ctx.np.permutation(n) if r.random() < 0.3 else np.arange(n)
    rec.update(energy=qrec(ev, tu), flux=nums(fl), loge=loge, logf=logf)
    kw = dict(log_energy=loge, log_flux=logf, reference_energy=ER)
    if plain:
        kw = {k: v for k, v in kw.items() if v is False}
    E, FL = q(ev, tu)[perm], fl[perm] * apu(fu)
    if r.random() < 0.5:
        return rec, SP.TableInterpolationSpectrum(E, FL, **kw)
    t = QTable()
    t["energy"], t["flux"] = E, FL
    if r.random() < 0.4:
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, r.choice(["spectrum.ecsv", "table.ecsv", "s.fits"]))
            t.write(path)
            return rec, SP.TableInterpolationSpectrum.from_file(path, **kw)
    return rec, SP.TableInterpolationSpectrum.from_table(t, **kw)


def rand_energies(ctx, r, rec, scalar_ok=True):
    eu = r.choice(ENERGY)
    e = 10 ** ctx.np.uniform(-2.5, 2.5, r.choice([1, 3, 6]))
    if rec["kind"] == "table":
        pts = to_unit([f(x) for x in rec["energy"]["v"]], rec["energy"]["u"], "TeV")
        if rec["logf"] and not rec["loge"]:      # the extrapolation is exponential in energy
            e = np.exp(ctx.np.uniform(np.log(pts.min() / 2), np.log(pts.max() * 2), 4))
        e = np.concatenate([e, pts])
    if rec["kind"] in ("powerlaw", "bump", "logparabola"):
        e = np.append(e, to_unit(f(rec["eref"]["v"]), rec["eref"]["u"], "TeV"))
        if r.random() < 0.3:
            e = np.append(e, e[-1] * 10 ** r.choice([-9, -7, 6, 8]))
    return to_unit(e, "TeV", eu), eu


def flux_out(rec, diffuse=None):
    d = rec["fu"]["s"] != "none" if diffuse is None else diffuse
    return lambda r: dict(flux=nums(canon(r, DIFF if d else POINT)))


def part_spectra(ctx):
    r = ctx.rng
    for _ in range(ctx.n(600, 6000)):
        rec, s = rand_spectrum(ctx, r)
        e, eu = rand_energies(ctx, r, rec)
        ev = [dict(op="flux", spec=rec, energy=qrec(e, eu), out=call(lambda: s(q(e, eu)), flux_out(rec)))]
        rec2, s2 = rand_spectrum(ctx, r, diffuse=rec["fu"]["s"] != "none" if r.random() < 0.9 else None)
        pos = lambda x: x["kind"] != "table" or x["logf"]
        if pos(rec) and pos(rec2):
            if r.random() < 0.15:
                rec2, s2 = rec, s
            if rec2["kind"] == "table" and not rec2["loge"]:
                # extrapolated exponentially in energy: stay near the table
                pts = to_unit([f(x) for x in rec2["energy"]["v"]], rec2["energy"]["u"], "TeV")
                e = np.exp(ctx.np.uniform(np.log(pts.min() / 2), np.log(pts.max() * 2), 4))
                if rec["kind"] == "table" and not rec["loge"] and rec is not rec2:
                    p2 = to_unit([f(x) for x in rec["energy"]["v"]], rec["energy"]["u"], "TeV")
                    lo, hi = max(pts.min(), p2.min()) / 2, min(pts.max(), p2.max()) * 2
                    e = np.exp(ctx.np.uniform(np.log(lo), np.log(hi), 4)) if lo < hi else np.empty(0)
                e = to_unit(e, "TeV", eu)
            ev.append(dict(op="weights", target=rec, sim=rec2, energy=qrec(e, eu), out=call(
                lambda: SP.calculate_event_weights(q(e, eu), s, s2), lambda w: dict(w=nums(w)))))
        if len(e) and r.random() < 0.03:         # a long list of energies: many copies of a few
            cp = Copies(ctx, len(e))
            long = lambda: q(relayout(ctx, cp.put(e)), eu)
            un = DIFF if rec["fu"]["s"] != "none" else POINT
            ev.append(dict(op="flux", spec=rec, energy=qrec(e, eu), out=call(lambda: s(long()), lambda x: dict(flux=nums(cp.fold(canon(x, un)))))))
            if ev[-2]["op"] == "weights":
                ev.append(dict(op="weights", target=rec, sim=rec2, energy=qrec(e, eu), out=call(
                    lambda: SP.calculate_event_weights(long(), s, s2), lambda w: dict(w=nums(cp.fold(w))))))
        ctx.w.trace(ctx.id("spec"), ev)
    for _ in range(ctx.n(300, 3000)):
        rec, s = rand_spectrum(ctx, r, diffuse=r.random() < 0.85, kinds=("powerlaw", "bump", "named"))
        iu, ou = r.choice(ANGLE), r.choice(ANGLE)
        a, b = r.choice([(0.0, 1.0), (0.0, 10.0), (0.5, 3.0), (0.0, 180.0), (0.0, 0.3), (20.0, 60.0)])
        a, b = float(to_unit(a, "deg", iu)), float(to_unit(b, "deg", ou))
        e, eu = rand_energies(ctx, r, rec)

        def go():
            before = s(q(e, eu))
            c = s.integrate_cone(q(a, iu), q(b, ou))
            return c(q(e, eu)), before, s(q(e, eu))
        d = rec["fu"]["s"] != "none"

        def enc(x):
            un = DIFF if d else POINT
            return dict(flux=nums(canon(x[0], POINT)), before=nums(canon(x[1], un)), after=nums(canon(x[2], un)))
        ctx.w.trace(ctx.id("cone"), [dict(op="cone", spec=rec, inner=dict(v=num(a), u=iu), outer=dict(v=num(b), u=ou), energy=qrec(e, eu),
                                          out=call(go, enc))])
    for _ in range(ctx.n(300, 3000)):
        rec, lim, v = rand_info(r)
        i = build(rec)
        tu, ru = r.choice(TIME), r.choice(ENERGY)
        tv = float(to_unit(r.choice([1.0, 50.0, 0.5]), "h", tu))
        er = float(to_unit(r.choice([1.0, 0.1, 7.0]), "TeV", ru))
        dflt = r.random() < 0.4
        if dflt:
            er, ru = 1.0, "TeV"

        def enc(p):
            d = bool(u.Unit(p.normalization.unit).is_equivalent(DIFF))
            return dict(diffuse=d, norm=num(canon(p.normalization, DIFF if d else POINT)), index=num(p.index), eref=num(canon(p.e_ref, "TeV")))
        kw = {} if dflt else dict(e_ref=q(er, ru))
        ctx.w.trace(ctx.id("fromsim"), [dict(op="from_simulation", info=rec, time=dict(v=num(tv), u=tu), eref=dict(v=num(er), u=ru),
                                             out=call(lambda: SP.PowerLaw.from_simulation(i, q(tv, tu), **kw), enc))])
        if r.random() < 0.1:
            g = r.choice([0.1, 1, 2.5, 0, -1])
            ctx.w.trace(ctx.id("newspec"), [dict(op="new_spectrum", index=num(g), out=call(
                lambda: SP.PowerLaw(1 * POINT, g), lambda x: {}))])
    # the table shipped with pyirf
    if ctx.shard == 0:
        from astropy.io import ascii
        t = QTable.read(os.path.join(REPO, "pyirf", "resources", "dampe_p+he.ecsv"))
        en, fl = t["energy"].to_value(u.GeV), t["flux"].to_value(1 / (u.m**2 * u.s * u.sr * u.GeV))
        o = np.argsort(en)
        rec = dict(kind="table", fu=dict(e="GeV", a="m2", t="s", s="sr"), norm="1", eref=dict(v="1", u="TeV"), energy=qrec(en[o], "GeV"),
                   flux=nums(fl[o]), loge=True, logf=True)
        for e in (en, np.array([10.0, 100.0, 1e4, 3e5, 1e6])):
            ctx.w.trace(ctx.id("dampe"), [dict(op="flux", spec=rec, energy=qrec(e, "GeV"), out=call(
                lambda: SP.DAMPE_P_He_SPECTRUM(e * u.GeV), flux_out(rec)))])


main({"C11": [part_basic], "C12": [part_3d], "C13": [part_spectra]})
