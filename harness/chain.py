"""Driver for whole analysis chains (C35): events -> weights, coordinates, cuts -> IRFs -> FITS file -> read back."""
import operator
import tempfile

from astropy.io import fits
from astropy.table import vstack

from common import *
from simlib import build
from pyirf import cuts as CU
from pyirf import irf as I
from pyirf import utils as U
from pyirf import io as IO
from pyirf.binning import add_overflow_bins, bin_center, create_bins_per_decade
from pyirf.cut_optimization import optimize_gh_cut
from pyirf.spectral import PowerLaw, calculate_event_weights
from gammapy.irf import load_irf_dict_from_file

ANG = ["deg", "rad", "arcmin"]


def displaced(lon, lat, dist, pa):
    """Direction at a distance and position angle from (lon, lat); radian."""
    sb = np.sin(lat) * np.cos(dist) + np.cos(lat) * np.sin(dist) * np.cos(pa)
    b = np.arcsin(np.clip(sb, -1, 1))
    dl = np.arctan2(np.sin(pa) * np.sin(dist) * np.cos(lat), np.cos(dist) - np.sin(lat) * sb)
    return lon + dl, b


class Production:
    """Events of one particle type with all columns of the data format."""

    def __init__(self, ctx, which, rec, target, obstime, e, r, o, th, gh, reco_at=None, pointing=((1.0, 0.8),), eu="TeV", ru="TeV"):
        g = ctx.rng
        n = len(e)
        self.which, self.rec, self.target, self.obstime = which, rec, target, obstime
        # one pointing, or several runs
        k = ctx.np.integers(0, len(pointing), n)
        plon, plat = np.array(pointing, dtype=float)[k].T
        tlon, tlat = displaced(plon, plat, o, ctx.np.uniform(0, 2 * np.pi, n))
        if reco_at is None:
            rlon, rlat = displaced(tlon, tlat, th, ctx.np.uniform(0, 2 * np.pi, n))
        else:
            rlon, rlat = displaced(plon, plat, reco_at, ctx.np.uniform(0, 2 * np.pi, n))
        au = {k: g.choice(ANG) for k in ("t", "r", "p")}
        self.cu = dict(e=eu, r=ru, taz=au["t"], talt=au["t"], raz=au["r"], ralt=au["r"], paz=au["p"], palt=au["p"])
        cols = dict(e=to_unit(e, "TeV", eu), r=to_unit(r, "TeV", ru), taz=tlon, talt=tlat, raz=rlon, ralt=rlat, paz=plon, palt=plat)
        for k in ("taz", "talt", "raz", "ralt", "paz", "palt"):
            cols[k] = to_unit(cols[k], "rad", self.cu[k])
        self.cols = {k: np.asarray(v, dtype=float) for k, v in cols.items()}
        self.gh = np.asarray(gh, dtype=float)
        name = dict(e="true_energy", r="reco_energy", taz="true_az", talt="true_alt", raz="reco_az", ralt="reco_alt", paz="pointing_az", palt="pointing_alt")
        t = QTable()
        ks = list(name)
        g.shuffle(ks)
        for k in ks:
            t[name[k]] = q(self.cols[k], self.cu[k])
        t["gh_score"] = self.gh
        t["particle_type"] = np.full(n, "gamma" if which == "gamma" else "proton")
        self.tab, self.info = t, build(rec)

    def prepare(self):
        t, tg = self.tab, self.target
        area = u.Unit(tg["unit"])
        spec = PowerLaw(tg["norm"] * (1 / (u.TeV * u.s * area * (u.sr if tg["diffuse"] else u.one))), tg["index"], q(tg["eref"], tg["eu"]))
        sim = PowerLaw.from_simulation(self.info, q(*self.obstime))
        t["weight"] = calculate_event_weights(t["true_energy"], spec, sim)
        for p in ("true", "reco"):
            t[f"{p}_source_fov_offset"] = U.calculate_source_fov_offset(t, prefix=p)
        t["theta"] = U.calculate_theta(t, assumed_source_az=t["true_az"], assumed_source_alt=t["true_alt"])
        t["reco_source_fov_lon"], t["reco_source_fov_lat"] = U.calculate_source_fov_lonlat(t, prefix="reco")
        return t

    def event(self):
        out = call(self.prepare, lambda t: {})
        cols, cu = {k: nums(v) for k, v in self.cols.items()}, dict(self.cu)
        cols["gh"] = nums(self.gh)
        if out["k"] == "ok":
            t = self.tab
            for k, c in dict(o="true_source_fov_offset", p="reco_source_fov_offset", th="theta", lon="reco_source_fov_lon", lat="reco_source_fov_lat").items():
                un = [x for x in ANGLE if t[c].unit == UNITS[x]][0]
                cols[k], cu[k] = nums(t[c].value), un
            cols["w"] = nums(plain(t["weight"]))
        tg = self.target
        f = u.Unit(tg["unit"]).to(u.m**2)
        return dict(op="simulate", which=self.which, info=self.rec, cols=cols, cu=cu, obstime=dict(v=num(self.obstime[0]), u=self.obstime[1]), out=out,
                    target=dict(kind="powerlaw", norm=num(tg["norm"] / f), index=num(tg["index"]), eref=num(to_unit(tg["eref"], tg["eu"], "TeV"))))


def table_of(edges, un, cut):
    b = q(edges, un)
    return QTable({"low": b[:-1], "high": b[1:], "center": bin_center(b), "cut": cut})


def unit_name(x):
    return [n for n in UNITS if n not in ("none",) and UNITS[n] == x][0]


def edges_of(t):
    """edges of a cut table"""
    un = unit_name(t["low"].unit)
    return qrec(np.append(t["low"].value, t["high"].value[-1]), un)


def apply_cuts(gam, bkg, ghc, thc):
    for p in (gam, bkg):
        p.tab["selected_gh"] = CU.evaluate_binned_cut(p.tab["gh_score"], p.tab["reco_energy"], ghc, operator.ge)
    gam.tab["selected_theta"] = CU.evaluate_binned_cut(gam.tab["theta"], gam.tab["reco_energy"], thc, operator.le)
    gam.tab["selected"] = gam.tab["selected_gh"] & gam.tab["selected_theta"]


def ev_cuts(gam, bkg, ghc, thc):
    out = call(lambda: apply_cuts(gam, bkg, ghc, thc) or 0, lambda _: dict(
        gh=[bool(x) for x in gam.tab["selected_gh"]], both=[bool(x) for x in gam.tab["selected"]], bkg=[bool(x) for x in bkg.tab["selected_gh"]]))
    th = thc["cut"]
    return dict(op="cuts", gh=dict(edges=edges_of(ghc), cut=nums(np.asarray(ghc["cut"]))),
                th=dict(edges=edges_of(thc), cut=qrec(th.value, unit_name(th.unit))), out=out)


def make_irf(kind, gam, bkg, sel, ax, perfov, pl, ctx, thc, cards):
    """one HDU"""
    g, b = gam.tab, bkg.tab
    s = g[g["selected"]] if pl else g[g["selected_gh"]]
    if kind == "aeff":
        a = I.effective_area_per_energy_and_fov(s, gam.info, *ax) if perfov else I.effective_area_per_energy(s, gam.info, ax[0])[..., np.newaxis]
        return IO.create_aeff2d_hdu(a, *ax, point_like=pl, **cards)
    if kind == "edisp":
        d = I.energy_dispersion(s, true_energy_bins=ax[0], fov_offset_bins=ax[2], migration_bins=ax[1])
        return IO.create_energy_dispersion_hdu(d, true_energy_bins=ax[0], migration_bins=ax[1], fov_offset_bins=ax[2], point_like=pl, **cards)
    if kind == "psf":
        p = I.psf_table(g[g["selected_gh"]], ax[0], fov_offset_bins=ax[1], source_offset_bins=ax[2])
        return IO.create_psf_table_hdu(p, ax[0], ax[2], ax[1], **cards)
    if kind == "bkg2d":
        return IO.create_background_2d_hdu(I.background_2d(b[b["selected_gh"]], ax[0], ax[1], q(*bkg.obstime)), *ax, **cards)
    if kind == "bkg3d":
        return IO.create_background_3d_hdu(I.background_3d_lonlat(b[b["selected_gh"]], ax[0], ax[1], ax[2], q(*bkg.obstime)), *ax, **cards)
    if kind == "radmax":
        return IO.create_rad_max_hdu(thc["cut"][:, np.newaxis], *ax, **cards)


KEY = dict(aeff="aeff", edisp="edisp", psf="psf", bkg2d="bkg", bkg3d="bkg", radmax="rad_max")
CAN = dict(aeff=u.m**2, edisp=u.one, psf=1 / u.sr, bkg2d=u.Unit("TeV-1 s-1 sr-1"), bkg3d=u.Unit("TeV-1 s-1 sr-1"), radmax=u.rad)
FCOL = dict(aeff=("EFFAREA", "ENERG THETA", "energy_true offset"), edisp=("MATRIX", "ENERG MIGRA THETA", "energy_true migra offset"),
            psf=("RPSF", "ENERG THETA RAD", "energy_true offset rad"), bkg2d=("BKG", "ENERG THETA", "energy offset"),
            bkg3d=("BKG", "ENERG DETX DETY", "energy fov_lon fov_lat"), radmax=("RAD_MAX", "ENERG THETA", "energy offset"))
CLS4 = dict(aeff="AEFF_2D", edisp="EDISP_2D", psf="PSF_TABLE", bkg2d="BKG_2D", bkg3d="BKG_3D", radmax="RAD_MAX_2D")


def axis_rec(edges, name):
    un = "TeV" if name.startswith("energy") else "one" if name == "migra" else "deg"
    return qrec(u.Quantity(edges).to_value(UNITS[un]), un)


def by_gammapy(kind, irfs, f):
    o = irfs[KEY[kind]]
    return dict(names=list(o.axes.names), axes=[axis_rec(a.edges, a.name) for a in o.axes], shape=list(o.quantity.shape),
                v=nums(o.quantity.to_value(CAN[kind]).ravel()), pointlike=bool(o.is_pointlike))


def by_astropy(kind, irfs, f):
    h = [x for x in f if x.header.get("HDUCLAS4") == CLS4[kind]][0]
    t = QTable.read(h)
    data, cols, names = FCOL[kind]
    names = names.split()
    axes = []
    for c, n in zip(cols.split(), names):
        lo, hi = u.Quantity(t[c + "_LO"][0]), u.Quantity(t[c + "_HI"][0])
        axes.append(axis_rec(np.append(lo, hi[-1]), n))
    x = u.Quantity(t[data][0]).T
    return dict(names=names, axes=axes, shape=list(x.shape), v=nums(x.to_value(CAN[kind]).ravel()), pointlike=h.header["HDUCLAS3"] == "POINT-LIKE")


def overflowing(ax):
    return any(np.isinf(u.Quantity(a).value).any() or (k == 0 and u.Quantity(a).value[0] <= 0) for k, a in enumerate(ax))


def ev_irfs(ctx, gam, bkg, thc, axes, perfov, pl, cards):
    """axes: kind -> [(edges, unit)]"""
    r = ctx.rng
    hdus, ev, made = [], [], {}
    kinds = list(axes)
    r.shuffle(kinds)
    for k in kinds:
        ax = [q(e, x) for e, x in axes[k]]
        box = []
        made[k] = call(lambda: box.append(make_irf(k, gam, bkg, None, ax, perfov, pl, ctx, thc, cards)), lambda _: {})
        hdus += box
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, r.choice(["irfs.fits", "irfs.fits.gz"]))
        try:
            fits.HDUList([fits.PrimaryHDU()] + hdus).writeto(p)
            over = any(overflowing([q(e, x) for e, x in axes[k]]) for k in kinds)
            gp = not over and r.random() < 0.7
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                irfs = load_irf_dict_from_file(p) if gp else None
            f = fits.open(p)
            fail = None
        except Exception as e:
            fail = dict(k="malformed", type=exc_name(e), msg=str(e)[:300])
        for k in kinds:
            out = made[k]
            if out["k"] == "ok":
                out = fail or call(lambda: (by_gammapy if gp else by_astropy)(k, irfs, f), lambda x: x)
            ev.append(dict(op="irf", kind=k, point=pl, perfov=perfov, via="gammapy" if not fail and gp else "astropy",
                           axes=[qrec(e, x) for e, x in axes[k]], out=out))
        if fail is None:
            f.close()
    return ev


# ------------------------------------------------------------------ sessions --
def beh_session(ctx, b):
    """A history of the model: abstract events, the cuts and axes of the model."""
    rec = dict(n="1000", index="-2", emin=dict(v="1", u="TeV"), emax=dict(v="8", u="TeV"), impact=dict(v="500", u="m"),
               vmin=dict(v="0", u="rad"), vmax=dict(v=num(0.05), u="rad"))
    c = lambda s, k: np.array([float(x[k]) for x in s])
    tg = dict(norm=1e-11, index=-2.0, eref=1.0, eu="TeV", unit="m2", diffuse=True)
    at = [(1.0, 0.8)]
    gam = Production(ctx, "gamma", rec, tg, (1.0, "h"), c(b["g"], "e"), c(b["g"], "r"), c(b["g"], "o"), c(b["g"], "th"), c(b["g"], "gh"), pointing=at)
    bkg = Production(ctx, "background", dict(rec, emax=dict(v="10", u="TeV")), dict(tg, index=-2.7), (1.0, "h"), c(b["b"], "e"), c(b["b"], "r"), c(b["b"], "o"), c(b["b"], "th"), c(b["b"], "gh"),
                     reco_at=c(b["b"], "p"), pointing=at)
    ev = [gam.event(), bkg.event()]
    E = np.array([1.0, 2, 8])
    ghc = table_of(E, "TeV", np.array([0.5, 0.8]))
    thc = table_of(E, "TeV", np.array([0.01, 0.03]) * (1 + 1e-9) * u.rad)
    ev.append(ev_cuts(gam, bkg, ghc, thc))
    F, M, S, P = [0, 0.01, 0.04], [0.5, 1, 3], [0, 0.02, 0.05], [0, 0.02, 0.05]
    axes = dict(aeff=[(E, "TeV"), (F, "rad")], edisp=[(E, "TeV"), (M, "none"), (F, "rad")], psf=[(E, "TeV"), (F, "rad"), (S, "rad")],
                bkg2d=[(E, "TeV"), (P, "rad")], radmax=[(E, "TeV"), ([0, 0.05], "rad")])
    ev += ev_irfs(ctx, gam, bkg, thc, {k: [(np.array(e, dtype=float), x) for e, x in v] for k, v in axes.items()}, True, b["pl"], {})
    ctx.w.trace(ctx.id("beh"), ev)


def edges_energy(ctx, lim, n=None, over=0.15):
    r = ctx.rng
    n = n or r.choice([1, 2, 3, 5])
    lo, hi = np.log10(lim[0]), np.log10(lim[1])
    k = r.randrange(3)
    if k == 0:
        e = create_bins_per_decade(lim[0] * u.TeV, lim[1] * u.TeV, r.choice([1, 2, 3])).to_value(u.TeV)
    elif k == 1:
        e = np.geomspace(lim[0] * r.choice([1, 0.3]), lim[1] * r.choice([1, 1.5]), n + 1)
    else:
        e = np.sort(10 ** ctx.np.uniform(lo, hi, n + 1))
        e = e[np.concatenate([[True], np.diff(e) > 1e-3 * e[:-1]])]
    if len(e) < 2:
        e = np.array(lim, dtype=float)
    un = r.choice(["TeV", "TeV", "GeV", "erg"])
    e = to_unit(e, "TeV", un)
    if r.random() < over:
        b = add_overflow_bins(q(e, un))
        e = b.value
    return e, un


def rand_session(ctx):
    r, p = ctx.rng, ctx.np
    diffuse = r.random() < 0.6
    lim = r.choice([(0.02, 50.0), (0.1, 10.0), (0.003, 330.0)])
    vc = r.choice([(0.0, 6.0), (0.0, 10.0), (1.0, 4.0)])
    idx = r.choice([-2.0, -2.62, -1.5])

    def info(diff, view, index, n):
        au, au2 = r.choice(["deg", "rad", "mrad"]), r.choice(["deg", "rad", "arcmin"])
        if not diff:
            view, au2 = (r.choice([(0.0, 0.0), (offs[0], offs[0])])), au
        eu = r.choice(ENERGY)
        return dict(n=num(n), index=num(index), emin=dict(v=num(float(to_unit(lim[0], "TeV", eu))), u=eu), emax=dict(v=num(float(to_unit(lim[1], "TeV", eu))), u=eu),
                    impact=dict(v=num(r.choice([500.0, 1400.0, 2500.0])), u="m"),
                    vmin=dict(v=num(float(to_unit(view[0], "deg", au))), u=au), vmax=dict(v=num(float(to_unit(view[1], "deg", au2))), u=au2))

    def target(diff, index):
        un = r.choice(["m2", "cm2", "km2"])
        return dict(norm=10.0 ** r.uniform(-12, -6), index=index, eref=r.choice([1.0, 1.0, 0.5, 300.0]), eu=r.choice(["TeV", "TeV", "GeV"]), unit=un, diffuse=diff)

    def energies(n):
        e = 10 ** p.uniform(np.log10(lim[0]) + 1e-6, np.log10(lim[1]) - 1e-6, n)
        if r.random() < 0.3:        # concentrated
            e = np.clip(10 ** p.normal(np.log10(np.sqrt(lim[0] * lim[1])), 0.3, n), lim[0] * 1.001, lim[1] * 0.999)
        return e, e * np.exp(p.normal(0, r.choice([0.1, 0.3, 0.6]), n))

    obst = (float(r.choice([0.5, 1.0, 50.0])), r.choice(["h", "min", "s"]))
    n, m = r.choice([5, 20, 40, 80]), r.choice([3, 15, 40])
    at = [(np.radians(r.uniform(0, 360)), np.radians(r.choice([20.0, -30.0, 60.0, 70.0, 84.0]))) for _ in range(r.choice([1, 1, 3]))]
    e, er = energies(n)
    offs = np.degrees(np.arccos(1 - p.uniform(1 - np.cos(np.radians(vc[0])), 1 - np.cos(np.radians(vc[1])), n))) if diffuse else np.full(n, r.choice([0.4, 0.5, 1.0]))
    th = np.abs(p.normal(0, r.choice([0.05, 0.15, 0.4]), n)) + 1e-4
    gh = p.beta(4, 2, n)
    if r.random() < 0.3:
        gh = np.round(gh * 8) / 8
    eu = r.choice(["TeV", "TeV", "GeV"])
    gam = Production(ctx, "gamma", info(diffuse, vc, idx, r.choice([1000, 10**6])), target(diffuse, idx if r.random() < 0.5 else -2.62), obst, e, er,
                     np.radians(offs), np.radians(th), gh, pointing=at, eu=eu, ru=r.choice([eu, "TeV"]))
    e, er = energies(m)
    offs = np.degrees(np.arccos(1 - p.uniform(0, 1 - np.cos(np.radians(vc[1])), m)))
    bkg = Production(ctx, "background", info(True, (0.0, vc[1]), -2.0, r.choice([10**5, 10**7])), target(True, -2.7), obst, e, er, np.radians(offs),
                     np.radians(p.uniform(0, 1, m)), p.beta(3, 3, m), pointing=at)
    ev = [gam.event(), bkg.event()]
    if any(x["out"]["k"] != "ok" for x in ev):
        ctx.w.trace(ctx.id("rnd"), ev)
        return
    for _ in range(r.choice([1, 1, 2])):
        one_round(ctx, ev, gam, bkg, diffuse, lim, vc)
    ctx.w.trace(ctx.id("rnd"), ev)


def touching(ctx, edges, unit, col):
    """The same binning with one finite edge moved onto the value of an event."""
    if ctx.rng.random() > 0.25 or unit not in UNITS or col.unit != UNITS[unit] or not len(col):
        return edges, unit
    e = np.array(edges, dtype=float)
    fin = [k for k in range(len(e)) if np.isfinite(e[k]) and e[k] > 0]
    k = ctx.rng.choice([fin[-1], fin[-1], ctx.rng.choice(fin)])
    lo, hi = e[k - 1] if k else 0.0, e[k + 1] if k + 1 < len(e) else np.inf
    v = [x for x in col.value if lo * 1.001 < x < hi * 0.999 and np.isfinite(x)]
    if v and (hi < np.inf or e[k] == e[-1]):
        e[k] = ctx.rng.choice([max(v), min(v), ctx.rng.choice(v)])
    return (e, unit) if np.all(np.diff(e) > 1e-3 * np.abs(np.minimum(e[1:], 1e300))) else (edges, unit)


def one_round(ctx, ev, gam, bkg, diffuse, lim, vc):
    r, p = ctx.rng, ctx.np
    g = gam.tab
    ce, cu = touching(ctx, *edges_energy(ctx, lim), g["reco_energy"])
    b = q(ce, cu)
    tb = b if r.random() < 0.6 else q(*edges_energy(ctx, lim))
    k = r.randrange(4)
    first = table_of(ce, cu, np.full(len(ce) - 1, r.choice([0.2, 0.5, 0.7])))
    if k == 0:
        ghc = first
    elif k == 1:
        ghc = table_of(ce, cu, np.round(p.uniform(0, 1, len(ce) - 1) * 8) / 8)
    else:
        ghc = CU.calculate_percentile_cut(g["gh_score"], g["reco_energy"], b, fill_value=r.choice([0.5, 0.0]), percentile=r.choice([20, 50, 10]),
                                          **({"smoothing": 1} if r.random() < 0.2 else {}), **({"min_events": 1} if r.random() < 0.5 else {}))
    s = g[CU.evaluate_binned_cut(g["gh_score"], g["reco_energy"], ghc, operator.ge)]
    if r.random() < 0.7:
        thc = CU.calculate_percentile_cut(s["theta"], s["reco_energy"], tb, fill_value=0.32 * u.deg, min_value=0.05 * u.deg, max_value=0.32 * u.deg, percentile=68)
    else:
        thc = QTable({"low": tb[:-1], "high": tb[1:], "center": bin_center(tb), "cut": p.uniform(0.05, 0.5, len(tb) - 1) * u.deg})
    if k == 3 and r.random() < 0.4 and len(tb) == len(b):
        same = QTable({"low": b[:-1], "high": b[1:], "center": bin_center(b), "cut": thc["cut"]})
        bt = bkg.tab
        _, ghc = optimize_gh_cut(g, bt, reco_energy_bins=b, gh_cut_efficiencies=np.array([0.3, 0.6, 0.9]), op=operator.ge, theta_cuts=same, alpha=0.2,
                                 fov_offset_max=2 * u.deg)
    ev.append(ev_cuts(gam, bkg, ghc, thc))
    if ev[-1]["out"]["k"] != "ok":
        return
    fu = r.choice(["deg", "rad"])
    F = r.choice([[0, 0.5, 1, 3], [0.0, 2.0, 6.0], [0, 10], [1.0, 2.5, 4.0]]) if diffuse else [0, r.choice([1.5, 3])]
    F = to_unit(np.array(F, dtype=float), "deg", fu)
    S = np.array(r.choice([[0, 0.1, 0.2, 0.5, 1], [0, 0.05, 0.3], [0.01, 0.4]]), dtype=float)
    M = r.choice([np.geomspace(0.2, 5, 4), np.linspace(0.2, 5, 6), np.array([0.5, 1.0, 2.0])])
    P = np.array(r.choice([[0, 1, 2, 4], [0, 3, 10], [0.5, 2]]), dtype=float)
    L = r.choice([np.linspace(-4, 4, 3), np.linspace(-3, 3, 4), np.array([-5.0, 0.5, 2])])
    B = r.choice([np.linspace(-4, 4, 5), np.linspace(-6, 3, 4), np.array([-5.0, 0.5, 2])])
    F, fu = touching(ctx, F, fu, g["true_source_fov_offset"])
    S, su = touching(ctx, S, "deg", g["theta"])
    P, pu = touching(ctx, P, "deg", bkg.tab["reco_source_fov_offset"])
    E = touching(ctx, *edges_energy(ctx, lim), g["true_energy"])
    R = touching(ctx, *edges_energy(ctx, lim), bkg.tab["reco_energy"])
    if np.isinf(R[0][-1]):          # the width of the last bin has to be finite
        R = (R[0][:-1], R[1])
    perfov = diffuse and r.random() < 0.8
    Fa = [(F, fu)] if perfov or not diffuse else [(to_unit(np.array([0.0, 10.0]), "deg", fu), fu)]
    axes = dict(aeff=[E] + (Fa if len(Fa[0][0]) == 2 or perfov else Fa), edisp=[E, (M, "none"), (F, fu)], psf=[E, (F, fu), (S, su)])
    if r.random() < 0.5:
        axes["bkg2d"] = [R, (P, pu)]
    else:
        axes["bkg3d"] = [R, (L, "deg"), (B, "deg")]
    tr = edges_of(thc)
    axes["radmax"] = [(np.append(thc["low"].value, thc["high"].value[-1]), tr["u"]), (np.array([0.0, 3.0]), "deg")]
    ev += ev_irfs(ctx, gam, bkg, thc, axes, perfov, r.random() < 0.5, {"TELESCOP": "CTA"} if r.random() < 0.3 else {})


def part_chain(ctx):
    beh = ctx.mine(ctx.beh)
    for k, b in enumerate(beh):
        if ctx.tier != "quick" or k % 2 == ctx.seed % 2:
            beh_session(ctx, b)
    for _ in range(ctx.n(240, 3000)):
        rand_session(ctx)


main({"C35": [part_chain]})
