"""Driver for pyirf.io.gadf (C20) and pyirf.gammapy (C21)."""
import io as _io
from astropy.io import fits
from common import *
import calendar
import time
import pyirf
from pyirf.io import gadf as G

AX = dict(aeff2d=("ENERG", "THETA"), psf=("ENERG", "THETA", "RAD"), edisp=("ENERG", "MIGRA", "THETA"),
          bkg2d=("ENERG", "THETA"), bkg3d=("ENERG", "DETX", "DETY"), radmax=("ENERG", "THETA"))
DATA = dict(aeff2d="EFFAREA", psf="RPSF", edisp="MATRIX", bkg2d="BKG", bkg3d="BKG", radmax="RAD_MAX")
UNITCHOICE = dict(
    aeff2d=[[["m2", 1]], [["km2", 1]], [["cm2", 1]]],
    psf=[[["sr", -1]], [["deg2", -1]]],
    edisp=[[]],
    bkg2d=[[["MeV", -1], ["s", -1], ["sr", -1]], [["TeV", -1], ["s", -1], ["sr", -1]], [["GeV", -1], ["h", -1], ["deg2", -1]],
           [["TeV", -1], ["min", -1], ["deg2", -1]]],
    radmax=[[["deg", 1]], [["rad", 1]], [["arcmin", 1]]])
UNITCHOICE["bkg3d"] = UNITCHOICE["bkg2d"]
BAD = {"aeff2d": [["m", 1]], "psf": [["sr", 1]], "edisp": [["m", 1]], "bkg2d": [["MeV", -1], ["s", -1]], "bkg3d": [["m2", -1], ["s", -1]],
       "radmax": [["m", 1]]}
STD = {"m2": [["m2", 1]], "sr-1": [["sr", -1]], "": [], "MeV-1 s-1 sr-1": [["MeV", -1], ["s", -1], ["sr", -1]], "deg": [["deg", 1]]}


def compose(us):
    x = u.one
    for n, p in us:
        x = x * UNITS[n] ** p
    return x


def unit_of(s):
    """Spelling of a FITS unit string, if it is one of the units of the standard."""
    x = u.Unit(s or "")
    for k, v in STD.items():
        y = compose(v)
        if x == y or (x.is_equivalent(y) and abs(x.to(y) - 1) < 1e-14):
            return v
    return [[str(x), 1]]


def axis_unit(s):
    x = u.Unit(s or "")
    for k in ("TeV", "deg", "one"):
        if x == UNITS[k]:
            return k
    return "other " + str(x)


def card(v):
    return f"b:{v}" if isinstance(v, bool) else f"s:{v}" if isinstance(v, str) else f"i:{v}" if isinstance(v, int) else f"f:{num(v)}"


def rand_axes(ctx, kind, shape):
    r = ctx.rng
    out = []
    for name, n in zip(AX[kind], shape):
        if name == "ENERG":
            e, un = np.cumprod(ctx.np.uniform(1.01, 3, n + 1)) * 10.0 ** r.randrange(-2, 1), r.choice(ENERGY)
            e = to_unit(e, "TeV", un)
        elif name == "MIGRA":
            e, un = np.cumsum(ctx.np.uniform(0.05, 1, n + 1)), r.choice(["none", "none", "one"])
        else:
            e = np.cumsum(ctx.np.uniform(0.05, 1, n + 1))
            if name.startswith("DET"):
                e = e - r.choice([0, e[-1] / 2, e[0], e[-1]])
            elif r.random() < 0.5:
                e[0] = 0
            un = r.choice(ANGLE)
            e = to_unit(e, "deg", un)
        if r.random() < 0.15:
            e = np.round(e * 4) / 4 if np.all(np.diff(np.round(e * 4)) > 0) else e
        out.append([e, un])
    return out


def rand_data(ctx, kind, shape, any_value=False):
    r = ctx.rng
    if any_value and r.random() < 0.35:
        # estimates may be undefined, below zero, or unlimited
        d = ctx.np.uniform(-3, 10, shape) * 10.0 ** r.choice([-40, -20, 0, 0, 0, 20, 30])
        for v in r.choice([(), (np.nan,), (np.nan, np.inf), (-np.inf, 0.0, np.nan), (0.0,)]):
            d[ctx.np.random(shape) < 0.25] = v
        return d
    n = r.randrange(5)
    d = ctx.np.uniform(0, 10, shape) if n < 3 else 10.0 ** ctx.np.uniform(-12, 8, shape) if n == 3 else np.arange(1.0, np.prod(shape) + 1).reshape(shape)
    if n == 2:
        d[ctx.np.random(shape) < 0.3] = 0
    return d


def layout(ctx, d):
    """The same values in another memory layout."""
    n = ctx.rng.randrange(4)
    if n == 1:
        return np.asfortranarray(d)
    if n == 2:
        big = np.full(tuple(2 * s for s in d.shape), -1.0)
        v = big[tuple(slice(None, None, 2) for _ in d.shape)]
        v[...] = d
        return v
    return d


CREATE = dict(aeff2d=G.create_aeff2d_hdu, psf=G.create_psf_table_hdu, edisp=G.create_energy_dispersion_hdu,
              bkg2d=G.create_background_2d_hdu, bkg3d=G.create_background_3d_hdu, radmax=G.create_rad_max_hdu)
ARGS = dict(aeff2d=("effective_area", "true_energy_bins", "fov_offset_bins"),
            psf=("psf", "true_energy_bins", "fov_offset_bins", "source_offset_bins"),
            edisp=("energy_dispersion", "true_energy_bins", "migration_bins", "fov_offset_bins"),
            bkg2d=("background_2d", "reco_energy_bins", "fov_offset_bins"),
            bkg3d=("background_3d", "reco_energy_bins", "fov_lon_bins", "fov_lat_bins"),
            radmax=("rad_max", "reco_energy_bins", "fov_offset_bins"))


def quantity(v, us):
    return v if us == [] else v * compose(us)


def ev_create(ctx, kind, shape, pl=None, name=None, spoil=None):
    """-> event, hdu or None"""
    r = ctx.rng
    ax = rand_axes(ctx, kind, shape)
    d = rand_data(ctx, kind, shape, True)
    if r.random() < 0.1:
        d = np.where(np.isfinite(d) & (np.abs(d) < 1e6), np.round(d), 0).astype(r.choice(["i8", "i4"]))
    du = r.choice(UNITCHOICE[kind])
    align = r.choice(["ALTAZ", "RADEC"])
    if spoil == "data":
        du = BAD[kind]
    elif spoil == "axis":
        k = r.choice([i for i, a in enumerate(AX[kind]) if a != "MIGRA"])
        ax[k][1] = r.choice(["m", "s"])
    elif spoil == "align":
        align = r.choice(["altaz", "AltAz", "GALACTIC", ""])
    x = quantity(layout(ctx, d), du)
    if kind == "edisp" and du == [] and r.random() < 0.3:
        x = x * u.one
    vals = [x] + [q(e, un) for e, un in ax]
    kw = dict(zip(ARGS[kind], vals))
    cards = {}
    for c, v in (("TELESCOP", "CTA-N"), ("INSTRUME", "LST 1"), ("OBS_ID", 7), ("ZEN_PNT", 20.125), ("DIRTY", True), ("ORIGIN", "IRAP"),
                 ("CREATOR", "somebody else"), ("DATE", "2020-01-01")):
        if r.random() < 0.3:
            cards[c] = v
    pl = r.random() < 0.5 if pl is None else pl
    opt = {}
    if kind in ("aeff2d", "edisp"):
        if not (pl and r.random() < 0.5):
            opt["point_like"] = r.choice([pl, pl, np.bool_(pl), int(pl)])
    if kind == "bkg3d":
        if not (align == "ALTAZ" and r.random() < 0.5):
            opt["alignment"] = align
    if name is None:
        name = r.choice(["", "", "EFF", "MY HDU", "X1"])
    if name:
        opt["extname"] = name
    box = []
    positional = r.random() < 0.3

    span = [time.time()]

    def make():
        if positional:
            box.append(CREATE[kind](*(kw[a] for a in POS[kind]), **opt, **cards))
        else:
            box.append(CREATE[kind](**kw, **opt, **cards))
        return box[0]

    out = call(make, lambda h: dict(creator=str(h.header.get("CREATOR")), date=when(h.header.get("DATE"))))
    span.append(time.time())
    ev = dict(op="create", kind=kind, span=nums(span), creator=f"pyirf v{pyirf.__version__}", axes=[qrec(e, un) for e, un in ax], data=dict(v=nums(d.ravel()), u=du), pointlike=bool(pl),
              align=align if kind == "bkg3d" else "", extname=name, cards={k: card(v) for k, v in cards.items()}, out=out)
    return ev, (box[0] if box else None)


def when(s):
    """UTC time stamp in seconds since 1970."""
    try:
        return num(calendar.timegm(time.strptime(str(s)[:19].replace("T", " "), "%Y-%m-%d %H:%M:%S")) + float("0" + str(s)[19:]))
    except ValueError:
        return "nan"


# order of the parameters in the documented signatures
POS = dict(ARGS, psf=("psf", "true_energy_bins", "source_offset_bins", "fov_offset_bins"))


def enc_hdu(kind):
    def enc(h):
        names = list(h.columns.names)
        cols = {}
        for a in AX[kind]:
            for s in ("_LO", "_HI"):
                c = h.columns[a + s]
                v = h.data[a + s]
                if v.ndim != 2 or v.shape[0] != 1:
                    raise Shape()
                cols[a + s] = dict(v=nums(v[0]), u=axis_unit(c.unit))
        c = h.columns[DATA[kind]]
        v = h.data[DATA[kind]]
        if v.shape[0] != 1:
            raise Shape()
        cards = {k: card(h.header[k]) for k in h.header if k and not k.startswith("CREF") and k not in ("COMMENT", "HISTORY") and len(k) <= 8 and "-" not in k}
        return dict(names=names, cols=cols, crefs=[k for k in h.header if k.startswith('CREF')], data=dict(v=nums(v[0].ravel()), u=unit_of(c.unit), dims=[int(n) for n in v.shape[1:][::-1]]),
                    cards=cards, cref=str(h.header.get(f"CREF{names.index(DATA[kind]) + 1}")))
    return enc


def write_read(hdus):
    """The bytes of a FITS file, read back."""
    b = _io.BytesIO()
    fits.HDUList([fits.PrimaryHDU()] + list(hdus)).writeto(b)
    return fits.open(_io.BytesIO(b.getvalue()))


STDNAME = dict(aeff2d="EFFECTIVE AREA", psf="PSF", edisp="EDISP", bkg2d="BACKGROUND", bkg3d="BACKGROUND", radmax="RAD_MAX")


def session(ctx, tag, ops):
    """ops: (kind, shape, point_like, name, spoil)"""
    r = ctx.rng
    ev, file = [], {}
    for kind, shape, pl, name, spoil in ops:
        e, h = ev_create(ctx, kind, shape, pl, name, spoil)
        ev.append(e)
        if h is not None:
            file[e["extname"] or STDNAME[kind]] = (kind, h)
    f = write_read(h for _, h in file.values())
    for n in sorted(file, key=lambda _: r.random()):
        ev.append(dict(op="read", name=n, out=call(lambda: f[n], enc_hdu(file[n][0]))))
    if r.random() < 0.2:
        ev.append(dict(op="read", name="NOTHING", out=call(lambda: f["NOTHING"], enc_hdu("aeff2d"))))
    ctx.w.trace(ctx.id(tag), ev)


def part_gadf(ctx):
    r = ctx.rng
    for b in ctx.mine(ctx.beh):
        session(ctx, "beh", [(o["kind"], o["shape"], o["pl"], o["name"], None) for o in b["ops"]])
    for _ in range(ctx.n(160, 1600)):
        ops = []
        for _ in range(r.choice([1, 1, 2, 4])):
            kind = r.choice(list(AX))
            shape = [r.choice([1, 2, 3, 5]) for _ in AX[kind]]
            spoil = r.choice([None, None, None, "data", "axis", "align"])
            if spoil == "align" and kind != "bkg3d":
                spoil = None
            ops.append((kind, shape, None, None, spoil))
        session(ctx, "rnd", ops)


def part_gammapy(ctx):
    from pyirf import gammapy as GP
    r = ctx.rng
    fn = dict(aeff2d=GP.create_effective_area_table_2d, psf=GP.create_psf_3d, edisp=GP.create_energy_dispersion_2d)

    def enc(kind):
        def f(o):
            can = dict(aeff2d=u.m**2, psf=1 / u.sr, edisp=u.one)[kind]
            x = o.quantity
            grid = np.meshgrid(*[a.center for a in o.axes], indexing="ij")
            # gammapy itself cannot look up anything in a table with a single bin
            look = x if x.size == 1 else o.evaluate(**{a.name: g for a, g in zip(o.axes, grid)})
            edges = []
            for a in o.axes:
                un = u.TeV if a.name == "energy_true" else u.one if a.name == "migra" else u.rad
                edges.append(nums(u.Quantity(a.edges).to_value(un)))
            return dict(**{"class": type(o).__name__}, axes=[a.name for a in o.axes], edges=edges, dims=list(x.shape),
                        v=nums(x.to_value(can).ravel()), look=nums(u.Quantity(look).to_value(can).ravel()))
        return f

    todo = [(o["kind"], o["shape"], None) for b in ctx.mine(ctx.beh) for o in b["ops"][-1:] if o["kind"] in fn]
    for _ in range(ctx.n(200, 2000)):
        kind = r.choice(list(fn))
        spoil = r.choice([None] * 6 + ["data", "axis"])
        if spoil == "data" and kind == "edisp":
            spoil = None
        todo.append((kind, [r.choice([1, 2, 3, 5]) for _ in AX[kind]], spoil))
    for kind, shape, spoil in todo:
        ax = rand_axes(ctx, kind, shape)
        d = rand_data(ctx, kind, shape)
        du = r.choice(UNITCHOICE[kind])
        if spoil == "data":
            du = BAD[kind]
        elif spoil == "axis":
            k = r.choice([i for i, a in enumerate(AX[kind]) if a != "MIGRA"])
            ax[k][1] = r.choice(["m", "s"])
        kw = dict(zip(ARGS[kind], [quantity(layout(ctx, d), du)] + [q(e, un) for e, un in ax]))
        pos = r.random() < 0.4
        out = call(lambda: fn[kind](*(kw[a] for a in POS[kind])) if pos else fn[kind](**kw), enc(kind))
        ctx.w.trace(ctx.id("gpy"), [dict(op="gammapy", kind=kind, axes=[qrec(e, un) for e, un in ax],
                                        data=dict(v=nums(d.ravel()), u=du), out=out)])


if __name__ == "__main__":
    main({"C20": [part_gadf], "C21": [part_gammapy]})
