"""Driver for pyirf.utils.check_table / check_histograms / is_scalar (C33) and pyirf.io.read_eventdisplay_fits (C34)."""
import re
import shutil
import tempfile
from pathlib import Path

from astropy.io import fits
from astropy.table import Column

from common import *
from pyirf.exceptions import MissingColumns, WrongColumnUnit
from pyirf.io import read_eventdisplay_fits
from pyirf.utils import check_histograms, check_table, is_scalar

SAME = dict(TeV=ENERGY, GeV=ENERGY, deg=ANGLE, rad=ANGLE, one=["one"], none=["none"], m=LENGTH, m2=AREA, s=TIME, sr=["sr", "deg2"])
NAMES = ["true_energy", "reco_energy", "theta", "gh_score", "weight", "low", "x", "event_id", "pointing_az", "n", "n_weighted", "theta_2"]


# --------------------------------------------------------------------- C33 --
def column(ctx, unit, n):
    v = ctx.np.normal(0, 1, n)
    return v if unit == "none" else v * UNITS[unit]


def ev_check(ctx, cols, req, units):
    r = ctx.rng
    n = r.choice([0, 1, 3])
    names = list(cols)
    r.shuffle(names)
    cls = r.choice([QTable, QTable, Table])
    t = cls()
    for c in names:
        x = column(ctx, cols[c], n)
        if cls is Table and r.random() < 0.5 and cols[c] != "none":
            x = Column(x.value, unit=x.unit)
        t[c] = x
    a = (list(req), tuple(req), set(req), np.array(sorted(req)) if req else [], iter(list(req)))[r.randrange(5)]
    kw = {}
    if req or r.random() < 0.5:
        kw["required_columns"] = a
    if units or r.random() < 0.5:
        kw["required_units"] = {c: UNITS[x] for c, x in units.items()}
    out = call(lambda: check_table(t, **kw), lambda x: {})
    if out["k"] == "raise":
        # the columns the message talks about
        known = set(names) | set(req) | set(units)
        out["names"] = sorted(known & set(re.findall(r"\w+", out["msg"])))
    return dict(op="check", cols=cols, req=sorted(req), units=units, out=out)


def part_check(ctx):
    r = ctx.rng
    beh = ctx.mine([b for b in ctx.beh if "req" in b])
    if ctx.tier == "quick":
        beh = r.sample(beh, min(len(beh), 250))
    for b in beh:
        m = dict(zip("abc", r.sample(NAMES, 3)))
        dct = lambda x: x if isinstance(x, dict) else {}
        cols = {m[c]: r.choice(SAME[x]) if r.random() < 0.5 else x for c, x in dct(b["cols"]).items()}
        units = {m[c]: r.choice(SAME[x]) if r.random() < 0.5 else x for c, x in dct(b["units"]).items()}
        ctx.w.trace(ctx.id("beh"), [ev_check(ctx, cols, [m[c] for c in b["req"]], units)])
    for _ in range(ctx.n(400, 8000)):
        ev = []
        for _ in range(3):
            pick = lambda p: [c for c in NAMES if r.random() < p]
            uns = list(SAME)
            cols = {c: r.choice(SAME[r.choice(uns)]) for c in pick(r.choice([0.6, 0.9, 1]))}
            p = r.choice([0, 0.2, 0.5])
            req = [c for c in NAMES if r.random() < p and (c in cols or r.random() < 0.4)]
            units = {}
            for c in pick(r.choice([0, 0.2, 0.5])):
                if c in cols and r.random() < 0.85:
                    units[c] = r.choice([x for x in SAME["one" if cols[c] in ("one", "none") else CANONICAL[cols[c]]]])
                elif c in cols or r.random() < 0.3:
                    units[c] = r.choice(SAME[r.choice([x for x in uns if x != "none"])])
            ev.append(ev_check(ctx, cols, req, units))
        ctx.w.trace(ctx.id("rnd"), ev)


def ev_hist(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 3, 5])
    e = np.cumprod(ctx.np.uniform(1.1, 3, n + 1)) * 0.01
    unit = r.choice(ENERGY + ["deg", "none"])
    lo, hi = e[:-1].copy(), e[1:].copy()
    a = dict(low=lo, center=(lo + hi) / 2, high=hi)
    b = {k: v.copy() for k, v in a.items()}
    ub = {k: unit for k in b}
    m = r.randrange(8)
    k = r.choice(list(b))
    if m in (0, 1):
        b[k][r.randrange(n)] *= 1 + r.choice([1, -1]) * 10 ** -r.uniform(0.1, 9)
    elif m == 2:
        j = r.randrange(n)
        b[k][j] = np.nextafter(b[k][j], np.inf)
    elif m == 3:
        b = {c: np.append(v, v[-1] * 2) for c, v in b.items()} if r.random() < 0.5 else {c: v[:-1] for c, v in b.items()}
        if len(b["low"]) == 0:
            b = {c: np.append(v, [1.0, 2.0]) for c, v in b.items()}
    elif m == 4 and unit in ENERGY:
        x = r.choice(ENERGY)
        for c in (list(b) if r.random() < 0.5 else [k]):
            b[c], ub[c] = to_unit(b[c], unit, x), x
        if r.random() < 0.5:
            b[k][r.randrange(n)] *= 1 + r.choice([1, -1]) * 10 ** -r.uniform(0.1, 9)
    elif m == 5 and unit in ENERGY:
        x = r.choice([y for y in ENERGY if y != unit])
        for c in (list(b) if r.random() < 0.5 else [k]):
            ub[c] = x                       # the same numbers in another unit
    elif m == 6 and unit != "none":
        ub[k] = r.choice(["m", "s"])
    key = r.choice(["reco_energy", "reco_energy", "true_energy"])

    def table(h, un):
        t = QTable() if r.random() < 0.8 or "none" in un.values() else QTable()
        for c in r.sample(list(h), 3):
            t[f"{key}_{c}"] = q(h[c], un[c])
        t["n"] = ctx.np.integers(0, 9, len(h["low"]))
        return t
    ta, tb = table(a, {c: unit for c in a}), table(b, ub)
    args = (ta, tb)
    A, Bq = {c: qrec(a[c], unit) for c in a}, {c: qrec(b[c], ub[c]) for c in b}
    if r.random() < 0.5:
        args, A, Bq = (tb, ta), Bq, A
    kw = {} if key == "reco_energy" and r.random() < 0.5 else dict(key=key)
    return dict(op="hist", a=A, b=Bq, out=call(lambda: check_histograms(*args, **kw), lambda x: {}))


def part_hist(ctx):
    for _ in range(ctx.n(400, 6000)):
        ctx.w.trace(ctx.id("hist"), [ev_hist(ctx) for _ in range(4)])


def part_scalar(ctx):
    r = ctx.rng
    for _ in range(ctx.n(80, 800)):
        ev = []
        for _ in range(4):
            nd = r.choice([0, 0, 1, 2, 3])
            shape = tuple(r.choice([0, 1, 1, 2]) for _ in range(nd))
            x = np.ones(shape)
            k = r.randrange(6)
            v = x
            if k == 1:
                v = x * u.TeV
            elif k == 2:
                v = x.tolist()
            elif k == 3 and nd == 0:
                v = r.choice([3, 2.5, np.float32(1), np.int64(3), True, "text", np.str_("a"), 2 + 1j, None])
            elif k == 4:
                v = u.Quantity(x, "deg")
            elif k == 5:
                v = Column(x) if nd else x[()]
            if isinstance(v, list):
                shape = np.shape(v)
            ev.append(dict(op="scalar", ndim=nd, out=call(lambda: is_scalar(v), lambda y: dict(r=bool(y)))))
        ctx.w.trace(ctx.id("scalar"), ev)


# --------------------------------------------------------------------- C34 --
EUNIT = dict(MC_ENERGY="energy", ENERGY="energy", MC_ALT="angle", MC_AZ="angle", PNT_ALT="angle", PNT_AZ="angle", ALT="angle", AZ="angle")
COLS = ["OBS_ID", "EVENT_ID", "MC_ENERGY", "ENERGY", "MC_ALT", "MC_AZ", "PNT_ALT", "PNT_AZ", "ALT", "AZ", "GH_MVA", "MULTIP"]


def ev_write(ctx, path, missing=False):
    r = ctx.rng
    n = r.choice([1, 2, 5, 12, 30]) if r.random() < 0.96 else 1500
    nobs, npnt = r.choice([1, 2, 4]), r.choice([1, 1, 2, 3])
    paz, palt = np.round(ctx.np.uniform(0, 360, npnt), r.choice([0, 3])), np.round(ctx.np.uniform(40, 80, npnt), r.choice([0, 3]))
    if npnt > 1 and r.random() < 0.5:
        paz[1] = paz[0]                 # runs that differ in altitude only
    if npnt > 1 and r.random() < 0.3:
        palt[-1] = palt[0]
    k, f4 = ctx.np.integers(0, npnt, n), r.random() < 0.5
    obs = ctx.np.integers(1, nobs + 1, n) + r.choice([0, 70000])
    c = dict(OBS_ID=obs.astype(r.choice(["i4", "i8"])), EVENT_ID=ctx.np.integers(0, 2**31 - 1, n).astype(r.choice(["i4", "i8"])),
             MC_ENERGY=10 ** ctx.np.uniform(-2, 2, n), ENERGY=10 ** ctx.np.uniform(-2, 2, n), MC_ALT=ctx.np.uniform(40, 80, n),
             MC_AZ=ctx.np.uniform(0, 360, n), PNT_ALT=palt[k], PNT_AZ=paz[k], ALT=ctx.np.uniform(40, 80, n), AZ=ctx.np.uniform(0, 360, n),
             GH_MVA=ctx.np.uniform(-1, 1, n), MULTIP=ctx.np.integers(2, 30, n).astype("i2"))
    if f4:
        c = {a: b.astype("f4") if b.dtype.kind == "f" else b for a, b in c.items()}
    extra = {}
    if r.random() < 0.5:
        extra["CORE_X"] = ctx.np.normal(0, 100, n)
    names = COLS + list(extra)
    if missing:
        names.remove(r.choice(COLS))
    if r.random() < 0.4:
        r.shuffle(names)
    un = {"energy": r.choice(["TeV", "TeV", "GeV"]), "angle": r.choice(["deg", "deg", "rad"])}
    t, rec = Table(), {}
    for a in names:
        v = extra[a] if a in extra else c[a]
        unit = "m" if a in extra else un[EUNIT[a]] if a in EUNIT else "none"
        if un["angle"] == "rad" and EUNIT.get(a) == "angle":
            v = np.deg2rad(v).astype(v.dtype)
        t[a] = v
        if unit != "none":
            t[a].unit = UNITS[unit]
        rec[a] = dict(v=nums(v), u=unit)
    big = r.random() < 0.5
    nb = r.choice([1, 4, 40])
    h = ctx.np.integers(0, 10 ** (8 if big else 4), nb)
    h = h.astype(r.choice(["f8", "i8", "i4", "f4"]))
    sim = Table(dict(MC_ENERG_LO=np.arange(1.0, nb + 1), EVENTS=h))
    ft, it = r.choice(["f4", "f8"]), r.choice(["i4", "i8"])
    hd = dict(E_range=np.array(r.choice([(0.003, 330.0), (0.01, 100.0), (1, 20)]), dtype=ft),
              core_range=np.array(r.choice([(0.0, 1900.0), (100.0, 750.5)]), dtype=ft),
              viewcone=np.array(r.choice([(0.0, 0.0), (0.0, 10.0), (0.5, 6.25)]), dtype=ft),
              num_use=np.array(r.choice([1, 10, 20]), dtype=it), num_showers=np.array(r.choice([50, 20000, 100000, 90000000 if big else 7]), dtype=it),
              spectral_index=np.array(r.choice([-2.0, -2.7, -1.5, -2.625, -1.0625]), dtype=ft))
    rh = Table({a: [b] for a, b in hd.items()})
    if r.random() < 0.3:
        rh["E_range"].unit, rh["core_range"].unit, rh["viewcone"].unit = u.TeV, u.m, u.deg
    hd_ = [fits.table_to_hdu(x) for x in (t, sim, rh)]
    for x, nm in zip(hd_, ("EVENTS", "SIMULATED EVENTS", "RUNHEADER")):
        x.name = nm
    r.shuffle(hd_)
    fits.HDUList([fits.PrimaryHDU()] + hd_).writeto(path, overwrite=True)
    header = {a: nums(b) if b.ndim else num(b[()]) for a, b in hd.items()}
    return dict(op="write", path=os.path.basename(path), file=dict(events=rec, histogram=nums(h), header=header))


def enc(x):
    ev, i = x
    names = {v: k for k, v in UNITS.items()}

    def unit(cc):
        z = getattr(cc, "unit", None)
        return "none" if z is None else next((k for k, v in UNITS.items() if v == z), str(z))
    return dict(events={c: dict(v=nums(ev[c].value if isinstance(ev[c], u.Quantity) else np.asarray(ev[c])), u=unit(ev[c])) for c in ev.colnames},
                n=num(i.n_showers), emin=num(canon(i.energy_min, "TeV")), emax=num(canon(i.energy_max, "TeV")), impact=num(canon(i.max_impact, "m")),
                vmin=num(canon(i.viewcone_min, "deg")), vmax=num(canon(i.viewcone_max, "deg")), index=num(plain(i.spectral_index)[()]))


def part_eventdisplay(ctx):
    r = ctx.rng
    d = tempfile.mkdtemp(prefix="evdisp", dir=os.environ.get("HOME"))
    try:
        for _ in range(ctx.n(160, 2400)):
            ev = []
            paths = [os.path.join(d, f"{x}.fits") for x in "ab"]
            for p in paths[:r.choice([1, 2])]:
                ev.append(ev_write(ctx, p, missing=r.random() < 0.08))
            written = paths[:len(ev)]
            for _ in range(r.choice([2, 3, 4])):
                p = r.choice(written)
                if r.random() < 0.2:
                    ev.append(ev_write(ctx, p))
                hist = r.random() < 0.5
                kw = {} if hist and r.random() < 0.5 else dict(use_histogram=hist)
                a = Path(p) if r.random() < 0.3 else p
                ev.append(dict(op="read", path=os.path.basename(p), hist=hist, out=call(lambda: read_eventdisplay_fits(a, **kw), enc)))
            ctx.w.trace(ctx.id("file"), ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)


PARTS = dict(C33=[part_check, part_hist, part_scalar], C34=[part_eventdisplay])
if __name__ == "__main__":
    main(PARTS)
