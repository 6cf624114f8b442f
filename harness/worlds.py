"""Argument worlds and the catalogue of public calls used by the session driver (C30 - C32).

A world holds one object per argument name.  Every unit-carrying number in it
is a leaf with a base unit; the same world can be built with other units, with
permuted tables or with a part of the rows of a table.
"""
import hashlib
import operator

from astropy.io import fits

from common import *
from pyirf import binning as B, cuts as C, sensitivity as S, cut_optimization as O, spectral as P, statistics as ST
from pyirf import utils as U, coordinates as K, gammapy as GP, irf as R, benchmarks as M, interpolation as I
from pyirf.io import gadf as G
from pyirf.irf.energy_dispersion import energy_migration_matrix, energy_dispersion_to_migration
from pyirf.simulations import SimulatedEventsInfo
from pyirf.interpolation.base_interpolators import PDFNormalization

ALT = dict(TeV=ENERGY, deg=ANGLE, m=LENGTH, s=TIME, m2=AREA, sr=["sr", "deg2"])
OTHER = dict(TeV="m", deg="s", m="deg", s="TeV", m2="s", sr="m")     # another dimension


def compose(us):
    x = u.one
    for n, p in us:
        x = x * UNITS[n] ** p
    return x


def other_units(r, us):
    return [[r.choice(ALT[n]), p] for n, p in us]


def wrong_units(us):
    return [[OTHER[us[0][0]], us[0][1]]] + [list(x) for x in us[1:]]


E_, D_, L_, T_, A_, N_ = [["TeV", 1]], [["deg", 1]], [["m", 1]], [["s", 1]], [["m2", 1]], []
FLUX = [["TeV", -1], ["m2", -1], ["s", -1]]
DFLUX = FLUX + [["sr", -1]]
BKG = [["TeV", -1], ["s", -1], ["sr", -1]]


def events(g, n, bkg):
    t = {}
    t["obs_id"] = (g.integers(1, 4, n), N_)
    e = 10 ** g.uniform(-1.5, 1.6, n)
    t["true_energy"] = (e, E_)
    t["reco_energy"] = (e * np.exp(g.normal(0, 0.2, n)), E_)
    paz, palt = g.uniform(20, 300, n), g.uniform(40, 80, n)
    t["pointing_az"], t["pointing_alt"] = (paz, D_), (palt, D_)
    for p in ("true", "reco"):
        t[p + "_az"] = (paz + g.normal(0, 2, n), D_)
        t[p + "_alt"] = (palt + g.normal(0, 2, n), D_)
        off = 4 * np.sqrt(g.uniform(0.001, 1, n))
        pa = g.uniform(1, 359, n)
        t[p + "_source_fov_offset"] = (off, D_)
        t[p + "_source_fov_position_angle"] = (pa, D_)
        t[p + "_source_fov_lon"] = (off * np.cos(np.deg2rad(pa)), D_)
        t[p + "_source_fov_lat"] = (off * np.sin(np.deg2rad(pa)), D_)
    t["theta"] = (0.02 + g.gamma(2, 0.05, n) if not bkg else 4 * np.sqrt(g.uniform(0.001, 1, n)), D_)
    t["gh_score"] = (g.beta(5, 2, n) if not bkg else g.beta(2, 4, n), N_)
    t["multiplicity"] = (g.integers(2, 6, n), N_)
    t["weight"] = (g.uniform(0.3, 40, n) if not bkg else g.uniform(0.1, 9, n), N_)
    t["particle_type"] = (np.array(["proton", "electron", "he"])[g.integers(0, 3 if bkg else 1, n)], N_)
    return t


def edges(g, lo, hi, n, log=False):
    if log:
        return np.exp(edges(g, np.log(lo), np.log(hi), n))
    w = np.cumsum(np.append(0, g.uniform(0.5, 1.5, n)))
    return lo + (hi - lo) * w / w[-1]


def pdfs(g, shape, e, axis, norm):
    c = (e[1:] + e[:-1]) / 2
    s = list(shape)
    s[axis] = 1
    mu = e[0] + (e[-1] - e[0]) * g.uniform(0.4, 0.6, s)
    sg = (e[-1] - e[0]) * g.uniform(0.06, 0.1, s)
    v = [1] * len(shape)
    v[axis] = -1
    x = np.exp(-0.5 * ((c.reshape(v) - mu) / sg) ** 2)
    m = np.diff(e) if norm == "area" else 2 * np.pi * -np.diff(np.cos(e))
    return x / np.sum(x * m.reshape(v), axis=axis, keepdims=True)


def leaves(seed):
    """All numbers of a world in base units: {name: (values, unit)}; tables are {name: {column: ...}}.

    The seed (s, t) is the world t with the first and the last entries of s."""
    if not isinstance(seed, tuple):
        return drawn(seed)
    (x, tab, plainv), (like, tlike, _) = drawn(seed[1]), drawn(seed[0])

    def ends(v, o):
        if np.ndim(v) and len(v) > 2 and np.shape(v) == np.shape(o):
            v[0], v[-1] = o[0], o[-1]

    a, b = x["grid1"][0], like["grid1"][0]
    a[...] = b[0] + (b[-1] - b[0]) * (a - a[0]) / (a[-1] - a[0])
    for k in x:
        if not k.endswith("_bins") and k not in ("bin_lo", "bin_hi", "tab_e", "mig_old", "mig_new", "res_old", "res_new"):
            ends(x[k][0], like[k][0])
    for k in ("sig", "bkg"):
        for c in tab[k]:
            ends(tab[k][c][0], tlike[k][c][0])
    for k in ("thcuts", "ghcuts"):
        ends(tab[k]["cut"][0], tlike[k]["cut"][0])
    targets(x, np.random.default_rng(seed[1]))
    return x, tab, plainv


def targets(x, g):
    a, b = x["grid1"][0], x["grid2"][0]
    x["in1"], x["in1b"] = (a[0] * 0.4 + a[1] * 0.6, N_), (a[1] * 0.7 + a[2] * 0.3, N_)
    x["out1"] = (a[2] + 0.7, N_)
    x["in2"], x["in2b"] = (g.dirichlet([3, 3, 3, 3]) @ b, N_), (g.dirichlet([3, 3, 3, 3]) @ b, N_)


def drawn(seed):
    g = np.random.default_rng(seed)
    x, tab = {}, {}
    tab["sig"] = events(g, 110, False)
    tab["bkg"] = events(g, 140, True)
    rb = edges(g, 0.05, 20, 4, log=True)
    x["reco_bins"] = (rb, E_)
    x["true_bins"] = (edges(g, 0.03, 30, 4, log=True), E_)
    x["new_true_bins"] = (edges(g, 0.05, 25, 3, log=True), E_)
    x["new_reco_bins"] = (edges(g, 0.04, 35, 5, log=True), E_)
    x["bin_lo"], x["bin_hi"] = (rb[:-1].copy(), E_), (rb[1:].copy(), E_)
    x["fov_bins"] = (edges(g, 0, 4.2, 3), D_)
    x["lon_bins"] = (edges(g, -3, 3.5, 3), D_)
    x["lat_bins"] = (edges(g, -2.5, 3, 3), D_)
    x["pa_bins"] = (edges(g, 0, 360, 3), D_)
    x["rad_bins"] = (edges(g, 0, 0.5, 6), D_)
    x["migra_bins"] = (edges(g, 0.2, 3, 12), N_)
    x["e_lo"], x["e_hi"] = (g.uniform(0.01, 0.02), E_), (g.uniform(20, 60), E_)
    x["t_obs"] = (g.uniform(100, 5000), T_)
    x["area"] = (g.uniform(1e5, 1e7), A_)
    x["off_min"], x["off_max"] = (g.uniform(0.1, 0.3), D_), (g.uniform(3, 3.9), D_)
    x["th_min"], x["th_max"] = (g.uniform(0.03, 0.05), D_), (g.uniform(0.2, 0.25), D_)
    x["src_az"], x["src_alt"] = (g.uniform(100, 200), D_), (g.uniform(50, 70), D_)
    x["lon"], x["lat"] = (g.uniform(0.5, 359.5, 7), D_), (g.uniform(-80, 80, 7), D_)
    x["plon"], x["plat"] = (g.uniform(0.5, 359.5, 7), D_), (g.uniform(-80, 80, 7), D_)
    x["energies"] = (10 ** g.uniform(-1, 1.5, 9), E_)
    x["angle"] = (g.uniform(0.1, 100), D_)
    x["lon_lo"], x["lon_hi"] = (g.uniform(0, 5), D_), (g.uniform(6, 9), D_)
    x["lat_lo"], x["lat_hi"] = (g.uniform(-5, 0), D_), (g.uniform(1, 9), D_)
    x["emin"], x["emax"] = (g.uniform(0.005, 0.02), E_), (g.uniform(50, 200), E_)
    x["impact"] = (g.uniform(500, 2000), L_)
    x["vmin"], x["vmax"] = (0.0, D_), (g.uniform(4.5, 6), D_)
    x["e_ref"] = (g.uniform(0.5, 2), E_)
    x["norm"], x["dnorm"] = (g.uniform(1, 5) * 1e-11, FLUX), (g.uniform(1, 5) * 1e-8, DFLUX)
    x["tab_e"], x["tab_f"] = (np.sort(10 ** g.uniform(-1.5, 2, 6)), E_), (10 ** g.uniform(-12, -8, 6), FLUX)
    x["n_on"], x["n_off"] = (g.uniform(100, 400, 5), N_), (g.uniform(5, 100, 5), N_)
    x["hist"] = (g.uniform(0, 100, (2, 12)), N_)
    x["mig_old"], x["mig_new"] = (edges(g, 0.1, 4, 12), N_), (edges(g, 0.3, 3, 7), N_)
    x["res_old"], x["res_new"] = (edges(g, 0.05, 20, 12), E_), (edges(g, 0.1, 15, 5), E_)
    x["rel_error"] = (g.normal(0, 0.3, 41), N_)
    x["n_sel"], x["n_sim"] = (g.integers(0, 90, 4) * 1.0, N_), (g.integers(100, 900, 4) * 1.0, N_)
    # tables of IRFs
    x["aeff"] = (g.uniform(1, 1e6, (4, 3)), A_)
    mb, rbn = x["migra_bins"][0], np.deg2rad(x["rad_bins"][0])
    x["edisp"] = (pdfs(g, (4, 12, 3), mb, 1, "area"), N_)
    x["psf"] = (pdfs(g, (4, 3, 6), rbn, 2, "cone"), [["sr", -1]])
    x["bkg2d"] = (g.uniform(0, 10, (4, 3)), BKG)
    x["bkg3d"] = (g.uniform(0, 10, (4, 3, 3)), BKG)
    x["radmax"] = (g.uniform(0.05, 0.4, (4, 3)), D_)
    # interpolation
    x["grid1"] = (np.sort(g.uniform(0, 10, 3)).reshape(-1, 1) + np.array([[0.0], [3], [6]]), N_)
    x["grid2"] = (np.array([[0.0, 0], [0, 2], [2, 0], [2, 2]]) + g.uniform(-0.2, 0.2, (4, 2)), N_)
    targets(x, g)
    x["out2"] = (np.array([2.9, 0.9]) + g.uniform(-0.1, 0.1, 2), N_)
    for d, n in (("1", 3), ("2", 4)):
        x["aeffs" + d] = (10 ** g.uniform(-1, 6, (n, 4, 2)), A_)
        x["params" + d] = (g.normal(0, 1, (n, 3)), N_)
        x["radmaxs" + d] = (np.where(g.random((n, 4, 2)) < 0.25, 0.5, g.uniform(0.05, 0.4, (n, 4, 2))), N_)
        x["edisps" + d] = (pdfs(g, (n, 2, 12, 2), mb, 2, "area"), N_)
        x["psfs" + d] = (pdfs(g, (n, 2, 2, 6), rbn, 3, "cone"), [["sr", -1]])
        x["pdf" + d] = (pdfs(g, (n, 2, 12), mb, 2, "area"), N_)
        # lines of a template without events
        x["edisps" + d][0][1, 0, :, 1] = x["psfs" + d][0][1, 0, 1] = x["pdf" + d][0][1, 1] = 0
    x["min_aeff"] = (g.uniform(0.5, 2), A_)
    c = np.array([(a + b) / 2 for a, b in zip(rb[:-1], rb[1:])])
    tab["thcuts"] = dict(low=(rb[:-1], E_), center=(c, E_), high=(rb[1:], E_), cut=(g.uniform(0.08, 0.2, 4), D_))
    tab["ghcuts"] = dict(low=(rb[:-1], E_), center=(c, E_), high=(rb[1:], E_), cut=(g.uniform(0.2, 0.7, 4), N_))
    for h, s in (("sighist", 60), ("bkghist", 900)):
        n = g.integers(15, s, 4)
        tab[h] = dict(reco_energy_low=(rb[:-1], E_), reco_energy_high=(rb[1:], E_), reco_energy_center=(c, E_), n=(n, N_),
                      n_weighted=(n * g.uniform(0.4, 3, 4), N_))
    tab["bkghist"]["n_proton"] = (g.integers(1, 9, 4), N_)
    tab["bkghist"]["n_proton_weighted"] = (g.uniform(1, 9, 4), N_)
    tab["flux"] = dict(energy=x["tab_e"], flux=x["tab_f"])
    plainv = dict(alpha=float(g.uniform(0.1, 0.9)), n_showers=int(g.integers(10**5, 10**7)), index=float(-g.uniform(1.6, 2.9)),
                  f=float(g.uniform(0.5, 2)), mu=float(g.uniform(-0.5, 0.5)), sigma=float(g.uniform(0.5, 1)),
                  a=float(-g.uniform(2, 3)), b=float(-g.uniform(0.1, 0.4)), percentile=float(g.uniform(55, 75)))
    return x, tab, plainv


# columns that must stay bit-identical between tables share their unit
SHARED = {"sighist.reco_energy_low": "bkghist.reco_energy_low", "sighist.reco_energy_high": "bkghist.reco_energy_high",
          "sighist.reco_energy_center": "bkghist.reco_energy_center"}


class World:
    def __init__(self, seed, units=None, perm=None, part=None, size=None):   # units: base name -> unit
        units, perm, part = units or {}, perm or {}, part or {}
        x, tab, plainv = leaves(seed)
        for k, n in (size or {}).items():
            tab[k] = {c: (v[:n], us) for c, (v, us) in tab[k].items()}
            # few events are spread over two bins, evenly
            m, side = x["reco_bins"][0][2], np.where(np.arange(n) % 4 < 2, -0.15, 0.15)
            for c in ("reco_energy", "true_energy"):
                v, us = tab[k][c]
                tab[k][c] = (m * np.exp(side * np.abs(np.log(v / m))), us)
        self.__dict__.update(plainv)
        self.names, self.base, self.used = [], {}, {}
        for k, (v, us) in x.items():
            self._add(k, self._leaf(k, v, us, units))
        for k, cols in tab.items():
            t = QTable()
            for c, (v, us) in cols.items():
                y = self._leaf(f"{k}.{c}", v, us, units)
                t[c] = y[perm[k]] if k in perm else y[part[k]] if k in part else y
            t.meta["origin"] = {"run": 1}
            self._add(k, t)
        self._add("info", SimulatedEventsInfo(n_showers=self.n_showers, energy_min=self.emin, energy_max=self.emax, max_impact=self.impact,
                                              spectral_index=self.index, viewcone_min=self.vmin, viewcone_max=self.vmax))
        self._add("pl", P.PowerLaw(self.norm, self.index, self.e_ref))
        self._add("dpl", P.PowerLaw(self.dnorm, self.index, self.e_ref))
        self._add("lp", P.LogParabola(self.norm, self.a, self.b, self.e_ref))
        self._add("gauss", P.PowerLawWithExponentialGaussian(self.norm, self.index, self.e_ref, self.f, self.mu, self.sigma))
        self._add("tspec", P.TableInterpolationSpectrum(self.tab_e, self.tab_f, reference_energy=self.e_ref))
        self._add("percentiles", [27.31, self.percentile])
        self._add("effs", np.array([0.3137, 0.6211, 0.8733]))
        self._add("mults", np.array([2, 4]))
        self._add("kwargs", {"method": "linear"})
        self._add("empty_kwargs", {})
        self._add("cards", {"TELESCOP": "X", "OBS_ID": 7})
        self._add("required", {"true_energy": u.TeV, "theta": u.rad})
        self.est = {}

    def _add(self, k, v):
        setattr(self, k, v)
        self.names.append(k)

    def _leaf(self, k, v, us, units):
        v = np.array(v)
        if us == []:
            return v if v.ndim else float(v)
        self.base[k] = ([num(z) for z in np.ravel(v)], us)
        new = units.get(k if k in units and k not in SHARED else SHARED.get(k, k), us)
        if new == us:
            q_ = u.Quantity(v.astype(float), compose(us))
        elif compose(new).is_equivalent(compose(us)):
            q_ = u.Quantity((v * compose(us)).to_value(compose(new)), compose(new))
        else:
            q_ = u.Quantity(v.astype(float), compose(new))
        self.used[k] = ([num(z) for z in np.ravel(q_.value)], new)
        return q_

    def become(self, seed):
        """The environment puts the values of another world into the same objects."""
        new = World(seed)
        for k in self.names:
            a, b = getattr(self, k), getattr(new, k)
            if isinstance(a, QTable):
                for c in a.colnames:
                    x, y = a[c], b[c]
                    if isinstance(x, u.Quantity):
                        x.view(np.ndarray)[...] = y.to_value(x.unit)
                    else:
                        x[...] = y
            elif isinstance(a, u.Quantity):
                a.view(np.ndarray)[...] = b.to_value(a.unit)
            elif isinstance(a, np.ndarray):
                a[...] = b
            elif isinstance(a, float):
                setattr(self, k, b)
            elif isinstance(a, list):
                a[:] = b
            elif isinstance(a, dict):
                a.clear()
                a.update(b)
            elif isinstance(a, SimulatedEventsInfo):
                for s in SimulatedEventsInfo.__slots__:
                    setattr(a, s, getattr(b, s))
            else:
                a.__dict__.update(b.__dict__)
        for k in ("alpha", "n_showers", "index", "f", "mu", "sigma", "a", "b", "percentile"):
            setattr(self, k, getattr(new, k))
        self.est = {}

    def keep(self, name, make):
        """An estimator constructed once per session."""
        if name not in self.est:
            self.est[name] = make()
        return self.est[name]

    def heap(self, tag):
        return {f"{tag}.{k}": digest(getattr(self, k)) for k in self.names}


# ----------------------------------------------------------------- digests --
def feed(h, x, depth=0):
    if depth > 6:
        return
    if isinstance(x, Table):
        h.update(b"table")
        for c in x.colnames:
            h.update(c.encode())
            feed(h, x[c], depth + 1)
        feed(h, dict(x.meta), depth + 1)
    elif isinstance(x, u.Quantity):
        h.update(("q" + x.unit.to_string()).encode())
        feed(h, x.view(np.ndarray), depth + 1)
    elif isinstance(x, np.ndarray):
        a = np.asarray(x)
        h.update(f"{a.dtype}{a.shape}{getattr(x, 'unit', '')}".encode())
        h.update(a.tobytes() if a.dtype != object else repr(a.tolist()).encode())
    elif isinstance(x, fits.BinTableHDU):
        h.update(repr(x.header.tostring()).encode())
        h.update(x.data.tobytes())
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            feed(h, x[k], depth + 1)
    elif isinstance(x, fits.Header):
        h.update(x.tostring().encode())
    elif isinstance(x, (list, tuple, set)):
        h.update(str(len(x)).encode())
        for v in x:
            feed(h, v, depth + 1)
    elif isinstance(x, SimulatedEventsInfo):
        for s in SimulatedEventsInfo.__slots__:
            feed(h, getattr(x, s), depth + 1)
    elif isinstance(x, (str, int, float, complex, bool, np.generic, u.UnitBase, type(None))):
        h.update(f"{type(x).__name__}{x!r}".encode())
    elif type(x).__module__.startswith("pyirf") and hasattr(x, "__dict__"):
        feed(h, x.__dict__, depth + 1)
    elif type(x).__module__.startswith("gammapy"):
        h.update(flat(x)["h"].encode())
    else:
        h.update(type(x).__name__.encode())
        if callable(x):
            h.update(getattr(x, "__qualname__", "").encode())


def digest(x):
    h = hashlib.sha1()
    feed(h, x)
    return h.hexdigest()[:12]


def constants():
    """What a user sees of the modules: public constants and default arguments."""
    import sys
    import types
    out = {}
    for name in sorted(sys.modules):
        if not name.startswith("pyirf") or ".tests" in name or name.endswith("_version"):
            continue
        for k, v in sorted(vars(sys.modules[name]).items()):
            if isinstance(v, types.FunctionType) and v.__module__ == name:
                out[f"{name}.{k}"] = [v.__defaults__, v.__kwdefaults__]
            elif isinstance(v, type) and v.__module__ == name:
                for m, f in sorted(vars(v).items()):
                    if isinstance(f, types.FunctionType):
                        out[f"{name}.{k}.{m}"] = [f.__defaults__, f.__kwdefaults__]
            elif not k.startswith("_") and not isinstance(v, (types.ModuleType, types.FunctionType, type)):
                out[f"{name}.{k}"] = v
    return out


# ----------------------------------------------------------------- results --
_SI = {}


def si(unit):
    k = unit.to_string()
    if k not in _SI:
        x = (1 * unit).si
        _SI[k] = float(x.value), x.unit.to_string()
    return _SI[k]


def blocks(x, path, v, s):
    if isinstance(x, Table):
        for c in sorted(x.colnames):
            blocks(x[c], f"{path}.{c}", v, s)
    elif isinstance(x, fits.BinTableHDU):
        hd = x.header
        s.append(path + ":hdu " + ";".join(f"{k}={hd[k]}" for k in sorted(hd) if k not in ("DATE",) and not k.startswith(("TUNIT", "NAXIS", "COMMENT"))))
        blocks(QTable.read(x), path, v, s)
    elif isinstance(x, (tuple, list)):
        for k, y in enumerate(x):
            blocks(y, f"{path}[{k}]", v, s)
    elif isinstance(x, dict):
        for k in sorted(x):
            blocks(x[k], f"{path}[{k}]", v, s)
    elif isinstance(x, SimulatedEventsInfo):
        for a in SimulatedEventsInfo.__slots__:
            blocks(getattr(x, a), f"{path}.{a}", v, s)
    elif type(x).__module__.startswith("pyirf.spectral"):
        for a in sorted(x.__dict__):
            if a not in ("interp", "flux_unit"):
                blocks(x.__dict__[a], f"{path}.{a}", v, s)
    elif type(x).__module__.startswith("gammapy"):
        s.append(f"{path}:{type(x).__name__} {sorted(x.meta.items()) if x.meta else ''}")
        blocks(x.quantity, path, v, s)
        for ax in x.axes:
            s.append(f"{path}:{ax.name} {ax.interp}")
            blocks(ax.edges, f"{path}.{ax.name}", v, s)
    elif x is None or isinstance(x, str):
        s.append(f"{path}:{x}")
    else:
        unit = getattr(x, "unit", None)
        a = u.Quantity(x) if unit is not None else np.asarray(x)
        if unit is not None:
            f, unit = si(a.unit)
            a = a.value * f
        if a.dtype.kind in "SUO":
            s.append(f"{path}:{a.tolist()}")
        else:
            s.append(f"{path}:{unit or ''} {list(a.shape)} {'b' if a.dtype.kind == 'b' else 'n'}")
            v.append(a)


def flat(x):
    v, s = [], []
    blocks(x, "", v, s)
    h = hashlib.sha1("|".join(s).encode())
    for a in v:
        h.update(np.ascontiguousarray(a, dtype=float).tobytes())
    return dict(h=h.hexdigest()[:16], s="|".join(s), v=[[num(z) for z in np.ravel(a)] for a in v])


def garbage(x):
    """Overwrite everything in a returned object that can be written to."""
    if isinstance(x, Table):
        for c in x.colnames:
            garbage(x[c])
        x.meta["scribble"] = 1
        if len(x.colnames) > 1 and len(x):
            x.remove_column(x.colnames[-1])
    elif isinstance(x, fits.BinTableHDU):
        for c in x.data.names:
            garbage(x.data[c])
        x.header["TELESCOP"] = "scribble"
        x.header["HDUCLAS1"] = "scribble"
    elif isinstance(x, (tuple, list)):
        for y in x:
            garbage(y)
        if isinstance(x, list):
            x.append("scribble")
    elif isinstance(x, dict):
        for y in x.values():
            garbage(y)
        x["scribble"] = 1
    elif isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
        if a.flags.writeable and a.size:
            if a.dtype.kind == "b":
                a[...] = ~a
            elif a.dtype.kind in "iu":
                a[...] = 7 - a
            elif a.dtype.kind == "f":
                a[...] = np.where(np.isfinite(a), -3 * a - 1, 5)


# --------------------------------------------------------------- catalogue --
class Entry:
    def __init__(self, name, fn, reject="", cls="rat", rows=None, view=False, add=None, box=False):
        self.name, self.fn, self.cls, self.rows, self.view, self.box = name, fn, cls, rows, view, box
        self.reject = reject.split()
        self.add = add          # name of the table whose parts add up


CAT = {}


def e(name, fn, *a, **kw):
    CAT[name] = Entry(name, fn, *a, **kw)


le, ge = operator.le, operator.ge
# binning
e("bin_center", lambda W: B.bin_center(W.reco_bins))
e("join_bins", lambda W: B.join_bin_lo_hi(W.bin_lo, W.bin_hi), "bin_lo bin_hi")
e("split_bins", lambda W: B.split_bin_lo_hi(W.reco_bins), view=True)
e("overflow", lambda W: B.add_overflow_bins(W.reco_bins), view=True)
e("overflow_neg", lambda W: B.add_overflow_bins(W.lon_bins, positive=False), view=True)
e("bins_per_decade", lambda W: B.create_bins_per_decade(W.e_lo, W.e_hi, 4), "e_lo e_hi")
e("bin_indices", lambda W: B.calculate_bin_indices(W.sig["reco_energy"], W.reco_bins), "sig.reco_energy reco_bins", rows="sig")
e("hist_reco", lambda W: B.create_histogram_table(W.bkg, W.reco_bins), "bkg.reco_energy reco_bins")
e("hist_true", lambda W: B.create_histogram_table(W.sig, W.true_bins, key="true_energy"), "sig.true_energy true_bins")
e("resample", lambda W: B.resample_histogram1d(W.hist, W.mig_old, W.mig_new, axis=1))
e("resample_q", lambda W: B.resample_histogram1d(W.hist, W.res_old, W.res_new, axis=1))
# cuts
PC = "sig.theta sig.reco_energy reco_bins th_max"
e("percentile_theta", lambda W: C.calculate_percentile_cut(W.sig["theta"], W.sig["reco_energy"], W.reco_bins, fill_value=W.th_max, min_value=W.th_min,
                                                           max_value=W.th_max, percentile=W.percentile), "sig.reco_energy reco_bins th_min th_max")
e("percentile_smooth", lambda W: C.calculate_percentile_cut(W.sig["theta"], W.sig["reco_energy"], W.reco_bins, fill_value=W.th_max, smoothing=1.0, min_events=3),
  "sig.reco_energy reco_bins th_max")
e("percentile_gh", lambda W: C.calculate_percentile_cut(W.sig["gh_score"], W.sig["true_energy"], W.true_bins, fill_value=0.5, percentile=W.percentiles, min_value=0.1),
  "sig.true_energy true_bins")
e("evaluate_cut", lambda W: C.evaluate_binned_cut(W.sig["theta"], W.sig["reco_energy"], W.thcuts, le), "sig.theta sig.reco_energy thcuts.cut", rows="sig")
e("evaluate_gh_cut", lambda W: C.evaluate_binned_cut(W.bkg["gh_score"], W.bkg["reco_energy"], W.ghcuts, ge), "bkg.reco_energy", rows="bkg")
e("evaluate_by_index", lambda W: C.evaluate_binned_cut_by_index(W.sig["theta"], *B.calculate_bin_indices(W.sig["reco_energy"], W.reco_bins), W.thcuts, le),
  "sig.theta thcuts.cut", rows="sig")
e("compare_cuts", lambda W: C.compare_irf_cuts([W.thcuts, W.thcuts.copy(), W.thcuts]))
# sensitivity
e("li_ma", lambda W: ST.li_ma_significance(W.n_on, W.n_off, W.alpha), cls="root")
e("relative_sensitivity", lambda W: S.relative_sensitivity(W.n_on, W.n_off, W.alpha, min_significance=4), cls="root")
e("sensitivity", lambda W: S.calculate_sensitivity(W.sighist, W.bkghist, W.alpha), cls="root")
EB = "bkg.reco_energy bkg.reco_source_fov_offset reco_bins off_min off_max thcuts.cut thcuts.center"
e("estimate_background", lambda W: S.estimate_background(W.bkg, W.reco_bins, W.thcuts, W.alpha, W.off_min, W.off_max), EB)
e("optimize_gh", lambda W: O.optimize_gh_cut(W.sig, W.bkg, W.reco_bins, W.effs, W.thcuts, alpha=W.alpha, fov_offset_min=W.off_min, fov_offset_max=W.off_max,
                                             progress=False, min_significance=3), EB + " sig.theta sig.reco_energy", cls="root")
e("optimize_gh_defaults", lambda W: O.optimize_gh_cut(W.sig, W.bkg, W.reco_bins, W.effs, W.thcuts, progress=False), cls="root")
e("optimize_cuts", lambda W: O.optimize_cuts(W.sig, W.bkg, W.reco_bins, W.mults, W.effs[:2], W.effs[1:], alpha=W.alpha, fov_offset_max=W.off_max,
                                             theta_min_value=W.th_min, theta_max_value=W.th_max, progress=False),
  "sig.theta sig.reco_energy bkg.reco_energy bkg.reco_source_fov_offset reco_bins off_max th_min th_max", cls="root")
e("optimize_cuts_defaults", lambda W: O.optimize_cuts(W.sig, W.bkg, W.reco_bins, W.mults, W.effs[:1], W.effs[2:], progress=False), cls="root")
# simulations, spectra
SI = "emin emax"
e("showers_energy", lambda W: W.info.calculate_n_showers_per_energy(W.true_bins), "true_bins emin")
e("showers_fov", lambda W: W.info.calculate_n_showers_per_fov(W.fov_bins), "fov_bins vmax")
e("showers_energy_fov", lambda W: W.info.calculate_n_showers_per_energy_and_fov(W.true_bins, W.fov_bins), "true_bins fov_bins")
e("showers_polar", lambda W: W.info.calculate_n_showers_3d_polar(W.true_bins, W.fov_bins, W.pa_bins), "true_bins fov_bins pa_bins")
e("showers_lonlat", lambda W: W.info.calculate_n_showers_3d_lonlat(W.true_bins, W.lon_bins, W.lat_bins, subpixels=4), "true_bins lon_bins lat_bins")
e("info", lambda W: SimulatedEventsInfo(W.n_showers, W.emin, W.emax, W.impact, W.index, W.vmin, W.vmax), "emin emax impact vmin vmax", view=True)
e("powerlaw", lambda W: W.pl(W.energies), "energies")
e("logparabola", lambda W: W.lp(W.energies), "energies")
e("gaussian", lambda W: W.gauss(W.energies), "energies")
e("table_spectrum", lambda W: W.tspec(W.energies), "energies")
e("new_table_spectrum", lambda W: P.TableInterpolationSpectrum.from_table(W.flux, log_flux=False, reference_energy=W.e_ref)(W.energies), "energies e_ref flux.energy")
e("new_powerlaw", lambda W: P.PowerLaw(W.dnorm, W.index, W.e_ref)(W.energies), "energies e_ref dnorm")
e("new_logparabola", lambda W: P.LogParabola(W.norm, W.a, W.b, W.e_ref)(W.energies), "energies e_ref norm")
e("from_simulation", lambda W: P.PowerLaw.from_simulation(W.info, W.t_obs, e_ref=W.e_ref)(W.energies), "t_obs e_ref energies")
e("from_simulation_default", lambda W: P.PowerLaw.from_simulation(W.info, W.t_obs)(W.energies), "t_obs")
e("integrate_cone", lambda W: W.dpl.integrate_cone(W.off_min, W.off_max)(W.energies), "off_min off_max")
e("event_weights", lambda W: P.calculate_event_weights(W.sig["true_energy"], W.pl, W.lp), "sig.true_energy norm", rows="sig")
e("event_weights_sim", lambda W: P.calculate_event_weights(W.bkg["true_energy"], W.dpl, P.PowerLaw.from_simulation(W.info, W.t_obs)), "bkg.true_energy dnorm t_obs",
  rows="bkg")
e("constant_spectra", lambda W: [getattr(P, k)(W.energies) for k in ("CRAB_HEGRA", "CRAB_MAGIC_JHEAP2015", "PDG_ALL_PARTICLE", "IRFDOC_PROTON_SPECTRUM",
                                                                     "IRFDOC_ELECTRON_SPECTRUM", "DAMPE_P_He_SPECTRUM")], "energies")
e("crab_weights", lambda W: P.calculate_event_weights(W.sig["true_energy"], P.CRAB_MAGIC_JHEAP2015, P.CRAB_HEGRA), "sig.true_energy", rows="sig")
# irf
e("aeff_plain", lambda W: R.effective_area(W.n_sel, W.n_sim, W.area), "area")
e("aeff_energy", lambda W: R.effective_area_per_energy(W.sig, W.info, W.true_bins), "sig.true_energy true_bins impact", add="sig")
e("aeff_fov", lambda W: R.effective_area_per_energy_and_fov(W.sig, W.info, W.true_bins, W.fov_bins), "sig.true_energy sig.true_source_fov_offset true_bins fov_bins", add="sig")
e("aeff_polar", lambda W: R.effective_area_3d_polar(W.sig, W.info, W.true_bins, W.fov_bins, W.pa_bins),
  "sig.true_energy sig.true_source_fov_offset sig.true_source_fov_position_angle true_bins fov_bins pa_bins", add="sig")
e("aeff_lonlat", lambda W: R.effective_area_3d_lonlat(W.sig, W.info, W.true_bins, W.lon_bins, W.lat_bins, subpixels=4),
  "sig.true_energy sig.true_source_fov_lon sig.true_source_fov_lat true_bins lon_bins lat_bins", add="sig")
e("energy_dispersion", lambda W: R.energy_dispersion(W.sig, W.true_bins, W.fov_bins, W.migra_bins),
  "sig.true_energy sig.reco_energy sig.true_source_fov_offset true_bins fov_bins")
e("migration_matrix", lambda W: energy_migration_matrix(W.sig, W.true_bins, W.reco_bins, W.fov_bins),
  "sig.true_energy sig.reco_energy sig.true_source_fov_offset true_bins reco_bins fov_bins")
e("dispersion_to_migration", lambda W: energy_dispersion_to_migration(W.edisp, W.true_bins, W.migra_bins, W.new_true_bins, W.new_reco_bins),
  "true_bins new_true_bins new_reco_bins")
e("psf_table", lambda W: R.psf_table(W.sig, W.true_bins, W.rad_bins, W.fov_bins), "sig.true_energy sig.theta sig.true_source_fov_offset true_bins rad_bins fov_bins")
e("background_2d", lambda W: R.background_2d(W.bkg, W.reco_bins, W.fov_bins, W.t_obs), "bkg.reco_energy bkg.reco_source_fov_offset reco_bins fov_bins t_obs", add="bkg")
e("background_3d", lambda W: R.background_3d_lonlat(W.bkg, W.reco_bins, W.lon_bins, W.lat_bins, W.t_obs),
  "bkg.reco_energy bkg.reco_source_fov_lon bkg.reco_source_fov_lat reco_bins lon_bins lat_bins t_obs", add="bkg")
# benchmarks
AR = "sig.theta"
e("angular_resolution", lambda W: M.angular_resolution(W.sig, W.true_bins), "sig.true_energy true_bins")
e("angular_resolution_reco", lambda W: M.angular_resolution(W.sig, W.reco_bins, energy_type="reco", quantile=[0.31, 0.7]), "sig.reco_energy reco_bins")
e("bias_resolution", lambda W: M.energy_bias_resolution(W.sig, W.true_bins), "sig.true_energy sig.reco_energy true_bins")
e("bias_resolution_reco", lambda W: M.energy_bias_resolution(W.sig, W.reco_bins, energy_type="reco", bias_function=np.mean), "sig.true_energy sig.reco_energy reco_bins")
e("bias_from_dispersion", lambda W: M.energy_bias_resolution_from_energy_dispersion(W.edisp, W.migra_bins), cls="root")
e("inter_quantile", lambda W: M.energy_bias_resolution.__globals__["inter_quantile_distance"](W.rel_error))
# geometry
CO = "lon lat plon plat"
e("fov_lon_lat", lambda W: K.gadf_fov_coords_lon_lat(W.lon, W.lat, W.plon, W.plat), CO)
e("fov_theta_phi", lambda W: K.gadf_fov_coords_theta_phi(W.lon, W.lat, W.plon, W.plat), CO)
e("theta", lambda W: U.calculate_theta(W.sig, W.src_az, W.src_alt), "sig.reco_az sig.reco_alt src_az src_alt", rows="sig")
FV = "sig.true_az sig.true_alt sig.pointing_az sig.pointing_alt"
e("fov_offset", lambda W: U.calculate_source_fov_offset(W.sig), FV, rows="sig")
e("fov_offset_reco", lambda W: U.calculate_source_fov_offset(W.sig, prefix="reco"), FV.replace("true", "reco"), rows="sig")
e("fov_angle", lambda W: U.calculate_source_fov_position_angle(W.sig), FV, rows="sig")
e("fov_lonlat", lambda W: U.calculate_source_fov_lonlat(W.sig, prefix="reco"), FV.replace("true", "reco"), rows="sig")
e("check_histograms", lambda W: U.check_histograms(W.sighist, W.bkghist))
e("check_table", lambda W: U.check_table(W.sig, required_columns=["theta"], required_units=W.required), "sig.true_energy sig.theta")
e("cone", lambda W: U.cone_solid_angle(W.angle), "angle")
e("rectangle", lambda W: U.rectangle_solid_angle(W.lon_lo, W.lon_hi, W.lat_lo, W.lat_hi), "lon_lo lon_hi lat_lo lat_hi")
# export
e("hdu_aeff", lambda W: G.create_aeff2d_hdu(W.aeff[..., np.newaxis][..., 0], W.true_bins, W.fov_bins, point_like=False, **W.cards), "aeff true_bins fov_bins")
e("hdu_aeff_default", lambda W: G.create_aeff2d_hdu(W.aeff, W.true_bins, W.fov_bins), "aeff true_bins fov_bins")
e("hdu_psf", lambda W: G.create_psf_table_hdu(np.transpose(W.psf, (0, 1, 2)), W.true_bins, W.rad_bins, W.fov_bins, **W.cards), "psf true_bins rad_bins fov_bins")
e("hdu_edisp", lambda W: G.create_energy_dispersion_hdu(W.edisp, W.true_bins, W.migra_bins, W.fov_bins), "true_bins fov_bins")
e("hdu_bkg2d", lambda W: G.create_background_2d_hdu(W.bkg2d, W.reco_bins, W.fov_bins), "bkg2d reco_bins fov_bins")
e("hdu_bkg3d", lambda W: G.create_background_3d_hdu(W.bkg3d, W.reco_bins, W.lon_bins, W.lat_bins, **W.cards), "bkg3d reco_bins lon_bins lat_bins")
e("hdu_radmax", lambda W: G.create_rad_max_hdu(W.radmax, W.reco_bins, W.fov_bins), "radmax reco_bins fov_bins")
e("gp_aeff", lambda W: GP.create_effective_area_table_2d(W.aeff, W.true_bins, W.fov_bins), "aeff true_bins fov_bins", view=True)
e("gp_psf", lambda W: GP.create_psf_3d(W.psf, W.true_bins, W.rad_bins, W.fov_bins), "psf true_bins rad_bins fov_bins", view=True)
e("gp_edisp", lambda W: GP.create_energy_dispersion_2d(W.edisp, W.true_bins, W.migra_bins, W.fov_bins), "true_bins fov_bins", view=True)

# interpolation: constructed once per session or for every call
AE, PE, EE, SE, RE = (I.EffectiveAreaEstimator, I.ParametrizedComponentEstimator, I.EnergyDispersionEstimator, I.PSFTableEstimator, I.RadMaxEstimator)
LIN, NSX, VE, QI, MM, MMX = (I.GridDataInterpolator, I.ParametrizedNearestSimplexExtrapolator, I.ParametrizedVisibleEdgesExtrapolator, I.QuantileInterpolator,
                             I.MomentMorphInterpolator, I.MomentMorphNearestSimplexExtrapolator)
PNN, DNN = I.ParametrizedNearestNeighborSearcher, I.DiscretePDFNearestNeighborSearcher
EST = {}


def est(name, make, targets, reject="", cls="root"):
    for t in targets:
        e(f"{name}({t})", lambda W, t=t: make(W)(np.atleast_2d(getattr(W, t))), reject, cls=cls)
        e(f"{name}!({t})", lambda W, t=t: W.keep(name, lambda: make(W))(getattr(W, t)), cls=cls)


for d, tt in (("1", ["in1", "in1b", "out1"]), ("2", ["in2", "in2b", "out2"])):
    gr, w = f"grid{d}", lambda W, n, d=d: getattr(W, n + d)
    est("aeff_est" + d, lambda W, w=w: AE(w(W, "grid"), w(W, "aeffs"), interpolator_kwargs=W.kwargs, extrapolator_cls=NSX, extrapolator_kwargs=W.empty_kwargs,
                                          min_effective_area=W.min_aeff), tt, f"aeffs{d} min_aeff")
    est("aeff_nn" + d, lambda W, w=w: AE(w(W, "grid"), w(W, "aeffs"), interpolator_cls=PNN, extrapolator_cls=PNN), tt[::2], f"aeffs{d}")
    est("param_est" + d, lambda W, w=w: PE(w(W, "grid"), w(W, "params"), extrapolator_cls=NSX), tt)
    est("radmax_est" + d, lambda W, w=w: RE(w(W, "grid"), w(W, "radmaxs"), fill_value="infer", extrapolator_cls=NSX), tt)
    est("radmax_nn" + d, lambda W, w=w: RE(w(W, "grid"), w(W, "radmaxs"), fill_value=0.5, interpolator_cls=PNN), tt[:1])
    est("edisp_q" + d, lambda W, w=w: EE(w(W, "grid"), W.migra_bins, w(W, "edisps"), interpolator_kwargs={"quantile_resolution": 1e-2}, extrapolator_cls=MMX), tt)
    est("edisp_mm" + d, lambda W, w=w: EE(w(W, "grid"), W.migra_bins, w(W, "edisps"), interpolator_cls=MM, extrapolator_cls=DNN), tt)
    est("psf_q" + d, lambda W, w=w: SE(w(W, "grid"), W.rad_bins, w(W, "psfs"), interpolator_kwargs={"quantile_resolution": 1e-2}), tt[:2], f"psfs{d} rad_bins")
    est("psf_mm" + d, lambda W, w=w: SE(w(W, "grid"), W.rad_bins, w(W, "psfs"), interpolator_cls=MM, extrapolator_cls=MMX), tt[1:], f"psfs{d} rad_bins")
    est("psf_nn" + d, lambda W, w=w: SE(w(W, "grid"), W.rad_bins, w(W, "psfs"), interpolator_cls=DNN, extrapolator_cls=DNN), tt[::2], f"psfs{d} rad_bins")
    est("edisp_nn" + d, lambda W, w=w: EE(w(W, "grid"), W.migra_bins, w(W, "edisps"), interpolator_cls=DNN, extrapolator_cls=DNN), tt[::2])
    est("raw_lin" + d, lambda W, w=w: LIN(w(W, "grid"), w(W, "params")), tt[:2])
    est("raw_nsx" + d, lambda W, w=w: NSX(w(W, "grid"), w(W, "params")), tt[2:])
    est("raw_nn" + d, lambda W, w=w: PNN(w(W, "grid"), w(W, "params"), norm_ord=1), tt)
    est("raw_dnn" + d, lambda W, w=w: DNN(w(W, "grid"), W.migra_bins, w(W, "pdf")), tt)
    est("raw_quant" + d, lambda W, w=w: QI(w(W, "grid"), W.migra_bins, w(W, "pdf"), quantile_resolution=1e-2), tt[:2])
    est("raw_mm" + d, lambda W, w=w: MM(w(W, "grid"), W.migra_bins, w(W, "pdf"), normalization=PDFNormalization.AREA), tt[:2])
    est("raw_mmx" + d, lambda W, w=w: MMX(w(W, "grid"), W.migra_bins, w(W, "pdf")), tt[2:])
est("raw_ve2", lambda W: VE(W.grid2, W.params2, m=2), ["out2"])

# additive parts of results (for split event lists)


def counts(t):
    """All count columns, with zeros for particle types that do not occur."""
    z = np.zeros(len(t))
    return [np.asarray(t[c]) if c in t.colnames else z for c in
            ["n", "n_weighted"] + [f"n_{p}{w}" for p in ("proton", "electron", "he") for w in ("", "_weighted")]]


e("add_hist", lambda W: counts(CAT["hist_reco"].fn(W)), add="bkg")
e("add_hist_true", lambda W: counts(CAT["hist_true"].fn(W)), add="sig")
e("add_background", lambda W: counts(CAT["estimate_background"].fn(W)), add="bkg")
