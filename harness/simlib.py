"""Random simulation descriptions and binnings shared by the drivers."""
from common import *
from pyirf.simulations import SimulatedEventsInfo


def rand_info(r, point=None, index=None, vc=None):
    eu, lu, au, au2 = r.choice(ENERGY), r.choice(LENGTH), r.choice(ANGLE), r.choice(ANGLE)
    eu2 = r.choice([eu, r.choice(ENERGY)])
    emin, emax = r.choice([(0.003, 330.0), (0.1, 10.0), (0.02, 50.0), (0.5, 0.8), (1.0, 1000.0)])
    v = vc or (r.choice([(0.0, 0.0), (0.0, 0.0), (0.5, 0.5), (2.0, 2.0)]) if (r.random() < 0.1 if point is None else point) else
               r.choice([(0.0, 10.0), (0.0, 0.5), (1.0, 6.0), (0.0, 2.0), (3.0, 3.5), (0.0, 60.0), (0.1, 8.0)]))
    if v[0] == v[1] and v[0]:
        au2 = au
    rec = dict(n=num(r.choice([1000, 10**6, 123456789, 5.0, 10**9])), index=num(index if index is not None else
                                                                                r.choice([-1, -1.0, -2, -2.0, -1.5, -2.7, -3.43, -1.05, -1.004])),
               emin=dict(v=num(float(to_unit(emin, "TeV", eu))), u=eu), emax=dict(v=num(float(to_unit(emax, "TeV", eu2))), u=eu2),
               impact=dict(v=num(float(to_unit(r.choice([50.0, 1500.0, 2500.5]), "m", lu))), u=lu),
               vmin=dict(v=num(float(to_unit(v[0], "deg", au))), u=au), vmax=dict(v=num(float(to_unit(v[1], "deg", au2))), u=au2))
    return rec, (emin, emax), v


def f(x):
    return float.fromhex(x) if "x" in x else float(x)


def fq(d):
    return q(f(d["v"]), d["u"])


def build(rec):
    n, g = f(rec["n"]), f(rec["index"])
    n = int(n) if n == int(n) else n
    return SimulatedEventsInfo(n_showers=n, energy_min=fq(rec["emin"]), energy_max=fq(rec["emax"]), max_impact=fq(rec["impact"]),
                               spectral_index=int(g) if g == int(g) and n % 2 else g, viewcone_min=fq(rec["vmin"]), viewcone_max=fq(rec["vmax"]))


def rand_energy_bins(ctx, r, lim):
    emin, emax = lim
    lo, hi = np.log10(emin), np.log10(emax)
    m = r.randrange(5)
    n = r.choice([1, 2, 4, 7])
    if m == 0:
        e = np.logspace(lo - 1, hi + 1, n + 1)
    elif m == 1:
        e = np.logspace(lo, hi, n + 1)
    elif m == 2:
        e = np.sort(10 ** ctx.np.uniform(lo - 1, hi + 1, n + 1))
    elif m == 3:
        e = np.sort(10 ** ctx.np.uniform(lo, hi, n + 1))
    else:
        e = np.sort(np.concatenate([[emin, emax], 10 ** ctx.np.uniform(lo - 0.5, hi + 0.5, n)]))
    if r.random() < 0.25:
        e = np.concatenate([[0.0], e, [np.inf]])
    return e


def rand_fov_bins(ctx, r, v):
    lo, hi = v if v[1] > v[0] else (0.0, 5.0)
    n = r.choice([1, 2, 4, 6])
    m = r.randrange(4)
    if m == 0:
        fo = np.linspace(0, hi * 1.5, n + 1)
    elif m == 1:
        fo = np.linspace(lo, hi, n + 1)
    elif m == 2:
        fo = np.sort(ctx.np.uniform(max(0, lo - 1), min(hi + 2, 170), n + 1))
    else:
        fo = np.sort(np.concatenate([[lo, hi], ctx.np.uniform(0, min(hi * 1.3, 170), n)]))
    return fo
