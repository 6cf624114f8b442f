"""Driver for pyirf.statistics, sensitivity and cut_optimization (C07 - C10)."""
from common import *
import operator
from pyirf.statistics import li_ma_significance
from pyirf import sensitivity as S
from pyirf.binning import create_histogram_table
from pyirf.cut_optimization import optimize_cuts, optimize_gh_cut

OPS = dict(ge=operator.ge, gt=operator.gt, le=operator.le, lt=operator.lt)
NPOPS = dict(ge=np.greater_equal, gt=lambda x, c: x > c, le=lambda x, c: x <= c, lt=np.less)


def f_simple(n_on, n_off, alpha):
    return (n_on - alpha * n_off) / np.sqrt(n_on + alpha * alpha * n_off + 1)


def f_blind(n_on, n_off, alpha):
    return np.nan * n_on


def f_partial(n_on, n_off, alpha):
    return np.where(np.asarray(n_off) > 0.25, np.nan, f_simple(n_on, n_off, alpha))


def f_excess(n_on, n_off, alpha):
    return (n_on - alpha * n_off) / 4


FUNC = dict(lima=li_ma_significance, simple=f_simple, excess=f_excess, blind=f_blind, partial=f_partial)


# --------------------------------------------------------------------- C07 --
def dress(r, x):
    """The same numbers as another kind of input."""
    x = np.asarray(x, dtype=float)
    k = r.randrange(7)
    isint = np.all(x == np.floor(x)) and np.all(np.abs(x) < 2**31)
    is32 = np.all(x == x.astype(np.float32))
    if k == 0 and isint:
        return int(x) if x.ndim == 0 else x.astype(np.int64)
    if k == 1 and isint:
        return np.int32(x) if x.ndim == 0 else x.astype(np.int32)
    if k == 2 and is32:
        return np.float32(x) if x.ndim == 0 else x.astype(np.float32)
    if k == 3:
        return x.tolist()
    if k == 4 and isint:
        return np.uint64(x) if x.ndim == 0 else x.astype(np.uint64)
    if k == 5 and x.ndim == 0:
        return np.array(x)
    return float(x) if x.ndim == 0 else x


def ev_lima(r, on, off, al):
    bon, boff, bal = np.broadcast_arrays(on, off, al)
    a = [dress(r, v) for v in (on, off, al)]
    args, kw = a, {}
    if r.random() < 0.3:
        args, kw = a[:2], dict(alpha=a[2])
    if np.ndim(al) == 0 and al == 0.2 and r.random() < 0.5:
        args, kw = a[:2], {}
    return dict(op="lima", shape=list(bon.shape), scalar=bon.ndim == 0, on=nums(bon.ravel()), off=nums(boff.ravel()),
                al=nums(bal.ravel()),
                out=call(lambda: li_ma_significance(*args, **kw),
                         lambda s: dict(scalar=bool(np.ndim(s) == 0), shape=list(np.shape(s)), s=nums(np.ravel(plain(s))))))


def ev_lima_copies(ctx, n):
    """A long array: many copies of a few counts."""
    r = ctx.rng
    on, off, al = (np.array([f(r) for _ in range(n)]) for f in (count, count, alpha))
    cp = Copies(ctx, n)
    a = [relayout(ctx, cp.put(v)) for v in (on, off, al)]
    return dict(op="lima", shape=[n], scalar=False, on=nums(on), off=nums(off), al=nums(al),
                out=call(lambda: li_ma_significance(*a), lambda s: dict(scalar=False, shape=[n], s=nums(cp.fold(plain(s))))))


def ev_rel_copies(ctx, n):
    r = ctx.rng
    rows = [rel_counts(r) for _ in range(n)]
    on, off, al = (np.array([x[k] for x in rows]) for k in range(3))
    cp = Copies(ctx, n, (900, 2500))
    a = [relayout(ctx, cp.put(v)) for v in (on, off, al)]
    one = lambda x: [num(x)] * n
    return dict(op="rel", shape=[n], f="lima", on=nums(on), off=nums(off), al=nums(al), sig=one(5), events=one(10), excess=one(0.05),
                out=call(lambda: S.relative_sensitivity(*a), lambda s: dict(shape=[n], r=nums(cp.fold(plain(s))))))


def count(r, kind=None):
    k = kind or r.choice("abcdefg")
    return {"a": lambda: 0.0, "b": lambda: float(r.randrange(0, 12)), "c": lambda: float(r.randrange(0, 3000)),
            "d": lambda: r.uniform(0, 30), "e": lambda: 10 ** r.uniform(-6, 8), "f": lambda: r.randrange(0, 200) / 8,
            "g": lambda: float(10 ** r.randrange(0, 12))}[k]()


def alpha(r):
    return r.choice([0.2, 0.2, 1.0, 0.5, 0.1, 1 / 3, 2.0, 5.0, 10 ** r.uniform(-3, 1)])


def part_lima(ctx):
    r = ctx.rng
    for b in ctx.mine(ctx.beh):
        on, off, al = float(b["on"]), float(b["off"]), float(b["al"])
        ctx.w.trace(ctx.id("beh"), [ev_lima(r, on, off, al), ev_lima(r, [on, on + 1], off, al), ev_lima(r, on, [[off], [off + 1]], [al, 1.0])])
    for _ in range(ctx.n(800, 8000)):
        ev = []
        for _ in range(3):
            al, off = alpha(r), count(r)
            m = r.randrange(5)
            if m == 0:
                on = al * off
            elif m == 1:
                on = al * off * (1 + 10 ** -r.uniform(1, 16))
            elif m == 2:
                on = np.nextafter(al * off, r.choice([0, np.inf])) if off else 0.0
            else:
                on = count(r)
            ev.append(ev_lima(r, float(on), off, al))
        shapes = r.choice([((3,), (), ()), ((), (3,), ()), ((), (), (3,)), ((2, 3), (3,), ()), ((2, 1), (1, 3), (2, 3)), ((0,), (), ()),
                           ((4,), (4,), (4,)), ((1,), (), ()), ((1, 1), (1,), ())])
        mk = lambda f, s: np.array([f(r) for _ in range(int(np.prod(s)))]).reshape(s) if s else np.float64(f(r))
        ev.append(ev_lima(r, mk(count, shapes[0]), mk(count, shapes[1]), mk(alpha, shapes[2])))
        if r.random() < 0.3:                    # entries that differ by little
            n = r.choice([2, 5])
            near = lambda x, w: x * (1 + np.array([r.uniform(0, w) for _ in range(n)]))
            w = [10 ** -r.uniform(1, 12) for _ in range(3)]
            ev.append(ev_lima(r, near(count(r), w[0]), near(count(r), w[1]), near(alpha(r), w[2])))
        if r.random() < 0.03:
            ev.append(ev_lima_copies(ctx, r.choice([1, 6])))
        ctx.w.trace(ctx.id("lima"), ev)


# --------------------------------------------------------------------- C08 --
def ev_rel(r, on, off, al, f="lima", **crit):
    c = dict(min_significance=5, min_signal_events=10, min_excess_over_background=0.05)
    c.update(crit)
    br = np.broadcast_arrays(on, off, al, *c.values())
    kw = dict(crit)
    if f != "lima" or r.random() < 0.2:
        kw["significance_function"] = FUNC[f]
    a = (on, off, al)
    if r.random() < 0.3:
        a, kw = (), dict(kw, n_on=on, n_off=off, alpha=al)
    flat = [nums(np.asarray(x, dtype=float).ravel()) for x in br]
    return dict(op="rel", shape=list(br[0].shape), f=f, on=flat[0], off=flat[1], al=flat[2], sig=flat[3], events=flat[4], excess=flat[5],
                out=call(lambda: S.relative_sensitivity(*a, **kw), lambda s: dict(shape=list(np.shape(s)), r=nums(np.ravel(plain(s))))))


def rel_counts(r):
    off = r.choice([0.0, 1.0, 0.5, float(r.randrange(0, 40)), r.uniform(0, 5), 10 ** r.uniform(-3, 7), float(r.randrange(0, 10**6))])
    al = alpha(r)
    m = r.randrange(10)
    if m == 9:          # weights far below one
        on, off = 10 ** r.uniform(-14, -4), r.choice([0.0, 0.0, off])
        on = on + al * off
    elif m == 8:          # bright sources, tiny fractions of which are significant
        on = al * off + 10 ** r.uniform(5, 18)
    elif m == 0:
        on = al * off
    elif m == 1:
        on = al * off * r.uniform(0, 1)
    elif m < 4:
        on = al * off + 10 ** r.uniform(-4, 5)
    elif m < 6:
        on = al * off + r.randrange(0, 500)
    else:
        on = al * off * (1 + 10 ** r.uniform(-3, 2))
    return float(on), off, al


def crit(r):
    c = {}
    if r.random() < 0.5:
        c["min_significance"] = r.choice([5, 3, 1, 10, 0.5, r.uniform(0.1, 30)])
    if r.random() < 0.5:
        c["min_signal_events"] = r.choice([10, 0, 1, 5, 100, r.uniform(0, 50)])
    if r.random() < 0.5:
        c["min_excess_over_background"] = r.choice([0.05, 0, 0.01, 0.5, r.uniform(0, 2)])
    return c


def part_rel(ctx):
    r = ctx.rng
    for b in ctx.mine(ctx.beh):
        on, off, al = float(b["on"]), float(b["off"]), float(b["al"])
        ctx.w.trace(ctx.id("beh"), [ev_rel(r, on, off, al), ev_rel(r, on, off, al, min_signal_events=0, min_excess_over_background=0)])
    for _ in range(ctx.n(900, 9000)):
        ev = []
        for _ in range(3):
            on, off, al = rel_counts(r)
            ev.append(ev_rel(r, on, off, al, r.choice(["lima", "lima", "lima", "lima", "lima", "simple", "excess", "simple", "excess", "blind", "partial"]), **crit(r)))
        # arrays: every argument may carry an axis
        n = r.choice([0, 1, 2, 3])
        c3 = [rel_counts(r) for _ in range(max(n, 1))]
        arr = lambda k: np.array([c[k] for c in c3][:n])
        c = crit(r)
        if r.random() < 0.5:
            for k, lo, hi in (("min_significance", 0.5, 9), ("min_signal_events", 0, 30), ("min_excess_over_background", 0, 1)):
                if r.random() < 0.4:
                    c[k] = r.choice([ctx.np.uniform(lo, hi, n), ctx.np.uniform(lo, hi, (2, 1))])
        which = r.randrange(4)
        if which == 0:
            a = arr(0), arr(1), arr(2)
        elif which == 1:
            a = arr(0)[:, None], arr(1)[None, :], c3[0][2]
        elif which == 2:
            a = arr(0), c3[0][1], c3[0][2]
        else:
            a = c3[0][0], c3[0][1], arr(2)
        bad = r.random()
        if bad < 0.1 and n:
            a = (np.where(np.arange(a[0].size).reshape(a[0].shape) == 0, np.nan, a[0]), *a[1:]) if np.ndim(a[0]) else (np.nan, *a[1:])
        try:
            ev.append(ev_rel(r, *a, f=r.choice(["lima", "lima", "simple"]), **c))
        except ValueError:
            pass        # the shapes do not broadcast
        if r.random() < 0.15:
            on, off, al = rel_counts(r)
            ev.append(ev_rel(r, *r.choice([(-1.0, off, al), (on + 1, -0.5, al), (np.nan, off, al), (on, np.nan, al), (np.nan, -1.0, al),
                                           (np.array([on, -3.0]), off, al)])))
        if r.random() < 0.006:
            ev.append(ev_rel_copies(ctx, r.choice([1, 6])))
        ctx.w.trace(ctx.id("rel"), ev)


# --------------------------------------------------------------------- C09 --
TYPES = ["proton", "electron", "helium", "gamma"]


def cols(tab, skip=("low", "high", "center")):
    return {c: nums(plain(tab[c])) for c in tab.colnames if c not in skip}


def part_background(ctx):
    r = ctx.rng
    for _ in range(ctx.n(450, 4500)):
        n = r.choice([0, 1, 10, 60, 60])
        ou, eu, bu, tu, cu, lu, hu, tcu = (r.choice(ANGLE), r.choice(ENERGY), r.choice(ENERGY), r.choice(ANGLE), None, r.choice(ANGLE),
                                           r.choice(ANGLE), r.choice(ENERGY))
        nb = r.choice([1, 2, 4])
        edges = np.sort(ctx.np.choice(np.arange(1, 80), nb + 1, replace=False)) / 8
        lo, hi = sorted(r.sample([0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0], 2))
        if r.random() < 0.2:
            lo, hi = 0.0, r.choice([5.0, 30.0, 100.0])
        off = ctx.np.uniform(0, hi * 1.3, n)
        en = ctx.np.uniform(edges[0] * 0.5, edges[-1] * 1.2, n)
        same = r.random() < 0.5
        if same:
            ou = lu = hu = "deg"
            if n:
                off[0] = lo
            if n > 2:
                off[1] = hi
        if r.random() < 0.5 and n:
            eu = bu
            en[r.randrange(n)] = edges[-1]
            en[r.randrange(n)] = edges[0]
        t = QTable()
        ov, ev_ = to_unit(off, "deg", ou), to_unit(en, bu, eu)
        cp = Copies(ctx, n) if n and r.random() < 0.05 else None
        put = (lambda x: relayout(ctx, cp.put(x))) if cp else lambda x: x
        t["reco_source_fov_offset"], t["reco_energy"] = q(put(ov), ou), q(put(ev_), eu)
        w = np.round(ctx.np.uniform(0, 3, n), 3) if r.random() < 0.6 else None
        if w is not None:
            if cp:
                w = np.round(w * 8) / 8
            t["weight"] = put(w) * (u.one if r.random() < 0.3 else 1)
        p = np.array([r.choice(TYPES[:3]) for _ in range(n)], dtype="U10") if r.random() < 0.6 and n else None
        if p is not None:
            t["particle_type"] = cp.put(p) if cp else p
        # theta cuts with their own binning
        if r.random() < 0.4:
            te, tcu = edges, bu
        else:
            te = to_unit(np.sort(ctx.np.uniform(edges[0] * 0.3, edges[-1] * 1.5, r.choice([2, 3, 6]))), bu, tcu)
        tc = QTable()
        cen = 0.5 * (te[1:] + te[:-1])
        cut = ctx.np.uniform(0.05, 0.6, len(cen))
        if r.random() < 0.1:
            cut = cut * r.choice([1e-3, 1e-6])
        tc["low"], tc["high"], tc["center"] = q(te[:-1], tcu), q(te[1:], tcu), q(cen, tcu)
        cutv = to_unit(cut, "deg", tu)
        tc["cut"] = q(cutv, tu)
        al = r.choice([1.0, 0.2, 1 / 3, 2.0, r.uniform(0.05, 3)])
        lov, hiv = float(to_unit(lo, "deg", lu)), float(to_unit(hi, "deg", hu))
        def enc(b):
            e = CANONICAL[bu]
            pre = "reco_energy_"
            return dict(cols=cols(b, (pre + "low", pre + "high", pre + "center")), low=nums(canon(b[pre + "low"], e)),
                        high=nums(canon(b[pre + "high"], e)), center=nums(canon(b[pre + "center"], e)))
        ctx.w.trace(ctx.id("bg"), [dict(
            op="background", events=dict(offset=qrec(ov, ou), energy=qrec(ev_, eu), weight=[] if w is None else nums(w),
                                         times=[int(x) for x in cp.times] if cp else [], ptype=[] if p is None else [str(x) for x in p]),
            edges=qrec(edges, bu), tcenter=qrec(cen, tcu), tcut=qrec(cutv, tu), alpha=num(al), lo=dict(v=num(lov), u=lu), hi=dict(v=num(hiv), u=hu),
            out=call(lambda: S.estimate_background(t, q(edges, bu), tc, al, q(lov, lu), q(hiv, hu)), enc))])


def hist(edges, eu, pre="", **kw):
    t = QTable()
    e = q(edges, eu)
    t[pre + "low"], t[pre + "high"] = e[:-1], e[1:]
    t[pre + "center"] = 0.5 * (e[:-1] + e[1:])
    for k, v in kw.items():
        t[k] = v
    return t


def part_sens(ctx):
    r = ctx.rng
    for b in ctx.mine(ctx.beh)[::3]:
        on, off, al = float(b["on"]), float(b["off"]), float(b["al"])
        ctx.w.trace(ctx.id("beh"), [ev_sens(r, np.array([0.5, 2, 3]), "TeV", np.array([on, 0.0]), np.array([on, on * 1.5]),
                                            dict(n=np.array([off, 3.0]), n_weighted=np.array([off, off + 1])), al)])
    for _ in range(ctx.n(350, 3500)):
        nb = r.choice([1, 2, 4, 6])
        eu = r.choice(ENERGY)
        edges = np.geomspace(0.1, 10, nb + 1)
        sn = np.array([float(r.choice([0, r.randrange(1, 3000)])) for _ in range(nb)])
        sw = sn * ctx.np.uniform(0.01, 3, nb)
        bn = np.array([count(r, r.choice("abcd")) for _ in range(nb)])
        bg = dict(n=bn, n_weighted=bn * ctx.np.uniform(0.1, 3, nb))
        for p in r.sample(TYPES, r.randrange(0, 3)):
            bg["n_" + p] = bn * r.random()
            bg["n_" + p + "_weighted"] = bn * ctx.np.uniform(0, 1, nb)
        f = r.choice(["lima", "lima", "lima", "lima", "lima", "simple", "excess", "simple", "excess", "blind", "partial"])
        ctx.w.trace(ctx.id("sens"), [ev_sens(r, edges, eu, sn, sw, bg, alpha(r), f, **crit(r))])


def ev_sens(r, edges, eu, sn, sw, bg, al, f="lima", **c):
    scale = u.one if r.random() < 0.2 else 1
    sh = hist(edges, eu, "reco_energy_", n=sn.astype(int) if r.random() < 0.5 else sn, n_weighted=sw * scale)
    be, bu, same = edges, eu, True
    if r.random() < 0.12:
        same = False
        be = edges.copy()
        be[r.randrange(len(be))] *= 1.01
        be = np.sort(be)
    bh = hist(be, bu, "reco_energy_", **{k: (v * scale if k == "n_weighted" else v) for k, v in bg.items()})
    kw = dict(c)
    if f != "lima" or r.random() < 0.2:
        kw["significance_function"] = FUNC[f]
    full = dict(min_significance=5, min_signal_events=10, min_excess_over_background=0.05)
    full.update(c)
    e = CANONICAL[eu]

    def enc(s):
        pre = "reco_energy_"
        return dict(cols=cols(s, (pre + "low", pre + "high", pre + "center")), low=nums(canon(s[pre + "low"], e)),
                    high=nums(canon(s[pre + "high"], e)), center=nums(canon(s[pre + "center"], e)))
    return dict(op="sens", same=same, f=f, alpha=num(al), sig=num(full["min_significance"]), events=num(full["min_signal_events"]),
                excess=num(full["min_excess_over_background"]), sn=nums(sn), sw=nums(sw), bg={k: nums(v) for k, v in bg.items()},
                low=nums(to_unit(edges[:-1], eu, e)), high=nums(to_unit(edges[1:], eu, e)),
                center=nums(to_unit(0.5 * (edges[1:] + edges[:-1]), eu, e)),
                out=call(lambda: S.calculate_sensitivity(sh, bh, al, **kw), enc))


# --------------------------------------------------------------------- C10 --
def events(ctx, n, edges, ties, gh_up, zero, signal):
    r, g = ctx.rng, ctx.np
    nb = len(edges) - 1
    which = g.integers(0, nb, n) if n else np.zeros(0, int)
    en = edges[which] + g.uniform(0.02, 0.98, n) * np.diff(edges)[which]
    if n > 4:
        out = g.random(n) < 0.06
        en[out] = edges[-1] * 1.5
        out = g.random(n) < 0.03
        en[out] = edges[0] * 0.5
    gh = g.beta(4, 2, n) if signal == gh_up else g.beta(2, 4, n)
    if ties:
        gh = np.round(gh, 1)
    w = np.round(g.uniform(0.2, 3, n), 3)
    if zero:
        w[g.random(n) < zero] = 0.0
    return en, gh, w, g.integers(2, 6, n)


def part_optimize(ctx, gh_only):
    r = ctx.rng
    for _ in range(ctx.n(120, 1500)):
        nb = r.choice([1, 2, 3])
        bu = r.choice(ENERGY)
        edges = np.sort(ctx.np.choice(np.arange(1, 60), nb + 1, replace=False)) / 8
        cmp = r.choice(["ge", "ge", "gt", "le", "lt"]) if gh_only else "ge"
        up = cmp in ("ge", "gt")
        ties, zero = r.random() < 0.3, r.choice([0, 0, 0, 0.5, 0.95])
        ns, nk = r.choice([5, 20, 60, 90]), r.choice([1, 5, 40, 60])
        if r.random() < 0.03:
            ns, nk = 600, 300
        en, gh, w, mult = events(ctx, ns, edges, ties, up, 0 if r.random() < 0.5 else zero, True)
        ben, bgh, bw, bmult = events(ctx, nk, edges, ties, up, zero, False)
        w = w * r.choice([1, 1, 0.1, 10])
        f = r.choice(["simple", "partial", "partial", "blind"]) if r.random() < 0.25 else "lima"
        if f == "partial":
            bw = bw * r.choice([1, 4, 20, 80])
        if r.random() < 0.1:
            w = w * 0
        dyadic = r.random() < 0.6          # weights whose sums are exact
        if dyadic:
            w, bw = np.ceil(w * 8) / 8, np.ceil(bw * 8) / 8
        tu, ou = r.choice(ANGLE), r.choice(ANGLE)
        eu, beu = r.choice([bu, r.choice(ENERGY)]), r.choice([bu, r.choice(ENERGY)])
        th = to_unit(np.abs(ctx.np.normal(0, 0.12, ns)) + 1e-4, "deg", tu)
        if ties and r.random() < 0.4:
            th = to_unit(np.round(ctx.np.uniform(0, 0.3, ns), 2), "deg", tu)
        lo, hi = r.choice([(0.0, 1.0), (0.0, 2.0), (0.5, 1.5), (1.0, 3.0)])
        off = ctx.np.uniform(0, hi * 1.2, nk)
        if ou == "deg" and nk > 2:
            off[0], off[1] = lo, hi
        offv = to_unit(off, "deg", ou)
        ev_, bev = to_unit(en, bu, eu), to_unit(ben, bu, beu)
        if eu == bu and ns:
            ev_[r.randrange(ns)] = edges[r.randrange(nb)]
        sig, bkg = QTable(), QTable()
        sig["reco_energy"], sig["gh_score"], sig["theta"], sig["weight"] = q(ev_, eu), gh, q(th, tu), w
        bkg["reco_energy"], bkg["gh_score"], bkg["weight"], bkg["reco_source_fov_offset"] = q(bev, beu), bgh, bw, q(offv, ou)
        p = np.array([r.choice(TYPES[:2]) for _ in range(nk)], dtype="U10") if r.random() < 0.5 else None
        if p is not None:
            bkg["particle_type"] = p
            sig["particle_type"] = "gamma"
        sig["multiplicity"], bkg["multiplicity"] = mult, bmult
        al = r.choice([1.0, 0.2, 0.5, 2.0])
        gheff = sorted(r.sample([0.05, 0.1, 0.2, 0.35, 0.5, 0.64, 0.8, 0.9, 0.95, 1.0, 0.0], r.choice([1, 2, 3, 4])), reverse=r.random() < 0.3)
        c = crit(r) if r.random() < 0.4 else {}
        kw = dict(c)
        if f != "lima":
            kw["significance_function"] = FUNC[f]
        lu, hu = r.choice([ou, "deg"]), r.choice([ou, "deg"])
        lov, hiv = float(to_unit(lo, "deg", lu)), float(to_unit(hi, "deg", hu))
        kw.update(fov_offset_min=q(lov, lu), fov_offset_max=q(hiv, hu), alpha=al, progress=False)
        if r.random() < 0.15:              # the arguments of the signature
            del kw["fov_offset_min"], kw["fov_offset_max"], kw["alpha"]
            lov, lu, hiv, hu, al = 0.0, "deg", 1.0, "deg", 1.0
        full = dict(min_significance=5, min_signal_events=10, min_excess_over_background=0.05)
        full.update(c)
        rec = dict(sig=dict(energy=qrec(ev_, eu), gh=nums(gh), theta=nums(th), mult=nums(mult if not gh_only else mult * 0), weight=nums(w)),
                   bkg=dict(energy=qrec(bev, beu), gh=nums(bgh), offset=qrec(offv, ou), mult=nums(bmult if not gh_only else bmult * 0), weight=nums(bw),
                            ptype=[] if p is None else [str(x) for x in p]),
                   edges=qrec(edges, bu), alpha=num(al), lo=dict(v=num(lov), u=lu), hi=dict(v=num(hiv), u=hu), f=f, tu=tu, cmp=cmp, dyadic=dyadic,
                   minsig=num(full["min_significance"]), minevents=num(full["min_signal_events"]), minexcess=num(full["min_excess_over_background"]),
                   gheff=nums(gheff), fill=num(gh.max() if up else gh.min()))
        e = CANONICAL[bu]
        types = sorted(set(p)) if p is not None else []

        def bins(*tables):
            return [dict(low=nums(canon(x["low"], e)), center=nums(canon(x["center"], e)), high=nums(canon(x["high"], e))) for x in tables]

        def row(s, b, **extra):
            g = lambda c: num(plain(s[c])[b])
            return dict(low=num(canon(s["reco_energy_low"], e)[b]), high=num(canon(s["reco_energy_high"], e)[b]),
                        center=num(canon(s["reco_energy_center"], e)[b]),
                        n_signal=g("n_signal"), n_signal_weighted=g("n_signal_weighted"), n_background=g("n_background"),
                        n_background_weighted=g("n_background_weighted"), relative_sensitivity=g("relative_sensitivity"),
                        types={str(x): g("n_" + x) if f"n_{x}" in s.colnames else "0" for x in types},
                        wtypes={str(x): g(f"n_{x}_weighted") if f"n_{x}_weighted" in s.colnames else "0" for x in types}, **extra)
        if gh_only:
            if r.random() < 0.4:
                te = edges
            else:
                te = np.sort(ctx.np.uniform(edges[0] * 0.3, edges[-1] * 1.5, r.choice([2, 3, 6])))
            tcu = r.choice([tu, "deg"])
            cutv = to_unit(ctx.np.uniform(0.08, 0.35, len(te) - 1), "deg", tcu)
            tc = hist(te, bu, cut=q(cutv, tcu))
            if tcu == tu and ns and r.random() < 0.5:     # events exactly on the cut
                k = np.clip(np.searchsorted(te, en, side="right") - 1, 0, len(te) - 2)
                th = np.where(ctx.np.random(ns) < 0.3, cutv[k], th)
                sig["theta"] = q(th, tu)
                rec["sig"]["theta"] = nums(th)
            rec.update(op="optimize_gh", tedges=qrec(te, bu), tcut=qrec(cutv, tcu), mults=["0"])
            eff = r.choice([np.array, list])(gheff)

            def enc(res):
                s, g = res
                assert len(s) == len(g)
                return dict(bins=bins(g), rows=[row(s, b, mult="0", gh=num(plain(g["cut"])[b]), gheff=num(g["efficiency"][b]), theff="0", th="0")
                                  for b in range(len(s))])
            rec["out"] = call(lambda: optimize_gh_cut(sig, bkg, q(edges, bu), eff, tc, op=r.choice([OPS[cmp], NPOPS[cmp]]), **kw), enc)
        else:
            mults = sorted(r.sample([2, 3, 4, 5, 6], r.choice([1, 2, 3])), reverse=r.random() < 0.2)
            theff = sorted(r.sample([0.2, 0.4, 0.5, 0.68, 0.8, 0.95, 1.0], r.choice([1, 2, 3])), reverse=r.random() < 0.3)
            tmin, tmax = r.choice([(0.02, 0.3), (0.1, 0.2), (0.05, 0.1), (0.001, 2.0), (0.15, 0.15)])
            u1, u2 = r.choice([tu, "deg"]), r.choice([tu, "deg"])
            default = r.random() < 0.2
            if default:
                tmin, tmax, u1, u2 = 0.02, 0.3, "deg", "deg"
            t1, t2 = float(to_unit(tmin, "deg", u1)), float(to_unit(tmax, "deg", u2))
            rec.update(op="optimize_cuts", tedges=qrec(edges, bu), tcut=qrec([], "deg"), mults=nums(mults), theff=nums(theff),
                       tmin=dict(v=num(t1), u=u1), tmax=dict(v=num(t2), u=u2))
            if not default:
                kw.update(theta_min_value=q(t1, u1), theta_max_value=q(t2, u2))
            ef1, ef2 = r.choice([np.array, list])(gheff), r.choice([np.array, list])(theff)

            def enc(res):
                s, m, t, g = res
                tc = u.Quantity(t["cut"]).to_value(UNITS[tu])
                return dict(bins=bins(m, t, g), rows=[row(s, b, mult=num(plain(m["cut"])[b]), gh=num(plain(g["cut"])[b]), gheff=num(g["efficiency"][b]),
                                      theff=num(t["efficiency"][b]), th=num(tc[b])) for b in range(len(s))])
            rec["out"] = call(lambda: optimize_cuts(sig, bkg, q(edges, bu), r.choice([np.array, list])(mults), ef1, ef2, **kw), enc)
        ctx.w.trace(ctx.id("gh" if gh_only else "opt"), [rec])


main({"C07": [part_lima], "C08": [part_rel], "C09": [part_background, part_sens],
      "C10": [lambda c: part_optimize(c, False), lambda c: part_optimize(c, True)]})
