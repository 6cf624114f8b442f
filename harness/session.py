"""Driver for whole sessions: hidden state (C30), units (C31), event order and splitting (C32)."""
import os
import pickle

from worlds import *

BASE = [k for k in CAT if "!" not in k and not k.startswith("add_")]


def forked(fn):
    """fn() in a forked child; the parent imports pyirf but never calls it, so the child is a pristine process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                b = pickle.dumps(fn())
            except Exception as e:
                if refusal(e) is None:
                    raise
                b = pickle.dumps(Refused(refusal(e)))
            with os.fdopen(w, "wb") as f:
                f.write(b)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError("forked child failed")
    b = pickle.loads(b)
    if isinstance(b, Refused):
        raise b
    return b


def outcome(entry, W):
    """-> outcome record, result object"""
    box = []

    def run():
        box.append(entry.fn(W))
        return box[0]
    o = call(run, flat)
    return o, (box[0] if box else None)


def key(name):
    return name.replace("!", "")


class Log:
    """Events of one session; the numbers of a result are written once per content and key."""

    def __init__(self):
        self.ev, self.seen = [], {}

    def out(self, k, o):
        if o["k"] == "ok":
            if self.seen.setdefault(k, o["h"]) == o["h"] and any(e["op"] == "fresh" and e["key"] == k for e in self.ev):
                return dict(k="ok", h=o["h"])
        return o

    def add(self, **kw):
        self.ev.append(kw)


# --------------------------------------------------------------------- C30 --
class Live:
    """The session process: two worlds, retained results, public constants."""

    def __init__(self, seeds, log):
        self.W = {1: World(seeds[0]), 2: World(seeds[1])}
        self.now = {1: seeds[0], 2: seeds[1]}
        self.res, self.log, self.consts = {}, log, constants()
        self.k = 0

    def heap(self):
        h = {**self.W[1].heap("a"), **self.W[2].heap("b")}
        h.update({n: digest(o) for n, (o, _) in self.res.items()})
        h.update({"const." + n: digest(o) for n, o in self.consts.items()})
        h["astropy"] = digest(sorted(str(x) for x in u.get_current_unit_registry().equivalencies))
        h["numpy"] = digest([np.geterr(), [np.asarray(x) for x in np.random.get_state()[1:2]], np.random.get_state()[2:]])
        return h

    def call(self, name, w):
        en = CAT[name]
        o, x = outcome(en, self.W[w])
        k = f"{key(name)}@{self.now[w]}"
        n = None
        if x is not None and not en.view:
            self.k += 1
            n = f"r{self.k}"
        self.log.add(op="call", key=k, heap=self.heap(), out=self.log.out(k, o))
        if n:
            # from now on the user holds the result
            self.res[n] = (x, name)
            self.log.ev[-1]["heap"][n] = digest(x)
        return n

    def refuse(self, name, leaf):
        """The same arguments, but one in a unit of another dimension."""
        bad = wrong_units(self.W[1].base[leaf][1])

        def go():
            V, W = World(self.now[1], units={leaf: bad}), self.W[1]
            for k in V.names:
                if digest(getattr(V, k)) == digest(getattr(W, k)):
                    setattr(V, k, getattr(W, k))
            CAT[name].fn(V)
        out = call(go, lambda x: {})
        self.log.add(op="reject", leaf=leaf, unit=bad, heap=self.heap(), out=out)

    def scribble(self, n):
        if n in self.res:
            garbage(self.res[n][0])
            self.log.add(op="scribble", obj=n, heap=self.heap())

    def become(self, seed):
        self.W[1].become(seed)
        self.now[1] = seed
        self.log.add(op="become", objs=["a." + n for n in self.W[1].names], heap=self.heap())


def run_session(plan, seeds):
    """plan: [op, ...] with op = (call name world) | (scr k) | (bec seed); references first, from pristine processes"""
    log = Log()
    now = {1: seeds[0], 2: seeds[1]}
    for op in plan:
        if op[0] == "bec":
            now[1] = op[1]
        elif op[0] == "call":
            k = f"{key(op[1])}@{now[op[2]]}"
            if not any(e["key"] == k for e in log.ev):
                o = forked(lambda: outcome(CAT[key(op[1])], World(now[op[2]]))[0])
                if o["k"] == "ok":
                    log.seen[k] = o["h"]
                log.add(op="fresh", key=k, out=o)

    def go():
        L = Live(seeds, log)
        first = L.heap()
        last = None
        for op in plan:
            if op[0] == "call":
                n = L.call(op[1], op[2])
                last = n if op[3] else last
            elif op[0] == "bad":
                L.refuse(op[1], op[2])
            elif op[0] == "scr":
                L.scribble(last if op[1] is None else op[1])
            else:
                L.become(op[1])
        return first, log.ev
    return forked(go)


def three_worlds(r):
    """Seeds of three worlds, of which some agree in the first and the last entries of everything."""
    s = [r.randrange(10**6) for _ in range(3)]
    for k in 1, 2:
        if r.random() < 0.5:
            s[k] = (s[0], s[k])
    return s


def part_history(ctx):
    r = ctx.rng
    names = [k for k in CAT if not k.startswith("add_")]
    beh = [b["sched"] for b in ctx.beh if "sched" in b]
    assert beh
    jobs = []
    # every entry with schedules that unmask every kind of fault
    for f in ctx.mine(names * (1 if ctx.tier == "quick" else 12)):
        g = r.choice(names)
        if "!" in f and r.random() < 0.7:       # another target of the same estimator
            g = r.choice([n for n in names if n.startswith(f.split("(")[0] + "(")])
        elif r.random() < 0.2:
            g = f
        jobs.append(("beh-" + f, f, g, r.choice(beh)))
    for tag, f, g, sched in jobs:
        s = three_worlds(r)
        plan, cur = [], s[0]
        for op in sched:
            if op == "f1":
                plan.append(("call", f, 1, True))
            elif op == "f2":
                plan.append(("call", f, 2, True))
            elif op == "g1":
                plan.append(("call", g, 1, False))
            elif op == "scr":
                plan.append(("scr", None))
            else:
                cur = s[2] if cur == s[0] else s[0]
                plan.append(("bec", cur))
        bad = r.sample(CAT[f].reject, min(3, len(CAT[f].reject)))
        for n in bad:
            plan.insert(r.randrange(len(plan)), ("bad", f, n))
        heap, ev = run_session(plan, s)
        ctx.w.trace(ctx.id(tag), ev, heap=heap, base={n: x for n, x in bases(World(s[0])).items() if n in bad})
    # long sessions over the whole catalogue
    for _ in range(ctx.n(16, 240)):
        s = three_worlds(r)
        some = r.sample(names, 8)
        refused = [(f, n) for f in some for n in CAT[f].reject]
        plan, cur, nres = [], s[0], 0
        for _ in range(24):
            z = r.random()
            if refused and r.random() < 0.12:
                plan.append(("bad",) + r.choice(refused))
            if z < 0.72 or not nres:
                f = r.choice(some)
                plan.append(("call", f, r.choice([1, 1, 2]), True))
                nres += 0 if CAT[f].view else 1
            elif z < 0.92:
                plan.append(("scr", r.choice([None, f"r{r.randrange(1, nres + 1)}"])))
            else:
                cur = s[2] if cur == s[0] else s[0]
                plan.append(("bec", cur))
        heap, ev = run_session(plan, s)
        ctx.w.trace(ctx.id("long"), ev, heap=heap, base=bases(World(s[0])))


# --------------------------------------------------------------------- C31 --
def bases(W):
    return {k: list(v) for k, v in W.base.items()}


def part_units(ctx):
    r = ctx.rng
    names = ctx.mine(BASE)
    for name in names * (1 if ctx.tier == "quick" else 8):
        en = CAT[name]
        seed = r.randrange(10**6)
        plans = []
        x, tab, _ = leaves(seed)
        dims = {k: us for k, (v, us) in x.items() if us}
        dims.update({f"{t}.{c}": us for t, cols in tab.items() for c, (v, us) in cols.items() if us})
        for k in range(ctx.n(1, 1) or 4):
            plans.append({n: other_units(r, us) for n, us in dims.items() if r.random() < (0.75 if k else 1)})

        def go():
            log = Log()
            W = World(seed)
            o, _ = outcome(en, W)
            if o["k"] == "ok":
                log.seen[name] = o["h"]
            log.add(op="fresh", key=name, out=o)
            for p in plans:
                V = World(seed, units=p)
                o, _ = outcome(en, V)
                log.add(op="express", key=name, cls=en.cls, leaves={n: list(V.used[n]) for n in en.reject}, out=log.out(name, o))
            for n in en.reject:
                bad = wrong_units(dims[n])
                o = call(lambda: en.fn(World(seed, units={n: bad})), lambda x: {})
                log.add(op="reject", leaf=n, unit=bad, out=o)
            return {k: v for k, v in bases(W).items() if k in en.reject}, log.ev
        b, ev = forked(go)
        ctx.w.trace(ctx.id(name), ev, heap={}, base=b)


# --------------------------------------------------------------------- C32 --
SIZES = [None, dict(sig=12, bkg=17), dict(sig=4, bkg=5), dict(sig=40, bkg=3)]


def orders(W, g):
    """Orders in which event lists come: permutations of the rows of both tables."""
    def of(fn):
        return {t: np.asarray(fn(getattr(W, t), len(getattr(W, t))), dtype=int) for t in ("sig", "bkg")}

    def column(c, t):
        return u.Quantity(t[c]).value

    def interleave(t, n):
        # one event of each energy bin in turn
        e = np.digitize(column("reco_energy", t), W.reco_bins.to_value(t["reco_energy"].unit))
        o = np.argsort(e, kind="stable")
        rank = np.concatenate([np.arange(np.sum(e == b)) for b in np.unique(e)]) if n else o
        return o[np.lexsort((e[o], rank))]

    keys = ["reco_energy", "true_energy", "theta", "gh_score", "weight", "reco_source_fov_offset", "particle_type"]
    yield of(lambda t, n: np.arange(n)[::-1])
    yield of(interleave)
    yield of(lambda t, n: np.roll(np.arange(n), 1))
    for c in ("reco_energy", "true_energy", keys[g.integers(2, 6)]):
        up = g.random() < 0.5
        yield of(lambda t, n: np.argsort(column(c, t), kind="stable")[:: 1 if up else -1])
    yield of(lambda t, n: np.argsort(np.asarray(t["particle_type"]), kind="stable"))
    for _ in range(2):
        yield of(lambda t, n: g.permutation(n))


def splits(W, t, g):
    T = getattr(W, t)
    n = len(T)
    e = u.Quantity(T["reco_energy"]).value
    for z in (g.random(n) < 0.5, g.random(n) < 0.03, np.ones(n, bool), g.random(n) < 0.9,
              np.arange(n) < n // 2, np.arange(n) % 2 == 0, e < np.median(e), np.asarray(T["particle_type"]) == T["particle_type"][0]):
        yield np.flatnonzero(z), np.flatnonzero(~z)


def part_order(ctx):
    r = ctx.rng
    names = [k for k in CAT if "(" not in k and any(t in "".join(map(str, CAT[k].fn.__code__.co_names)) for t in ("sig", "bkg")) or k.startswith("add_")]
    for j, name in ctx.mine(list(enumerate(names * ctx_reps(ctx)))):
        en = CAT[name]
        seed = r.randrange(10**6)
        size = SIZES[(j // len(names)) % len(SIZES)]

        def go():
            log = Log()
            W = World(seed, size=size)
            g = np.random.default_rng(seed)
            o, _ = outcome(en, W)
            if o["k"] == "ok":
                log.seen[name] = o["h"]
            log.add(op="fresh", key=name, out=o)
            for perm in orders(World(seed, size=size), g):
                o, _ = outcome(en, World(seed, perm=perm, size=size))
                log.add(op="permute", key=name, cls=en.cls, rows=en.rows or "", perm={t: [int(z) + 1 for z in p] for t, p in perm.items()}, out=o)
            if en.add:
                for a, b in splits(World(seed, size=size), en.add, g):
                    o = [outcome(en, World(seed, part={en.add: p}, size=size))[0] for p in (a, b)]
                    log.add(op="part", key=name, cls=en.cls, rows=[[int(j) + 1 for j in p] for p in (a, b)], out=o)
            return log.ev
        ctx.w.trace(ctx.id(name), forked(go), heap={}, base={})


def ctx_reps(ctx):
    return 4 if ctx.tier == "quick" else 60


PARTS = dict(C30=[part_history], C31=[part_units], C32=[part_order])
if __name__ == "__main__":
    # warm the unit machinery only, in the parent
    for _u in (FLUX, DFLUX, BKG, [["sr", -1]], E_, D_, L_, T_, A_):
        si(compose(_u))
    main(PARTS)
