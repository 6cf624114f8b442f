"""Shared part of the conformance drivers.

A driver calls the real code in /repo and records each call - arguments and
outcome - as one event of a session.  It never judges: every verdict is given
by TLC evaluating the trace specification.
"""
import json
import os
import random
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1")

import logging

logging.disable(logging.CRITICAL)

import numpy as np
import astropy.units as u
from astropy.table import QTable, Table

np.seterr(all="ignore")


# ---------------------------------------------------------------- encoding --
def num(x):
    """A number as an exact string."""
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return x.hex()


def nums(a):
    """(Nested) array of numbers as nested lists of strings."""
    a = np.asarray(a)
    if a.ndim == 0:
        return num(a[()])
    if a.ndim == 1:
        return [num(v) for v in a]
    return [nums(v) for v in a]


UNITS = {
    "TeV": u.TeV, "GeV": u.GeV, "MeV": u.MeV, "PeV": u.PeV, "erg": u.erg,
    "rad": u.rad, "deg": u.deg, "mrad": u.mrad, "arcmin": u.arcmin, "arcsec": u.arcsec,
    "m": u.m, "km": u.km, "cm": u.cm, "m2": u.m**2, "km2": u.km**2, "cm2": u.cm**2,
    "s": u.s, "min": u.min, "h": u.h, "d": u.d, "yr": u.yr, "sr": u.sr, "deg2": u.deg**2,
    "one": u.one,
}
CANONICAL = {}
for _c, _us in dict(TeV="TeV GeV MeV PeV erg", rad="rad deg mrad arcmin arcsec", m="m km cm", m2="m2 km2 cm2",
                    s="s min h d yr", sr="sr deg2", one="one none").items():
    for _u in _us.split():
        CANONICAL[_u] = _c
ENERGY = ["TeV", "GeV", "MeV", "PeV", "erg"]
ANGLE = ["deg", "rad", "arcmin", "arcsec", "mrad"]
LENGTH = ["m", "km", "cm"]
TIME = ["s", "min", "h", "d", "yr"]
AREA = ["m2", "km2", "cm2"]


def q(values, unit):
    """Numbers in the named unit ("none": plain array)."""
    values = np.asarray(values)
    return values if unit == "none" else values * UNITS[unit]


def qrec(values, unit):
    """The record of a quantity in a trace."""
    return {"v": nums(values), "u": unit}


def to_unit(values, unit, new):
    """Express numbers given in one unit in another one (floating point)."""
    if unit == new or unit == "none":
        return np.asarray(values, dtype=float)
    return (np.asarray(values, dtype=float) * UNITS[unit]).to_value(UNITS[new])


class BadUnit(Exception):
    pass


def canon(x, unit):
    """Result as numbers in a canonical unit; BadUnit if it is not convertible."""
    unit = UNITS[unit] if isinstance(unit, str) else unit
    try:
        if isinstance(x, u.Quantity) or getattr(x, "unit", None) is not None:
            return u.Quantity(x).to_value(unit)
        if unit == u.one:
            return np.asarray(x)
    except Exception as e:
        raise BadUnit(str(e))
    raise BadUnit(f"no unit, expected {unit}")


def plain(x):
    """Result that must be a plain or dimensionless number (array)."""
    return canon(x, u.one)


class Shape(Exception):
    pass


def call(fn, enc):
    """Run fn; outcome is enc(result) with k = ok, or the exception raised."""
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = fn()
    except Exception as e:
        return {"k": "raise", "type": exc_name(e), "msg": str(e)[:800]}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = enc(r)
    except Exception as e:
        # the result does not have the form a user relies on
        return {"k": "malformed", "type": exc_name(e), "msg": str(e)[:800]}
    out["k"] = "ok"
    return out


def exc_name(e):
    """Most specific of the exception types the specification knows."""
    for c in type(e).__mro__:
        if c.__name__ in ("MissingColumns", "WrongColumnUnit", "NotImplementedError", "UnitConversionError",
                          "UnitTypeError", "UnitsError", "KeyError", "IndexError", "TypeError", "ValueError",
                          "AttributeError", "ZeroDivisionError"):
            return c.__name__
    return type(e).__name__


# ------------------------------------------------------------------ traces --
class Writer:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def trace(self, id, ev, **kw):
        ev = [e for e in ev if e is not None]
        if ev:
            self.f.write(json.dumps(dict(id=id, ev=ev, **kw)) + "\n")
            self.n += 1

    def close(self):
        self.f.close()


class Ctx:
    """What a driver part gets: random source, size factor, behaviours, writer."""

    def __init__(self, prop, seed, tier, shard, nshards, beh, writer):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.shard, self.nshards = shard, nshards
        self.rng = random.Random(f"{prop}/{seed}/{shard}")
        self.np = np.random.default_rng([seed, shard, int(prop[1:])])
        self.beh, self.w = beh, writer
        self.k = 0

    def n(self, quick, thorough=None):
        """Number of cases for this shard."""
        tot = quick if self.tier == "quick" else (thorough or quick * 10)
        return tot // self.nshards + (1 if self.shard < tot % self.nshards else 0)

    def mine(self, seq):
        return [x for k, x in enumerate(seq) if k % self.nshards == self.shard]

    def id(self, tag):
        self.k += 1
        return f"{self.prop}-{tag}-{self.shard}.{self.k}"


class Copies:
    """
    A long sample made of many copies of a few rows: what holds for a row must
    hold for every copy of it, however long the sample is.
    """

    def __init__(self, ctx, n, sizes=(900, 5000, 30000, 150000)):
        size = ctx.rng.choice(sizes)
        self.n = n
        self.idx = np.concatenate([np.arange(n), ctx.np.integers(0, n, size)])
        ctx.np.shuffle(self.idx)
        if ctx.rng.random() < 0.2:          # sorted: runs of equal rows
            self.idx.sort()
        self.times = np.bincount(self.idx, minlength=n)

    def put(self, x):
        return x[self.idx]

    def fold(self, out):
        """One value per row: the copy that differs most from the first one."""
        out = np.asarray(out)
        if out.shape[:1] != self.idx.shape:
            raise Shape(str(out.shape))
        first = np.zeros(self.n, dtype=int)
        first[self.idx[::-1]] = np.arange(len(self.idx))[::-1]
        pick = first.copy()
        same = out[first][self.idx]
        diff = ~((out == same) | ((out != out) & (same != same)))
        if diff.ndim > 1:
            diff = diff.any(axis=tuple(range(1, diff.ndim)))
        w = np.flatnonzero(diff)
        if len(w):
            with np.errstate(all="ignore"):
                d = np.abs(np.subtract(out[w], same[w], dtype=float)).reshape(len(w), -1).max(axis=1)
            for k in w[np.argsort(np.nan_to_num(d, nan=np.inf), kind="stable")]:
                pick[self.idx[k]] = k
        return out[pick]


def relayout(ctx, x):
    """The same numbers in another memory layout, as they come out of files and slices."""
    k = ctx.rng.randrange(6)
    x = np.asarray(x)
    if k == 0:
        return x.astype(x.dtype.newbyteorder(">"))
    if k == 1:
        return np.repeat(x, 2, axis=0)[::2]
    if k == 2:
        return x[::-1].copy()[::-1]
    if k == 3:
        x = x.copy()
        x.flags.writeable = False
        return x
    if k == 4 and x.dtype.kind == "f" and np.all((x == x.astype(np.float32)) | np.isnan(x)):
        return x.astype(np.float32)
    return x


class Refused(Exception):
    """raised by the library in a forked child"""


def refusal(e):
    """The event for an exception that comes out of the library under test; None for any other."""
    if isinstance(e, Refused):
        return e.args[0]
    import traceback
    root = os.path.realpath(os.path.join(REPO, "pyirf")) + os.sep
    fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(root)]
    if not fr:
        return None
    traceback.print_exception(e)
    return dict(op="refused", what=f"{type(e).__name__} from {fr[0].name}: {str(e)[:120]}")


def main(parts):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--behaviours")
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    beh = []
    if a.behaviours and os.path.exists(a.behaviours):
        beh = [json.loads(x) for x in open(a.behaviours)]
    w = Writer(a.out)
    ctx = Ctx(a.property, a.seed, a.tier, a.shard, a.nshards, beh, w)
    import pyirf
    assert os.path.realpath(pyirf.__file__).startswith(os.path.realpath(REPO)), pyirf.__file__
    for part in parts[a.property]:
        try:
            part(ctx)
        except Exception as e:
            rec = refusal(e)
            if rec is None:
                raise
            w.trace(ctx.id("refused"), [rec], heap={}, base={})
    w.close()
