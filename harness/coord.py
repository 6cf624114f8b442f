"""Driver for pyirf.coordinates and the geometry in pyirf.utils (C19)."""
from common import *
from pyirf import coordinates as CO
from pyirf import utils as U


def rad(x):
    return nums(np.atleast_1d(canon(x, "rad")))


def ev_coord(ctx, lon, lat, lu, bu, lon0, lat0, lu0, bu0):
    """All functions giving coordinates of (lon, lat) in the frame at (lon0, lat0)."""
    r = ctx.rng
    n = max(len(lon), len(lon0))
    cp = Copies(ctx, n) if n > 1 and r.random() < 0.04 else None      # a long list: many copies of a few directions
    put = cp.put if cp else lambda v: v
    fold = cp.fold if cp else lambda v: v
    rad = lambda x: nums(fold(np.atleast_1d(canon(x, "rad"))))
    base = dict(op="coord", lon=qrec(lon, lu), lat=qrec(lat, bu), lon0=qrec(lon0, lu0), lat0=qrec(lat0, bu0))
    scalar = n != 1 or r.random() < 0.5
    Q = lambda v, x: q(v[0] if len(v) == 1 and scalar else put(v), x)
    a = (Q(lon, lu), Q(lat, bu), Q(lon0, lu0), Q(lat0, bu0))
    tp = lambda x: dict(theta=rad(x[0]), phi=rad(x[1]))
    ll = lambda x: dict(lon=rad(x[0]), lat=rad(x[1]))
    ev = [dict(base, what="thetaphi", out=call(lambda: CO.gadf_fov_coords_theta_phi(*a), tp)),
          dict(base, what="lonlat", out=call(lambda: CO.gadf_fov_coords_lon_lat(*a), ll))]
    # through an event table: the other prefix holds decoys
    p, o = r.choice([("true", "reco"), ("reco", "true")])
    tab = QTable()
    full = lambda v: put(np.resize(v, n) if len(v) == 1 else v)
    tab[p + "_az"], tab[p + "_alt"] = q(full(lon), lu), q(full(lat), bu)
    tab["pointing_az"], tab["pointing_alt"] = q(full(lon0), lu0), q(full(lat0), bu0)
    tab[o + "_az"], tab[o + "_alt"] = ctx.np.uniform(0, 360, len(tab)) * u.deg, ctx.np.uniform(-80, 80, len(tab)) * u.deg
    kw = {} if p == "true" else dict(prefix="reco")
    ev += [dict(base, what="theta", out=call(lambda: U.calculate_source_fov_offset(tab, **kw), lambda x: dict(theta=rad(x)))),
           dict(base, what="phi", out=call(lambda: U.calculate_source_fov_position_angle(tab, **kw), lambda x: dict(phi=rad(x)))),
           dict(base, what="lonlat", out=call(lambda: U.calculate_source_fov_lonlat(tab, **kw), ll))]
    if len(lon0) == 1 and p == "reco":
        az, alt = q(lon0[0], lu0), q(lat0[0], bu0)
        ev.append(dict(base, what="theta", out=call(lambda: U.calculate_theta(tab, az, alt), lambda x: dict(theta=rad(x)))))
        if r.random() < 0.2:
            ev.append(dict(base, what="badunit", out=call(lambda: U.calculate_theta(tab, lon0[0] * u.m, alt), lambda x: {})))
            ev.append(dict(base, what="badunit", out=call(lambda: U.calculate_theta(tab, az, lat0[0] * u.TeV), lambda x: {})))
    return ev


def part_coord(ctx):
    r = ctx.rng
    f = lambda *x: np.array(x, dtype=float)
    for b in ctx.mine(ctx.beh):
        ctx.w.trace(ctx.id("beh"), ev_coord(ctx, f(b["src"][0]), f(b["src"][1]), "deg", "deg", f(b["tel"][0]), f(b["tel"][1]), "deg", "deg"))
    for _ in range(ctx.n(300, 3000)):
        m, n = r.choice([(1, 1), (5, 1), (5, 5), (1, 4)]), r.randrange(6)
        lon0 = ctx.np.uniform(-180, 360, m[1])
        lat0 = np.degrees(np.arcsin(ctx.np.uniform(-1, 1, m[1])))
        if n == 0:       # anywhere
            lon, lat = ctx.np.uniform(-360, 720, m[0]), np.degrees(np.arcsin(ctx.np.uniform(-1, 1, m[0])))
        elif n in (1, 2):    # close to the pointing
            s = 10.0 ** r.randrange(-7, 1)
            lat = np.clip(np.resize(lat0, m[0]) + ctx.np.normal(0, s, m[0]), -90, 90)
            lon = np.resize(lon0, m[0]) + ctx.np.normal(0, s, m[0]) / np.maximum(np.cos(np.radians(lat)), 0.01) + 360 * r.choice([0, 0, 1, -1])
        elif n == 3:     # near the poles
            lat0 = ctx.np.uniform(88, 90, m[1]) * r.choice([1, -1])
            lon, lat = ctx.np.uniform(0, 360, m[0]), np.sign(lat0[0]) * ctx.np.uniform(85, 90, m[0])
        elif n == 4:     # across the zero of azimuth, typical observation
            lon0, lat0 = ctx.np.uniform(359, 361, m[1]) % 360, ctx.np.uniform(60, 80, m[1])
            lon, lat = ctx.np.uniform(355, 365, m[0]) % 360, ctx.np.uniform(55, 85, m[0])
        else:            # the same direction, or the opposite one
            k = max(m)
            lon0, lat0 = np.resize(lon0, k), np.resize(lat0, k)
            lon, lat = lon0.copy(), lat0.copy()
            if r.random() < 0.5:
                lon = lon + 360
            elif r.random() < 0.3:
                lon, lat = lon + 180, -lat
        if r.random() < 0.15:        # some coordinates agree for all events
            k = r.randrange(4)
            if k == 0:
                lon0 = np.full_like(lon0, lon0[0])
            elif k == 1:
                lat0 = np.full_like(lat0, lat0[0])
            elif k == 2:
                lon = np.full_like(lon, lon0[0])
            else:
                lat = np.full_like(lat, lat0[0])
        lu, bu, lu0, bu0 = (r.choice(ANGLE) for _ in range(4))
        if r.random() < 0.5:
            lu = bu = lu0 = bu0 = r.choice(["deg", "rad"])
        c = lambda x, un: to_unit(x, "deg", un)
        lim = lambda x, un: np.clip(c(x, un), c(-90, un), c(90, un)) * (1 - 1e-15)
        ctx.w.trace(ctx.id("dir"), ev_coord(ctx, c(lon, lu), lim(lat, bu), lu, bu, c(lon0, lu0), lim(lat0, bu0), lu0, bu0))


def part_solid(ctx):
    r = ctx.rng
    for _ in range(ctx.n(100, 1000)):
        au = r.choice(ANGLE)
        n = r.choice([1, 3, 8])
        a = to_unit(np.sort(ctx.np.uniform(0, 180, n) * r.choice([1, 0.1, 0.001, 1e-5, 1e-9])), "deg", au)
        if r.random() < 0.4:
            a[0] = 0
        x = a[0] if n == 1 and r.random() < 0.5 else a
        ev = [dict(op="cone", angle=qrec(a, au), out=call(lambda: U.cone_solid_angle(q(x, au)), lambda y: dict(v=nums(np.atleast_1d(canon(y, "sr"))))))]
        us = [r.choice(ANGLE)] * 4 if r.random() < 0.5 else [r.choice(ANGLE) for _ in range(4)]
        l1, b1 = ctx.np.uniform(-180, 180, n), ctx.np.uniform(-90, 80, n)
        l2, b2 = l1 + ctx.np.uniform(0, 180, n), np.minimum(90, b1 + ctx.np.uniform(0, 90, n))
        v = [to_unit(z, "deg", un) for z, un in zip((l1, l2, b1, b2), us)]
        ev.append(dict(op="rect", l1=qrec(v[0], us[0]), l2=qrec(v[1], us[1]), b1=qrec(v[2], us[2]), b2=qrec(v[3], us[3]), out=call(
            lambda: U.rectangle_solid_angle(*(q(z, un) for z, un in zip(v, us))), lambda y: dict(v=nums(np.atleast_1d(canon(y, "sr")))))))
        ctx.w.trace(ctx.id("sol"), ev)


main({"C19": [part_coord, part_solid]})
