"""C08: neighbourhood means, sums and percentiles.  C09: neighbourhoods within masks.
C10: recursive filter and its coefficients.  C11: padding and trimming grids."""
import datetime as dt

import iris
import numpy as np
from iris.coords import DimCoord
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import cube, ensemble, snapshot, snap_diff, standard_faults


def square_weights(r):
    return np.ones((2 * r + 1, 2 * r + 1))


def circle_weights(r, weighted):
    w = np.zeros((2 * r + 1, 2 * r + 1))
    for j in range(-r, r + 1):
        for i in range(-r, r + 1):
            d2 = j * j + i * i
            if d2 <= r * r:
                w[j + r, i + r] = (r * r - d2) / (r * r) if weighted else 1.0
    return w


def local_sums(field, ok, w, replicate):
    """Weighted sums of valid values and of valid weights around each point."""
    r = w.shape[0] // 2
    ny, nx = field.shape
    total = np.zeros(field.shape, dtype=complex if field.dtype.kind == "c" else float)
    weight = np.zeros(field.shape)
    for y in range(ny):
        for x in range(nx):
            for j in range(-r, r + 1):
                for i in range(-r, r + 1):
                    yy, xx = y + j, x + i
                    if replicate:
                        yy, xx = min(max(yy, 0), ny - 1), min(max(xx, 0), nx - 1)
                    elif not (0 <= yy < ny and 0 <= xx < nx):
                        continue
                    k = w[j + r, i + r]
                    if k and ok[yy, xx]:
                        total[y, x] += k * field[yy, xx]
                        weight[y, x] += k
    return total, weight


def field2d(rng, shape):
    """Fields with large uniform areas of zeros and ones as well as ordinary values."""
    kind = rng.randint(0, 5)
    ny, nx = shape[-2:]
    if kind == 0:
        return rng.np.rand(*shape).astype(np.float32)
    if kind == 1:
        return gen.smooth_field(rng, shape, 270, 300)
    if rng.chance(0.1):
        # one value dwarfs all others: sums must not lose the rest
        out = rng.np.rand(*shape).astype(np.float32)
        out[(Ellipsis, rng.choice([0, ny - 1, ny // 2]), rng.choice([0, nx - 1, nx // 2]))] = 3e7
        return out
    out = np.full(shape, rng.choice([0.0, 1.0]), np.float32)
    if kind == 5:
        return out
    for _ in range(rng.randint(1, 3)):
        y, x = rng.randint(0, ny - 1), rng.randint(0, nx - 1)
        if rng.chance(0.4):
            y = rng.choice([0, ny - 1])
        if rng.chance(0.4):
            x = rng.choice([0, nx - 1])
        h, w = rng.randint(1, 3), rng.randint(1, 3)
        out[..., y:y + h, x:x + w] = rng.choice([0.0, 1.0, 0.25, 0.5, 1.0])
    if kind == 4:
        out[..., : ny // 2, :] = rng.np.rand(*out[..., : ny // 2, :].shape)
    return out


@scenario("C08", quick=260, thorough=6000)
def means(rng, mon):
    from improver.nbhood.nbhood import MetaNeighbourhood, NeighbourhoodProcessing

    spacing = 2000.0
    ny, nx = rng.randint(3, 12), rng.randint(3, 12)
    lead = rng.choice([(), (2,), (3,)])
    data = field2d(rng, lead + (ny, nx))
    method = rng.choice(["square", "circular"])
    weighted = method == "circular" and rng.chance(0.5)
    sum_only = rng.chance(0.25)
    re_mask = rng.chance(0.7)
    rmax = int(np.hypot(ny - 1, nx - 1) / 2)
    r = rng.randint(1, max(1, min(4, rmax)))
    radius = r * spacing + rng.choice([0.0, 0.0, 700.0])
    if radius > 0.5 * spacing * np.hypot(ny - 1, nx - 1):
        r, radius = 1, spacing
    if weighted and r == 1:
        weighted = weighted  # centre point only
    m = np.zeros(data.shape, bool)
    arr = data
    if rng.chance(0.4):
        m = gen.random_mask(rng, data.shape)
        arr = np.ma.masked_array(data.copy(), m)
        if rng.chance(0.5):
            arr.data[m] = rng.choice([1e9, -999.0])
    mask = None
    if rng.chance(0.4):
        mask = (rng.np.rand(ny, nx) < rng.choice([0.3, 0.7])).astype(rng.choice([np.int32, np.int8, np.float32]))
    frt = dt.datetime(2017, 11, 10, 0)
    hours = rng.choice([1, 3, 4, 6, 12])
    kw = dict(time=frt + dt.timedelta(hours=hours), frt=frt, spacing=spacing)
    c = ensemble(arr, **kw) if lead else cube(arr, **kw)
    if lead and rng.chance(0.3):
        c.transpose([2, 0, 1] if rng.chance(0.5) else [1, 2, 0])
        order_changed = True
    else:
        order_changed = False
    maskc = None if mask is None else cube(mask, name="land_binary_mask", units="1", times=False, spacing=spacing)
    args = dict(radii=radius)
    if rng.chance(0.3):
        # the radius belongs to a lead time
        lt = sorted(rng.sample(range(0, 15), 3))
        rr = [radius * k for k in (0.5, 1.0, 1.5)]
        if lt[0] <= hours <= lt[-1]:
            radius = float(np.interp(hours, lt, rr))
        else:
            radius = rr[0] if hours < lt[0] else rr[-1]
        if radius < spacing or radius > 0.5 * spacing * np.hypot(ny - 1, nx - 1):
            radius = rr[1]
            lt = [hours - 1, hours, hours + 1]
            rr = [2000.0, radius, 9000.0]
        args = dict(radii=rr, lead_times=lt)
        r = int(radius / spacing + 1e-9)
    before = snapshot([c, maskc])
    mon.note(method=method, weighted=weighted, r=r, shape=data.shape, sum_only=sum_only, masked=bool(m.any()),
             mask=mask is not None, re_mask=re_mask)
    if rng.chance(0.3):
        lt = args.get("lead_times")
        plugin = MetaNeighbourhood("probabilities", [args["radii"]] if lt is None else args["radii"], lead_times=lt,
                                   neighbourhood_shape=method, weighted_mode=weighted, area_sum=sum_only)
        re_mask = True
        call = lambda: plugin(c) if maskc is None else plugin(c, maskc)
    else:
        plugin = NeighbourhoodProcessing(method, weighted_mode=weighted, sum_only=sum_only, re_mask=re_mask, **args)
        call = lambda: plugin(c, mask_cube=maskc)
    out = call()
    mon.equal(snap_diff(before, snapshot([c, maskc])), None, "input changed")
    if order_changed:
        out = out.copy()
        out.transpose([out.coord_dims(n)[0] for n in ("realization", "projection_y_coordinate", "projection_x_coordinate")])
    bad = m | (np.zeros((ny, nx), bool) if mask is None else mask == 0)
    w = square_weights(r) if method == "square" else circle_weights(r, weighted)
    exp, cnt = np.zeros(data.shape), np.zeros(data.shape)
    for idx in np.ndindex(*lead):
        exp[idx], cnt[idx] = local_sums(np.where(bad[idx], 0, data[idx]).astype(float), ~bad[idx], w, method == "circular")
    if not sum_only:
        exp = np.where(cnt > 0, exp / np.where(cnt > 0, cnt, 1), np.nan)
    got = out.data
    mon.equal(got.dtype, np.dtype(np.float32), "type")
    mon.equal(got.shape, data.shape, "shape")
    gm = np.ma.getmaskarray(got)
    if re_mask:
        mon.array_equal(gm, bad, "mask of the result")
    else:
        mon.check(not gm.any(), "result masked although re-masking is off")
    keep = ~gm
    mon.close(np.ma.getdata(got)[keep], exp[keep], "neighbourhood value", rtol=2e-5, atol=2e-5)
    mon.equal(out.name(), c.name(), "name")
    mon.equal({k.name() for k in out.coords()}, {k.name() for k in c.coords()}, "coordinates")
    for k in c.coords():
        mon.equal(out.coord(k.name()), k, "coordinate", name=k.name())
    if rng.chance(0.3):
        again = call()
        if order_changed:
            again.transpose([again.coord_dims(n)[0] for n in ("realization", "projection_y_coordinate", "projection_x_coordinate")])
        mon.close(again.data, got, "second use", rtol=0, atol=0)
    mon.event("points", got.size)
    mon.seen(method, weighted, r, sum_only, re_mask, bool(m.any()), mask is not None, "lead_times" in args, lead)


@scenario("C08", quick=40, thorough=600)
def directions(rng, mon):
    """Angles are smoothed as vectors."""
    from improver.nbhood.nbhood import MetaNeighbourhood

    ny, nx, r = rng.randint(3, 7), rng.randint(3, 7), 1
    ang = rng.np.uniform(rng.choice([0, 300]), 420, (ny, nx)).astype(np.float32) % 360
    c = cube(ang, name="wind_from_direction", units="degrees")
    out = MetaNeighbourhood("probabilities", [r * 2000.0 + 1], neighbourhood_shape="square", degrees_as_complex=True)(c.copy())
    z, n = local_sums(np.exp(1j * np.deg2rad(ang.astype(float))), np.ones((ny, nx), bool), square_weights(r), False)
    z = z / n
    exp = np.rad2deg(np.angle(z)) % 360
    d = np.abs(out.data - exp) % 360
    d = np.minimum(d, 360 - d)
    mon.check(np.all(d[np.abs(z) > 0.05] < 0.05), "smoothed direction", worst=float(d.max()))
    mon.check(np.all((out.data >= 0) & (out.data < 360)), "range")
    mon.raises(RuntimeError, MetaNeighbourhood, "probabilities", [4000], neighbourhood_shape="circular",
               degrees_as_complex=True, label="circular complex accepted")
    mon.raises(RuntimeError, MetaNeighbourhood, "percentiles", [4000], neighbourhood_shape="circular",
               degrees_as_complex=True, label="percentiles of complex accepted")
    mon.raises(RuntimeError, MetaNeighbourhood, "percentiles", [4000], neighbourhood_shape="circular",
               weighted_mode=True, label="weighted percentiles accepted")
    mon.seen(ny, nx)


def pad_side(a, axis, h, n):
    """Both ends of an axis extended by the mean of the n outermost values."""
    m = a.shape[axis]
    k = min(n, m)
    lo = a.take(range(k), axis).mean(axis, keepdims=True)
    hi = a.take(range(m - k, m), axis).mean(axis, keepdims=True)
    return np.concatenate([lo.repeat(h, axis), a, hi.repeat(h, axis)], axis)


def pad_mean(a, h, n):
    """Each side extended by the mean of the n outermost values, rows first."""
    return pad_side(pad_side(a, 0, h, n), 1, h, n)


@scenario("C08", quick=80, thorough=1500)
def percentile_fields(rng, mon):
    from improver.nbhood.nbhood import GeneratePercentilesFromANeighbourhood

    ny, nx = rng.randint(4, 8), rng.randint(4, 8)
    nr = rng.randint(0, 3)
    data = gen.smooth_field(rng, ((nr,) if nr else ()) + (ny, nx), 0, 50)
    if rng.chance(0.3):
        data = np.round(data / 20).astype(np.float32)
    c = ensemble(data) if nr else cube(data)
    r = rng.randint(1, 2)
    pct = rng.sample([0, 10, 25, 33.3, 50, 75, 90, 100], rng.randint(1, 4))
    if rng.chance(0.6):
        pct.sort()
    before = snapshot(c)
    if rng.chance(0.5):
        plugin = GeneratePercentilesFromANeighbourhood(r * 2000.0, percentiles=pct)
    else:
        plugin = GeneratePercentilesFromANeighbourhood([2000.0, r * 2000.0, 1e5], lead_times=[0, 4, 12], percentiles=pct)
    out = plugin(c)
    mon.equal(snap_diff(before, snapshot(c)), None, "input changed")
    w = circle_weights(r, False) > 0
    sp = sorted(pct)
    exp = np.zeros((max(nr, 1), len(sp), ny, nx))
    for k in range(max(nr, 1)):
        f = (data[k] if nr else data).astype(float)
        p = pad_mean(f, r, w.shape[0] // 2)
        for y in range(ny):
            for x in range(nx):
                v = p[y:y + 2 * r + 1, x:x + 2 * r + 1][w]
                exp[k, :, y, x] = [np.percentile(v, float(np.float32(q))) for q in sp]
    dims = [d.name() for d in out.coords(dim_coords=True)]
    want_dims = (["realization"] if nr else []) + (["percentile"] if len(pct) > 1 else []) + [
        "projection_y_coordinate", "projection_x_coordinate"]
    if nr == 1 and "realization" not in dims:
        want_dims = want_dims[1:]
    mon.equal(dims, want_dims, "dimension order")
    mon.close(out.coord("percentile").points, np.array(sp, np.float32), "percentiles")
    mon.close(out.data.reshape(exp.shape), exp, "neighbourhood percentile", rtol=1e-5, atol=1e-4)
    mon.equal(out.dtype, np.dtype(np.float32), "type")
    mon.close(plugin(c).data, out.data, "second use")
    if nr:
        masked = c.copy(data=np.ma.masked_array(data, gen.random_mask(rng, data.shape, 0.3) | (data == data.flat[0])))
        mon.raises(NotImplementedError, plugin, masked, label="masked input accepted")
    one = np.zeros(data.shape, bool)
    one.flat[rng.randint(0, one.size - 1)] = True
    mon.raises(NotImplementedError, plugin, c.copy(data=np.ma.masked_array(data, one)), label="one masked point accepted")
    mon.seen(nr, r, len(pct), sp == pct)


@scenario("C08", quick=40, thorough=800)
def wrapped(rng, mon):
    """The meta-plugin gives what the plugin it wraps gives, less the halo."""
    from improver.nbhood.nbhood import GeneratePercentilesFromANeighbourhood, MetaNeighbourhood, NeighbourhoodProcessing

    ny, nx = rng.randint(9, 12), rng.randint(9, 12)
    nr = rng.randint(2, 3)
    data = gen.smooth_field(rng, (nr, ny, nx), 0, 50)
    c = ensemble(data)
    halo = rng.choice([None, 1, 2])
    kw = {} if halo is None else dict(halo_radius=halo * 2000.0)
    lt = rng.choice([None, [1, 8]])
    radii = [4000.0] if lt is None else [2000.0, 6000.0]
    rargs = (4000.0,) if lt is None else (radii, lt)
    kind = rng.choice(["percentiles", "default percentiles", "probabilities"])
    if kind == "probabilities":
        m = gen.random_mask(rng, data.shape) if rng.chance(0.5) else None
        if m is not None:
            c.data = np.ma.masked_array(data, m)
        want = NeighbourhoodProcessing("square", *rargs)(c)
        got = MetaNeighbourhood("probabilities", radii, lead_times=lt, **kw)(c)
    else:
        pct = rng.sample([10, 20, 45.5, 50, 90], rng.randint(2, 4))
        pk = dict(percentiles=pct) if kind == "percentiles" else {}
        want = GeneratePercentilesFromANeighbourhood(*rargs, **pk)(c)
        got = MetaNeighbourhood("percentiles", radii, lead_times=lt, neighbourhood_shape="circular", **pk, **kw)(c)
        mon.close(got.coord("percentile").points,
                  np.sort(pct) if pk else [0, 5, 10, 20, 25, 30, 40, 50, 60, 70, 75, 80, 90, 95, 100], "percentiles", rtol=1e-6)
    h = 0 if halo is None else halo
    cut = (Ellipsis, slice(h, ny - h), slice(h, nx - h))
    mon.array_equal(np.ma.getmaskarray(got.data), np.ma.getmaskarray(want.data)[cut], "mask")
    mon.close(np.ma.filled(got.data, -9), np.ma.filled(want.data, -9)[cut], "wrapped result", rtol=0, atol=0)
    for ax, n in (("y", ny), ("x", nx)):
        mon.close(got.coord(axis=ax).points, c.coord(axis=ax).points[h:n - h], "points without the halo")
    mon.seen(kind, halo, lt is None)


@scenario("C08", quick=60, thorough=600)
def refusals(rng, mon):
    from improver.nbhood.nbhood import GeneratePercentilesFromANeighbourhood, NeighbourhoodProcessing, radius_by_lead_time

    c = cube(rng.np.rand(5, 6).astype(np.float32))
    k = rng.randint(0, 6)
    if k == 0:
        c.data[rng.randint(0, 4), rng.randint(0, 5)] = np.nan
        mon.raises(ValueError, NeighbourhoodProcessing("square", 2000.0), c, label="NaN accepted")
        mon.raises(ValueError, GeneratePercentilesFromANeighbourhood(2000.0), c, label="NaN accepted by percentiles")
    elif k == 1:
        mon.raises(ValueError, NeighbourhoodProcessing("square", 7000.0), c, label="radius beyond domain accepted")
    elif k == 2:
        mon.raises(ValueError, NeighbourhoodProcessing("square", rng.choice([1999.0, 0.5])), c, label="zero cells accepted")
        mon.raises(ValueError, NeighbourhoodProcessing("square", rng.choice([0.0, -2000.0])), c, label="no distance accepted")
    elif k == 3:
        ll = cube(rng.np.rand(5, 6).astype(np.float32), grid="latlon")
        mon.raises(ValueError, NeighbourhoodProcessing("square", 2000.0), ll, label="grid in degrees accepted")
        uneven = cube(rng.np.rand(5, 6).astype(np.float32), yspacing=3000.0)
        mon.raises(ValueError, NeighbourhoodProcessing("square", 3000.0), uneven, label="unequal spacing accepted")
    elif k == 4:
        mon.raises(ValueError, NeighbourhoodProcessing, "square", 2000.0, weighted_mode=True, label="weighted square accepted")
        mon.raises(ValueError, NeighbourhoodProcessing, "triangle", 2000.0, label="unknown shape accepted")
    elif k == 5:
        mon.raises(ValueError, NeighbourhoodProcessing, "square", [2000.0, 4000.0], lead_times=[1], label="unmatched lead times")
        mon.raises(ValueError, radius_by_lead_time, [2000, 4000], None, label="several radii without lead times")
        mon.raises(ValueError, radius_by_lead_time, [2000, 4000], [1], label="unmatched lengths")
    else:
        rad, lt = radius_by_lead_time(["2000", "4000"], ["1", 6])
        mon.equal((rad, lt), ([2000.0, 4000.0], [1, 6]), "radii as numbers")
        mon.equal(radius_by_lead_time(["2000"], None), (2000.0, None), "one radius")
    mon.seen(k)


# --------------------------------------------------------------------- C09
def zones(rng, n, ny, nx):
    masks = (rng.np.rand(n, ny, nx) < 0.5).astype(np.int32)
    if rng.chance(0.4):
        masks[rng.randint(0, n - 1)] = 0
        masks[rng.randint(0, n - 1), 0, 0] = 1
    edges = np.arange(n + 1) * 50.0
    coord = DimCoord(((edges[:-1] + edges[1:]) / 2).astype(np.float32), long_name="topographic_zone", units="m",
                     bounds=np.stack([edges[:-1], edges[1:]], 1).astype(np.float32))
    mc = cube(masks, name="topography_mask", units="1", lead=[coord], times=False)
    return masks, coord, mc


@scenario("C09", quick=140, thorough=3000)
def bands(rng, mon):
    """Each band's neighbourhood uses only that band's points; bands are then combined by weight."""
    from improver.nbhood.use_nbhood import ApplyNeighbourhoodProcessingWithAMask

    n, ny, nx = rng.randint(1, 3), rng.randint(4, 7), rng.randint(4, 7)
    masks, coord, mc = zones(rng, n, ny, nx)
    nl = rng.randint(1, 3)
    data = field2d(rng, (nl, ny, nx))
    if nl > 1 and rng.chance(0.4):  # repeated slices
        k = rng.randint(1, nl - 1)
        data[k] = data[0]
        if rng.chance(0.5):  # almost repeated slices
            data[k, rng.randint(0, ny - 1), rng.randint(0, nx - 1)] += np.float32(rng.choice([1e-3, 5e-4]))
    m = np.zeros(data.shape, bool)
    arr = data
    if rng.chance(0.4):
        m = gen.random_mask(rng, data.shape) if rng.chance(0.5) else gen.same_mask(rng, data.shape)
        arr = np.ma.masked_array(data.copy(), m)
        if rng.chance(0.5):
            arr.data[m] = np.float32(0.3)
    kind = rng.choice(["threshold", "realization", "time"])
    frt = dt.datetime(2017, 11, 10, 0)
    lead_times = None
    if kind == "threshold":
        c = gen.probabilities(arr, [273.0 + k for k in range(nl)], frt=frt, time=frt + dt.timedelta(hours=4))
    elif kind == "realization":
        c = ensemble(arr, frt=frt, time=frt + dt.timedelta(hours=4))
    else:
        sl = []
        bounds = rng.chance(0.5)
        for k in range(nl):
            t = frt + dt.timedelta(hours=3 * (k + 1))
            sl.append(cube(arr[k], frt=frt, time=t, bounds=(t - dt.timedelta(hours=1), t) if bounds else None))
        c = CubeList(sl).merge_cube()
        if rng.chance(0.5):
            lead_times = [3, 6, 9]
    radii = 2000.0 * rng.randint(1, 2)
    rs = [int(radii // 2000)] * nl
    if lead_times:
        radii = [2000.0, 4000.0, 2000.0]
        rs = [1, 2, 1][:nl]
    method = rng.choice(["square", "circular"])
    weighted = method == "circular" and rng.chance(0.3)
    sum_only = rng.chance(0.2)
    weights = None
    kw = {}
    if rng.chance(0.6):
        wts = rng.np.rand(n, ny, nx).astype(np.float32)
        wts /= wts.sum(axis=0)
        wmask = None
        if rng.chance(0.3):
            wmask = rng.np.rand(ny, nx) < 0.2
            wts = np.ma.masked_array(wts, np.broadcast_to(wmask, wts.shape))
        weights = cube(wts, name="topographic_zone_weights", units="1", lead=[coord], times=False)
        if n == 1:
            weights = weights if rng.chance(0.5) else weights
        kw["collapse_weights"] = weights
    else:
        wmask = None
    before = snapshot([c, mc, weights])
    plugin = ApplyNeighbourhoodProcessingWithAMask("topographic_zone", method, radii, lead_times=lead_times,
                                                   weighted_mode=weighted, sum_only=sum_only, **kw)
    mon.note(kind=kind, n=n, nl=nl, masked=bool(m.any()), method=method, weights=weights is not None, rs=rs)
    out = plugin(c, mc)
    mon.equal(snap_diff(before, snapshot([c, mc, weights])), None, "input changed")
    exp = np.zeros((nl, n, ny, nx))
    for k in range(nl):
        w = square_weights(rs[k]) if method == "square" else circle_weights(rs[k], weighted)
        for b in range(n):
            ok = ~m[k] & (masks[b] == 1)
            tot, cnt = local_sums(np.where(ok, data[k], 0).astype(float), ok, w, method == "circular")
            exp[k, b] = tot if sum_only else np.where(cnt > 0, tot / np.where(cnt > 0, cnt, 1), np.nan)
    if weights is not None:
        wv = np.ma.getdata(weights.data).astype(float)[None]
        have = ~np.isnan(exp)
        den = np.where(have, wv, 0).sum(axis=1)
        num = np.where(have, np.where(have, exp, 0) * wv, 0).sum(axis=1)
        exp = np.where(den > 0, num / np.where(den > 0, den, 1), np.nan)
        dead = np.isnan(exp)
        if wmask is not None:
            dead = dead | wmask[None]
    got = np.squeeze(np.ma.getdata(out.data)) if not isinstance(out.data, np.ma.MaskedArray) else np.ma.squeeze(out.data)
    # bring the dimension of the slices to the front
    dims = [d.name() for d in out.coords(dim_coords=True)]
    lead_name = {"threshold": "air_temperature", "realization": "realization", "time": "time"}[kind]
    want = ["topographic_zone"] if weights is None else []
    full = out.copy()
    arrs = np.ma.asarray(full.data)
    order = []
    for nm in ([lead_name] if lead_name in dims else []) + (want if "topographic_zone" in dims else []) + [
            "projection_y_coordinate", "projection_x_coordinate"]:
        order.append(dims.index(nm))
    arrs = arrs.transpose(order)
    vals = np.ma.getdata(arrs).reshape(exp.shape)
    gm = np.ma.getmaskarray(arrs).reshape(exp.shape)
    if weights is None:
        mon.check(not gm.any(), "mask appeared")
        mon.close(vals, exp, "banded neighbourhood", rtol=2e-5, atol=2e-5)
    else:
        live = ~dead
        mon.check(not gm[live].any(), "valid point masked")
        mon.check(np.all(gm[dead] | np.isnan(vals[dead])), "point without a valid band has a value")
        mon.close(vals[live], exp[live], "weighted bands", rtol=3e-5, atol=3e-5)
        mon.check(not out.coords("topographic_zone"), "band coordinate left")
    # each slice still describes itself
    had = [d.name() for d in c.coords(dim_coords=True)]
    mon.equal(sorted(dims), sorted(had + want), "dimensions of the result")
    if weights is not None:
        mon.equal(dims, had, "order of the dimensions")
    if lead_name in dims:
        mon.equal(out.coord(lead_name), c.coord(lead_name), "coordinate of the slices")
    for k in c.coords(dim_coords=False):
        mon.equal(out.coord(k.name()), k, "coordinate", name=k.name())
    mon.equal(out.dtype, np.dtype(np.float32), "type")
    if rng.chance(0.3):
        again = plugin(c, mc)
        mon.close(again.data, out.data, "second use")
    mon.event("bands", nl * n)
    mon.seen(kind, n, nl, bool(m.any()), method, weighted, sum_only, weights is not None, lead_times is not None)


@scenario("C09", quick=40, thorough=600)
def land_and_sea(rng, mon):
    """Land points are smoothed with land only and sea points with sea only."""
    from improver.cli import nbhood_land_and_sea

    ny, nx, nl = rng.randint(4, 7), rng.randint(4, 7), rng.randint(1, 2)
    data = field2d(rng, (nl, ny, nx))
    land = (rng.np.rand(ny, nx) < rng.choice([0.0, 0.4, 0.6, 1.0])).astype(np.int8)
    c = gen.probabilities(data, [273.0 + k for k in range(nl)])
    m = cube(land, name="land_binary_mask", units="1", times=False)
    shape = rng.choice(["square", "circular"])
    r = rng.randint(1, 2)
    wmasks = None
    before = snapshot([c, m])
    out = nbhood_land_and_sea.process(c.copy(), m.copy(), neighbourhood_shape=shape, radii=[r * 2000.0])
    mon.equal(snap_diff(before, snapshot([c, m])), None, "input changed")
    w = square_weights(r) if shape == "square" else circle_weights(r, False)
    exp = np.zeros(data.shape)
    for k in range(nl):
        for s in (0, 1):
            ok = land == s
            tot, cnt = local_sums(np.where(ok, data[k], 0).astype(float), ok, w, shape == "circular")
            exp[k][ok] = (tot / np.where(cnt > 0, cnt, 1))[ok]
    mon.close(np.ma.getdata(out.data).reshape(exp.shape), exp, "land and sea", rtol=2e-5, atol=2e-5)
    mon.check(not np.ma.is_masked(out.data), "result masked")
    mon.equal(out.name(), c.name(), "name")
    mon.seen(shape, r, nl, int(land.sum()) in (0, land.size))


# --------------------------------------------------------------------- C10
def reflect(n, h):
    """Indices of a symmetric extension by h on both sides."""
    idx = []
    for k in range(-h, n + h):
        k = k % (2 * n)
        idx.append(k if k < n else 2 * n - 1 - k)
    return idx


def recurse(field, cx, cy, iterations, h, mask=None):
    ny, nx = field.shape
    f = field[np.ix_(reflect(ny, h), reflect(nx, h))].astype(float)
    ax = cx[np.ix_(reflect(ny, h), reflect(nx - 1, h))].astype(float)
    ay = cy[np.ix_(reflect(ny - 1, h), reflect(nx, h))].astype(float)

    if mask is not None:
        pm = mask[np.ix_(reflect(ny, h), reflect(nx, h))]
        ax[pm[:, :-1] | pm[:, 1:]] = 0
        ay[pm[:-1] | pm[1:]] = 0

    def line(v, a):
        for i in range(1, len(v)):
            v[i] = (1 - a[i - 1]) * v[i] + a[i - 1] * v[i - 1]
        for i in range(len(v) - 2, -1, -1):
            v[i] = (1 - a[i]) * v[i] + a[i] * v[i + 1]

    for _ in range(iterations):
        for y in range(f.shape[0]):
            line(f[y], ax[y])
        for x in range(f.shape[1]):
            line(f[:, x], ay[:, x])
    return f[h:h + ny, h:h + nx]


def coeff_cube(data, axis, base):
    y, x = base.coord(axis="y"), base.coord(axis="x")
    pts = {"x": x, "y": y}[axis].points
    mid = ((pts[1:] + pts[:-1]) / 2).astype(np.float32)
    new = {"x": x, "y": y}[axis].copy(points=mid, bounds=None)
    yy, xx = (y, new) if axis == "x" else (new, x)
    c = iris.cube.Cube(data.astype(np.float32), long_name="smoothing_coefficient_" + axis, units="1",
                       dim_coords_and_dims=[(yy, 0), (xx, 1)])
    return c


@scenario("C10", quick=120, thorough=2500)
def recursive_filter(rng, mon):
    from improver.nbhood.recursive_filter import RecursiveFilter

    ny, nx = rng.randint(4, 8), rng.randint(4, 8)
    nl = rng.randint(1, 3)
    data = field2d(rng, (nl, ny, nx))
    m = None
    arr = data
    if rng.chance(0.4):
        m = gen.random_mask(rng, (ny, nx), 0.2)
        arr = np.ma.masked_array(data.copy(), np.broadcast_to(m, data.shape).copy())
        if rng.chance(0.5):
            arr.data[arr.mask] = rng.choice([99.0, 1e20])
    c = gen.probabilities(arr, [273.0 + k for k in range(nl)])
    if nl == 1 and rng.chance(0.5):
        c = c[0]
    top = rng.choice([0.5, 0.3, 0.0])
    cx = (rng.np.rand(ny, nx - 1) * top).astype(np.float32)
    cy = (rng.np.rand(ny - 1, nx) * top).astype(np.float32)
    if rng.chance(0.2):
        cx[:] = top
        cy[:] = top
    cubes = [coeff_cube(cx, "x", c), coeff_cube(cy, "y", c)]
    if rng.chance(0.5):
        cubes.reverse()
    its, edge = rng.randint(1, 3), rng.choice([1, 1, 2, 15])
    plugin = RecursiveFilter(iterations=its, edge_width=edge)
    source, coeffs = c.copy(), CubeList(cubes)
    before = snapshot(sorted(coeffs, key=lambda k: k.name()))
    mon.note(shape=data.shape, its=its, edge=edge, masked=m is not None)
    out = plugin(c, CubeList(coeffs))
    ex, ey = cx.copy(), cy.copy()
    if m is not None:
        ex[m[:, :-1] | m[:, 1:]] = 0
        ey[m[:-1, :] | m[1:, :]] = 0
    exp = np.stack([recurse(data[k], ex, ey, its, 2 * edge, m) for k in range(nl)])
    got = out.data
    gm = np.ma.getmaskarray(got).reshape(exp.shape)
    mon.equal([d.name() for d in out.coords(dim_coords=True)], [d.name() for d in c.coords(dim_coords=True)], "dimensions")
    mon.array_equal(gm, np.broadcast_to(m, exp.shape) if m is not None else np.zeros(exp.shape, bool), "mask of the result")
    gv = np.ma.getdata(got).reshape(exp.shape)
    mon.close(gv[~gm], exp[~gm], "recursive filter", rtol=1e-5, atol=2e-5)
    lo, hi = data.min(axis=(1, 2)), data.max(axis=(1, 2))
    for k in range(nl):
        v = gv[k][~gm[k]]
        if m is None:
            mon.check(np.all(v >= lo[k] - 1e-4) and np.all(v <= hi[k] + 1e-4), "filter left the range of the data")
    mon.equal(snap_diff(snapshot(source), snapshot(c)), None, "input changed")
    mon.equal(snap_diff(before, snapshot(sorted(coeffs, key=lambda k: k.name()))), None, "coefficients changed")
    for k in c.coords():
        mon.equal(out.coord(k.name()), k, "coordinate", name=k.name())
    # the same coefficients used for another field give what they say
    if rng.chance(0.5):
        d2 = field2d(rng, (nl, ny, nx))
        c2 = source.copy(data=d2.reshape(source.shape))
        out2 = plugin(c2, CubeList(coeffs))
        exp2 = np.stack([recurse(d2[k], cx, cy, its, 2 * edge) for k in range(nl)])
        mon.close(np.ma.getdata(out2.data).reshape(exp2.shape), exp2, "filter after another use of the coefficients",
                  rtol=1e-5, atol=2e-5)
    mon.seen(nl, its, edge, m is not None, top)


@scenario("C10", quick=30, thorough=400)
def filter_refusals(rng, mon):
    from improver.nbhood.recursive_filter import RecursiveFilter

    c = cube(rng.np.rand(5, 6).astype(np.float32))
    good = lambda: [coeff_cube(np.full((5, 5), 0.3), "x", c), coeff_cube(np.full((4, 6), 0.3), "y", c)]
    k = rng.randint(0, 4)
    a, b = good()
    if k == 0:
        mon.raises(ValueError, RecursiveFilter, iterations=rng.choice([0, -1]), label="no iterations accepted")
    elif k == 1:
        rng.choice([a, b]).data[1, 1] = 0.51
        mon.raises(ValueError, RecursiveFilter(1), c, CubeList([a, b]), label="coefficient above 0.5 accepted")
    elif k == 2:
        a.rename("air_temperature")
        mon.raises(ValueError, RecursiveFilter(1), c, CubeList([a, b]), label="misnamed coefficients accepted")
    elif k == 3:
        wrong, ax = rng.choice([a, b]), rng.choice("xy")
        old = wrong.coord(axis=ax)
        pts = old.points.copy()
        pts[rng.randint(1, len(pts) - 1) if rng.chance(0.3) else slice(None)] += np.float32(rng.choice([900.0, 1000.0]))
        wrong.replace_coord(old.copy(points=pts, bounds=None))
        mon.raises(ValueError, RecursiveFilter(1), c, CubeList([a, b]), label="other grid accepted")
    else:
        t1, t2 = [cube(np.ma.masked_array(rng.np.rand(5, 6).astype(np.float32), rng.np.rand(5, 6) < 0.3),
                       time=dt.datetime(2017, 11, 10, h)) for h in (4, 5)]
        multi = CubeList([t1, t2]).merge_cube()
        mon.raises(ValueError, RecursiveFilter(1), multi, CubeList([a, b]), label="masks from several times accepted")
    mon.seen(k)


@scenario("C10", quick=100, thorough=1500)
def orographic_coefficients(rng, mon):
    from improver.generate_ancillaries.generate_orographic_smoothing_coefficients import OrographicSmoothingCoefficients

    ny, nx = rng.randint(3, 8), rng.randint(3, 8)
    oro = gen.smooth_field(rng, (ny, nx), 0, rng.choice([10, 900]))
    c = cube(oro, name="surface_altitude", units="m", times=rng.chance(0.5))
    lo, hi = rng.choice([(0.5, 0.0), (0.4, 0.1), (0.0, 0.5), (0.2, 0.2)])
    power = rng.choice([1, 0.5, 2])
    mode = rng.choice([None, "boundary", "mask", "invert"])
    mask = None
    if mode:
        mk = (rng.np.rand(ny, nx) < 0.5).astype(rng.choice([np.int8, np.int32, np.float32]))
        mask = cube(mk, name="land_binary_mask", units="1", times=False)
    transposed = rng.chance(0.3)
    plugin = OrographicSmoothingCoefficients(lo, hi, power, use_mask_boundary=mode == "boundary", invert_mask=mode == "invert")
    cc = c.copy()
    mm = None if mask is None else mask.copy()
    if transposed:
        cc.transpose([1, 0])
        if mm is not None:
            mm.transpose([1, 0])
    out = plugin(cc, mm) if mm is not None else plugin(cc)
    gx = np.abs(np.diff(oro.astype(float), axis=1) / 2000.0) ** power
    gy = np.abs(np.diff(oro.astype(float), axis=0) / 2000.0) ** power
    mn, mx = min(gx.min(), gy.min()), max(gx.max(), gy.max())
    res = []
    for g, axis in ((gx, 1), (gy, 0)):
        e = (g - mn) / (mx - mn) * (hi - lo) + lo
        if mode:
            a, b = (mk[:, :-1], mk[:, 1:]) if axis == 1 else (mk[:-1], mk[1:])
            if mode == "boundary":
                z = a != b
            elif mode == "mask":
                z = (a == 1) | (b == 1)
            else:
                z = (a == 0) | (b == 0)
            e = np.where(z, 0, e)
        res.append(e)
    mon.equal([k.name() for k in out], ["smoothing_coefficient_x", "smoothing_coefficient_y"], "names")
    for o, e, axis in zip(out, res, ("x", "y")):
        o = o.copy()
        mon.equal([d.name() for d in o.coords(dim_coords=True)],
                  ["projection_%s_coordinate" % k for k in ("xy" if transposed else "yx")], "dimension order")
        if transposed:
            o.transpose([1, 0])
        mon.close(o.data, e, "coefficient " + axis, rtol=1e-4, atol=2e-4 if power < 1 else 2e-5)
        pts = c.coord(axis=axis).points
        mon.close(o.coord(axis=axis).points, (pts[1:] + pts[:-1]) / 2, "coefficient between cells")
        other = "y" if axis == "x" else "x"
        mon.close(o.coord(axis=other).points, c.coord(axis=other).points, "other axis")
        mon.equal(str(o.units), "1", "units")
        mon.equal(standard_faults(o), [], "types")
        mon.check(not [k for k in o.coords() if "time" in k.name() or "period" in k.name()], "time left on coefficients")
    mon.raises(ValueError, OrographicSmoothingCoefficients, rng.choice([-0.1, 0.6]), 0.0, label="limit outside 0 to 0.5")
    mon.raises(ValueError, plugin, oro, label="not a cube accepted")
    mon.seen(mode, transposed, power, lo == hi)


# --------------------------------------------------------------------- C11
@scenario("C11", quick=120, thorough=1500)
def padding(rng, mon):
    from improver.utilities.pad_spatial import (
        create_cube_with_halo, pad_cube_with_halo, remove_cube_halo, remove_halo_from_cube)

    ny, nx = rng.randint(3, 8), rng.randint(3, 8)
    dx, dy = rng.choice([(2000.0, 2000.0), (1000.0, 3000.0)])
    data = gen.smooth_field(rng, (ny, nx), 0, 9)
    c = cube(data, spacing=dx, yspacing=dy)
    c.add_aux_coord(iris.coords.AuxCoord(np.float32(1.5), "height", units="m"))
    flip = rng.choice([None, None, "x", "y"])
    if flip:
        # an axis that runs the other way
        old = c.coord(axis=flip)
        k = c.coord_dims(old)[0]
        c.remove_coord(old)
        c.add_dim_coord(old.copy(points=old.points[::-1].copy(), bounds=None), k)
    sx, sy = (-dx if flip == "x" else dx), (-dy if flip == "y" else dy)
    wx, wy = rng.randint(0, 3), rng.randint(0, 3)
    how = rng.choice(["constant", "symmetric", "mean"])
    if how == "mean":
        wx, wy = rng.randint(2, 6), rng.randint(2, 6)
    before = snapshot(c)
    p = pad_cube_with_halo(c, wx, wy, pad_method=how)
    mon.equal(snap_diff(before, snapshot(c)), None, "input changed")
    mon.equal(p.shape, (ny + 2 * wy, nx + 2 * wx), "padded shape")
    mon.array_equal(p.data[wy:wy + ny, wx:wx + nx], data, "interior")
    ring = np.ones(p.shape, bool)
    ring[wy:wy + ny, wx:wx + nx] = False
    if how == "constant":
        mon.check(np.all(p.data[ring] == 0), "halo not zero")
    elif how == "symmetric":
        mon.array_equal(p.data, data[np.ix_(reflect(ny, wy), reflect(nx, wx))], "halo not mirrored")
    else:
        e = pad_side(pad_side(data.astype(float), 0, wy, wy // 2), 1, wx, wx // 2)
        mon.close(p.data, e, "halo of means", rtol=1e-5, atol=1e-5)
    for axis, n, w, d in (("x", nx, wx, sx), ("y", ny, wy, sy)):
        a, b = p.coord(axis=axis), c.coord(axis=axis)
        mon.close(a.points, b.points[0] + d * (np.arange(n + 2 * w) - w), "padded coordinate", rtol=1e-6, atol=0.01)
        mon.close(a.bounds, np.stack([a.points - d / 2, a.points + d / 2], 1), "padded bounds", rtol=1e-6, atol=0.01)
        mon.equal((a.dtype, a.units, a.coord_system, a.name()), (b.dtype, b.units, b.coord_system, b.name()), "coordinate kept")
    for k in ("time", "forecast_period", "forecast_reference_time", "height"):
        mon.equal(p.coord(k), c.coord(k), "scalar coordinates kept")
    mon.equal({k.name() for k in p.coords()}, {k.name() for k in c.coords()}, "coordinates")
    back = remove_halo_from_cube(p, wx, wy)
    mon.array_equal(back.data, data, "trimmed data")
    mon.close(back.coord(axis="x").points, c.coord(axis="x").points, "trimmed x", rtol=1e-6)
    mon.close(back.coord(axis="y").points, c.coord(axis="y").points, "trimmed y", rtol=1e-6)
    mon.equal((back.name(), back.units, back.attributes), (c.name(), c.units, c.attributes), "metadata")
    p.attributes["history"] = "changed on the padded grid"
    mon.equal(snap_diff(before, snapshot(c)), None, "attributes shared with the input")
    c = cube(data, spacing=dx, yspacing=dy)
    # by distance, with leading dimensions
    h = 3000.0 * rng.randint(1, 2) + rng.choice([0.0, 900.0])
    hx, hy = int(h / dx), int(h / dy)
    t = create_cube_with_halo(c, h)
    mon.equal(t.shape, (ny + 2 * hy, nx + 2 * hx), "template shape")
    mon.close(t.coord(axis="x").points, c.coord(axis="x").points[0] + dx * (np.arange(nx + 2 * hx) - hx), "template x")
    lead = rng.randint(1, 3)
    big = gen.smooth_field(rng, (lead,) + t.shape, 0, 5)
    bm = np.ma.masked_array(big, gen.random_mask(rng, big.shape)) if rng.chance(0.3) else big
    e = ensemble(bm, spacing=dx, yspacing=dy)
    if rng.chance(0.3):
        e.transpose([1, 0, 2])
        ref = np.ma.asarray(bm)[:, hy:-hy, hx:-hx].transpose([1, 0, 2])
    else:
        ref = np.ma.asarray(bm)[:, hy:-hy, hx:-hx]
    names = [d.name() for d in e.coords(dim_coords=True)]
    cut = remove_cube_halo(e, h)
    mon.equal([d.name() for d in cut.coords(dim_coords=True)], names, "dimension order kept")
    mon.close(cut.data, ref, "halo removed", rtol=0, atol=0)
    mon.close(cut.coord(axis="y").points, e.coord(axis="y").points[hy:-hy], "y after halo removed")
    uneven = c.copy()
    ax = rng.choice("xy")
    old = uneven.coord(axis=ax)
    if len(old.points) > 3:
        pts = old.points.copy()
        pts[rng.randint(1, len(pts) - 2)] += np.float32(rng.choice([200.0, -150.0, 600.0]))
        uneven.replace_coord(old.copy(points=pts, bounds=None))
        mon.raises(ValueError, pad_cube_with_halo, uneven, 1, 1, label="uneven grid padded")
    mon.seen(how, wx, wy, dx == dy, lead)
