"""C55: land masks, orography bands and topographic zone weights; C56: orographic enhancement."""
import math
import warnings

import numpy as np

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, snap_diff
from checks.manipulation import same

ma = np.ma
PER_M = {"m": 1.0, "km": 0.001, "ft": 1 / 0.3048, "cm": 100.0}


def clean(a, b):
    return snap_diff(a, b) or []


def field(rng, data, **kw):
    return cube(data.astype(np.float32), grid=rng.choice(["equalarea", "latlon"]), times=rng.chance(0.3), **kw)


# ------------------------------------------------------------- land masks
@scenario("C55", quick=40, thorough=1500)
def land_mask(rng, mon):
    from improver.generate_ancillaries.generate_ancillary import CorrectLandSeaMask

    shape = (rng.randint(1, 4), rng.randint(1, 5))
    data = rng.np.choice([0.0, 0.1, 0.49999, 0.5, 0.50001, 0.7, 1.0, rng.random()], shape).astype(rng.choice([np.float32, np.float64]))
    if rng.chance(0.2):
        data = (data >= 0.5).astype(np.int8)
    c = cube(data, name=rng.choice(["land_binary_mask", "land_area_fraction"]), units="1", times=False)
    before = c.copy()
    out = CorrectLandSeaMask()(c)
    mon.array_equal(out.data, (before.data >= 0.5).astype(int), "land where at least half")
    mon.equal(out.data.dtype, np.dtype(np.int8), "type")
    mon.equal(out.name(), "land_binary_mask", "name")
    mon.equal([x.name() for x in out.coords()], [x.name() for x in before.coords()], "coordinates")
    again = CorrectLandSeaMask()(out.copy())
    mon.array_equal(again.data, out.data, "correcting again changes nothing")
    mon.event("land mask", int(out.data.sum()))


def zones(rng):
    """Adjacent bands in metres with heights to go in them."""
    n = rng.choice([1, 1, 2, 3, 4, 6])
    edges = [rng.choice([-500.0, -50.0, 0.0, 10.0])]
    for _ in range(n):
        edges.append(edges[-1] + rng.choice([50.0, 100.0, 25.0, 200.0, 600.0]))
    return edges


def heights(rng, edges, shape, outside=0.3):
    lo, hi = edges[0], edges[-1]
    data = rng.np.uniform(lo, hi, shape)
    if rng.chance(outside):
        data = rng.np.uniform(lo - 100, hi + 100, shape)
    special = list(edges) + [(a + b) / 2 for a, b in zip(edges, edges[1:])]
    for _ in range(rng.randint(0, 4)):
        data[tuple(rng.randint(0, k - 1) for k in shape)] = rng.choice(special)
    return data


@scenario("C55", quick=60, thorough=2500)
def bands(rng, mon):
    from improver.generate_ancillaries.generate_ancillary import GenerateOrographyBandAncils

    edges = zones(rng)
    pairs = [[a, b] for a, b in zip(edges, edges[1:])]
    if rng.chance(0.2):
        pairs.append([edges[0], edges[-1]])
    shape = (rng.randint(1, 4), rng.randint(2, 5))
    ounit = rng.choice(["m", "m", "m", "km", "ft"])
    bunit = rng.choice(["m", "m", "km", "cm"])
    exact = ounit == "m" and bunit == "m"
    z = heights(rng, edges, shape).astype(np.float32)
    orog = field(rng, z * PER_M[ounit], name="surface_altitude", units=ounit)
    land = None
    lm = (rng.np.rand(*shape) < rng.choice([0.0, 0.5, 0.8, 1.0]))
    if rng.chance(0.6):
        land = orog.copy(data=lm.astype(rng.choice([np.int8, np.int32, bool])))
        land.rename("land_binary_mask")
        land.units = "1"
    td = {"bounds": [[v * PER_M[bunit] for v in p] for p in pairs], "units": bunit}
    states = [content(orog), content(land) if land is not None else None, repr(td)]
    out = GenerateOrographyBandAncils().process(orog, td, landmask=land)
    mon.equal(clean(states[0], content(orog)), [], "orography unchanged")
    if land is not None:
        mon.equal(clean(states[1], content(land)), [], "land mask unchanged")
    mon.equal(repr(td), states[2], "bands unchanged")
    mon.equal(len(out), len(pairs), "one cube for each band")
    total = np.zeros(shape, int)
    for (lo, hi), got in zip(pairs, out):
        mon.equal(got.shape, (1,) + shape, "shape")
        mon.equal(got.name(), "topography_mask", "name")
        mon.equal(str(got.units), "1", "units")
        mon.equal(got.data.dtype, np.dtype(np.int32), "type")
        want = (z > lo) & (z <= hi)
        sure = np.ones(shape, bool)
        if not exact:
            sure = (abs(z - lo) > 0.01) & (abs(z - hi) > 0.01)
        if land is not None:
            want &= lm
        mon.check(not ma.isMaskedArray(got.data) or not got.data.mask.any(), "not masked")
        g = ma.getdata(got.data)[0]
        mon.array_equal(g[sure], want[sure].astype(int), "points of the band (%s, %s]" % (lo, hi))
        zone = got.coord("topographic_zone")
        mon.equal(str(zone.units), ounit, "band units")
        mon.close(zone.bounds[0].astype(float), np.array([lo, hi]) * PER_M[ounit], "bounds", rtol=1e-5, atol=1e-5)
        mon.close(zone.points.astype(float), [(lo + hi) / 2 * PER_M[ounit]], "mid-point", rtol=1e-5, atol=1e-4)
        mon.equal(got.attributes["topographic_zones_include_seapoints"], str(land is None), "sea points attribute")
        for ax in "xy":
            mon.equal(got.coord(axis=ax), orog.coord(axis=ax), "%s axis" % ax)
        mon.equal(sorted(x.name() for x in got.coords()), sorted([x.name() for x in orog.coords()] + ["topographic_zone"]), "coordinates")
        if [lo, hi] != [edges[0], edges[-1]] or len(edges) == 2:
            total += g
    mon.check((total <= 1 + (len(pairs) > len(edges) - 1)).all() if len(edges) == 2 else (total <= 1).all(), "a point lies in one band only")
    if rng.chance(0.1):
        mon.raises(ValueError, GenerateOrographyBandAncils().process, orog, {}, land, label="no bands")
    mon.event("bands", len(pairs))


@scenario("C55", quick=80, thorough=3000)
def zone_weights(rng, mon):
    from improver.generate_ancillaries.generate_topographic_zone_weights import GenerateTopographicZoneWeights

    edges = zones(rng)
    n = len(edges) - 1
    shape = (rng.randint(1, 4), rng.randint(2, 5))
    ounit = rng.choice(["m", "m", "m", "km", "ft"])
    bunit = rng.choice(["m", "m", "km", "cm"])
    exact = ounit == "m" and bunit == "m"
    z = heights(rng, edges, shape).astype(np.float32)
    orog = field(rng, z * PER_M[ounit], name="surface_altitude", units=ounit)
    land = None
    lm = (rng.np.rand(*shape) < rng.choice([0.0, 0.5, 0.8, 1.0]))
    if rng.chance(0.5):
        land = orog.copy(data=lm.astype(np.int8))
        land.rename("land_binary_mask")
        land.units = "1"
    td = {"bounds": [[a * PER_M[bunit], b * PER_M[bunit]] for a, b in zip(edges, edges[1:])], "units": bunit}
    states = [content(orog), content(land) if land is not None else None, repr(td)]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out = GenerateTopographicZoneWeights()(orog, td, landmask=land)
    mon.equal(clean(states[0], content(orog)), [], "orography unchanged")
    if land is not None:
        mon.equal(clean(states[1], content(land)), [], "land mask unchanged")
    mon.equal(repr(td), states[2], "bands unchanged")
    mon.equal(out.name(), "topographic_zone_weights", "name")
    mon.equal(str(out.units), "1", "units")
    mon.equal(out.dtype, np.dtype(np.float32), "type")
    mon.equal(out.shape[-2:], shape, "shape: y, x")
    mon.equal(int(np.prod(out.shape)), n * int(np.prod(shape)), "a value for each band and point")
    if out.shape[-2:] != shape:
        return
    full = (n,) + shape
    # the naive weights
    want = np.zeros((n,) + shape)
    sure = np.ones(shape, bool)
    for j in range(shape[0]):
        for i in range(shape[1]):
            h = float(z[j, i])
            if not exact and min(abs(h - e) for e in edges) < 0.05:
                sure[j, i] = False
            if any(abs(h - (a + b) / 2) < 0.01 for a, b in zip(edges, edges[1:])) and not exact:
                sure[j, i] = False
            for k in range(n):
                lo, hi = edges[k], edges[k + 1]
                mid = (lo + hi) / 2
                if lo < h <= hi:
                    w = 1.0 - 0.5 * abs(h - mid) / (mid - lo)
                    if h < mid:
                        other = k - 1
                    elif h > mid:
                        other = k + 1
                    else:
                        other = None
                    if other is not None and not 0 <= other < n:
                        w, other = 1.0, None
                    want[k, j, i] = w
                    if other is not None:
                        want[other, j, i] = 1 - w
    got = ma.getdata(out.data).reshape(full)
    if land is None:
        mon.check(not ma.getmaskarray(out.data).any(), "not masked")
        use = sure
    else:
        mon.array_equal(ma.getmaskarray(out.data).reshape(full), np.broadcast_to(~lm, full), "sea points are masked")
        use = sure & lm
    mon.close(got[:, use].astype(float), want[:, use], "weights", rtol=1e-4, atol=2e-4)
    inside = use & (z > edges[0]) & (z <= edges[-1])
    mon.close(got[:, inside].astype(float).sum(axis=0), np.ones(inside.sum()), "weights of a point sum to one", rtol=0, atol=1e-5)
    mon.check(((got[:, use] >= 0) & (got[:, use] <= 1)).all(), "weights between zero and one")
    zone = out.coord("topographic_zone")
    mon.equal(str(zone.units), ounit, "band units")
    mon.close(zone.bounds.astype(float), np.array(list(zip(edges, edges[1:]))) * PER_M[ounit], "bounds", rtol=1e-5, atol=1e-5)
    mon.equal(out.attributes["topographic_zones_include_seapoints"], str(land is None), "sea points attribute")
    for ax in "xy":
        mon.equal(out.coord(axis=ax), orog.coord(axis=ax), "%s axis" % ax)
    said = " ".join(str(w.message) for w in caught)
    if exact:
        mon.equal("maximum orography is greater" in said, bool(z.max() > edges[-1]), "warned of high points")
        mon.equal("minimum orography is lower" in said, bool(z.min() < edges[0]), "warned of low points")
    if rng.chance(0.1):
        from iris.exceptions import InvalidCubeError

        deep = cube(np.zeros((2, 2, 2), np.float32), lead=[gen.realization_coord(2)], units="m", name="surface_altitude")
        mon.raises(InvalidCubeError, GenerateTopographicZoneWeights(), deep, td, label="three dimensions")
    mon.event("zone weights", n)
    mon.seen("zones", n, ounit, bunit, land is not None)


# -------------------------------------------------- orographic enhancement
def regular(points):
    return len(points) < 3 or np.allclose(np.diff(points), points[1] - points[0])


def bilinear(values, ys, xs, ty, tx):
    """Linear interpolation (and extrapolation) of values on ascending ys, xs."""
    out = np.zeros((len(ty), len(tx)))
    for j, y in enumerate(ty):
        a = min(max(int(np.searchsorted(ys, y, side="right")) - 1, 0), len(ys) - 2)
        fy = (y - ys[a]) / (ys[a + 1] - ys[a])
        for i, x in enumerate(tx):
            b = min(max(int(np.searchsorted(xs, x, side="right")) - 1, 0), len(xs) - 2)
            fx = (x - xs[b]) / (xs[b + 1] - xs[b])
            out[j, i] = ((1 - fy) * (1 - fx) * values[a, b] + (1 - fy) * fx * values[a, b + 1]
                         + fy * (1 - fx) * values[a + 1, b] + fy * fx * values[a + 1, b + 1])
    return out


def smooth3(z, axis):
    z = np.moveaxis(z, axis, 0)
    p = np.concatenate([z[:1], z, z[-1:]])
    return np.moveaxis((p[:-2] + p[1:-1] + p[2:]) / 3.0, 0, axis)


def slope(z, d, axis):
    z = np.moveaxis(z, axis, 0)
    g = (z[1:] - z[:-1]) / d
    first = g[0] - 0.5 * (g[1] - g[0])
    last = g[-1] + 0.5 * (g[-1] - g[-2])
    return np.moveaxis(np.concatenate([first[None], 0.5 * (g[1:] + g[:-1]), last[None]]), 0, axis)


def enhancement(temp, humid, pres, u, v, z, dx, dy):
    """Naive orographic enhancement (mm h-1), and where it is well determined."""
    from improver.psychrometric_calculations.psychrometric_calculations import calculate_svp_in_air

    ny, nx = z.shape
    svp = calculate_svp_in_air(temp.astype(np.float32), pres.astype(np.float32)).astype(float)
    gx = slope(smooth3(z, 0), dx, 1)
    gy = slope(smooth3(z, 1), dy, 0)
    uplift = gx * u + gy * v
    mean = np.zeros(z.shape)
    for j in range(ny):
        for i in range(nx):
            mean[j, i] = z[max(j - 1, 0):j + 2, max(i - 1, 0):i + 2].mean()
    unsure = (abs(mean - 20) < 0.02) | (abs(humid - 0.8) < 1e-5) | (abs(abs(uplift) - 0.0005) < 2e-5)
    use = (mean >= 20) & (humid >= 0.8) & (abs(uplift) >= 0.0005)
    point = np.where(use, 3600.0 / 461.6 * humid * svp * uplift / temp, 0.0)
    point = np.maximum(point, 0.0)
    sp = dx / 1000.0
    out = np.zeros(z.shape)
    sure = np.ones(z.shape, bool)
    for j in range(ny):
        for i in range(nx):
            speed = math.hypot(u[j, i], v[j, i])
            if speed < 1e-7:
                continue
            s, c = u[j, i] / speed, v[j, i] / speed
            m = max(abs(s), abs(c))
            reach = 15.0 / sp * m
            if abs(reach - round(reach)) < 1e-4:
                sure[j, i] = False
            total = weight = 0.0
            var = (speed * 102.0 / (1000.0 * sp)) ** 2
            for k in range(int(reach)):
                d = k / m
                px, py = i - d * s, j - d * c
                for q in (px, py):
                    if abs(q - math.floor(q) - 0.5) < 1e-3:
                        sure[j, i] = False
                qx = min(max(int(round(px)), 0), nx - 1)
                qy = min(max(int(round(py)), 0), ny - 1)
                w = math.exp(-0.5 * d * d / var)
                if unsure[qy, qx]:
                    sure[j, i] = False
                total += w * point[qy, qx]
                weight += w
            out[j, i] = 0.23265 * total / weight if weight else np.nan
            if not weight:
                sure[j, i] = False
    return out, sure, point


def grid_axes(c, ys, xs):
    c.coord(axis="y").bounds = None
    c.coord(axis="x").bounds = None
    c.coord(axis="y").points = np.asarray(ys, np.float32)
    c.coord(axis="x").points = np.asarray(xs, np.float32)
    return c


@scenario("C56", quick=40, thorough=900)
def orographic(rng, mon):
    from improver.orographic_enhancement import OrographicEnhancement

    ny, nx = rng.randint(3, 9), rng.randint(3, 9)
    sp = rng.choice([1000.0, 1000.0, 2000.0, 3000.0, 5000.0])
    dy = sp
    y0, x0 = rng.choice([0.0, -100000.0]), rng.choice([0.0, 50000.0])
    ty, tx = y0 + dy * np.arange(ny), x0 + sp * np.arange(nx)
    z = rng.np.uniform(0, rng.choice([30, 100, 800]), (ny, nx))
    if rng.chance(0.3):
        z[:, : nx // 2] = 0.0
    z = z.astype(np.float32).astype(float)
    zu = rng.choice(["m", "m", "ft", "km"])
    grid_attrs = {"mosg__grid_version": "1.3.0", "mosg__grid_domain": "uk", "mosg__grid_type": "standard", "title": "topo"}
    topo = grid_axes(cube((z * PER_M[zu]).astype(np.float32), name="surface_altitude", units=zu, times=False, attributes=grid_attrs), ty, tx)
    # the diagnostics, on the same grid or a coarser one
    coarse = rng.chance(0.5)
    if coarse:
        my, mx = rng.randint(2, 5), rng.randint(2, 5)
        sy = np.linspace(ty[0] - rng.choice([0, 700]), ty[-1] + rng.choice([0, 700]), my).astype(np.float32).astype(float)
        sx = np.linspace(tx[0] - rng.choice([0, 700]), tx[-1] + rng.choice([0, 700]), mx).astype(np.float32).astype(float)
    else:
        sy, sx = ty, tx
    shape = (len(sy), len(sx))
    uniform = rng.chance(0.4)

    def draw(lo, hi):
        return np.full(shape, rng.uniform(lo, hi)) if uniform else rng.np.uniform(lo, hi, shape)

    temp, pres = draw(265, 295), draw(80000, 101000)
    humid = draw(rng.choice([0.5, 0.82]), 1.0)
    calm = rng.chance(0.1)
    u, v = (np.zeros(shape), np.zeros(shape)) if calm else (draw(-20, 20), draw(-20, 20))
    if not calm and rng.chance(0.2):
        (u if rng.chance(0.5) else v)[:] = 0.0
    time = gen.random_time(rng)
    from datetime import timedelta

    attrs = {"title": "UKV Model", "source": "Met Office Unified Model", "institution": "Met Office", "history": "x"}

    def make(data, name, units):
        c = cube(data.astype(np.float32), name=name, units=units, time=time, frt=time - timedelta(hours=3), attributes=attrs)
        return grid_axes(c, sy, sx)

    hu, hf = rng.choice([("1", 1.0), ("1", 1.0), ("%", 100.0)])
    pu, pf = rng.choice([("Pa", 1.0), ("hPa", 0.01)])
    wu, wf = rng.choice([("m s-1", 1.0), ("m s-1", 1.0), ("km h-1", 3.6)])
    tu, to = rng.choice([("K", 0.0), ("K", 0.0), ("celsius", 273.15)])
    ins = [make(temp - to, "air_temperature", tu), make(humid * hf, "relative_humidity", hu), make(pres * pf, "air_pressure", pu),
           make(u * wf, "eastward_wind", wu), make(v * wf, "northward_wind", wu)]
    flip = rng.choice([None, None, "y", "x", "transpose"])
    if flip in ("y", "x"):
        ax = 0 if flip == "y" else 1
        ins = [c[::-1] if ax == 0 else c[:, ::-1] for c in ins]
    elif flip == "transpose":
        for c in ins:
            c.transpose()
    tflip = rng.choice([None, None, "y", "x", "transpose"])
    if tflip == "y":
        topo = topo[::-1]
    elif tflip == "x":
        topo = topo[:, ::-1]
    elif tflip == "transpose":
        topo.transpose()
    states = [content(c) for c in ins + [topo]]
    plugin = OrographicEnhancement()
    if rng.chance(0.2):
        other = [c.copy(data=c.data * np.float32(0.97)) for c in ins]
        plugin(*other, topo)
    out = plugin(*ins, topo)
    for c, was in zip(ins + [topo], states):
        mon.equal(clean(was, content(c)), [], "%s unchanged" % c.name())
    fields = [bilinear(f.astype(np.float32).astype(float), sy, sx, ty, tx) if coarse else f.astype(np.float32).astype(float)
              for f in (temp, humid, pres, u, v)]
    want, sure, point = enhancement(*fields, z, sp, dy)
    mon.equal(out.name(), "orographic_enhancement", "name")
    mon.equal(str(out.units), "m s-1", "units")
    mon.equal(out.shape, (ny, nx), "shape")
    mon.equal(gen.standard_faults(out), [], "standards")
    mon.array_equal(out.coord(axis="y").points, ty.astype(np.float32), "y points ascending")
    mon.array_equal(out.coord(axis="x").points, tx.astype(np.float32), "x points ascending")
    mon.equal([str(out.coord(axis=a).units) for a in "yx"], ["m", "m"], "grid units")
    for name in ("time", "forecast_reference_time", "forecast_period"):
        mon.equal(out.coord(name), ins[0].coord(name), name)
    expected = {k: v2 for k, v2 in grid_attrs.items() if k != "title"}
    expected.update(source=attrs["source"], institution=attrs["institution"], title="unknown")
    mon.equal(dict(out.attributes), expected, "attributes")
    got = out.data.astype(float) * 3600.0 * 1000.0
    mon.check(np.isfinite(got[sure]).all() and (got[sure] >= 0).all(), "enhancement is finite and not negative")
    mon.close(got[sure], want[sure], "enhancement (mm h-1)", rtol=5e-3, atol=2e-4)
    mon.event("enhanced points", int((want[sure] > 1e-3).sum()))
    mon.event("determined points", int(sure.sum()))
    mon.seen("orographic", coarse, flip, tflip, calm, zu, sp)


@scenario("C56", quick=15, thorough=300)
def orographic_refusals(rng, mon):
    from improver.orographic_enhancement import OrographicEnhancement

    ny, nx = rng.randint(3, 5), rng.randint(3, 5)
    names = [("air_temperature", "K", 280), ("relative_humidity", "1", 0.9), ("air_pressure", "Pa", 95000), ("eastward_wind", "m s-1", 5), ("northward_wind", "m s-1", 5)]
    ins = [cube(np.full((ny, nx), x, np.float32), name=n, units=un) for n, un, x in names]
    topo = cube(np.full((ny, nx), 50, np.float32), name="surface_altitude", units="m", times=False)
    which = rng.choice(["grid", "time", "deep", "deep topography", "no axes"])
    k = rng.randint(0, 4)
    if which == "grid":
        ins[k].coord(axis="x").points = ins[k].coord(axis="x").points + np.float32(500)
    elif which == "time":
        ins[k].coord("time").points = ins[k].coord("time").points + 3600
    elif which == "deep":
        ins = [cube(np.full((2, ny, nx), x, np.float32), name=n, units=un, lead=[gen.realization_coord(2)]) for n, un, x in names]
    elif which == "deep topography":
        topo = cube(np.full((2, ny, nx), 50, np.float32), name="surface_altitude", units="m", lead=[gen.realization_coord(2)])
    else:
        ins = [c[0] if rng.chance(1.0) else c for c in ins]
        for c in ins:
            c.remove_coord(c.coord(axis="y"))
    mon.raises(ValueError, OrographicEnhancement(), *ins, topo, label=which)
    mon.event("refused")
