"""C16: blending weights.  C17: weighted blends over a dimension.
C18: weights that follow masks.  C19: merging, weighting and blending of cycles and models."""
import datetime as dt
import warnings

import iris
import numpy as np
from iris.coords import AuxCoord, CellMethod, DimCoord
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, snap_diff, standard_faults, time_consistent

HOUR = dt.timedelta(hours=1)


def points_dict(c, coord):
    """{point of coord: data slice} of a cube."""
    out = {}
    for s in c.slices_over(coord):
        p = s.coord(coord).points[0]
        out[p if isinstance(p, str) else float(p)] = s.data
    return out


def lead_of(rng, kind, n):
    """A blend coordinate with n points (ascending)."""
    if kind == "forecast_reference_time":
        base = gen.seconds(gen.random_time(rng))
        steps = np.cumsum([rng.choice([1, 3, 6]) for _ in range(n)]) * 3600
        return DimCoord((base + steps).astype(np.int64), kind, units=gen.TIME_UNIT)
    if kind == "forecast_period":
        steps = np.cumsum([rng.choice([1, 3, 6]) for _ in range(n)]) * 3600
        return DimCoord(steps.astype(np.int32), kind, units="seconds")
    if kind == "model_id":
        return DimCoord(np.arange(n).astype(np.int32) * 1000, long_name=kind, units="1")
    if kind == "height":
        return gen.level_coord(np.cumsum([rng.choice([5, 10, 50]) for _ in range(n)]))
    return gen.realization_coord(n)


# --------------------------------------------------------------------- C16
@scenario("C16", quick=150, thorough=4000)
def default_weights(rng, mon):
    """Linear and exponential default weights."""
    from improver.blending.weights import ChooseDefaultWeightsLinear, ChooseDefaultWeightsNonLinear

    n = rng.randint(1, 7)
    kind = rng.choice(["forecast_reference_time", "forecast_period", "model_id", "realization", "height"])
    coord = lead_of(rng, kind, n)
    times = kind in ("model_id", "realization", "height")
    c = cube(gen.smooth_field(rng, (n, 3, 4), 0, 1), lead=[coord], times=times)
    flat = n == 1 and rng.chance(0.5)
    if flat:
        c = c[0]
    if c.ndim == 3 and rng.chance(0.4):
        order = [0, 1, 2]
        rng.shuffle(order)
        c.transpose(order)
    before = content(c)
    if rng.chance(0.5):
        y0 = rng.choice([0.0, 1.0, 2.5, 10, rng.uniform(0.1, 20)])
        yn = rng.choice([1.0, 0.5, 4, rng.uniform(0.1, 20)] + ([0.0] if y0 > 0 else []))
        plugin, kw = ChooseDefaultWeightsLinear(y0, yn), {}
        raw = [y0 + (yn - y0) * i / max(n - 1, 1) for i in range(n)]
        if n == 1:
            raw = [1.0]
        mode = "linear"
    else:
        cval = rng.choice([1.0, 0.5, 0.9, rng.uniform(0.05, 1)])
        inv = rng.chance(0.5) and not flat
        plugin, kw = ChooseDefaultWeightsNonLinear(cval), {"inverse_ordering": inv}
        raw = [cval ** i for i in range(n)]
        if inv:
            raw = raw[::-1]
        mode = "nonlinear%s" % inv
    w = plugin(c, kind, **kw)
    mon.equal(snap_diff(before, content(c)), None, "input changed")
    raw = np.array(raw, float) / np.sum(raw)
    mon.equal(w.name(), "weights", "name")
    mon.equal(str(w.units), "1", "units")
    mon.equal([k.name() for k in w.coords(dim_coords=True)], [kind], "dimensions")
    mon.array_equal(w.coord(kind).points, coord.points, "points of the weights")
    mon.close(w.data, raw, "weights", rtol=2e-6, mode=mode)
    mon.check(abs(float(np.sum(w.data)) - 1) < 1e-5, "weights do not sum to one")
    mon.check(np.all(np.asarray(w.data) >= 0), "negative weight")
    mon.close(plugin(c, kind, **kw).data, w.data, "second use", rtol=0, atol=0)
    mon.raises(TypeError, plugin, [1.0], kind, **kw)
    mon.seen(kind, n, mode)


@scenario("C16", quick=40, thorough=500)
def default_weight_refusals(rng, mon):
    from improver.blending.weights import (
        ChooseDefaultWeightsLinear, ChooseDefaultWeightsNonLinear, WeightsUtilities)

    mon.raises(ValueError, ChooseDefaultWeightsLinear, -rng.uniform(0.01, 3), 1.0)
    mon.raises(ValueError, ChooseDefaultWeightsLinear, None, 1.0)
    mon.raises(ValueError, ChooseDefaultWeightsLinear, 1.0, None)
    mon.raises(ValueError, ChooseDefaultWeightsNonLinear, rng.choice([0.0, -0.5, 1.01, 7.0]))
    mon.raises(ValueError, ChooseDefaultWeightsNonLinear, None)
    shape = (rng.randint(1, 4), rng.randint(1, 4))
    a = rng.np.rand(*shape) + 0.01
    axis = rng.choice([None, 0, 1])
    got = WeightsUtilities.normalise_weights(a.copy(), axis=axis)
    mon.close(got, a / a.sum(axis=axis, keepdims=True), "normalised weights", rtol=1e-9)
    b = a.copy()
    b[rng.randrange(shape[0]), rng.randrange(shape[1])] = -0.1
    mon.raises(ValueError, WeightsUtilities.normalise_weights, b, axis=axis, label="negative weight accepted")
    z = a.copy()
    if axis is None:
        z[:] = 0
    elif axis == 0:
        z[:, rng.randrange(shape[1])] = 0
    else:
        z[rng.randrange(shape[0])] = 0
    mon.raises(ValueError, WeightsUtilities.normalise_weights, z, axis=axis, label="zero sum accepted")
    three = cube(np.zeros((3, 2, 2), np.float32), lead=[gen.realization_coord(3)])
    mon.raises(ValueError, WeightsUtilities.build_weights_cube, three,
               np.ones(rng.choice([1, 2, 4, 5]), np.float32), "realization", label="wrong number of weights accepted")
    mon.raises(ValueError, ChooseDefaultWeightsLinear(1.0, -1.0).process,
               cube(np.zeros((3, 2, 2), np.float32), lead=[gen.realization_coord(3)]), "realization",
               label="negative end weight accepted")
    mon.seen(shape, axis)


@scenario("C16", quick=100, thorough=2500)
def triangular_weights(rng, mon):
    """Weight falls linearly from the midpoint and vanishes at the width."""
    from improver.blending.weights import ChooseDefaultWeightsTriangular

    n = rng.randint(1, 8)
    kind = rng.choice(["forecast_period", "time", "height"])
    hours = np.cumsum([rng.choice([1, 2, 3]) for _ in range(n)])
    if kind == "forecast_period":
        coord = DimCoord((hours * 3600).astype(np.int32), kind, units="seconds")
        units, scale = rng.choice([("hours", 1), ("seconds", 3600), ("minutes", 60)])
    elif kind == "height":
        coord = gen.level_coord(hours * 1000.0)
        units, scale = rng.choice([("km", 1), ("m", 1000)])
    else:
        coord = DimCoord((hours * 3600).astype(np.int64), kind, units=gen.TIME_UNIT)
        units, scale = "seconds since 1970-01-01 00:00:00", 3600
    c = cube(gen.smooth_field(rng, (n, 2, 3), 0, 1), lead=[coord], times=kind == "height")
    mid = int(rng.choice(hours)) if rng.chance(0.8) else hours[rng.randrange(n)] + rng.choice([0.25, -0.25])
    width = rng.choice([1, 2, 2.5, 4, 10])
    before = content(c)
    plugin = ChooseDefaultWeightsTriangular(width * scale, units=units)
    w = plugin(c, kind, mid * scale)
    mon.equal(snap_diff(before, content(c)), None, "input changed")
    raw = np.clip(1 - np.abs(hours - mid) / width, 0, None)
    mon.close(w.data, raw / raw.sum(), "triangular weights", rtol=1e-5, atol=2e-6)
    mon.array_equal(w.coord(kind).points, coord.points, "points of the weights")
    mon.close(plugin(c, kind, mid * scale).data, w.data, "second use", rtol=0, atol=0)
    mon.seen(n, kind, width, units)


def linear_at(x, xs, ws):
    """Piecewise linear, constant outside; xs in any order."""
    pairs = sorted(zip([float(v) for v in xs], [float(v) for v in ws]))
    px, pw = [p[0] for p in pairs], [p[1] for p in pairs]
    if x <= px[0]:
        return pw[0]
    if x >= px[-1]:
        return pw[-1]
    for i in range(len(px) - 1):
        if px[i] <= x <= px[i + 1]:
            return pw[i] + (pw[i + 1] - pw[i]) * (x - px[i]) / (px[i + 1] - px[i])


@scenario("C16", quick=120, thorough=3000)
def dictionary_weights(rng, mon):
    """Weights of every model interpolated along a coordinate, then normalised over models."""
    from improver.blending.weights import ChooseWeightsLinear

    names = rng.sample(["uk_det", "uk_ens", "nc_det", "gl_ens"], rng.randint(1, 3))
    nt = rng.randint(1, 5)
    time0 = gen.random_time(rng)
    wanted = {}
    fps = np.cumsum([rng.choice([1, 2, 5]) for _ in range(nt)])  # hours
    config = {}
    unit = rng.choice(["hours", "seconds", "minutes", None])
    per = {"hours": 1, "seconds": 3600, "minutes": 60, None: 3600}[unit]
    for k in names:
        m = rng.randint(2, 4)
        xs = sorted(rng.sample(range(0, 30), m))
        ws = [rng.choice([0, 0.25, 1, 3, 0.5]) for _ in range(m)]
        if k == names[0]:
            ws = [v + 0.1 for v in ws]
        if rng.chance(0.15):
            both = list(zip(xs, ws))
            rng.shuffle(both)
            xs, ws = [b[0] for b in both], [b[1] for b in both]
        config[k] = {"forecast_period": [v * per for v in xs], "weights": ws}
        if unit is not None:
            config[k]["units"] = unit
        wanted[k] = [linear_at(h, xs, ws) for h in fps]
    total = np.sum([wanted[k] for k in names], axis=0)
    for k in names:
        wanted[k] = np.array(wanted[k]) / total
    spot = rng.chance(0.25)
    nreal = rng.choice([0, 0, 2])
    cubes = CubeList()
    for i, k in enumerate(names):
        slices = CubeList()
        for h in fps:
            shape = ((nreal,) if nreal else ()) + ((4,) if spot else (3, 2))
            data = rng.np.rand(*shape).astype(np.float32)
            lead = [gen.realization_coord(nreal)] if nreal else []
            kw = dict(time=time0 + int(h) * HOUR, frt=time0, lead=lead)
            s = gen.spot(data, **kw) if spot else cube(data, **kw)
            s.add_aux_coord(AuxCoord(np.array([1000 * i], np.int32), long_name="model_id", units="1"))
            s.add_aux_coord(AuxCoord([k], long_name="model_configuration", units="no_unit"))
            slices.append(s)
        merged = slices.merge_cube()
        cubes.append(merged)
    use = cubes
    if rng.chance(0.5):
        use = cubes.merge_cube()
    snap = content(use)
    plugin = ChooseWeightsLinear("forecast_period", config)
    w = plugin(use)
    mon.equal(snap_diff(snap, content(use)), None, "input changed")
    mon.check(not [k for k in ("realization",) if w.coords(k)] or not nreal, "realization kept")
    for s in w.slices_over("model_id") if w.coord_dims("model_id") else [w]:
        k = s.coord("model_configuration").points[0]
        if nt > 1:
            for t in s.slices_over("forecast_period"):
                h = float(t.coord("forecast_period").points[0]) / 3600
                exp = wanted[k][list(fps).index(int(round(h)))]
                mon.close(np.asarray(t.data, float), np.full(t.shape, exp), "interpolated weight", rtol=2e-5, atol=2e-6,
                          model=k, hours=h)
        else:
            mon.close(np.asarray(s.data, float), np.full(s.shape, wanted[k][0]), "interpolated weight", rtol=2e-5,
                      atol=2e-6, model=k)
    if len(names) > 1:
        ax = w.coord_dims("model_id")
        mon.close(np.sum(w.data, axis=ax), np.ones(np.sum(w.data, axis=ax).shape), "weights sum", rtol=1e-5)
        mon.equal(sorted(w.coord("model_configuration").points), sorted(names), "models")
        mon.check(np.all(np.diff(w.coord("model_id").points) > 0), "models not ascending")
    mon.equal(w.name(), "weights", "name")
    mon.close(plugin(use).data, w.data, "second use", rtol=0, atol=0)
    mon.equal((str(w.units), dict(w.attributes)), ("1", {}), "units and attributes")
    mon.check(all(w.coords(k) for k in ("time", "forecast_period", "forecast_reference_time")), "times kept")
    bad = {k: dict(v) for k, v in config.items()}
    bad[names[0]]["weights"] = bad[names[0]]["weights"] + [1] if rng.chance(0.5) else bad[names[0]]["weights"][:-1]
    mon.raises(ValueError, ChooseWeightsLinear, "forecast_period", bad, label="lengths differ")
    mon.seen(len(names), nt, unit, spot, nreal, type(use).__name__)


# --------------------------------------------------------------------- C17
def blend_case(rng, pct=None, degrees=False):
    kind = rng.choice(["forecast_reference_time", "realization", "model_id", "height"])
    n = rng.randint(1, 4) if rng.chance(0.2) else rng.randint(2, 4)
    coord = lead_of(rng, kind, n)
    extra = []
    if pct is not None:
        extra.append(gen.percentile_coord(pct))
    else:
        if rng.chance(0.5):
            t = sorted(rng.sample(range(270, 300), rng.randint(1, 3)))
            extra.append(gen.threshold_coord(t))
        if rng.chance(0.2) and kind != "realization":
            extra.append(gen.realization_coord(2))
    spot = rng.chance(0.2)
    sp = (rng.randint(1, 5),) if spot else (rng.randint(1, 4), rng.randint(2, 4))
    shape = (n,) + tuple(len(e.points) for e in extra) + sp
    lo, hi = (0, 360) if degrees else (250, 300)
    data = (lo + rng.np.rand(*shape) * (hi - lo)).astype(np.float32)
    if pct is not None:
        data = np.sort(data, axis=1)
    return kind, coord, extra, spot, data


def blend_cube(rng, kind, coord, extra, spot, data, units="K"):
    lead = [coord] + extra
    frt = kind == "forecast_reference_time"
    if spot:
        c = gen.spot(data, lead=lead, units=units, frt=None if frt else dt.datetime(2017, 11, 10, 0))
    else:
        c = cube(data, lead=lead, units=units, frt=None if frt else dt.datetime(2017, 11, 10, 0))
    return c


def weights_cube(rng, c, kind, w):
    """Blending weights as a cube of kind (+ spatial) dimensions."""
    lead = [c.coord(kind).copy()]
    if w.ndim == 1:
        out = iris.cube.Cube(w.astype(np.float32), long_name="weights", units="1",
                             dim_coords_and_dims=[(lead[0], 0)])
    else:
        sp = [d for d in c.coords(dim_coords=True) if d.name() in (
            "projection_y_coordinate", "projection_x_coordinate", "spot_index")]
        out = iris.cube.Cube(w.astype(np.float32), long_name="weights", units="1",
                             dim_coords_and_dims=[(k.copy(), i) for i, k in enumerate(lead + sp)])
    return out


def broadcast_weights(w, data, spot):
    """1-D or (n, space) weights on the shape of data (blend first)."""
    n = data.shape[0]
    if w.ndim == 1:
        return np.broadcast_to(w.reshape((n,) + (1,) * (data.ndim - 1)), data.shape)
    ns = 1 if spot else 2
    return np.broadcast_to(w.reshape((n,) + (1,) * (data.ndim - 1 - ns) + w.shape[1:]), data.shape)


def named(c, names):
    """Data with axes in the order of names; absent names must be scalar."""
    dims = [k.name() for k in c.coords(dim_coords=True)]
    keep = [k for k in names if k in dims]
    a = np.ma.transpose(np.ma.asanyarray(c.data), [dims.index(k) for k in keep])
    shape = [len(c.coord(k).points) for k in names]
    return a.reshape(shape)


@scenario("C17", quick=200, thorough=5000)
def mean_blend(rng, mon):
    """Weighted mean at every point."""
    from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension

    degrees = rng.chance(0.2)
    kind, coord, extra, spot, data = blend_case(rng, degrees=degrees)
    n = data.shape[0]
    mask = None
    if rng.chance(0.3) and not degrees:
        mask = rng.np.rand(*data.shape) < rng.choice([0.1, 0.5])
        arr = np.ma.masked_array(data.copy(), mask)
        arr.data[mask] = rng.choice([9e9, -1e9])
    else:
        arr = data.copy()
    c = blend_cube(rng, kind, coord, extra, spot, arr, units="degrees" if degrees else "K")
    names = [k.name() for k in c.coords(dim_coords=True)]
    wkind = rng.choice(["none", "1d", "1d", "spatial"])
    if wkind == "none":
        w, wc = np.full(n, 1.0 / n), None
    else:
        shape = (n,) if wkind == "1d" else (n,) + data.shape[-1 if spot else -2:]
        w = rng.np.rand(*shape) + 0.01
        if n > 2 and rng.chance(0.3):
            w[rng.randrange(n)] = 0
        w = w / w.sum(axis=0)
        w = w.astype(np.float32).astype(float)
        wc = weights_cube(rng, c, kind, w)
        if wc.ndim > 1 and rng.chance(0.4):
            order = list(range(wc.ndim))
            rng.shuffle(order)
            wc.transpose(order)
        if rng.chance(0.3) and n > 1:
            ax = wc.coord_dims(kind)[0]
            wc = wc[tuple(slice(None, None, -1) if i == ax else slice(None) for i in range(wc.ndim))]
    if rng.chance(0.3) and n > 1:
        c = c[::-1]
    if extra and len(extra[0].points) > 1 and rng.chance(0.3):
        c = c[:, ::-1]
        data = data[:, ::-1]
        mask = mask if mask is None else mask[:, ::-1]
    if rng.chance(0.4):
        order = list(range(c.ndim))
        rng.shuffle(order)
        c.transpose(order)
    snap = (content(c), None if wc is None else content(wc))
    plugin = WeightedBlendAcrossWholeDimension(kind)
    out = plugin(c, wc)
    mon.equal(snap_diff(snap, (content(c), None if wc is None else content(wc))), None, "input changed")
    mon.equal([k.name() for k in out.coords(dim_coords=True)],
              [k.name() for k in c.coords(dim_coords=True) if k.name() != kind], "dimensions")
    wb = broadcast_weights(w, data, spot)
    rest = [k for k in names if k != kind]
    for k in rest:
        mon.check(np.allclose(np.sort(out.coord(k).points), np.sort(c.coord(k).points)), "coordinate changed", coord=k)
    got = named(out, rest)
    # the order of points may follow the order of the coordinate
    for ax, k in enumerate(rest):
        want_pts = np.asarray(c.coord(k).points)
        mon.array_equal(np.asarray(out.coord(k).points), want_pts, "coordinate order", coord=k)
    if degrees:
        z = np.sum(np.exp(1j * np.deg2rad(data.astype(float))) * wb, axis=0)
        ok = np.abs(z) > 1e-3
        exp = np.rad2deg(np.angle(z)) % 360
        diff = np.abs((np.ma.getdata(got) - exp + 180) % 360 - 180)
        mon.check(np.all(diff[ok] < 0.05), "mean direction", worst=diff[ok].max() if ok.any() else 0)
        mon.check(np.all((np.ma.getdata(got) >= 0) & (np.ma.getdata(got) < 360.0001)), "direction out of range")
    else:
        if mask is None:
            exp = np.sum(wb * data.astype(float), axis=0)
        else:
            ww = np.where(mask, 0, wb)
            tot = ww.sum(axis=0)
            num = np.sum(ww * np.where(mask, 0, data.astype(float)), axis=0)
            with np.errstate(all="ignore"):
                exp = np.ma.masked_array(num / tot, mask.all(axis=0) | (tot == 0))
        mon.close(got, exp, "weighted mean", rtol=3e-6, atol=1e-4, kind=kind, w=wkind, spot=spot)
    mon.equal(standard_faults(out), [], "standards")
    mon.equal(out.name(), c.name(), "name")
    mon.equal(str(out.units), str(c.units), "units")
    again = WeightedBlendAcrossWholeDimension(kind)(c, wc)
    mon.close(again.data, out.data, "repeat", rtol=0, atol=0)
    mon.close(plugin(c, wc).data, out.data, "second use", rtol=0, atol=0)
    mon.seen(kind, n, wkind, mask is not None, degrees, spot, len(extra))


def cdf_range(values, pct, w, v, eps):
    """Probability (%) of the weighted mixture just below and just above v, one point (values: n x p)."""
    low = high = 0.0
    for i in range(len(values)):
        xs = values[i]
        for x, up in ((v - eps, False), (v + eps, True)):
            if x < xs[0]:
                f = pct[0]
            elif x >= xs[-1]:
                f = pct[-1]
            else:
                j = max(k for k in range(len(xs)) if xs[k] <= x)
                f = pct[j] + (pct[j + 1] - pct[j]) * (x - xs[j]) / (xs[j + 1] - xs[j])
            if up:
                high += w[i] * f
            else:
                low += w[i] * f
    return low, high


@scenario("C17", quick=100, thorough=2500)
def percentile_blend(rng, mon):
    """Blends of percentiles are quantiles of the weighted mixture."""
    from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension

    pct = sorted(rng.sample([0, 10, 25, 40, 50, 60, 75, 90, 100], rng.randint(2, 6)))
    kind, coord, extra, spot, data = blend_case(rng, pct=pct)
    n = data.shape[0]
    same = rng.chance(0.2)
    if same:
        data[:] = data[:1]
    ties = rng.chance(0.4)
    if ties:  # values shared by several percentiles, within and between inputs
        data = (np.round(data / 10) * 10).astype(np.float32)
        if rng.chance(0.5):
            data = np.minimum(data, np.float32(280.0))
    c = blend_cube(rng, kind, coord, extra, spot, data.copy())
    wkind = rng.choice(["none", "1d", "spatial"])
    if wkind == "none":
        w, wc = np.full(n, 1.0 / n), None
    else:
        shape = (n,) if wkind == "1d" else (n,) + data.shape[2:]
        w = rng.np.rand(*shape) + 0.05
        scale = 1.0 if rng.chance(0.5) else rng.choice([3.0, 0.4])
        if wkind == "spatial" and rng.chance(0.4):  # the sum differs from place to place
            scale = rng.np.choice([0.5, 1.0, 2.0], w.shape[1:])
        w = w / w.sum(axis=0)
        wc = weights_cube(rng, c, kind, w * scale)
    rev = rng.chance(0.3) and n > 1
    if rev:
        c = c[::-1]
    if rng.chance(0.4):
        order = list(range(c.ndim))
        rng.shuffle(order)
        c.transpose(order)
    snap = (content(c), None if wc is None else content(wc))
    plugin = WeightedBlendAcrossWholeDimension(kind)
    out = plugin(c, wc)
    mon.equal(snap_diff(snap, (content(c), None if wc is None else content(wc))), None, "input changed")
    rest = [k.name() for k in c.coords(dim_coords=True) if k.name() != kind]
    order = ["percentile"] + [k for k in ("projection_y_coordinate", "projection_x_coordinate", "spot_index") if k in rest]
    got = np.asarray(named(out, order))
    mon.array_equal(out.coord("percentile").points, np.array(pct, np.float32), "percentiles")
    mon.equal([k.name() for k in out.coords(dim_coords=True)], rest, "dimensions")
    wb = np.broadcast_to(w.reshape((n,) + (1,) * (data.ndim - 2)) if w.ndim == 1 else w, (n,) + data.shape[2:])
    mon.check(np.all(np.diff(got, axis=0) >= -1e-3), "percentiles decrease")
    mon.check(np.all(got >= data.min(axis=0) - 1e-2) and np.all(got <= data.max(axis=0) + 1e-2),
              "blend outside of the inputs")
    for idx in np.ndindex(*data.shape[2:]):
        vals = data[(slice(None), slice(None)) + idx].astype(float)
        if same:
            mon.close(got[(slice(None),) + idx], vals[0], "blend of equal inputs", rtol=0, atol=2e-2)
        elif n == 1:
            mon.close(got[(slice(None),) + idx], vals[0], "blend of one input", rtol=0, atol=1e-2)
        else:
            wt = wb[(slice(None),) + idx]
            for k, p in enumerate(pct):
                g = float(got[(k,) + idx])
                lo, hi = cdf_range(vals, pct, wt, g, 0.02)
                # at either end of the percentiles any value within the clamped part will do
                mon.check(lo <= p + 0.01 and hi >= p - 0.01, "blended percentile", got=g, lo=lo, hi=hi, p=p,
                          vals=vals.tolist(), w=wt.tolist())
    mon.equal(standard_faults(out), [], "standards")
    mon.close(plugin(c, wc).data, out.data, "second use", rtol=0, atol=0)
    mon.seen(kind, n, wkind, spot, len(pct), same, rev, ties)


@scenario("C17", quick=60, thorough=800)
def blend_refusals(rng, mon):
    from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension

    mon.raises(ValueError, WeightedBlendAcrossWholeDimension, "threshold")
    kind, coord, extra, spot, data = blend_case(rng)
    c = blend_cube(rng, kind, coord, extra, spot, data)
    mon.raises(TypeError, WeightedBlendAcrossWholeDimension(kind), CubeList([c]))
    mon.raises(Exception, WeightedBlendAcrossWholeDimension("kittens"), c)
    mon.raises(ValueError, WeightedBlendAcrossWholeDimension("time"), c, label="scalar blend coordinate accepted")
    if len(coord.points) > 2:
        w = weights_cube(rng, c, kind, np.full(len(coord.points), 0.5))[1:]
        mon.raises(ValueError, WeightedBlendAcrossWholeDimension(kind), c, w, label="short weights accepted")
    # different validity times
    times = CubeList([cube(rng.np.rand(2, 3).astype(np.float32), time=dt.datetime(2017, 11, 10, 4 + i),
                           frt=dt.datetime(2017, 11, 10, 0)) for i in range(2)]).merge_cube()
    mon.raises(ValueError, WeightedBlendAcrossWholeDimension("time"), times, label="validity times mixed")
    out = WeightedBlendAcrossWholeDimension("time", timeblending=True)(times)
    mon.close(out.data, times.data.mean(axis=0), "time blend", rtol=1e-5)
    one = cube(rng.np.rand(2, 1, 2, 3).astype(np.float32), lead=[gen.realization_coord(2), gen.percentile_coord([50])])
    mon.raises(ValueError, WeightedBlendAcrossWholeDimension("realization"), one, label="single percentile accepted")
    mon.seen(kind, spot)


@scenario("C17", quick=80, thorough=1500)
def adjacent_points(rng, mon):
    """Triangular blending about one of the points of a coordinate."""
    from improver.blending.blend_across_adjacent_points import TriangularWeightedBlendAcrossAdjacentPoints

    n = rng.randint(2, 6)
    hours = np.cumsum([rng.choice([1, 2, 3]) for _ in range(n)])
    frt = gen.random_time(rng)
    kind = rng.choice(["forecast_period", "forecast_period", "height"])
    probs = rng.chance(0.4)
    sp = (rng.randint(1, 3), rng.randint(2, 4))
    lead = [gen.threshold_coord(sorted(rng.sample(range(270, 300), 2)))] if probs else []
    shape = (len(lead[0].points),) + sp if probs else sp
    data = rng.np.rand(*((n,) + shape)).astype(np.float32)
    mask = None
    if rng.chance(0.25):
        mask = rng.np.rand(*data.shape) < 0.3
    arr = data if mask is None else np.ma.masked_array(data, mask)
    if kind == "forecast_period":
        cl = CubeList([cube(arr[i], lead=lead, time=frt + int(h) * HOUR, frt=frt,
                            bounds=(frt + int(h - 1) * HOUR, frt + int(h) * HOUR) if rng.chance(2) else None)
                       for i, h in enumerate(hours)])
        c = cl.merge_cube()
        if rng.chance(0.5):
            iris.util.promote_aux_coord_to_dim_coord(c, "forecast_period")
        units, scale = rng.choice([("hours", 1), ("seconds", 3600), ("minutes", 60)])
    else:
        c = cube(arr, lead=[gen.level_coord(hours * 100.0)] + lead)
        units, scale = "m", 100.0
    if probs and rng.chance(0.4):
        c = c[:, ::-1]
        data = data[:, ::-1]
        mask = mask if mask is None else mask[:, ::-1]
    if rng.chance(0.3):
        order = list(range(c.ndim))
        rng.shuffle(order)
        c.transpose(order)
    mid = int(rng.choice(hours))
    width = rng.choice([1, 2, 2.5, 5])
    snap = content(c)
    plugin = TriangularWeightedBlendAcrossAdjacentPoints(kind, mid * scale, units, width * scale)
    out = plugin(c)
    mon.equal(snap_diff(snap, content(c)), None, "input changed")
    raw = np.clip(1 - np.abs(hours - mid) / width, 0, None)
    w = (raw / raw.sum()).reshape((n,) + (1,) * (data.ndim - 1))
    if mask is None:
        exp = np.sum(w * data, axis=0)
    else:
        ww = np.where(mask, 0, w)
        with np.errstate(all="ignore"):
            exp = np.ma.masked_array(np.sum(ww * data, axis=0) / ww.sum(axis=0), ww.sum(axis=0) == 0)
    names = [k.name() for k in lead] + ["projection_y_coordinate", "projection_x_coordinate"]
    mon.close(named(out, names), exp, "triangular blend", rtol=1e-5, atol=1e-5)
    mon.close(np.array([float(out.coord(kind).points[0])]),
              np.array([mid * (3600.0 if kind == "forecast_period" else 100.0)]), "central point", rtol=1e-6)
    central = [s for s in c.slices_over(kind) if np.isclose(
        float(s.coord(kind).points[0]), mid * (3600.0 if kind == "forecast_period" else 100.0))][0]
    ref = central.copy(data=out.data) if central.shape == out.shape else None
    mon.check(ref is not None, "shape of the central point", got=out.shape, want=central.shape)
    ref.attributes["title"] = out.attributes["title"]
    mon.equal(snap_diff(content(ref), content(out)), None, "metadata of the central point")
    bad = TriangularWeightedBlendAcrossAdjacentPoints(kind, (mid + 0.37) * scale, units, width * scale)
    mon.raises(ValueError, bad, c, label="absent central point accepted")
    mon.close(plugin(c).data, out.data, "second use", rtol=0, atol=0)
    mon.seen(n, kind, units, probs, mask is not None)


# --------------------------------------------------------------------- C18
def naive_spatial_weights(mask, w1, fuzzy):
    """mask (n, y, x), w1 (n,)"""
    n, ny, nx = mask.shape
    w = np.where(mask, 0.0, w1.reshape(-1, 1, 1).astype(float))
    tot = w.sum(axis=0)
    with np.errstate(all="ignore"):
        w = np.where(tot > 0, w / tot, 0)
    out = w.copy()
    scaled = np.zeros(w.shape, bool)
    for k in range(n):
        zeros = [(i, j) for i in range(ny) for j in range(nx) if w[k, i, j] <= 0]
        if not zeros:
            continue
        for i in range(ny):
            for j in range(nx):
                d = min(np.hypot(i - a, j - b) for a, b in zeros)
                f = min(d / fuzzy, 1.0)
                out[k, i, j] = w[k, i, j] * f
                scaled[k, i, j] = f < 1 and w[k, i, j] > 0
    for i in range(ny):
        for j in range(nx):
            s = scaled[:, i, j]
            free = out[~s, i, j].sum()
            if free > 0:
                need = 1 - out[s, i, j].sum()
                out[~s, i, j] *= need / free
    return out


@scenario("C18", quick=200, thorough=5000)
def mask_weights(rng, mon):
    """Spatial weights derived from the masks of the inputs."""
    from improver.blending.spatial_weights import SpatiallyVaryingWeightsFromMask

    n = rng.randint(2, 4)
    ny, nx = rng.randint(2, 6), rng.randint(2, 6)
    kind = rng.choice(["forecast_reference_time", "model_id", "forecast_period"])
    coord = lead_of(rng, kind, n)
    mask = np.zeros((n, ny, nx), bool)
    style = rng.choice(["one", "all", "overlap", "none"])
    for k in range(n):
        if style == "none" or (style == "one" and k):
            continue
        m = gen.random_mask(rng, (ny, nx), 0.15)
        mask[k] = m
    if style == "overlap":
        mask[:, 0, 0] = True
    w1 = rng.np.rand(n).astype(np.float32) + np.float32(0.05)
    if rng.chance(0.7):
        w1 = w1 / w1.sum()
    if rng.chance(0.2):
        w1 = np.full(n, rng.choice([0.002, 0.0]), np.float32)
        w1[rng.randrange(n)] = 0.99
    extra = []
    if rng.chance(0.4):
        extra.append(gen.threshold_coord([280, 285, 290][: rng.randint(1, 3)]))
    full = np.broadcast_to(mask.reshape((n,) + (1,) * len(extra) + (ny, nx)),
                           (n,) + tuple(len(e.points) for e in extra) + (ny, nx))
    data = rng.np.rand(*full.shape).astype(np.float32)
    c = cube(np.ma.masked_array(data, full.copy()), lead=[coord] + extra, times=False)
    if rng.chance(0.3) and extra:
        order = [1, 0, 2, 3]
        c.transpose(order)
    elif rng.chance(0.3):
        order = list(range(c.ndim))
        rng.shuffle(order)
        c.transpose(order)
    wc = weights_cube(rng, c, kind, w1)
    fuzzy = rng.choice([1, 2, 2.5, 4, 10])
    snap = (content(c), content(wc))
    plugin = SpatiallyVaryingWeightsFromMask(kind, fuzzy_length=fuzzy)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out = plugin(c, wc)
    mon.equal(snap_diff(snap, (content(c), content(wc))), None, "input changed")
    mon.equal([k.name() for k in out.coords(dim_coords=True)],
              [kind, "projection_y_coordinate", "projection_x_coordinate"], "dimensions of the weights")
    mon.array_equal(out.coord(kind).points, coord.points, "blend points")
    mon.check(not (extra and mask.any() and len(extra[0].points) > 1 and out.coords(extra[0].name())),
              "dimension outside the weights kept")
    if not mask.any():
        mon.check(any("masked input" in str(x.message) for x in caught), "no warning without a mask")
        mon.close(np.asarray(out.data), np.broadcast_to(w1.reshape(-1, 1, 1), mask.shape), "unmasked weights")
    else:
        got = np.asarray(out.data)
        mon.check(not np.ma.is_masked(out.data), "masked weights")
        mon.close(got, naive_spatial_weights(mask, w1, fuzzy), "spatial weights", rtol=1e-4, atol=1e-5)
        mon.check(np.all(got[mask] == 0), "weight given to a masked point")
        s = got.sum(axis=0)
        # some layer that is not thinned near a mask takes up what the others lose
        full = [not mask[k].any() and w1[k] > 0 for k in range(n)]
        if any(full):
            mon.close(s, np.ones(s.shape), "sum of weights", rtol=1e-4)
        mon.check(np.all(s < 1 + 1e-4) and np.all(s[(~mask & (w1 > 0).reshape(-1, 1, 1)).any(axis=0)] > 0),
                  "sum of weights out of range")
        mon.equal(out.dtype, np.float32, "type")
    if extra and len(extra[0].points) > 1:
        dims = [k.name() for k in c.coords(dim_coords=True)]
        tdim = dims.index(extra[0].name())
        d2 = c.copy()
        k = rng.randrange(len(extra[0].points))
        m2 = np.ma.getmaskarray(d2.data).copy()
        sel = tuple(k if i == tdim else 0 for i in range(d2.ndim))
        layer = tuple(k if i == tdim else slice(None) for i in range(d2.ndim))
        moved = m2.copy()
        moved[layer] = np.roll(moved[layer], 1, axis=rng.randint(0, d2.ndim - 2))
        if rng.chance(0.6) and not np.array_equal(moved, m2):
            m2 = moved
        else:
            m2[sel] = ~m2[sel]
        d2.data = np.ma.masked_array(np.ma.getdata(d2.data), m2)
        mon.raises(ValueError, SpatiallyVaryingWeightsFromMask(kind, fuzzy_length=fuzzy), d2, wc,
                   label="mask varying along another dimension accepted")
    mon.close(plugin(c, wc).data, out.data, "second use", rtol=0, atol=0)
    mon.seen(n, kind, style, fuzzy, len(extra), int(mask.sum()) > 0)


# --------------------------------------------------------------------- C19
def stamp(t):
    return t.strftime("%Y%m%dT%H%MZ")


@scenario("C19", quick=120, thorough=2500)
def cycle_blend(rng, mon):
    """Cycles of one model, merged, weighted and blended."""
    from improver.blending.calculate_weights_and_blend import WeightAndBlend

    n = rng.randint(1, 4)
    vt = gen.random_time(rng)
    lags = sorted(rng.sample(range(3, 40), n), reverse=True)
    frts = [vt - k * HOUR for k in lags]
    probs = rng.chance(0.5)
    lead = [gen.threshold_coord([280, 285])] if probs else []
    shape = ((2,) if probs else ()) + (rng.randint(2, 3), rng.randint(2, 4))
    datas = [rng.np.rand(*shape).astype(np.float32) for _ in range(n)]
    bounded = rng.chance(0.3)
    record = rng.chance(0.4)
    cubes = []
    for i, f in enumerate(frts):
        at = dict(gen.ATTRS, mosg__model_configuration="uk_ens")
        if rng.chance(0.5):
            at["history"] = "h%d" % i
        kw = dict(lead=lead, time=vt, frt=f, attributes=at, bounds=(vt - HOUR, vt) if bounded else None)
        c = cube(datas[i], name="probability_of_air_temperature_above_threshold" if probs else "air_temperature",
                 units="1" if probs else "K", **kw)
        cubes.append(c)
    order = list(range(n))
    rng.shuffle(order)
    given = [cubes[i] for i in order]
    method = rng.choice(["linear", "nonlinear", "nonlinear"])
    if method == "linear":
        y0, yn = rng.choice([(1, 1), (1, 4), (0, 2), (0.5, 0)])
        kw = {"y0val": y0, "ynval": yn}
        raw = np.array([y0 + (yn - y0) * i / max(n - 1, 1) for i in range(n)], float)
    else:
        cv, inv = rng.choice([1.0, 0.5, 0.3]), rng.chance(0.5)
        kw = {"cval": cv, "inverse_ordering": inv}
        raw = cv ** np.arange(n, dtype=float)
        raw = raw[::-1] if inv else raw
    if n == 1:
        raw = np.ones(1)
    w = raw / raw.sum()
    cyc = max(frts) + rng.choice([0, 0, 1, 2]) * HOUR + rng.choice([0, 15, 30]) * HOUR / 60
    plugin = WeightAndBlend("forecast_reference_time", method, **kw)
    snap = content(given)
    extra = {"model_id_attr": "mosg__model_configuration", "record_run_attr": "mosg__model_run"} if record else {}
    attrs = {"title": "blended", "source": "IMPROVER"} if rng.chance(0.5) else None
    out = plugin(CubeList(given) if rng.chance(0.5) else given, cycletime=stamp(cyc), attributes_dict=attrs, **extra)
    mon.equal(snap_diff(snap, content(given)), None, "input changed")
    exp = sum(wi * d.astype(float) for wi, d in zip(w, datas))
    mon.close(np.asarray(out.data), exp, "blended data", rtol=1e-5, atol=1e-5, method=method)
    check_blended_times(mon, out, vt, cyc, (vt - HOUR, vt) if bounded else None)
    mon.equal(standard_faults(out), [], "standards")
    for k in ("title", "source", "institution"):
        mon.check(k in out.attributes, "mandatory attribute", attr=k)
    if attrs:
        mon.check(out.attributes["title"].endswith("blended"), "attribute")
        mon.equal(out.attributes["source"], "IMPROVER", "attribute")
    if record:
        # contributions as recorded
        want = sorted("uk_ens:%s:%1.3f" % (stamp(f), wi) for f, wi in zip(frts, w) if wi > 0)
        check_records(mon, out.attributes.get("mosg__model_run"), [
            ("uk_ens", stamp(f), wi) for f, wi in zip(frts, w) if wi > 0])
        mon.check(not out.coords("blend_record"), "record coordinate left")
        mon.note(want=want)
    else:
        mon.check("mosg__model_run" not in out.attributes, "record attribute")
    again = plugin(given, cycletime=stamp(cyc), attributes_dict=attrs, **extra)
    mon.close(again.data, out.data, "second use", rtol=0, atol=0)
    mon.raises(Exception, WeightAndBlend("forecast_reference_time", method, **kw), given,
               label="no cycle time accepted")
    mon.seen(n, method, probs, bounded, record, bool(attrs))


def check_blended_times(mon, out, vt, cyc, bounds):
    mon.equal([int(p) for p in out.coord("time").points], [gen.seconds(vt)], "validity time")
    mon.equal([int(p) for p in out.coord("blend_time").points], [gen.seconds(cyc)], "blend time")
    mon.equal([int(p) for p in out.coord("forecast_reference_time").points], [gen.seconds(cyc)], "reference time")
    mon.equal([int(p) for p in out.coord("forecast_period").points], [gen.seconds(vt) - gen.seconds(cyc)], "forecast period")
    mon.check(not out.coord("forecast_reference_time").has_bounds(), "bounds of reference time")
    if bounds is not None:
        mon.equal([int(b) for b in out.coord("time").bounds[0]], [gen.seconds(b) for b in bounds], "time bounds")
    for k in ("forecast_period", "forecast_reference_time"):
        mon.check("deprecation_message" in out.coord(k).attributes, "no deprecation message", coord=k)
    for k in ("model_id", "model_configuration", "blend_record"):
        mon.check(not out.coords(k), "custom coordinate left", coord=k)


def check_records(mon, text, want):
    mon.check(text is not None, "no record")
    got = {}
    lines = text.split("\n")
    mon.equal(lines, sorted(lines), "records not sorted")
    for line in lines:
        model, cyc, wt = line.split(":")
        mon.check((model, cyc) not in got, "repeated record", line=line)
        got[(model, cyc)] = float(wt)
    mon.equal(sorted(got), sorted((m, c) for m, c, _ in want), "recorded runs")
    for m, c, wt in want:
        mon.check(abs(got[(m, c)] - wt) < 1.1e-3, "recorded weight", run=(m, c), got=got[(m, c)], want=wt)


@scenario("C19", quick=120, thorough=2500)
def model_blend(rng, mon):
    """Different models, weighted by a dictionary of forecast periods."""
    from improver.blending.calculate_weights_and_blend import WeightAndBlend

    n = rng.randint(1, 3)
    names = rng.sample(["uk_det", "uk_ens", "nc_det", "gl_ens"], n)
    vt = gen.random_time(rng)
    lags = [rng.randint(2, 20) for _ in names]
    cyc = vt - min(lags) * HOUR + rng.choice([0, 0, 1]) * HOUR
    fp = (vt - cyc).total_seconds() / 3600
    probs = rng.chance(0.4)
    lead = [gen.threshold_coord([280, 285])] if probs else []
    ny, nx = rng.randint(2, 4), rng.randint(2, 4)
    shape = ((2,) if probs else ()) + (ny, nx)
    spatial = rng.chance(0.4)
    datas, masks, cubes = [], [], []
    record = rng.chance(0.4)
    recs = []
    for i, (k, lag) in enumerate(zip(names, lags)):
        d = rng.np.rand(*shape).astype(np.float32)
        m = np.zeros((ny, nx), bool)
        if spatial and (i == 0 or rng.chance(0.3)) and n > 1:
            m = gen.random_mask(rng, (ny, nx), 0.2)
            m[-1, -1] = False
        datas.append(d)
        masks.append(m)
        at = dict(gen.ATTRS, mosg__model_configuration=k)
        f = vt - lag * HOUR
        if record and rng.chance(0.4):
            # already a blend of two cycles
            f2 = f - 3 * HOUR
            at["mosg__model_run"] = "%s:%s:0.250\n%s:%s:0.750" % (k, stamp(f2), k, stamp(f))
            recs.append([(k, stamp(f2), 0.25), (k, stamp(f), 0.75)])
        else:
            recs.append([(k, stamp(f), 1.0)])
        arr = np.ma.masked_array(d, np.broadcast_to(m, shape).copy()) if spatial else d
        c = cube(arr, name="probability_of_air_temperature_above_threshold" if probs else "air_temperature",
                 units="1" if probs else "K", lead=lead, time=vt, frt=f, attributes=at,
                 blend_time=f if rng.chance(0.3) else None)
        if c.coords("blend_time") and rng.chance(0.7):  # the output of an earlier blend
            for nm in ("forecast_period", "forecast_reference_time"):
                c.coord(nm).attributes["deprecation_message"] = nm + " will be removed in future and should not be used"
        cubes.append(c)
    config, raw = {}, []
    for i, k in enumerate(names):
        m = rng.randint(2, 4)
        xs = sorted(rng.sample(range(0, 30), m))
        ws = [rng.choice([0, 0, 0.5, 1, 2]) for _ in range(m)]
        if i == 0:
            ws = [v + 0.2 for v in ws]
        config[k] = {"forecast_period": xs, "weights": ws, "units": "hours"}
        raw.append(linear_at(fp, xs, ws))
    config["unused_model"] = {"forecast_period": [0, 10], "weights": [1, 1], "units": "hours"}
    raw = np.array(raw) if n > 1 else np.ones(1)
    w = raw / raw.sum()
    plugin = WeightAndBlend(rng.choice(["model", "model_id"]), "dict", weighting_coord="forecast_period", wts_dict=config)
    snap = content(cubes)
    fuzzy = rng.choice([2000, 5000, 20000])
    extra = {"record_run_attr": "mosg__model_run"} if record else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = plugin(cubes, cycletime=stamp(cyc), model_id_attr="mosg__model_configuration",
                     spatial_weights=spatial, fuzzy_length=fuzzy, **extra)
    mon.equal(snap_diff(snap, content(cubes)), None, "input changed")
    keep = [i for i in range(n) if w[i] > 0]
    mask = np.stack([masks[i] for i in keep])
    if spatial and len(keep) > 1 and mask.any():
        ws = naive_spatial_weights(mask, w[keep], fuzzy / 2000.0)
    else:
        ws = np.where(mask, 0, w[keep].reshape(-1, 1, 1))
    stack = np.stack([datas[i] for i in keep]).astype(float)
    wb = ws.reshape((len(keep),) + (1,) * (stack.ndim - 3) + (ny, nx))
    tot = np.broadcast_to(wb.sum(axis=0), shape)
    with np.errstate(all="ignore"):
        exp = np.sum(wb * stack, axis=0) / tot
    if mask.any():
        exp = np.ma.masked_array(exp, tot == 0)
    mon.close(out.data, exp, "blended data", rtol=1e-4, atol=1e-5, w=w.tolist(), spatial=spatial)
    check_blended_times(mon, out, vt, cyc, None)
    mon.equal(out.attributes.get("mosg__model_configuration"), " ".join(sorted(names[i] for i in keep)), "models recorded")
    if record:
        check_records(mon, out.attributes.get("mosg__model_run"), [
            (m, c, wt * w[i]) for i in keep for m, c, wt in recs[i]])
    mon.equal(standard_faults(out), [], "standards")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        again = plugin(cubes, cycletime=stamp(cyc), model_id_attr="mosg__model_configuration",
                       spatial_weights=spatial, fuzzy_length=fuzzy, **extra)
    mon.close(again.data, out.data, "second use", rtol=0, atol=0)
    mon.seen(n, len(keep), probs, spatial, record)


@scenario("C19", quick=40, thorough=500)
def blend_workflow_refusals(rng, mon):
    from improver.blending.calculate_weights_and_blend import WeightAndBlend
    from improver.blending.weighted_blend import MergeCubesForWeightedBlending

    mon.raises(ValueError, WeightAndBlend, "model", rng.choice(["kludge", "", "Linear"]))
    mon.raises(ValueError, MergeCubesForWeightedBlending, "model")
    vt = gen.random_time(rng)
    a, b = [cube(rng.np.rand(2, 3).astype(np.float32), time=vt, frt=vt - k * HOUR,
                 attributes=dict(gen.ATTRS, mosg__model_configuration="uk_ens")) for k in (3, 6)]
    mon.raises(ValueError, WeightAndBlend("model", "linear", y0val=1, ynval=1), [a, b], cycletime=stamp(vt),
               model_id_attr="mosg__model_configuration", label="same model twice")
    mid = a.copy()
    mid.attributes["mosg__model_configuration"] = "nc_det"
    mon.raises(ValueError, WeightAndBlend("model", "linear", y0val=1, ynval=1), [a, mid, b], cycletime=stamp(vt),
               model_id_attr="mosg__model_configuration", label="same model twice, apart")
    mon.raises(ValueError, WeightAndBlend("model", "linear", y0val=1, ynval=1), [a, b], cycletime=stamp(vt),
               model_id_attr="absent", label="missing model attribute")
    half = [a.copy(), b.copy()]
    rng.choice(half).attributes["mosg__model_run"] = "uk_ens:%s:1.000" % stamp(vt)
    mon.raises(ValueError, WeightAndBlend("forecast_reference_time", "linear", y0val=1, ynval=1), half,
               cycletime=stamp(vt), record_run_attr="mosg__model_run", label="one record without model")
    mon.raises(ValueError, WeightAndBlend("kittens", "linear", y0val=1, ynval=1), [a, b], cycletime=stamp(vt),
               label="missing blend coordinate")
    mon.raises(ValueError, WeightAndBlend("forecast_reference_time", "linear", y0val=1, ynval=1), [a, b],
               cycletime=stamp(vt), record_run_attr="x", label="record without model")
    # accumulations over different periods
    p = cube(rng.np.rand(2, 3).astype(np.float32), time=vt, frt=vt - 3 * HOUR, bounds=(vt - HOUR, vt))
    q = cube(rng.np.rand(2, 3).astype(np.float32), time=vt, frt=vt - 6 * HOUR, bounds=(vt - 3 * HOUR, vt))
    mon.raises(Exception, WeightAndBlend("forecast_reference_time", "linear", y0val=1, ynval=1), [p, q],
               cycletime=stamp(vt), label="different accumulation periods")
    # different validity times
    q = cube(rng.np.rand(2, 3).astype(np.float32), time=vt + HOUR, frt=vt - 6 * HOUR)
    mon.raises(Exception, WeightAndBlend("forecast_reference_time", "linear", y0val=1, ynval=1), [a, q],
               cycletime=stamp(vt), label="different validity times")
    mon.seen("refused")
