"""C06: thresholding.  C07: maxima in a vicinity."""
import cf_units
import numpy as np

from harness import gen
from harness.core import Violation, scenario
from harness.gen import cube, ensemble, snapshot, snap_diff, standard_faults

OPS = {
    "gt": (np.greater, "greater_than", "above"), ">": (np.greater, "greater_than", "above"), "GT": None,
    "ge": (np.greater_equal, "greater_than_or_equal_to", "above"),
    ">=": (np.greater_equal, "greater_than_or_equal_to", "above"),
    "lt": (np.less, "less_than", "below"), "<": (np.less, "less_than", "below"),
    "le": (np.less_equal, "less_than_or_equal_to", "below"),
    "<=": (np.less_equal, "less_than_or_equal_to", "below"),
}
OPS = {k: v for k, v in OPS.items() if v}


def vicinity_max(field, r, ok, land=None):
    """Maximum over a (2r+1) square of valid points of the same surface type."""
    ny, nx = field.shape
    out = np.full(field.shape, -np.inf)
    for y in range(ny):
        for x in range(nx):
            if not ok[y, x]:
                continue
            for yy in range(max(0, y - r), min(ny, y + r + 1)):
                for xx in range(max(0, x - r), min(nx, x + r + 1)):
                    if ok[yy, xx] and (land is None or land[yy, xx] == land[y, x]):
                        out[y, x] = max(out[y, x], field[yy, xx])
    return out


def truth(values, thr, op, bounds=None):
    fn, spp, _ = OPS[op]
    if bounds is None:
        return fn(values.astype(np.float32), np.float32(thr)).astype(float)
    v = values.astype(float)
    lo, hi = bounds
    p = np.where(v < thr, 0.5 * (v - lo) / (thr - lo), 0.5 + 0.5 * (v - thr) / (hi - thr))
    p = np.clip(p, 0, 1)
    return 1 - p if spp.startswith("less") else p


@scenario("C06", quick=220, thorough=6000)
def probabilities(rng, mon):
    """Each probability is the mean over valid members of the (fuzzy, in-vicinity) truth."""
    from improver.threshold import Threshold

    nr, ny, nx = rng.randint(1, 5), rng.randint(4, 6), rng.randint(4, 7)
    has_real = rng.chance(0.8)
    if not has_real:
        nr = 1
    data = gen.smooth_field(rng, (nr, ny, nx), 270, 300)
    if rng.chance(0.5):  # ties with the thresholds
        data = np.round(data / 5).astype(np.float32) * 5
    nthr = rng.randint(1, 4)
    vals = rng.sample([272.5, 275.0, 280.0, 285.0, 290.0, 294.0, 299.0], nthr)
    op = rng.choice(sorted(OPS))
    units = rng.choice([None, None, "K", "celsius"])
    shift = 273.15 if units == "celsius" else 0.0
    if units == "celsius":
        vals = [v - 273.0 for v in vals]
    masked = rng.chance(0.4)
    arr = data
    if masked:
        m = gen.random_mask(rng, data.shape) if rng.chance(0.6) else gen.same_mask(rng, data.shape)
        arr = np.ma.masked_array(data.copy(), mask=m)
        if rng.chance(0.5):
            arr.data[m] = rng.choice([9999.0, -9999.0])
    else:
        m = np.zeros(data.shape, bool)
    if not has_real:
        arr, c = arr[0], None
        c = cube(arr)
    else:
        c = ensemble(arr, realizations=sorted(rng.sample(range(12), nr)))
    fuzzy = rng.choice([None, None, "factor", "config"])
    kw, bounds = {}, {v: None for v in vals}
    if fuzzy == "factor" and 0 not in vals:
        f = rng.choice([0.5, 0.9, 0.99, 0.995])
        kw["fuzzy_factor"] = f
        bounds = {v: tuple(sorted((v * f, v * (2 - f)))) for v in vals}
        kw["threshold_values"] = vals
    elif fuzzy == "config":
        bounds = {v: (v - rng.choice([1.0, 2.5, 8.0]), v + rng.choice([1.0, 2.5, 8.0])) for v in vals}
        kw["threshold_config"] = {str(v): list(bounds[v]) for v in vals}
    elif rng.chance(0.2):
        kw["threshold_config"] = {str(v): "None" for v in vals}
    elif nthr == 1 and rng.chance(0.5):
        kw["threshold_values"] = vals[0]
    else:
        kw["threshold_values"] = vals if rng.chance(0.5) else [str(v) for v in vals]
    collapse = has_real and rng.chance(0.6)
    if collapse:
        kw["collapse_coord"] = "realization"
    radii = None
    land = None
    if rng.chance(0.35):
        radii = rng.sample([2000, 4000, 6500], rng.randint(1, 2))
        kw["vicinity"] = radii if rng.chance(0.7) or len(radii) > 1 else radii[0]
        if rng.chance(0.4):
            land = rng.np.rand(ny, nx) < 0.5
    fill = None
    if masked and rng.chance(0.25):
        fill = rng.choice([250.0, 320.0, 285.0, 0.0])
        kw["fill_masked"] = fill
    mon.note(op=op, vals=vals, units=units, kw=kw, masked=masked, nr=nr, land=land is not None)
    plugin = Threshold(comparison_operator=op, threshold_units=units, **kw)
    args = []
    if land is not None:
        args = [cube(land.astype(rng.choice([np.int8, np.int32])), name="land_binary_mask", units="1", times=False)]
    source = c.copy()
    out = plugin(c, *args)

    # ---------------------------------------------------------- oracle
    work = np.where(m, fill, data) if fill is not None else data
    ok = np.ones(data.shape, bool) if fill is not None else ~m
    svals = sorted(vals)
    rad = sorted(radii) if radii else [None]
    conv = work.astype(float) - shift
    if shift:
        conv = conv.astype(np.float32)
    exp = np.zeros((len(svals), len(rad), nr, ny, nx))
    near = np.zeros((len(svals), nr, ny, nx), bool)
    for i, v in enumerate(svals):
        t = truth(np.asarray(conv, np.float32), v, op, bounds[v])
        if bounds[v] is None and shift:
            near[i] = np.abs(conv - v) < 1e-3
        for j, r in enumerate(rad):
            for k in range(nr):
                exp[i, j, k] = t[k] if r is None else vicinity_max(t[k], int(r // 2000), ok[k], land)
    if near.any() and (radii or True):
        near_any = near.any()
    else:
        near_any = False
    if collapse:
        n = ok.sum(axis=0)
        with np.errstate(all="ignore"):
            mean = np.where(ok[None, None], exp, 0).sum(axis=2) / n
        mask = n == 0
        expected, emask = mean, np.broadcast_to(mask, mean.shape)
        dims_r = False
    else:
        expected, emask = exp, np.broadcast_to(~ok, exp.shape)
        dims_r = has_real
    # order: realization, threshold, vicinity, y, x with length one dropped
    if dims_r:
        expected, emask = np.moveaxis(expected, 2, 0), np.moveaxis(emask, 2, 0)
    elif not collapse:
        expected, emask = expected[:, :, 0], emask[:, :, 0]
    shape = tuple(n for n in expected.shape[:-2] if n > 1) + (ny, nx)
    expected, emask = expected.reshape(shape), emask.reshape(shape)
    got = out.data
    mon.equal(got.shape, shape, "result shape")
    gm = np.ma.getmaskarray(got)
    mon.array_equal(gm, emask, "mask of the result")
    keep = ~emask
    vals_ok = np.ma.getdata(got)[keep]
    mon.check(np.all((vals_ok >= 0) & (vals_ok <= 1)), "probability outside [0, 1]", bad=vals_ok[(vals_ok < 0) | (vals_ok > 1)][:3])
    if not near_any:
        tol = 2e-3 if any(bounds.values()) else 1e-6
        mon.close(np.ma.masked_array(np.ma.getdata(got), gm), np.ma.masked_array(expected, emask), "probability", rtol=0,
                  atol=tol)
    # ---------------------------------------------------------- metadata
    _, spp, word = OPS[op]
    mon.equal(out.name(), "probability_of_air_temperature%s_%s_threshold" % ("_in_vicinity" if radii else "", word), "name")
    tc = out.coord(var_name="threshold")
    mon.equal(tc.name(), "air_temperature", "threshold coordinate name")
    mon.equal(tc.attributes.get("spp__relative_to_threshold"), spp, "threshold attribute")
    mon.equal(str(tc.units), "K", "threshold units")
    mon.close(tc.points, np.array(svals) + shift, "threshold values", rtol=1e-6)
    mon.equal(str(out.units), "1", "probability units")
    mon.equal(standard_faults(out), [], "types of the result")
    if radii:
        mon.close(out.coord("radius_of_vicinity").points, np.array(rad, float), "vicinity radii")
    if collapse:
        mon.check(not out.coords("realization"), "collapsed coordinate left")
    for k in ("time", "forecast_period", "forecast_reference_time"):
        mon.equal(out.coord(k), source.coord(k), "time coordinates kept", name=k)
    if units in (None, "K") and fill is None:
        mon.equal(snap_diff(snapshot(source), snapshot(c)), None, "input changed")
    mon.event("probabilities", got.size)
    mon.seen(op, units, fuzzy, collapse, masked, bool(radii), land is not None, fill is not None, nthr > 1, has_real)
    # ---------------------------------------------------------- relations
    if rng.chance(0.3):
        again = plugin(source.copy(), *args)
        mon.array_equal(again.data, got, "second use of a plugin")
    if not any(bounds.values()) and not radii and rng.chance(0.5):
        flip = {"gt": "le", ">": "<=", "ge": "lt", ">=": "<", "lt": "ge", "<": ">=", "le": "gt", "<=": ">"}[op]
        other = Threshold(comparison_operator=flip, threshold_units=units, **kw)(source.copy(), *args)
        mon.close(other.data, 1 - got, "complementary comparison", rtol=0, atol=1e-6)
    if nthr > 1 and fuzzy is None:
        axis = out.coord_dims(tc)[0]
        step = np.diff(np.where(gm, 0, np.ma.getdata(got)), axis=axis)
        mon.check(np.all(step <= 1e-6) if word == "above" else np.all(step >= -1e-6), "probabilities not ordered by threshold")


@scenario("C06", quick=40, thorough=600)
def percentile_collapse(rng, mon):
    """Evenly spaced percentiles count as equally likely members; plugins have no memory."""
    from improver.threshold import Threshold

    n = rng.choice([3, 4, 9])
    pc = [100.0 * (k + 1) / (n + 1) for k in range(n)]
    data = np.sort(gen.smooth_field(rng, (n, 4, 5), 270, 300), axis=0)
    thr = rng.choice([275.0, 285.0])
    plugin = Threshold(threshold_values=[thr], collapse_coord="percentile")
    for _ in range(2):
        out = plugin(gen.percentiles(data, pc))
        mon.close(out.data, (data > np.float32(thr)).mean(axis=0), "collapsed percentiles")
        mon.check(not out.coords("percentile") and not out.coords("realization"), "collapsed coordinate left")
    mon.raises(ValueError, Threshold(threshold_values=[thr], collapse_coord="percentile"),
               gen.percentiles(data[:3], [10, 20, 60]), label="uneven percentiles accepted")
    mon.seen(n, thr)


@scenario("C06", quick=60, thorough=600)
def refusals(rng, mon):
    """Contradictory or meaningless settings are refused."""
    from improver.threshold import Threshold

    bad = [
        dict(threshold_values=[1], threshold_config={"1": [0, 2]}),
        dict(),
        dict(threshold_values=[1], fuzzy_factor=rng.choice([0, 1, -0.5, 1.5])),
        dict(threshold_values=[0, 1], fuzzy_factor=0.5),
        dict(threshold_config={"1": [0, 2]}, fuzzy_factor=0.5),
        dict(threshold_config={"1": [1.5, 2]}),
        dict(threshold_config={"1": [0, 0.5]}),
        dict(threshold_config={"1": [0, 1, 2]}),
        dict(threshold_values=[1], comparison_operator=rng.choice(["eq", "", "=>", "!="])),
        dict(threshold_values=[1], collapse_coord=rng.choice(["time", "height"])),
    ]
    i = rng.randint(0, len(bad) - 1)
    mon.raises(ValueError, Threshold, label="bad settings accepted %d" % i, **bad[i])
    mon.seen(i)
    data = gen.smooth_field(rng, (2, 4, 4), 270, 300)
    data[rng.randint(0, 1), rng.randint(0, 3), rng.randint(0, 3)] = np.nan
    mon.raises(ValueError, Threshold(threshold_values=[280], collapse_coord=rng.choice([None, "realization"])),
               ensemble(data), label="NaN accepted")
    mask = cube(np.ones((4, 4), np.int8), name="land_binary_mask", units="1")
    mon.raises(ValueError, Threshold(threshold_values=[280]), ensemble(data), mask, label="land mask without vicinity accepted")


@scenario("C06", quick=50, thorough=800)
def latitude_dependent(rng, mon):
    from improver.threshold import LatitudeDependentThreshold

    ny, nx, nr = rng.randint(2, 7), rng.randint(2, 5), rng.randint(1, 3)
    data = gen.smooth_field(rng, (nr, ny, nx), 260, 300)
    m = gen.random_mask(rng, data.shape) if rng.chance(0.4) else np.zeros(data.shape, bool)
    c = ensemble(np.ma.masked_array(data.copy(), m) if m.any() else data, grid="latlon")
    lats = c.coord("latitude").points.astype(float)
    a, b = rng.choice([(280.0, 0.2), (275.0, -0.1), (285.0, 0.0)])
    op = rng.choice(sorted(OPS))
    units = rng.choice([None, "celsius"])
    s = 273.15 if units == "celsius" else 0
    before = snapshot(c)
    out = LatitudeDependentThreshold(lambda lat: a - s + b * np.asarray(lat), threshold_units=units,
                                     comparison_operator=op)(c)
    mon.equal(snap_diff(before, snapshot(c)), None, "input changed")
    thr = a + b * lats
    fn, spp, word = OPS[op]
    exp = fn(data, thr[None, :, None]).astype(float)
    near = np.abs(data - thr[None, :, None]) < 1e-3
    got = np.ma.getdata(out.data)
    mon.equal(got.shape, exp.squeeze().shape if nr == 1 and got.ndim == 2 else exp.shape, "result shape")
    bad = (got.reshape(exp.shape) != exp) & ~near & ~m
    mon.check(not bad.any(), "latitude dependent truth", n=int(bad.sum()))
    if m.any():
        mon.array_equal(np.ma.getmaskarray(out.data).reshape(m.shape), m, "mask of the result")
    tc = out.coord(var_name="threshold")
    mon.close(tc.points, thr, "threshold by latitude", rtol=1e-5)
    mon.equal(str(tc.units), "K", "threshold units")
    mon.equal(out.coord_dims(tc), out.coord_dims("latitude"), "threshold follows latitude")
    mon.equal(tc.attributes.get("spp__relative_to_threshold"), spp, "threshold attribute")
    mon.equal(out.name(), "probability_of_air_temperature_%s_threshold" % word, "name")
    mon.raises(TypeError, LatitudeDependentThreshold, 5.0, label="not a function accepted")
    mon.seen(op, units, bool(m.any()), nr)


# ---------------------------------------------------------------- C07
@scenario("C07", quick=250, thorough=5000)
def kernel(rng, mon):
    """Maximum over the valid points of the same surface inside the square."""
    from improver.utilities.spatial import maximum_within_vicinity

    ny, nx = rng.randint(1, 9), rng.randint(1, 9)
    dtype = rng.choice([np.float32, np.float32, np.float64, np.int32, np.int8, np.uint8])
    if np.dtype(dtype).kind == "f":
        data = (rng.np.rand(ny, nx) * rng.choice([1, 50]) - rng.choice([0, 25])).astype(dtype)
        if rng.chance(0.4):
            data = (rng.np.rand(ny, nx) < 0.15).astype(dtype)
    else:
        data = rng.np.randint(0, 2 if rng.chance(0.5) else 100, (ny, nx)).astype(dtype)
    r = rng.randint(0, 4)
    land = (rng.np.rand(ny, nx) < rng.choice([0.2, 0.5])) if rng.chance(0.5) else None
    if land is not None and rng.chance(0.3):
        land = land.astype(int)
    m = rng.np.rand(ny, nx) < 0.25 if rng.chance(0.5) else np.zeros((ny, nx), bool)
    arr = data.copy()
    if m.any():
        arr[m] = rng.choice([100, 0]) if np.dtype(dtype).kind != "f" else rng.choice([1e20, -1e20, np.nan])
        arr = np.ma.masked_array(arr, m)
    before = snapshot(arr)
    out = maximum_within_vicinity(arr, r, land)
    mon.equal(snapshot(arr), before, "input changed")
    exp = vicinity_max(data.astype(float), r, ~m, land)
    mon.equal(np.ma.getmaskarray(out).tolist(), m.tolist(), "mask of the result")
    mon.array_equal(np.ma.getdata(out)[~m].astype(float), exp[~m], "maximum in vicinity", r=r, land=land is not None)
    mon.seen(np.dtype(dtype).name, r, land is not None, bool(m.any()))


@scenario("C07", quick=120, thorough=2500)
def plugin(rng, mon):
    from improver.utilities.spatial import OccurrenceWithinVicinity

    spacing = rng.choice([2000.0, 1500.0, 10000.0])
    prob = rng.chance(0.5)
    nl, ny, nx = rng.randint(1, 3), rng.randint(3, 7), rng.randint(3, 7)
    data = gen.smooth_field(rng, (nl, ny, nx), 0, 1)
    m = gen.random_mask(rng, data.shape) if rng.chance(0.4) else np.zeros(data.shape, bool)
    arr = np.ma.masked_array(data.copy(), m) if m.any() else data
    if prob:
        c = gen.probabilities(arr, [280.0 + k for k in range(nl)], spacing=spacing)
    else:
        c = ensemble(arr, name="lwe_precipitation_rate", units="mm h-1", spacing=spacing)
    if nl == 1 and rng.chance(0.5):
        c, m, data = c[0], m[0:1], data
    native = rng.chance(0.4)
    if native:
        radii = rng.sample([1, 2, 3], rng.randint(1, 2))
        kw, cells = {"grid_point_radii": radii}, sorted(radii)
    else:
        radii = rng.sample([1.0 * spacing, 1.7 * spacing, 2.0 * spacing, 3.2 * spacing], rng.randint(1, 2))
        kw, cells = {"radii": radii}, [int(r / spacing) for r in sorted(radii)]
    land = None
    if rng.chance(0.5):
        land = rng.np.rand(ny, nx) < 0.5
        kw["land_mask_cube"] = cube(land.astype(np.float32), name="land_binary_mask", units="1", spacing=spacing, times=False)
    before = snapshot(c)
    out = OccurrenceWithinVicinity(**kw)(c)
    mon.equal(snap_diff(before, snapshot(c)), None, "input changed")
    exp = np.stack([np.stack([vicinity_max(data[k], n, ~m[k], land) for k in range(nl)]) for n in cells], axis=1)
    # leading, radius, y, x
    em = np.broadcast_to(m[:, None], exp.shape)
    if len(radii) == 1:
        exp, em = exp[:, 0], em[:, 0]
    if c.ndim == 2:
        exp, em = exp[0], em[0]
    mon.equal(out.shape, exp.shape, "result shape")
    got = out.data
    mon.close(np.ma.masked_array(np.ma.getdata(got), np.ma.getmaskarray(got)), np.ma.masked_array(exp, em), "maximum in vicinity")
    name = "probability_of_air_temperature_in_vicinity_above_threshold" if prob else "lwe_precipitation_rate_in_vicinity"
    mon.equal(out.name(), name, "name")
    rc = out.coord("radius_of_vicinity")
    mon.close(rc.points, np.array(sorted(radii), float), "radius coordinate")
    mon.equal(str(rc.units), "1" if native else "m", "radius units")
    mon.equal(bool(rc.attributes.get("comment")), native, "radius comment")
    mon.equal(standard_faults(out), [], "types of the result")
    mon.seen(prob, native, len(radii), land is not None, bool(m.any()), c.ndim)


@scenario("C07", quick=30, thorough=300)
def vicinity_refusals(rng, mon):
    from improver.utilities.spatial import OccurrenceWithinVicinity as V

    c = cube(gen.smooth_field(rng, (4, 5), 0, 1))
    good = cube(np.ones((4, 5), np.int8), name="land_binary_mask", units="1")
    other = cube(np.ones((4, 5), np.int8), name="land_binary_mask", units="1", corner=(0.0, 12345.0))
    mon.raises(ValueError, V, label="no radius accepted")
    mon.raises(ValueError, V, radii=[2000], grid_point_radii=[1], label="two kinds of radius accepted")
    mon.raises(ValueError, V, radii=[2000, -1], label="negative radius accepted")
    mon.raises(ValueError, V, grid_point_radii=[-1], label="negative radius accepted")
    mon.raises(ValueError, V, radii=[2000], land_mask_cube=c, label="wrong mask accepted")
    mon.raises(ValueError, V(radii=[2000], land_mask_cube=other), c, label="mask on another grid accepted")
    V(radii=[2000], land_mask_cube=good)(c)
    mon.raises(ValueError, V(radii=[rng.choice([10.0, 1999.0])]), c, label="radius below a cell accepted")
    mon.seen("refused")


@scenario("C07", quick=80, thorough=1500)
def grid_distances(rng, mon):
    """Grid spacing, cell counts and distances of a grid are those of its coordinates."""
    from improver.utilities import spatial as sp

    spacing = rng.choice([1000.0, 2000.0, 2500.0, 12345.0])
    yspacing = rng.choice([None, None, spacing * 1.5])
    ny, nx = rng.randint(2, 6), rng.randint(2, 6)
    c = cube(np.zeros((ny, nx), np.float32), spacing=spacing, yspacing=yspacing)
    unit = rng.choice(["m", "km"])
    f = 1.0 if unit == "m" else 1e-3
    mon.close(sp.calculate_grid_spacing(c, unit), spacing * f, "grid spacing", rtol=1e-5)
    mon.close(sp.calculate_grid_spacing(c, unit, axis="y"), (yspacing or spacing) * f, "grid spacing", rtol=1e-5)
    d = rng.uniform(0.3, 9.7) * spacing
    axis = rng.choice("xy")
    s = spacing if axis == "x" else (yspacing or spacing)
    cells = sp.distance_to_number_of_grid_cells(c, d, axis=axis, return_int=False)
    mon.close(cells, d / s, "cells in a distance", rtol=1e-5)
    if int(d / s) == 0:
        mon.raises(ValueError, sp.distance_to_number_of_grid_cells, c, d, axis=axis, label="distance below a cell accepted")
    elif abs(d / s - round(d / s)) > 1e-3:
        n = sp.distance_to_number_of_grid_cells(c, d, axis=axis)
        mon.check(n == int(d / s) and isinstance(n, int), "whole cells in a distance", n=n, d=d, s=s)
    mon.raises(ValueError, sp.distance_to_number_of_grid_cells, c, -d, label="negative distance accepted")
    mon.raises(ValueError, sp.distance_to_number_of_grid_cells, c, 0.0, label="zero distance accepted")
    if yspacing:
        mon.raises(ValueError, sp.check_if_grid_is_equal_area, c, label="unequal spacing accepted")
        sp.check_if_grid_is_equal_area(c, require_equal_xy_spacing=False)
    else:
        sp.check_if_grid_is_equal_area(c)
        mon.close(sp.number_of_grid_cells_to_distance(c, 3), 3 * spacing, "distance of cells", rtol=1e-5)
    before = snapshot(c)
    dx, dy = sp.DistanceBetweenGridSquares()(c)
    mon.equal(snap_diff(before, snapshot(c)), None, "input changed")
    mon.close(dx.data, np.full((ny, nx - 1), spacing), "x distances", rtol=1e-5)
    mon.close(dy.data, np.full((ny - 1, nx), yspacing or spacing), "y distances", rtol=1e-5)
    bad = c.copy()
    if nx > 2:
        p = bad.coord(axis="x").points.copy()
        p[-1] += spacing / 2
        bad.coord(axis="x").bounds = None
        bad.coord(axis="x").points = p
        mon.raises(ValueError, sp.calculate_grid_spacing, bad, "m", label="uneven spacing accepted")
    mon.raises(ValueError, sp.calculate_grid_spacing, cube(np.zeros((3, 3), np.float32), grid="latlon"), "m",
               label="degrees as metres accepted")
    ys, xs = sp.get_grid_y_x_values(c)
    mon.array_equal(ys, np.repeat(c.coord(axis="y").points[:, None], nx, 1), "grid y values")
    mon.array_equal(xs, np.repeat(c.coord(axis="x").points[None, :], ny, 0), "grid x values")
    mon.seen(spacing, yspacing is None, unit, axis)


def wrapped(rng, mon, sp, c, grid):
    """The differences of a masked field with leading dimensions."""
    ny, nx = c.shape
    nr = rng.choice([0, 2, 3])
    shape = ((nr,) if nr else ()) + (ny, nx)
    data = rng.np.uniform(-5, 5, shape).astype(np.float32)
    m = rng.np.rand(*shape) < rng.choice([0.0, 0.3])
    if m.any():
        data[m] = rng.choice([9e9, -77.0])
        data = np.ma.masked_array(data, m)
    f = cube(data, lead=[gen.realization_coord(nr)] if nr else [])
    for ax in "xy":
        f.remove_coord(f.coord(axis=ax))
        f.add_dim_coord(c.coord(axis=ax).copy(), f.ndim - (1 if ax == "x" else 2))
    before = snapshot(f)
    fx, fy = sp.DifferenceBetweenAdjacentGridSquares()(f)
    mon.equal(snap_diff(before, snapshot(f)), None, "input changed")
    d = np.where(m, np.nan, np.ma.getdata(data).astype(float))
    right = np.concatenate([d[..., 1:], d[..., :1]], axis=-1) if grid == "global" else d[..., 1:]
    left = d if grid == "global" else d[..., :-1]
    for got, want, ax in ((fx, right - left, "x"), (fy, d[..., 1:, :] - d[..., :-1, :], "y")):
        mon.equal(got.shape, want.shape, "shape of the difference")
        mon.array_equal(np.ma.getmaskarray(got.data), np.isnan(want), ax + " difference missing")
        ok = ~np.isnan(want)
        mon.close(np.ma.getdata(got.data)[ok], want[ok], ax + " difference of a masked field", rtol=1e-5, atol=1e-5)
    mon.event("masked differences", int(m.any()))


@scenario("C07", quick=80, thorough=1500)
def differences(rng, mon):
    """Differences and gradients between neighbours, on projected and on lat-lon grids."""
    from improver.utilities import spatial as sp

    grid = rng.choice(["equalarea", "latlon", "global"])
    ny, nx = rng.randint(2, 6), rng.randint(3, 6)
    if grid == "global":
        nx = rng.choice([4, 8, 12])
        c = cube(gen.smooth_field(rng, (ny, nx), 0, 10), grid="latlon", spacing=360.0 / nx, yspacing=12.0,
                 corner=(-20.0, rng.choice([0.0, -180.0])))
        c.coord(axis="x").circular = True
    else:
        c = cube(gen.smooth_field(rng, (ny, nx), 0, 10), grid=grid)
    c.attributes["mosg__model_configuration"] = "uk_ens"
    y, x = c.coord(axis="y").points.astype(float), c.coord(axis="x").points.astype(float)
    d = c.data.astype(float)
    wrapped(rng, mon, sp, c, grid)
    before = snapshot(c)
    fx, fy = sp.DifferenceBetweenAdjacentGridSquares()(c)
    for got, ax in ((fx, "x"), (fy, "y")):
        nm = c.coord(axis=ax).name()
        mon.equal([(m.method, m.coord_names, m.intervals) for m in got.cell_methods], [("difference", (nm,), ("1 grid length",))], "cell method of the difference")
        mon.equal(got.attributes, dict(c.attributes, form_of_difference="forward_difference"), "attributes of the difference")
        mon.equal(str(got.units), str(c.units), "units of the difference")
        for k in ("time", "forecast_period", "forecast_reference_time"):
            mon.equal(got.coord(k), c.coord(k), "scalar coordinates of the difference")
    mon.equal(snap_diff(before, snapshot(c)), None, "input changed")
    ex = np.diff(d, axis=1) if grid != "global" else np.concatenate([d, d[:, :1]], 1)[:, 1:] - d
    mon.close(fx.data, ex, "x difference", atol=1e-5)
    mon.close(fy.data, np.diff(d, axis=0), "y difference", atol=1e-5)
    xm = (x[1:] + x[:-1]) / 2
    if grid == "global":
        xm = np.concatenate([xm, [(x[-1] + x[0] + 360) / 2]])
    mon.close(fx.coord(axis="x").points, xm, "x mid-points", rtol=1e-6, atol=1e-3)
    mon.close(fy.coord(axis="y").points, (y[1:] + y[:-1]) / 2, "y mid-points", rtol=1e-6, atol=1e-3)
    mon.equal(fx.name(), "difference_of_air_temperature", "name of the difference")
    dx, dy = sp.DistanceBetweenGridSquares()(c)
    if grid == "equalarea":
        wx, wy = np.full(ex.shape, 2000.0), np.full((ny - 1, nx), 2000.0)
    else:
        step = np.diff(np.concatenate([x, [x[0] + 360]]) if grid == "global" else x)
        wx = 6371229.0 * np.cos(np.deg2rad(y))[:, None] * np.deg2rad(step)[None]
        wy = np.repeat(6371229.0 * np.deg2rad(np.diff(y))[:, None], nx, 1)
    mon.close(dx.data, wx, "x distance", rtol=1e-4)
    mon.close(dy.data, wy, "y distance", rtol=1e-4)
    mon.check(str(dx.units) == "m" and str(dy.units) == "m", "distance units")
    mon.equal([dx.name(), dy.name()], ["x_distance_between_grid_points", "y_distance_between_grid_points"], "names of the distances")
    for got, want in ((dx, fx), (dy, fy)):
        mon.equal([k.name() for k in got.coords(dim_coords=True)], [k.name() for k in c.coords(dim_coords=True)], "coordinates of the distances")
        for ax in "xy":
            mon.close(got.coord(axis=ax).points, want.coord(axis=ax).points, "points of the distances", rtol=1e-6, atol=1e-3)
    gx, gy = sp.GradientBetweenAdjacentGridSquares()(c)
    mon.close(gx.data, ex / wx, "x gradient", rtol=1e-3, atol=1e-9)
    mon.close(gy.data, np.diff(d, axis=0) / wy, "y gradient", rtol=1e-3, atol=1e-9)
    mon.equal(gx.name(), "gradient_of_air_temperature", "name of the gradient")
    for got in (gx, gy):
        mon.check("form_of_difference" not in got.attributes, "attribute of the difference left on the gradient")
        mon.equal(got.attributes.get("mosg__model_configuration"), "uk_ens", "attributes of the gradient")
        mon.equal(got.units, cf_units.Unit("K m-1"), "units of the gradient")
    if grid != "equalarea":
        mon.raises(ValueError, sp.number_of_grid_cells_to_distance, c, 2, label="degrees as metres accepted")
    if grid == "equalarea" and nx > 2 and ny > 2:
        rx, ry = sp.GradientBetweenAdjacentGridSquares(regrid=True)(c)
        mon.equal((rx.shape, ry.shape), (c.shape, c.shape), "regridded gradient shape")
        g = ex / wx
        mon.close(rx.data[:, 1:-1], (g[:, 1:] + g[:, :-1]) / 2, "regridded x gradient", rtol=1e-3, atol=1e-8)
    mon.seen(grid, ny, nx)
