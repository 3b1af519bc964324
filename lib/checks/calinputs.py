"""C59: the inputs of calibration are sorted, matched and put together without loss."""
import datetime as dt
import warnings

import numpy as np
from iris.coords import AuxCoord
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, snap_diff

from .calib import DAY, HOUR, history

TRUTH = "mosg__model_configuration=uk_det"


def shuffled(rng, seq):
    seq = list(seq)
    rng.shuffle(seq)
    return seq


def tagged(c, truth):
    c.attributes["mosg__model_configuration"] = "uk_det" if truth else "uk_ens"
    return c


@scenario("C59", quick=80, thorough=1500)
def forecasts_and_truth(rng, mon):
    """Every cube is a forecast, a truth or the land-sea mask, whatever the order."""
    from improver.calibration import split_forecasts_and_truth

    ny, nx = rng.randint(2, 3), rng.randint(2, 3)
    nf, nt = rng.randint(1, 4), rng.randint(1, 4)
    prob = rng.chance(0.4)
    start, lag = gen.random_time(rng), rng.choice([3, 6])
    lead = [gen.threshold_coord([280.0, 285.0])] if prob else []
    name = "probability_of_air_temperature_above_threshold" if prob else "air_temperature"
    u = "1" if prob else "K"
    shape = (2, ny, nx) if prob else (ny, nx)
    fd, td = rng.np.rand(nf, *shape).astype(np.float32), rng.np.rand(nt, *shape).astype(np.float32)
    fc = [tagged(cube(fd[i], name, u, lead=lead, time=start + i * DAY, frt=start + i * DAY - lag * HOUR), False) for i in range(nf)]
    if prob and rng.chance(0.3):
        # the truths may be plain values
        td = rng.np.rand(nt, ny, nx).astype(np.float32)
        tr = [tagged(cube(td[i], "air_temperature", "K", time=start + i * DAY, frt=start + i * DAY), True) for i in range(nt)]
    else:
        tr = [tagged(cube(td[i], name, u, lead=lead, time=start + i * DAY, frt=start + i * DAY), True) for i in range(nt)]
    mask = cube(rng.np.randint(0, 2, (ny, nx)).astype(np.int32), "land_binary_mask", "1")
    similar = rng.choice(["uk_ens", "uk_ens", "uk_det_old", "a_uk_det"])
    for c in fc:
        c.attributes["mosg__model_configuration"] = similar
    given = fc + tr
    with_mask = rng.chance(0.5) and nf + nt > 1
    if with_mask:
        given = given + [mask]
    given = shuffled(rng, given)
    snap = [content(c) for c in given]
    f, t, m = split_forecasts_and_truth(CubeList(given) if rng.chance(0.5) else list(given), TRUTH)
    mon.check((m is mask) if with_mask else m is None, "land-sea mask")
    for got, data, n, back in ((f, fd, nf, lag), (t, td, nt, 0)):
        mon.equal(sorted(int(p) for p in got.coord("time").points), [gen.seconds(start + i * DAY) for i in range(n)], "times")
        for s in got.slices_over("time"):
            i = (int(s.coord("time").points[0]) - gen.seconds(start)) // 86400
            mon.array_equal(s.data, data[i], "data of a time")
            mon.equal(int(s.coord("forecast_reference_time").points[0]), gen.seconds(start + i * DAY - back * HOUR), "reference time")
    mon.equal(f.attributes.get("mosg__model_configuration"), similar, "the forecasts")
    mon.equal(t.attributes.get("mosg__model_configuration"), "uk_det", "the truths")
    for c, s in zip(given, snap):
        if c not in fc and c not in tr:
            mon.equal(snap_diff(s, content(c)), None, "mask changed")
    mon.raises(IOError, split_forecasts_and_truth, shuffled(rng, tr + [t.copy() for t in tr[:1]]), TRUTH, label="no forecast accepted")
    mon.raises(IOError, split_forecasts_and_truth, shuffled(rng, fc), TRUTH, label="no truth accepted")
    if nf + nt > 2:
        mon.raises(IOError, split_forecasts_and_truth, shuffled(rng, fc + tr + [mask, mask.copy()]), TRUTH, label="two masks accepted")
    other = cube(mask.data, "surface_altitude", "m")
    mon.raises(ValueError, split_forecasts_and_truth, shuffled(rng, fc + tr + [mask, other]), TRUTH, label="three names accepted")
    mon.seen(nf, nt, prob, with_mask)


def coefficients(rng, n):
    out = []
    for k in shuffled(rng, ["alpha", "beta", "gamma", "delta"])[:n]:
        c = cube(rng.np.rand(2, 2).astype(np.float32), "emos_coefficient_" + k, "1")
        out.append(c)
    return out


@scenario("C59", quick=120, thorough=2000)
def forecasts_and_coefficients(rng, mon):
    """Forecast, coefficients, predictors, mask and template each find their place."""
    from improver.calibration import split_forecasts_and_bias_files, split_forecasts_and_coeffs

    kind = rng.choice(["realization", "percentile", "probability"])
    data = rng.np.rand(2, 2, 3).astype(np.float32)
    if kind == "realization":
        f = gen.ensemble(data)
    elif kind == "percentile":
        f = gen.percentiles(data, [20, 80])
    else:
        f = gen.probabilities(data, [280.0, 285.0])
    template = gen.probabilities(data, [280.0, 285.0]) if kind != "probability" and rng.chance(0.5) else None
    co = coefficients(rng, rng.choice([0, 4, 4, 2]))
    pred = []
    for n in rng.sample(["surface_altitude", "distance_to_coast", "roughness"], rng.randint(0, 2)):
        p = cube(rng.np.rand(2, 3).astype(np.float32), n, "m")
        for k in ("time", "forecast_period", "forecast_reference_time"):
            if p.coords(k):
                p.remove_coord(k)
        pred.append(p)
    mask = cube(rng.np.randint(0, 2, (2, 3)).astype(np.int32), "land_binary_mask", "1")
    for k in ("time", "forecast_period", "forecast_reference_time"):
        if mask.coords(k):
            mask.remove_coord(k)
    named = rng.chance(0.6)
    with_mask = rng.chance(0.6)
    lists = [[f], co] + [[p] for p in pred] + ([[template]] if template is not None else []) + ([[mask]] if with_mask else [])
    lists = [CubeList(shuffled(rng, k)) for k in shuffled(rng, lists) if k]
    if rng.chance(0.3):
        lists = [CubeList([c for k in lists for c in k])]
    flat = [c for k in lists for c in k]
    snap = [content(c) for c in flat]
    got = split_forecasts_and_coeffs(lists, "land_binary_mask" if named else None)
    if with_mask and not named:
        pred = pred + [mask]
    mon.check(got[0] is f, "forecast")
    ids = lambda k: None if k is None else sorted(id(c) for c in k)
    mon.equal(ids(got[1]), ids(co) if co else None, "coefficients")
    mon.equal(ids(got[2]), ids(pred) if pred else None, "static predictors")
    mon.check(got[3] is (mask if with_mask and named else None), "land-sea mask")
    mon.check(got[4] is template, "probability template")
    mon.equal([content(c) for c in flat] == snap, True, "inputs changed")
    bad = [k for k in lists]
    mon.raises(ValueError, split_forecasts_and_coeffs, shuffled(rng, bad + [CubeList([f.copy()])]), "land_binary_mask", label="two forecasts accepted")
    two = [gen.probabilities(data, [280.0, 285.0]), gen.probabilities(data, [280.0, 285.0], name="wind_speed")]
    rest = [CubeList([c for c in k if c is not f and c is not template]) for k in lists]
    mon.raises(ValueError, split_forecasts_and_coeffs, shuffled(rng, rest + [CubeList([c]) for c in two]), label="two probabilities accepted")
    mon.raises(ValueError, split_forecasts_and_coeffs, rest, "land_binary_mask", label="no forecast accepted")
    others = [gen.ensemble(data, name="wind_speed"), gen.ensemble(data, name="air_temperature"), two[0]]
    for n in (2, 3):
        mon.raises(ValueError, split_forecasts_and_coeffs, shuffled(rng, rest + [CubeList([c]) for c in others[:n]]), "land_binary_mask",
                   label="forecasts of %d diagnostics accepted" % n)
    # bias files
    nb = rng.randint(0, 3)
    biases = [cube(rng.np.rand(2, 3).astype(np.float32), "forecast_error_of_air_temperature", "K") for _ in range(nb)]
    order = shuffled(rng, [f] + biases)
    a, b = split_forecasts_and_bias_files(CubeList(order))
    mon.check(a is f, "forecast beside bias files")
    mon.equal(None if b is None else [id(c) for c in b], [id(c) for c in order if c is not f] if nb else None, "bias files")
    mon.raises(ValueError, split_forecasts_and_bias_files, CubeList(biases), label="bias files without a forecast accepted")
    mon.raises(ValueError, split_forecasts_and_bias_files, CubeList(shuffled(rng, [f, f.copy()] + biases)), label="two forecasts accepted")
    mon.seen(kind, len(co), len(pred), with_mask, named, template is not None, nb)


@scenario("C59", quick=120, thorough=2500)
def matching(rng, mon):
    """Forecasts and truths of the same time and period are paired, all others left out."""
    from improver.calibration.utilities import filter_non_matching_cubes

    bounds = rng.chance(0.5)
    lag = rng.choice([3, 6])
    start = gen.random_time(rng)
    n = rng.randint(2, 6)
    fdays = sorted(rng.sample(range(7), n))
    tdays = sorted(rng.sample(range(7), rng.randint(2, 6)))
    nr = rng.choice([0, 2])
    sp = (2, 3)
    fdata = rng.np.rand(n, *(((nr,) if nr else ()) + sp)).astype(np.float32)
    nan = [i for i in range(n) if rng.chance(0.15)]
    for i in nan:
        fdata[i] = np.nan
    if rng.chance(0.3):
        fdata[0].flat[0] = np.nan
    tdata = rng.np.rand(len(tdays), *sp).astype(np.float32)
    f = history(rng, fdata, "air_temperature", "K", [gen.realization_coord(nr)] if nr else [], start, lag, bounds=bounds, days=fdays)
    t = history(rng, tdata, "air_temperature", "K", [], start, lag, obs=True, bounds=bounds, days=tdays)
    wrong = []
    if bounds and rng.chance(0.6):
        # some truths are of another period
        which = rng.randint(0, 1)
        wrong = [d for d in tdays if rng.chance(0.4)]
        b = t.coord("time").bounds.copy()
        for i, d in enumerate(tdays):
            if d in wrong:
                if which:
                    b[i] = b[i] - np.array([1800, 0])
                else:
                    b[i] = b[i] + np.array([0, 600])
        t.coord("time").bounds = b
    if nr and rng.chance(0.4):
        f.transpose([1, 0, 2, 3])
    if rng.chance(0.3):
        order = list(range(3))
        rng.shuffle(order)
        t.transpose(order)
    snap = content(f), content(t)
    both = [d for d in fdays if d in tdays and d not in wrong and fdays.index(d) not in nan]
    if not both:
        mon.raises(ValueError, filter_non_matching_cubes, f, t, label="nothing matches")
        return mon.seen("nothing")
    a, b = filter_non_matching_cubes(f, t)
    mon.equal(snap_diff(snap, (content(f), content(t))), None, "input changed")
    for got, data, days in ((a, fdata, fdays), (b, tdata, tdays)):
        mon.equal([int(p) for p in got.coord("time").points], [gen.seconds(start + d * DAY) for d in both], "times kept")
        for s, d in zip(got.slices_over("time"), both):
            k = data[days.index(d)]
            if got is b:
                s = s.copy()
                s.transpose([[c.name() for c in s.coords(dim_coords=True)].index(v) for v in (
                    "projection_y_coordinate", "projection_x_coordinate")])
            mon.array_equal(s.data, k, "data of a time")
    if len(both) > 1:
        want = [k.name() for k in f.coords(dim_coords=True)]
        mon.equal([k.name() for k in a.coords(dim_coords=True)], want, "order of dimensions")
        mon.equal([k.name() for k in b.coords(dim_coords=True)], [k.name() for k in t.coords(dim_coords=True)], "order of dimensions")
    mon.event("pairs", len(both))
    # a time forecast twice counts once
    base = start + 100 * DAY
    days = [0, 1, 0] if rng.chance(0.5) else [0, 0, 1]
    d3 = rng.np.rand(3, *sp).astype(np.float32)
    many = CubeList([cube(d3[i], time=base + k * DAY, frt=base - (9 - i) * DAY) for i, k in enumerate(days)])
    for c in many:
        c.remove_coord("forecast_period")
    obs = history(rng, rng.np.rand(2, *sp).astype(np.float32), "air_temperature", "K", [], base, lag, obs=True, days=[0, 1])
    a, b = filter_non_matching_cubes(many.merge_cube(), obs)
    mon.equal(sorted(int(p) for p in a.coord("time").points), [gen.seconds(base + i * DAY) for i in (0, 1)], "times forecast twice")
    mon.equal(a.shape, b.shape, "pairs of times forecast twice")
    mon.seen(bounds, len(both), bool(wrong), bool(nan), nr)


@scenario("C59", quick=150, thorough=3000)
def consistency(rng, mon):
    """One hour of reference and one forecast period; sub-hourly periods use the next hour."""
    from improver.calibration import add_warning_comment, validity_time_check
    from improver.calibration.utilities import (
        check_forecast_consistency, check_predictor, create_unified_frt_coord, forecast_coords_match, get_frt_hours)

    t0 = gen.random_time(rng).replace(minute=0)
    d = rng.np.rand(2, 2).astype(np.float32)
    mk = lambda frt, lead_s: cube(d, time=frt + dt.timedelta(seconds=lead_s), frt=frt)
    lead_a, lead_b = [3600 * rng.randint(1, 3) - rng.choice([0, 0, 900, 1800, 2700, 3599]) for _ in range(2)]
    frt_b = t0 + DAY * rng.randint(0, 3) + rng.choice([0, 0, 0, 1, 6]) * HOUR + dt.timedelta(minutes=rng.choice([0, 0, 15, 59]))
    a, b = mk(t0, lead_a), mk(frt_b, lead_b)
    same = -(-lead_a // 3600) == -(-lead_b // 3600) and frt_b.hour == t0.hour
    if rng.chance(0.5):
        a, b = b, a
    if same:
        forecast_coords_match(a, b)
        mon.checks += 1
    else:
        mon.raises(ValueError, forecast_coords_match, a, b, label="another period or hour accepted")
    # several forecasts
    n = rng.randint(2, 4)
    hours = [0] * n
    if rng.chance(0.4):
        hours[rng.randrange(n)] = rng.choice([1, 3])
    frts = [t0 + DAY * i + HOUR * h for i, h in enumerate(hours)]
    h = CubeList([mk(k, 7200) for k in frts]).merge_cube()
    mon.equal(sorted(int(k) for k in get_frt_hours(h.coord("forecast_reference_time"))), sorted({k.hour for k in frts}), "hours of reference")
    if len(set(hours)) == 1:
        check_forecast_consistency(h)
    else:
        mon.raises(ValueError, check_forecast_consistency, h, label="hours of reference differ")
    late = CubeList([cube(d, time=t0 + DAY * i + HOUR * (2 + i), frt=t0 + DAY * i) for i in range(2)]).merge_cube()
    mon.raises(ValueError, check_forecast_consistency, late, label="forecast periods differ")
    # the range of reference times
    frt = h.coord("forecast_reference_time")
    if rng.chance(0.5):
        pts = frt.points
        frt = AuxCoord(pts, frt.standard_name, units=frt.units, bounds=np.stack([pts - np.array([rng.choice([0, 7200, 5 * 86400]) for _ in pts], pts.dtype),
                                          pts + np.array([rng.choice([0, 3600, 5 * 86400]) for _ in pts], pts.dtype)], -1))
        lo, hi = int(frt.bounds.min()), int(frt.bounds.max())
    else:
        lo, hi = int(frt.points.min()), int(frt.points.max())
    u = create_unified_frt_coord(frt)
    mon.equal(([int(k) for k in u.points], u.bounds.astype(int).tolist()), ([int(frt.points.max())], [[lo, hi]]), "range of reference times")
    mon.equal((u.name(), str(u.units), u.points.dtype), (frt.name(), str(frt.units), frt.points.dtype), "reference time kept")
    # validity times
    vt = gen.random_time(rng).replace(minute=rng.choice([0, 15, 30]))
    c = cube(d, time=vt, frt=vt)
    times = ["%02d%02d" % (rng.randint(0, 23), rng.choice([0, 15])) for _ in range(rng.randint(0, 3))]
    if rng.chance(0.5):
        times.insert(rng.randint(0, len(times)), "%02d%02d" % (vt.hour, vt.minute))
    mon.equal(bool(validity_time_check(c, times)), "%02d%02d" % (vt.hour, vt.minute) in times, "validity time", times=times)
    old = rng.choice([None, "", "An old comment"])
    if old is not None:
        c.attributes["comment"] = old
    got = add_warning_comment(c).attributes["comment"]
    text = "Warning: Calibration of this forecast has been attempted, however, no calibration has been applied."
    mon.equal(got, (old + "\n" if old else "") + text, "comment")
    w = rng.choice(["mean", "realizations", "Mean", "REALIZATIONS", "median", "", "realization"])
    if w.lower() in ("mean", "realizations"):
        mon.equal(check_predictor(w), w.lower(), "predictor")
    else:
        mon.raises(ValueError, check_predictor, w, label="unknown predictor")
    mon.seen(same, len(set(hours)), old)


@scenario("C59", quick=120, thorough=2500)
def land_and_sea(rng, mon):
    """Masked points take the uncalibrated value, all others keep the calibrated one."""
    from improver.calibration.utilities import merge_land_and_sea

    shape = (2, rng.randint(1, 4), rng.randint(2, 4))
    cal, raw = [rng.np.rand(*shape).astype(np.float32) for _ in range(2)]
    mask = np.broadcast_to(gen.random_mask(rng, shape[1:]), shape).copy() if rng.chance(0.8) else np.zeros(shape, bool)
    how = rng.choice(["masked", "plain", "unmasked"])
    if how == "plain":
        mask[:] = False
    lead = [gen.realization_coord(2)]
    hidden = np.where(mask, 999.0, cal).astype(np.float32)
    a = cube(hidden if how == "plain" else np.ma.masked_array(hidden, mask if how == "masked" else False), lead=lead)
    if how == "unmasked":
        mask[:] = False
        a.data = np.ma.masked_array(cal, False)
    b = cube(raw, lead=lead)
    snap = content(b)
    merge_land_and_sea(a, b)
    mon.close(np.ma.getdata(a.data), np.where(mask, raw, cal), "merged values", rtol=0, atol=0)
    mon.check(not np.ma.is_masked(a.data), "points still masked")
    mon.equal(a.data.dtype, np.dtype(np.float32), "type")
    mon.equal(snap_diff(snap, content(b)), None, "input changed")
    other = cube(rng.np.rand(2, shape[1], shape[2] + 1).astype(np.float32), lead=lead)
    mon.raises(ValueError, merge_land_and_sea, a, other, label="another grid accepted")
    mon.seen(how, bool(mask.any()), bool(mask.all()))


@scenario("C59", quick=150, thorough=3000)
def arrays(rng, mon):
    """Reshaping for the minimisation keeps every value in its place."""
    from improver.calibration.utilities import (
        broadcast_data_to_time_coord, check_data_sufficiency, convert_cube_data_to_2d, flatten_ignoring_masked_data)

    nr, ny, nx = rng.randint(1, 4), rng.randint(1, 4), rng.randint(2, 4)
    data = rng.np.rand(nr, ny, nx).astype(np.float32)
    m = gen.random_mask(rng, data.shape) if rng.chance(0.4) else None
    c = cube(data if m is None else np.ma.masked_array(data, m), lead=[gen.realization_coord(nr)])
    snap = content(c)
    full = data if m is None else np.where(m, np.nan, data)
    if rng.chance(0.5):
        got, want = convert_cube_data_to_2d(c), full.reshape(nr, -1).T
    else:
        got, want = convert_cube_data_to_2d(c, transpose=False), full.reshape(nr, -1)
    mon.array_equal(got, want, "two dimensions")
    got = convert_cube_data_to_2d(c, coord="time")
    mon.array_equal(got, full.reshape(1, -1).T, "another coordinate")
    mon.equal(snap_diff(snap, content(c)), None, "input changed")
    # flattening
    one = gen.random_mask(rng, (ny, nx))
    same = np.broadcast_to(one, data.shape).copy()
    arr = np.ma.masked_array(data, same) if rng.chance(0.7) else data
    keep = ~np.ma.getmaskarray(arr)
    if keep.any():
        mon.array_equal(flatten_ignoring_masked_data(arr), data[keep], "flattened")
        mon.array_equal(flatten_ignoring_masked_data(arr, preserve_leading_dimension=True),
                        np.stack([data[i][keep[i]] for i in range(nr)]), "flattened by member")
    if nr > 1:
        uneven = same.copy()
        k = rng.randrange(nr)
        if rng.chance(0.5):
            uneven[k] = np.roll(uneven[k], 1, axis=1)
        else:
            uneven[k, 0, 0] ^= True
        if uneven.any() and not np.array_equal(uneven, same):
            mon.raises(ValueError, flatten_ignoring_masked_data, np.ma.masked_array(data, uneven), preserve_leading_dimension=True,
                       label="masks that differ accepted")
    # time
    nt = rng.randint(2, 4)
    hist = history(rng, rng.np.rand(nt, ny, nx).astype(np.float32), "air_temperature", "K", [], gen.random_time(rng), 3)
    still = cube(rng.np.rand(ny, nx).astype(np.float32) if rng.chance(0.6) else
                 np.ma.masked_array(rng.np.rand(ny, nx).astype(np.float32), one), "surface_altitude", "m")
    for k in ("time", "forecast_period", "forecast_reference_time"):
        if still.coords(k):
            still.remove_coord(k)
    lst = shuffled(rng, [hist, still])
    for g, k in zip(broadcast_data_to_time_coord(CubeList(lst)), lst):
        mon.close(g, k.data if k is hist else np.ma.stack([still.data] * nt) if np.ma.isMaskedArray(still.data) else np.stack([still.data] * nt),
                  "broadcast over time", rtol=0, atol=0)
    alone = hist[0]
    for g, k in zip(broadcast_data_to_time_coord(CubeList([alone, still])), (alone, still)):
        mon.close(g, k.data, "one time", rtol=0, atol=0)
    # missing data at sites
    ns = rng.randint(1, 4)
    fd = rng.np.rand(nt, nr, ns).astype(np.float32)
    td = rng.np.rand(nt, ns).astype(np.float32)
    for i in range(nt):
        for s in range(ns):
            if rng.chance(0.4):
                fd[i, :, s] = td[i, s] = np.nan
            elif rng.chance(0.2):
                td[i, s] = np.nan  # a missing truth alone is not a missing pair
            elif rng.chance(0.2):
                fd[i, :, s] = np.nan  # nor is a missing forecast
    start = gen.random_time(rng)
    f = history(rng, fd, "air_temperature", "K", [gen.realization_coord(nr)], start, 3, spot=True)
    t = history(rng, td, "air_temperature", "K", [], start, 3, obs=True, spot=True)
    share = (np.isnan(fd).all(axis=1) & np.isnan(td))
    each = rng.chance(0.5)
    worst = share.mean(axis=0).max() if each else share.mean()
    allowed = rng.choice([0.0, 0.25, 0.5, 0.75, 1.0])
    if abs(worst - allowed) > 1e-9 or worst == allowed:
        if worst > allowed:
            mon.raises(ValueError, check_data_sufficiency, f, t, each, allowed, label="too little data accepted")
        else:
            check_data_sufficiency(f, t, each, allowed)
            mon.checks += 1
    gd = np.full((nt, nr, ny, nx), np.nan, np.float32)
    check_data_sufficiency(history(rng, gd, "air_temperature", "K", [gen.realization_coord(nr)], start, 3),
                           history(rng, gd[:, 0], "air_temperature", "K", [], start, 3, obs=True), each, 0.0)
    mon.seen(nr, m is not None, each, worst > allowed)
