"""C20: reliability tables.  C21: reliability calibration.  C22: simple bias correction.
C23: rescaling with altitude differences."""
import datetime as dt
import warnings

import iris
import numpy as np
from iris.coords import AuxCoord, DimCoord
from iris.cube import Cube, CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, snap_diff, snapshot, standard_faults

HOUR = dt.timedelta(hours=1)
DAY = dt.timedelta(days=1)


def history(rng, data, name, units, lead, start, lag, obs=False, spot=False, bounds=False, days=None):
    """Cube of data[t, lead..., space] at daily validity times."""
    slices = CubeList()
    days = range(len(data)) if days is None else days
    for i, d in enumerate(days):
        vt = start + d * DAY
        kw = dict(lead=lead, time=vt, frt=vt if obs else vt - lag * HOUR,
                  bounds=(vt - HOUR, vt) if bounds else None)
        slices.append(gen.spot(data[i], name=name, units=units, **kw) if spot
                      else cube(data[i], name=name, units=units, **kw))
    order = list(range(len(slices)))
    return CubeList([slices[i] for i in order]).merge_cube()


# --------------------------------------------------------------------- C20
def naive_bin(p, n, low, high):
    """Index of the probability bin of p (float32)."""
    inner = n - bool(low) - bool(high)
    p = np.float32(p)
    if low and p <= np.float32(1e-6):
        return 0
    if high and p >= np.float32(1.0 - 1e-6):
        return n - 1
    edges = np.linspace(0, 1, inner + 1, dtype=np.float32)
    k = 0
    for j in range(inner):
        if p >= edges[j]:
            k = j
    return k + bool(low)


def table_case(rng, spot=None):
    spot = rng.chance(0.3) if spot is None else spot
    nt = rng.randint(1, 5)
    nthr = rng.randint(1, 3)
    sp = (rng.randint(1, 5),) if spot else (rng.randint(1, 4), rng.randint(2, 4))
    n = rng.randint(3, 7)
    low, high = rng.chance(0.4), rng.chance(0.4)
    vals = [0.0, 1.0, 0.5, 0.2, 0.4, 1e-6, 5e-7, 1 - 1e-6, 1 - 2e-7, 1 / 3.0]
    fc = np.where(rng.np.rand(nt, nthr, *sp) < 0.4, rng.np.choice(vals, size=(nt, nthr) + sp),
                  rng.np.rand(nt, nthr, *sp)).astype(np.float32)
    ob = (rng.np.rand(nt, nthr, *sp) < fc).astype(np.float32)
    # events never foreseen and certain events that did not occur
    ob = np.where(rng.np.rand(*ob.shape) < 0.1, 1 - ob, ob).astype(np.float32)
    return spot, nt, nthr, sp, n, low, high, fc, ob


@scenario("C20", quick=150, thorough=3500)
def construct(rng, mon):
    """Counts of forecasts, events and summed probabilities per bin and point."""
    from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables

    spot, nt, nthr, sp, n, low, high, fc, ob = table_case(rng)
    thr = gen.threshold_coord(sorted(rng.sample(range(270, 300), nthr)))
    lead = [thr]
    name = "probability_of_air_temperature_above_threshold"
    start = gen.random_time(rng)
    lag = rng.choice([3, 6, 12])
    bounds = rng.chance(0.3)
    tmask = None
    if rng.chance(0.5):
        tmask = rng.np.rand(nt, *sp) < rng.choice([0.2, 0.6])
        if rng.chance(0.4):
            k = rng.randrange(nt)
            keep = tmask[k].copy()
            tmask[:] = False
            tmask[k] = keep
        tmask = np.broadcast_to(tmask.reshape((nt, 1) + sp), ob.shape).copy()
    truth = ob if tmask is None else np.ma.masked_array(ob, tmask)
    days = list(range(nt))
    f = history(rng, fc, name, "1", lead, start, lag, spot=spot, bounds=bounds, days=days)
    # truths for other days as well
    tdays, tdata = list(days), list(range(nt))
    drop = None
    if nt > 2 and rng.chance(0.3):
        drop = rng.randrange(nt)
        tdays.pop(drop)
        tdata.pop(drop)
    t = history(rng, truth[tdata], name, "1", lead, start, lag, obs=True, spot=spot, bounds=bounds, days=tdays)
    if rng.chance(0.3) and nt - (drop is not None) > 1:
        extra = history(rng, truth[:1], name, "1", lead, start + 40 * DAY, lag, obs=True, spot=spot, bounds=bounds)
        parts = CubeList(list(t.slices_over("time")) + [extra])
        t = parts.merge_cube()
    use = [i for i in range(nt) if i != drop]
    snap = (content(f), content(t))
    plugin = ConstructReliabilityCalibrationTables(n, low, high)
    # bins tile [0, 1]
    b = plugin.probability_bins
    mon.equal(b.shape, (n, 2), "number of bins")
    mon.check(b[0, 0] == 0 and b[-1, 1] == 1, "bins do not span 0 to 1")
    agg = None
    if rng.chance(0.3):
        agg = ["spot_index"] if spot else ["projection_y_coordinate", "projection_x_coordinate"]
    out = plugin(f, t) if agg is None else plugin(f, t, list(agg))
    mon.equal(snap_diff(snap, (content(f), content(t))), None, "input changed")
    exp = np.zeros((nthr, 3, n) + sp)
    valid = np.zeros((nthr,) + sp, bool)
    for i in use:
        for idx in np.ndindex(nthr, *sp):
            if tmask is not None and tmask[(i,) + idx]:
                continue
            p = fc[(i,) + idx]
            k = naive_bin(p, n, low, high)
            at = (idx[0], slice(None), k) + idx[1:]
            exp[at] += [1.0 if ob[(i,) + idx] == 1 else 0.0, p, 1.0]
            valid[idx] = True
    dims = [k.name() for k in out.coords(dim_coords=True)]
    names = [thr.name(), "table_row_index", "probability_bin"] + (
        [] if agg else ["spot_index"] if spot else ["projection_y_coordinate", "projection_x_coordinate"])
    got = np.ma.transpose(np.ma.asanyarray(out.data), [dims.index(k) for k in names if k in dims])
    got = got.reshape(tuple(len(out.coord(k).points) for k in names))
    mon.equal([str(r) for r in out.coord("table_row_name").points],
              ["observation_count", "sum_of_forecast_probabilities", "forecast_count"], "rows")
    mask = np.broadcast_to(~valid.reshape((nthr, 1, 1) + sp), exp.shape)
    if agg:
        mask = mask.all(axis=tuple(range(3, exp.ndim)))
        exp = exp.sum(axis=tuple(range(3, exp.ndim)))
    if mask.any() and tmask is not None:
        mon.check(np.array_equal(np.ma.getmaskarray(got), mask), "mask of the table", got=np.ma.getmaskarray(got).sum(), want=mask.sum())
    else:
        mon.check(not np.ma.is_masked(got), "masked table")
    g = np.where(mask, 0, np.ma.getdata(got))
    mon.close(g, np.where(mask, 0, exp), "table", rtol=2e-5, atol=1e-4, low=low, high=high, n=n)
    mon.equal(out.dtype, np.float32, "type")
    mon.equal((out.name(), out.attributes.get("title"), str(out.units)),
              ("reliability_calibration_table", "Reliability calibration data table", "1"), "name and title")
    frt = out.coord("forecast_reference_time")
    frts = [gen.seconds(start + i * DAY - lag * HOUR) for i in use]
    mon.equal((int(frt.points[0]), [int(v) for v in frt.bounds[0]]), (max(frts), [min(frts), max(frts)]), "reference time")
    mon.equal(int(out.coord("forecast_period").points[0]), lag * 3600, "forecast period")
    mon.close(out.coord(thr.name()).points, thr.points, "thresholds")
    again = plugin(f, t) if agg is None else plugin(f, t, list(agg))
    mon.close(again.data, out.data, "second use", rtol=0, atol=0)
    mon.seen(nt, nthr, n, low, high, spot, tmask is not None, bool(agg), drop is not None)


@scenario("C20", quick=80, thorough=1500)
def aggregate(rng, mon):
    """Tables over separate periods add up; overlapping ones are refused."""
    from improver.calibration.reliability_calibration import (
        AggregateReliabilityCalibrationTables, ConstructReliabilityCalibrationTables)

    spot, _, nthr, sp, n, low, high, _, _ = table_case(rng)
    thr = gen.threshold_coord(sorted(rng.sample(range(270, 300), nthr)))
    name = "probability_of_air_temperature_above_threshold"
    start = gen.random_time(rng)
    nt = rng.randint(2, 4)
    nparts = rng.randint(1, 3)
    plugin = ConstructReliabilityCalibrationTables(n, low, high)
    tables, total = [], 0
    masked = rng.chance(0.3)
    for k in range(nparts):
        fc = rng.np.rand(nt, nthr, *sp).astype(np.float32)
        ob = (rng.np.rand(nt, nthr, *sp) < fc).astype(np.float32)
        if masked:
            m = np.broadcast_to((rng.np.rand(nt, *sp) < 0.6).reshape((nt, 1) + sp), ob.shape).copy()
            ob = np.ma.masked_array(ob, m)
        days = [k * 10 + d for d in range(nt)]
        f = history(rng, fc, name, "1", [thr], start, 6, spot=spot, days=days)
        t = history(rng, ob, name, "1", [thr], start, 6, obs=True, spot=spot, days=days)
        tables.append(plugin(f, t))
    coords = rng.choice([None, ["spot_index"] if spot else ["projection_y_coordinate", "projection_x_coordinate"]])
    order = list(range(nparts))
    rng.shuffle(order)
    given = CubeList([tables[i] for i in order])
    snap, csnap = content(given), None if coords is None else list(coords)
    agg = AggregateReliabilityCalibrationTables()
    out = agg(given, coords)
    mon.equal(snap_diff(snap, content(given)), None, "input changed")
    mon.equal(coords, csnap, "list of coordinates changed")
    stack = np.ma.stack([np.ma.asanyarray(t.data) for t in tables])
    exp = stack.sum(axis=0)
    if coords is not None:
        tdims = [d.name() for d in tables[0].coords(dim_coords=True)]
        exp = exp.sum(axis=tuple(tdims.index(c) for c in coords if c in tdims))
        exp = np.ma.asanyarray(exp)
    mon.close(np.ma.filled(out.data, 0), np.ma.filled(exp, 0), "aggregated table", rtol=1e-5, atol=1e-4)
    frt = out.coord("forecast_reference_time")
    lo = min(int(t.coord("forecast_reference_time").bounds.min()) for t in tables)
    hi = max(int(t.coord("forecast_reference_time").bounds.max()) for t in tables)
    mon.equal(([int(v) for v in frt.points], [int(v) for v in frt.bounds[0]]), ([hi], [lo, hi]), "reference time")
    mon.close(np.ma.filled(agg(given, coords).data, 0), np.ma.filled(out.data, 0), "second use", rtol=0, atol=0)
    if nparts > 1:
        bad = tables[0].copy()
        bad.coord("forecast_reference_time").bounds = [[lo, hi]]
        mon.raises(ValueError, agg, CubeList([bad] + tables[1:]), label="overlapping tables accepted")
        # one cycle shared between the last two periods
        last = tables[-1].copy()
        lb = last.coord("forecast_reference_time").bounds.copy()
        lb[0, 0] = int(tables[-2].coord("forecast_reference_time").bounds.max())
        last.coord("forecast_reference_time").bounds = lb
        shared = CubeList([tables[i] if i != nparts - 1 else last for i in order])
        mon.raises(ValueError, agg, shared, label="tables sharing a cycle accepted")
    mon.seen(nparts, order == sorted(order), coords is None, masked, spot)


@scenario("C20", quick=30, thorough=300)
def construct_refusals(rng, mon):
    from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables

    mon.raises(ValueError, ConstructReliabilityCalibrationTables, rng.choice([1, 2]), True, True)
    start = gen.random_time(rng)
    name = "probability_of_air_temperature_above_threshold"
    a, b = gen.threshold_coord([280]), gen.threshold_coord([281])
    d = rng.np.rand(2, 1, 2, 3).astype(np.float32)
    f = history(rng, d, name, "1", [a], start, 6)
    plugin = ConstructReliabilityCalibrationTables()
    mon.raises(ValueError, plugin, f, history(rng, d, name, "1", [b], start, 6, obs=True), label="thresholds differ")
    mon.raises(ValueError, plugin, f, history(rng, d, name, "1", [a], start + 50 * DAY, 6, obs=True), label="no common times")
    mix = CubeList([history(rng, d[:1], name, "1", [a], start, 6), history(rng, d[:1], name, "1", [a], start + DAY, 9)])
    t = history(rng, d, name, "1", [a], start, 6, obs=True)
    mixed = CubeList([s for c in mix for s in c.slices_over("time")]).merge_cube()
    mon.raises(Exception, plugin, mixed, t, label="mixed forecast periods accepted")
    mon.seen("refused")


# --------------------------------------------------------------------- C21
def table_cube(rng, counts, thr_value, thr_name="air_temperature", scalars=()):
    """Reliability table cube (rows, bins) for one threshold; counts (3, n)."""
    n = counts.shape[1]
    low = np.linspace(0, 1, n + 1, dtype=np.float32)
    up = np.nextafter(low, 0, dtype=np.float32)
    up[-1] = 1
    b = np.stack([low[:-1], up[1:]], 1).astype(np.float32)
    bins = DimCoord(b.mean(axis=1, dtype=np.float32), long_name="probability_bin", units=1, bounds=b)
    idx = DimCoord(np.arange(3, dtype=np.int32), long_name="table_row_index", units=1)
    rows = AuxCoord(np.array(["observation_count", "sum_of_forecast_probabilities", "forecast_count"]),
                    long_name="table_row_name", units=1)
    c = Cube(counts.astype(np.float32), units=1, dim_coords_and_dims=[(idx, 0), (bins, 1)],
             aux_coords_and_dims=[(rows, 0)], attributes=dict(gen.ATTRS))
    c.rename("reliability_calibration_table")
    t = gen.threshold_coord([thr_value], thr_name)
    c.add_aux_coord(t)
    for s in scalars:
        c.add_aux_coord(s)
    return c


def random_counts(rng, n, big=True):
    edges = np.linspace(0, 1, n + 1)
    fc = rng.np.randint(0, 2000 if big else 300, size=n).astype(float)
    if rng.chance(0.4):
        fc[rng.np.rand(n) < 0.5] = rng.choice([0, 10, 150])
    if rng.chance(0.3):
        fc[0] += 5000
    p = edges[:-1] + rng.np.rand(n) * np.diff(edges) * 0.98
    obs = fc * np.clip(p + rng.np.randn(n) * rng.choice([0.02, 0.3]), 0, 1)
    obs = np.floor(np.minimum(obs, fc))
    return np.stack([obs, fc * p, fc])


def manipulated(c, minimum):
    """The documented merging and levelling; None where a tie leaves the choice open."""
    bins = [list(v) for v in np.float32(c).astype(float).T]
    edges = [[k / len(bins), (k + 1) / len(bins)] for k in range(len(bins))]

    def join(u):
        bins[u - 1] = [a + b for a, b in zip(bins[u - 1], bins.pop(u))]
        edges[u - 1] = [edges[u - 1][0], edges.pop(u)[1]]

    while len(bins) > 1 and min(b[2] for b in bins) < minimum:
        low = [b[2] for b in bins if b[2] < minimum]
        if low.count(max(low)) > 1:
            return None
        i = [b[2] for b in bins].index(max(low))
        if i == 0 or i == len(bins) - 1:
            join(max(i, 1))
        elif bins[i - 1][2] == bins[i + 1][2]:
            return None
        else:
            join(i if bins[i - 1][2] < bins[i + 1][2] else i + 1)
    freq = lambda: [b[0] / b[2] if b[2] else 0.0 for b in bins]
    f = freq()
    falling = [k for k in range(1, len(f)) if f[k] < f[k - 1]]
    if any(abs(f[k] - f[k - 1]) < 1e-6 for k in range(1, len(f))):
        return None
    if falling:
        join(falling[-1])
        f = freq()
        if len(bins) > 1 and bins[0][2] == bins[-1][2]:
            return None
        if bins[0][2] < bins[-1][2]:
            for k in range(len(f) - 2, -1, -1):
                f[k] = min(f[k], f[k + 1])
        else:
            for k in range(1, len(f)):
                f[k] = max(f[k], f[k - 1])
        for b, v in zip(bins, f):
            b[0] = v * b[2]
    return np.array(bins).T, np.array(edges)


@scenario("C21", quick=150, thorough=4000)
def manipulate(rng, mon):
    """Bins are merged until sampled well enough, event frequencies then never decrease."""
    from improver.calibration.reliability_calibration import ManipulateReliabilityTable

    n = rng.randint(1, 7)
    nthr = rng.randint(1, 3)
    thr = sorted(rng.sample(range(270, 300), nthr))
    minimum = rng.choice([1, 50, 200, 200, 1000])
    counts = [random_counts(rng, n) for _ in thr]
    if rng.chance(0.3):
        # some bins hold exactly the minimum
        for c in counts:
            k = rng.randrange(n)
            if c[2, k] > 0:
                c[:, k] = np.floor(c[0, k] * minimum / c[2, k]), c[1, k] * minimum / c[2, k], minimum
    pbp = rng.chance(0.3)
    npts = rng.randint(1, 3)
    if pbp:
        counts = [[random_counts(rng, n, big=False) for _ in range(npts)] for _ in thr]
        cubes = CubeList()
        for k, t in enumerate(thr):
            for j in range(npts):
                cubes.append(table_cube(rng, counts[k][j], t, scalars=[
                    DimCoord(np.array([j], np.int32), long_name="spot_index", units="1"),
                    AuxCoord(np.array([50.0 + j], np.float32), "latitude", units="degrees"),
                    AuxCoord(np.array([-3.0 + j], np.float32), "longitude", units="degrees")]))
        tab = cubes.merge_cube()
        dims = [k.name() for k in tab.coords(dim_coords=True)]
        # the layout that the construction yields
        want = [k for k in ("air_temperature", "table_row_index", "probability_bin", "spot_index") if k in dims]
        tab.transpose([dims.index(k) for k in want])
    else:
        tab = CubeList([table_cube(rng, c, t) for c, t in zip(counts, thr)]).merge_cube()
    snap = content(tab)
    plugin = ManipulateReliabilityTable(minimum, point_by_point=pbp)
    out = plugin(tab)
    mon.equal(snap_diff(snap, content(tab)), None, "input changed")
    mon.equal(len(out), nthr * (npts if pbp else 1), "number of tables")
    k = 0
    for i, t in enumerate(thr):
        for j in range(npts if pbp else 1):
            c = out[k]
            k += 1
            mon.close(c.coord("air_temperature").points, np.array([t], np.float32), "threshold")
            src = np.float32(counts[i][j] if pbp else counts[i]).astype(float)
            if pbp:
                mon.close(c.coord("latitude").points, np.array([50.0 + j]), "point")
            got = np.asarray(c.data, float).reshape(3, -1)
            nb = got.shape[1]
            b = np.asarray(c.coord("probability_bin").bounds)
            mon.equal(b.shape, (nb, 2), "bins")
            mon.check(b[0, 0] == 0 and b[-1, 1] == 1, "bins no longer span 0 to 1")
            mon.check(np.allclose(b[1:, 0], b[:-1, 1], atol=1e-5), "gap between bins")
            mon.close(c.coord("probability_bin").points, b.mean(axis=1), "points of the bins", rtol=1e-6)
            mon.close(got[1:].sum(axis=1), src[1:].sum(axis=1), "forecasts lost", rtol=1e-5, atol=1e-2)
            # every new bin holds the sum of the old ones within it
            mids = np.linspace(0, 1, n + 1)
            mids = (mids[1:] + mids[:-1]) / 2
            for m in range(nb):
                inside = (mids > b[m, 0]) & (mids < b[m, 1])
                mon.close(got[1:, m], src[1:, inside].sum(axis=1), "contents of a bin", rtol=1e-5, atol=1e-2)
            freq = got[0] / np.where(got[2] > 0, got[2], np.nan)
            mon.check(np.all(np.diff(freq) >= -1e-6), "event frequency decreases", freq=freq.tolist())
            mon.check(nb == 1 or np.all(got[2] >= minimum), "bin below the minimum count", counts=got[2].tolist())
            if n == nb and np.all(src[2] >= minimum):
                sf = src[0] / np.where(src[2] > 0, src[2], np.nan)
                if np.all(np.diff(sf) >= 0):
                    mon.close(got, src, "sound table altered", rtol=1e-6)
            ref = manipulated(src, minimum)
            if ref is not None:
                mon.event("tables followed exactly")
                mon.equal(nb, ref[0].shape[1], "bins left", minimum=minimum)
                mon.close(b, ref[1], "edges of the bins", rtol=0, atol=1e-5)
                mon.close(got, ref[0], "levelled counts", rtol=1e-4, atol=1e-2)
            # frequencies stay within those observed
            lo = np.nanmin(np.where(src[2] > 0, src[0] / np.maximum(src[2], 1), np.nan)) if (src[2] > 0).any() else 0
            hi = np.nanmax(np.where(src[2] > 0, src[0] / np.maximum(src[2], 1), np.nan)) if (src[2] > 0).any() else 1
            ok = got[2] > 0
            mon.check(np.all(freq[ok] >= lo - 1e-5) and np.all(freq[ok] <= hi + 1e-5), "frequency out of range")
    again = plugin(tab)
    for a, b in zip(out, again):
        mon.close(b.data, a.data, "second use", rtol=0, atol=0)
    mon.raises(ValueError, ManipulateReliabilityTable, rng.choice([0, -3]))
    mon.seen(n, nthr, minimum, pbp, [c.shape[-1] for c in out])


def naive_calibrate(p, counts):
    """Event frequency at forecast probability p, linear between bins, extrapolated and clipped."""
    if counts.shape[1] < 2:
        return p
    x = counts[1] / counts[2]
    y = counts[0] / counts[2]
    k = 0
    for j in range(len(x) - 1):
        if p >= x[j]:
            k = j
    v = y[k] + (y[k + 1] - y[k]) * (p - x[k]) / (x[k + 1] - x[k])
    return min(max(v, 0.0), 1.0)


@scenario("C21", quick=150, thorough=4000)
def apply(rng, mon):
    """Calibrated probabilities are the observed frequencies, monotone over thresholds."""
    from improver.calibration.reliability_calibration import ApplyReliabilityCalibration

    nthr = rng.randint(1, 4)
    step = rng.choice([1, 0.25, 0.01])
    thr = [270 + step * k for k in sorted(rng.sample(range(30), nthr))]
    spp = rng.choice(["greater_than", "less_than", "greater_than_or_equal_to"])
    spot = rng.chance(0.3)
    pbp = rng.chance(0.3)
    sp = (rng.randint(1, 4),) if spot else (rng.randint(1, 3), rng.randint(2, 3))
    p = rng.np.rand(nthr, *sp)
    p[rng.np.rand(*p.shape) < 0.15] = rng.choice([0.0, 1.0])
    p = np.sort(p, axis=0)
    if spp.startswith("greater"):
        p = p[::-1]
    p = p.astype(np.float32).copy()
    slight = rng.chance(0.15)
    if slight:
        p[:] = p[:1]
    mask = None
    if rng.chance(0.25) and not pbp:
        mask = gen.random_mask(rng, sp, 0.3) if not spot else rng.np.rand(*sp) < 0.3
        mask = np.broadcast_to(mask, p.shape).copy()
    arr = p.copy() if mask is None else np.ma.masked_array(p.copy(), mask)
    tc = gen.threshold_coord(thr, spp=spp)
    name = gen.prob_name("air_temperature", spp)
    if spot:
        f = gen.spot(arr, name=name, units="1", lead=[tc])
    else:
        f = cube(arr, name=name, units="1", lead=[tc])
    if nthr == 1 and rng.chance(0.5):
        f = f[0]
    elif rng.chance(0.2) and not spot:
        order = list(range(f.ndim))
        rng.shuffle(order)
        f.transpose(order)
    pts = list(np.ndindex(*sp)) if pbp else [None]
    tables, counts = CubeList(), {}
    for i, t in enumerate(thr):
        for q in pts:
            n = rng.randint(1, 5) if rng.chance(0.3) else rng.randint(2, 5)
            c = random_counts(rng, n)
            c[2] = np.maximum(c[2], 10)
            c[1] = c[2] * (np.arange(n) + 0.1 + 0.8 * rng.np.rand(n)) / n
            c[0] = c[2] * np.sort(rng.np.rand(n))
            if slight and i:
                c = counts[(0, q)].copy()
                c[0] = np.minimum(c[0] * (1 + rng.choice([-4e-4, 4e-4])), c[2])
            counts[(i, q)] = np.float32(c).astype(float)
            scal = []
            if pbp:
                yn, xn = ("latitude", "longitude") if spot else ("projection_y_coordinate", "projection_x_coordinate")
                if spot:
                    yv, xv = f.coord(yn).points[q[0]], f.coord(xn).points[q[0]]
                else:
                    yv, xv = f.coord(yn).points[q[0]], f.coord(xn).points[q[1]]
                scal = [AuxCoord(np.array([v], np.float32), nm, units=f.coord(nm).units)
                        for nm, v in ((yn, yv), (xn, xv))]
            tab = table_cube(rng, c, t, scalars=scal)
            tab.coord("air_temperature").attributes["spp__relative_to_threshold"] = spp
            tables.append(tab)
    order = list(range(len(tables)))
    rng.shuffle(order)
    given = CubeList([tables[i] for i in order])
    snap = (content(f), content(given))
    plugin = ApplyReliabilityCalibration(point_by_point=pbp)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out = plugin(f, given)
    mon.equal(snap_diff(snap, (content(f), content(given))), None, "input changed")
    exp = np.zeros(p.shape)
    for idx in np.ndindex(*p.shape):
        exp[idx] = naive_calibrate(float(p[idx]), counts[(idx[0], idx[1:] if pbp else None)])
    srt = np.sort(exp, axis=0)
    exp = srt[::-1] if spp.startswith("greater") else srt
    names = ["air_temperature"] + (["spot_index"] if spot else ["projection_y_coordinate", "projection_x_coordinate"])
    dims = [k.name() for k in out.coords(dim_coords=True)]
    got = np.ma.transpose(np.ma.asanyarray(out.data), [dims.index(k) for k in names if k in dims])
    got = got.reshape(tuple(len(out.coord(k).points) for k in names))
    mon.close(out.coord("air_temperature").points, np.array(thr, np.float32), "thresholds")
    mon.close(got, exp if mask is None else np.ma.masked_array(exp, mask), "calibrated probability", rtol=2e-4, atol=5e-5,
              spp=spp, pbp=pbp)
    mon.check(np.all(np.ma.getdata(got)[~np.ma.getmaskarray(got)] >= 0) and
              np.all(np.ma.getdata(got)[~np.ma.getmaskarray(got)] <= 1), "probability out of range")
    order = np.diff(np.ma.getdata(got), axis=0)
    order = order[~np.ma.getmaskarray(got)[1:]] * (-1 if spp.startswith("greater") else 1)
    mon.check(np.all(order >= 0), "probabilities out of order over thresholds")
    if pbp:
        fd = [k.name() for k in f.coords(dim_coords=True)]
        mon.equal(dims, [k for k in fd if k in dims], "dimension order")
    lost = any(c.shape[1] < 2 for c in counts.values())
    mon.equal(any("not calibrated" in str(x.message) for x in caught), lost, "warning of uncalibrated thresholds")
    mon.equal(standard_faults(out), [], "standards")
    mon.equal(out.name(), f.name(), "name")
    mon.equal(sorted(k.name() for k in out.coords()), sorted(k.name() for k in f.coords()), "coordinates")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mon.close(plugin(f, given).data, out.data, "second use", rtol=0, atol=0)
        few = CubeList([t for t in given if t.coord("air_temperature").points[0] != np.float32(thr[0])])
        mon.raises(Exception, plugin, f, few, label="threshold without a table accepted")
    mon.seen(nthr, spp, spot, pbp, mask is not None, lost)


# --------------------------------------------------------------------- C22
@scenario("C22", quick=120, thorough=3000)
def bias(rng, mon):
    """Mean of forecast minus truth over the matching times."""
    from improver.calibration.simple_bias_correction import CalculateForecastBias

    nt = rng.randint(1, 5)
    spot = rng.chance(0.25)
    sp = (rng.randint(2, 4),) if spot else (rng.randint(2, 4), rng.randint(2, 4))
    fc = (280 + 5 * rng.np.randn(nt, *sp)).astype(np.float32)
    ob = (280 + 5 * rng.np.randn(nt, *sp)).astype(np.float32)
    fm = rng.np.rand(*fc.shape) < 0.2 if rng.chance(0.3) else None
    om = rng.np.rand(*fc.shape) < 0.2 if rng.chance(0.3) else None
    start, lag = gen.random_time(rng), rng.choice([3, 6])
    f = history(rng, fc if fm is None else np.ma.masked_array(fc, fm), "air_temperature", "K", [], start, lag, spot=spot)
    drop = rng.randrange(nt) if nt > 2 and rng.chance(0.3) else None
    days = [d for d in range(nt) if d != drop]
    tm = ob if om is None else np.ma.masked_array(ob, om)
    t = history(rng, tm[days], "air_temperature", "K", [], start, lag, obs=True, spot=spot, days=days)
    snap = (content(f), content(t))
    plugin = CalculateForecastBias()
    out = plugin(f, t)
    mon.equal(snap_diff(snap, (content(f), content(t))), None, "input changed")
    bad = np.zeros(fc.shape, bool)
    for m in (fm, om):
        bad |= m if m is not None else False
    d = np.ma.masked_array(fc.astype(float) - ob, bad)[days]
    exp = d.mean(axis=0)
    if fm is None and om is None:
        exp = np.ma.getdata(exp)
    mon.close(out.data, exp, "bias", rtol=1e-5, atol=2e-4)
    mon.equal(out.name(), "forecast_error_of_air_temperature", "name")
    mon.equal(str(out.units), "K", "units")
    mon.check(not out.coords("time"), "validity time kept")
    frts = [gen.seconds(start + k * DAY - lag * HOUR) for k in days]
    frt = out.coord("forecast_reference_time")
    mon.equal([int(v) for v in frt.points], [max(frts)], "reference time")
    if len(days) > 1:
        mon.equal([int(v) for v in frt.bounds[0]], [min(frts), max(frts)], "range of reference times")
    mon.equal(int(out.coord("forecast_period").points[0]), lag * 3600, "forecast period")
    mon.equal(standard_faults(out), [], "standards")
    mon.close(plugin(f, t).data, out.data, "second use", rtol=0, atol=0)
    e = cube(rng.np.rand(2, 3, 3).astype(np.float32), lead=[gen.realization_coord(2)])
    mon.raises(ValueError, plugin, e, cube(rng.np.rand(3, 3).astype(np.float32)), label="ensemble accepted")
    mon.equal(out.attributes.get("title"), "Forecast bias data", "title")
    two = [40, 60, 80][: rng.randint(2, 3)]
    e = cube(rng.np.rand(len(two), 3, 3).astype(np.float32), lead=[gen.percentile_coord(two)])
    mon.raises(ValueError, plugin, e, cube(rng.np.rand(3, 3).astype(np.float32)), label="percentiles accepted")
    if nt > 1 and not spot:
        mixed = CubeList([f[0] if f.ndim > len(sp) else f,
                          history(rng, fc[1:2], "air_temperature", "K", [], start + DAY, lag + 3, days=[0])])
        mixed = CubeList([s for k in mixed for s in k.slices_over("time")])
        try:
            mixed = mixed.merge_cube()
        except Exception:
            mixed = None
        if mixed is not None:
            tt = history(rng, ob, "air_temperature", "K", [], start, lag, obs=True)
            mon.raises(Exception, plugin, mixed, tt, label="mixed forecast periods accepted")
    q = cube(rng.np.rand(2, 3, 3).astype(np.float32), lead=[gen.threshold_coord([280, 281])],
             name="probability_of_air_temperature_above_threshold", units="1")
    mon.raises(ValueError, plugin, q, q, label="probabilities accepted")
    mon.seen(nt, spot, fm is not None, om is not None, drop is not None)


@scenario("C22", quick=120, thorough=3000)
def correct(rng, mon):
    """Forecast minus mean bias, within the bounds; no bias leaves the forecast alone."""
    from improver.calibration.simple_bias_correction import ApplyBiasCorrection

    nb = rng.randint(0, 4)
    sp = (rng.randint(2, 4), rng.randint(2, 4))
    nr = rng.choice([0, 0, 2, 3])
    fdata = (rng.choice([10, 10, 1]) + 3 * rng.np.randn(*(((nr,) if nr else ()) + sp))).astype(np.float32)
    start, lag = gen.random_time(rng), rng.choice([3, 6])
    fmask = gen.random_mask(rng, sp, 0.2) if rng.chance(0.2) else None
    arr = fdata if fmask is None else np.ma.masked_array(fdata, np.broadcast_to(fmask, fdata.shape).copy())
    f = cube(arr, lead=[gen.realization_coord(nr)] if nr else [], name="wind_speed", units="m s-1",
             time=start, frt=start - lag * HOUR)
    biases, bdata, bmask = CubeList(), [], []
    masked = rng.chance(0.4)
    for k in range(nb):
        d = rng.np.randn(*sp).astype(np.float32) * 2
        m = rng.np.rand(*sp) < 0.3 if masked else np.zeros(sp, bool)
        bdata.append(d)
        bmask.append(m)
        b = cube(np.ma.masked_array(d, m) if masked else d, name="forecast_error_of_wind_speed", units="m s-1",
                 time=start, frt=start - lag * HOUR)
        b.remove_coord("time")
        b.coord("forecast_reference_time").points = np.array(
            [gen.seconds(start - lag * HOUR - (k + 1) * DAY)], np.int64)
        if nb == 1 and rng.chance(0.5):
            p = int(b.coord("forecast_reference_time").points[0])
            b.coord("forecast_reference_time").bounds = np.array([[p - 86400 * 5, p]], np.int64)
        biases.append(b)
    lo = rng.choice([None, 8.0, 0.0])
    hi = rng.choice([None, 12.0])
    fill = rng.chance(0.5)
    everything = [f] + list(biases)
    order = list(range(len(everything)))
    rng.shuffle(order)
    given = CubeList([everything[i] for i in order])
    snap = content(given)
    plugin = ApplyBiasCorrection(lower_bound=lo, upper_bound=hi, fill_masked_bias_values=fill)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out = plugin(given)
    if nb == 0:
        mon.close(out.data, arr, "uncorrected forecast", rtol=0, atol=0)
        mon.check(any("no forecast_error" in str(x.message) for x in caught), "no warning")
        mon.check("comment" in out.attributes, "no comment on the uncalibrated forecast")
        mon.seen("spin-up")
        return
    mon.equal(snap_diff(snap, content(given)), None, "input changed")
    b = np.ma.masked_array(np.stack(bdata).astype(float), np.stack(bmask)).mean(axis=0)
    if masked and fill:
        b = np.ma.filled(b, 0.0)
    b = np.ma.asanyarray(b)
    exp = np.ma.masked_array(fdata.astype(float) - np.ma.getdata(b),
                             np.broadcast_to(np.ma.getmaskarray(b), fdata.shape).copy())
    if fmask is not None:
        exp = np.ma.masked_array(np.ma.getdata(exp), np.ma.getmaskarray(exp) | fmask)
    exp = np.ma.masked_array(np.clip(np.ma.getdata(exp), -np.inf if lo is None else lo, np.inf if hi is None else hi),
                             np.ma.getmaskarray(exp))
    mon.close(out.data, exp, "corrected forecast", rtol=1e-5, atol=1e-4, fill=fill, masked=masked)
    mon.equal(standard_faults(out), [], "standards")
    ref = f.copy(data=out.data)
    mon.equal(snap_diff(snapshot(ref), snapshot(out)), None, "metadata")
    mon.close(plugin(given).data, out.data, "second use", rtol=0, atol=0)
    late = f.copy()
    late.coord("forecast_period").points = late.coord("forecast_period").points + 3600
    mon.raises(ValueError, plugin, CubeList([late] + list(biases)), label="forecast periods differ")
    late = f.copy()
    late.coord("forecast_reference_time").points = late.coord("forecast_reference_time").points + 3600
    mon.raises(ValueError, plugin, CubeList([late] + list(biases)), label="hours differ")
    mon.raises(ValueError, plugin, CubeList([f, f.copy()] + list(biases)), label="two forecasts accepted")
    if nb > 1:
        k = rng.randrange(nb)
        other = biases[k].copy()
        if rng.chance(0.5):
            other.coord("forecast_period").points = other.coord("forecast_period").points + 3600
        else:
            p = other.coord("forecast_reference_time")
            p.points = p.points + rng.choice([3600, -7200])
        rest = [biases[j] if j != k else other for j in range(nb)]
        mon.raises(ValueError, plugin, CubeList([f] + rest), label="biases of different hours or periods accepted")
        w = rng.randrange(nb)
        biases = CubeList([biases[w]] + [b for j, b in enumerate(biases) if j != w])
        wide = biases[0].copy()
        p = int(wide.coord("forecast_reference_time").points[0])
        wide.coord("forecast_reference_time").bounds = np.array([[p - 86400, p]], np.int64)
        lot = [wide] + list(biases[1:])
        rng.shuffle(lot)
        mon.raises(ValueError, plugin, CubeList([f] + lot), label="mean of means accepted")
    mon.seen(nb, nr, masked, fill, lo, hi, fmask is not None)


# --------------------------------------------------------------------- C23
def neighbours(rng, dz, wmo, method="nearest"):
    n = len(wmo)
    data = np.zeros((1, 3, n), np.float32)
    data[0, 0] = np.arange(n)
    data[0, 1] = np.arange(n)
    data[0, 2] = dz
    idx = DimCoord(np.arange(n, dtype=np.int32), long_name="spot_index", units="1")
    c = Cube(data, long_name="grid_neighbours", units="1", dim_coords_and_dims=[
        (DimCoord(np.array([0], np.int32), long_name="neighbour_selection_method", units="1"), 0),
        (DimCoord(np.arange(3, dtype=np.int32), long_name="grid_attributes", units="1"), 1), (idx, 2)],
        aux_coords_and_dims=[
            (AuxCoord([method], long_name="neighbour_selection_method_name", units="no_unit"), 0),
            (AuxCoord(["x_index", "y_index", "vertical_displacement"], long_name="grid_attributes_key", units="no_unit"), 1),
            (AuxCoord(np.zeros(n, np.float32), "altitude", units="m"), 2),
            (AuxCoord(np.linspace(50, 55, n).astype(np.float32), "latitude", units="degrees"), 2),
            (AuxCoord(np.linspace(-5, 0, n).astype(np.float32), "longitude", units="degrees"), 2),
            (AuxCoord(wmo, long_name="wmo_id", units="no_unit"), 2)],
        attributes={"model_grid_hash": "abc"})
    return c


@scenario("C23", quick=80, thorough=2000)
def estimate_dz(rng, mon):
    """exp(-s dz) with s the least-squares slope of ln(forecast/truth) on dz."""
    from improver.calibration.dz_rescaling import EstimateDzRescaling

    n = rng.randint(3, 8)
    nt = rng.randint(1, 4)
    wmo = ["%05d" % (3000 + 7 * i) for i in range(n)]
    dz = np.round(rng.np.randn(n) * 80).astype(np.float32)
    dz[0], dz[1] = -40, 60
    s = rng.choice([0.0, 0.001, -0.002, 0.005])
    truth = (5 + 10 * rng.np.rand(nt, n)).astype(np.float32)
    noise = rng.choice([0.0, 0.1])
    fc = (truth * np.exp(s * dz) * np.exp(noise * rng.np.randn(nt, n))).astype(np.float32)
    if rng.chance(0.3):
        fc[rng.randrange(nt), rng.randrange(n)] = 0
    if rng.chance(0.3):
        truth[rng.randrange(nt), rng.randrange(n)] = 0
    start, lag = gen.random_time(rng), rng.choice([6, 12])
    order_t = list(range(n))
    subset = list(range(n))
    if rng.chance(0.3):
        rng.shuffle(order_t)
    if rng.chance(0.3) and n > 4:
        subset = sorted(rng.sample(range(2, n), n - 3) + [0, 1])

    def site_cube(data, sites, obs, pct=False):
        slices = CubeList()
        for i in range(nt):
            vt = start + i * DAY
            slices.append(gen.spot(data[i][sites], name="wind_speed", units="m s-1", wmo=[wmo[k] for k in sites],
                                   lats=np.linspace(50, 55, n)[sites], lons=np.linspace(-5, 0, n)[sites],
                                   alts=np.zeros(len(sites)), time=vt, frt=vt if obs else vt - lag * HOUR))
        c = slices.merge_cube()
        if pct:
            both = CubeList()
            for p in (30, 50, 70):
                tilt = np.exp((p - 50) / 2e4 * np.asarray(dz, float)[sites]) * (1 + (p - 50) / 100)
                d = c.copy(data=(c.data * tilt).astype(np.float32))
                d.add_aux_coord(DimCoord(np.array([p], np.float32), long_name="percentile", units="%"))
                both.append(d)
            c = both.merge_cube()
        return c

    f = site_cube(fc, subset, False, pct=True)
    t = site_cube(truth, order_t, True)
    nb = neighbours(rng, dz, wmo)
    lo, hi = rng.choice([(None, None), (-50, 80), (None, 70), (-40, None), (-40, 60)])
    snap = (content(f), content(t), content(nb))
    plugin = EstimateDzRescaling(forecast_period=lag, dz_lower_bound=lo, dz_upper_bound=hi)
    out = plugin(f, t, nb)
    mon.equal(snap_diff(snap, (content(f), content(t), content(nb))), None, "input changed")
    xs, ys = [], []
    for i in range(nt):
        for k in subset:
            if fc[i, k] != 0 and truth[i, k] != 0 and (lo is None or dz[k] >= lo) and (hi is None or dz[k] <= hi):
                xs.append(float(dz[k]))
                ys.append(np.log(float(fc[i, k]) / float(truth[i, k])))
    xs, ys = np.array(xs), np.array(ys)
    if len(xs) < 2 or xs.std() < 1:
        return
    slope = np.sum((xs - xs.mean()) * (ys - ys.mean())) / np.sum((xs - xs.mean()) ** 2)
    d = np.clip(dz.astype(float), -np.inf if lo is None else lo, np.inf if hi is None else hi)
    mon.close(np.asarray(out.data), np.exp(-slope * d), "scaling factor", rtol=2e-3, atol=1e-4, slope=slope)
    mon.equal([str(v) for v in out.coord("wmo_id").points], wmo, "sites")
    mon.equal(int(out.coord("forecast_period").points[0]), lag * 3600, "forecast period")
    mon.check("model_grid_hash" not in out.attributes, "hash of the grid kept")
    mon.equal((out.name(), str(out.units)), ("scaled_vertical_displacement", "1"), "name and units")
    mon.equal(int(out.coord("forecast_reference_time_hour").points[0]), (start - lag * HOUR).hour * 3600, "hour")
    mon.equal(out.dtype, np.float32, "type")
    mon.seen(n, nt, s, noise, lo, hi, order_t == sorted(order_t), len(subset) == n)


@scenario("C23", quick=80, thorough=2000)
def apply_dz(rng, mon):
    """Factor of the next configured forecast period and of the nearest hour."""
    from improver.calibration.dz_rescaling import ApplyDzRescaling

    n = rng.randint(1, 5)
    wmo = ["%05d" % (3000 + 7 * i) for i in range(n)]
    fps = sorted(rng.sample(range(3, 60, 3), rng.randint(2, 4)))
    hours = sorted(rng.sample([0, 3, 6, 9, 12, 15, 18, 21], rng.randint(2, 4)))
    table = (0.5 + rng.np.rand(len(fps), len(hours), n)).astype(np.float32)
    slices = CubeList()
    for i, p in enumerate(fps):
        for j, h in enumerate(hours):
            c = gen.spot(table[i, j], name="scaled_vertical_displacement", units="1", wmo=wmo)
            for k in ("time", "forecast_reference_time", "forecast_period"):
                c.remove_coord(k)
            c.add_aux_coord(AuxCoord(np.array([p * 3600], np.int32), "forecast_period", units="seconds"))
            c.add_aux_coord(AuxCoord(np.array([h * 3600], np.int32), long_name="forecast_reference_time_hour", units="seconds"))
            slices.append(c)
    order = list(range(len(slices)))
    rng.shuffle(order)
    factors = CubeList([slices[i] for i in order]).merge_cube()
    fp = rng.randint(1, 70)
    hour = (rng.choice(hours) + rng.choice([0, 0, 1, -1, 2])) % 24
    frt = dt.datetime(2021, 3, 5, hour)
    lead = [gen.percentile_coord([25, 50, 75])] if rng.chance(0.6) else []
    data = (5 + rng.np.rand(*(tuple(len(k.points) for k in lead) + (n,)))).astype(np.float32)
    f = gen.spot(data.copy(), name="wind_speed", units="m s-1", wmo=wmo, lead=lead, time=frt + fp * HOUR, frt=frt)
    len_ = rng.choice([0, 1, 1, 2])
    plugin = ApplyDzRescaling(frt_hour_leniency=len_)
    i = next((k for k, p in enumerate(fps) if p >= fp), len(fps) - 1)
    dist = {j: min((h - hour) % 24, (hour - h) % 24) for j, h in enumerate(hours)}
    best = min(dist.values())
    snap = content(factors)
    if best > len_:
        mon.raises(ValueError, plugin, f, factors, label="no matching hour accepted")
        mon.seen("none", len_)
        return
    out = plugin(f.copy(), factors)
    mon.equal(snap_diff(snap, content(factors)), None, "factors changed")
    cands = [table[i, j] for j, d in dist.items() if d == best]
    ok = [np.allclose(out.data, data * c, rtol=1e-5) for c in cands]
    mon.check(any(ok), "rescaled forecast", fp=fp, fps=fps, hour=hour, hours=hours)
    mon.equal(standard_faults(out), [], "standards")
    bad = gen.spot(data.copy(), name="wind_speed", units="m s-1", wmo=["9" + w[1:] for w in wmo], lead=lead,
                   time=frt + fp * HOUR, frt=frt)
    mon.raises(ValueError, plugin, bad, factors, label="other sites accepted")
    if n > 1:
        k = rng.randrange(n)
        bad = gen.spot(data.copy(), name="wind_speed", units="m s-1", lead=lead, time=frt + fp * HOUR, frt=frt,
                       wmo=[w if j != k else "9" + w[1:] for j, w in enumerate(wmo)])
        mon.raises(ValueError, plugin, bad, factors, label="one other site accepted")
        bad = gen.spot(data[..., :-1].copy(), name="wind_speed", units="m s-1", lead=lead, time=frt + fp * HOUR,
                       frt=frt, wmo=wmo[:-1])
        mon.raises(ValueError, plugin, bad, factors, label="fewer sites accepted")
    mon.seen(i, best, len_, n, len(lead))
