"""C46: times, lead times and cycles."""
import warnings

import numpy as np
from iris.coords import AuxCoord, CellMethod, DimCoord
from iris.cube import CubeList
from iris.exceptions import CoordinateNotFoundError

from harness import gen
from harness.core import scenario
from harness.gen import content, cube

dt = gen.dt
H = dt.timedelta(hours=1)


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def ints(a):
    return None if a is None else np.asarray(a, np.int64).tolist()


def cycle(t):
    return t.strftime("%Y%m%dT%H%MZ")


# ------------------------------------------------------ lead times
@scenario("C46", quick=120, thorough=3000)
def lead_time(rng, mon):
    from improver.metadata.forecast_times import forecast_period_coord

    n = rng.choice([1, 1, 2, 3, 4])
    base = gen.random_time(rng)
    step = rng.choice([15, 60, 180])
    times = [base + dt.timedelta(minutes=step * i) for i in range(n)]
    lagged = n > 1 and rng.chance(0.4)
    negative = rng.chance(0.1)
    frt0 = base + (2 * H if negative else -rng.randint(0, 40) * H)
    frts = [frt0 + (dt.timedelta(minutes=rng.choice([5, 7])) * i if lagged else 0 * H) for i in range(n)]
    if lagged and rng.chance(0.3):
        frts = frts[::-1]
    plen = rng.choice([None, 15, 60, 720])
    bounds = [None if plen is None else (t - dt.timedelta(minutes=plen), t) for t in times]
    cs = CubeList([cube(rng.np.rand(2, 3).astype(np.float32), time=t, frt=f, bounds=b) for t, f, b in zip(times, frts, bounds)])
    c = cs.merge_cube() if n > 1 else cs[0]
    kind = rng.choice(["as is", "no period", "wrong period", "blend", "both"])
    attrs = {}
    if kind in ("no period", "blend"):
        c.remove_coord("forecast_period")
    if kind == "wrong period":
        co = c.coord("forecast_period")
        co.points = co.points + np.int32(60)
        if rng.chance(0.5):
            attrs = {"note": "x"}
            co.attributes = dict(attrs)
    if kind in ("blend", "both") and not lagged:
        b = AuxCoord(np.array([gen.seconds(frt0)], np.int64), long_name="blend_time", units=gen.TIME_UNIT)
        c.add_aux_coord(b)
        if kind == "blend":
            c.remove_coord("forecast_reference_time")
    force = rng.chance(0.6)
    before = content(c)
    if kind == "both" and not lagged and rng.chance(0.3):
        c.coord("blend_time").points = c.coord("blend_time").points + np.int64(3600)
        mon.raises(ValueError, forecast_period_coord, c, label="reference times")
        return
    if kind == "no period" and rng.chance(0.25):
        c.remove_coord(rng.choice(["time", "forecast_reference_time"]))
        mon.raises(CoordinateNotFoundError, forecast_period_coord, c, label="nothing to go by")
        return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = forecast_period_coord(c, force_lead_time_calculation=force)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    if kind == "wrong period" and not force:
        mon.equal(ints(got.points), ints(c.coord("forecast_period").points), "the period there is")
        return
    calculated = force or kind in ("no period", "blend")
    want = [gen.seconds(t) - gen.seconds(f) for t, f in zip(times, frts)]
    if not calculated:
        mon.equal(sorted(ints(got.points)), sorted(ints(c.coord("forecast_period").points)), "the period there is")
        return
    # the order of the times on the cube
    order = [ints(c.coord("time").points).index(gen.seconds(t)) for t in times]
    placed = [None] * n
    for k, v in zip(order, want):
        placed[k] = v
    mon.equal(ints(got.points), placed, "time minus reference time")
    if plen is None:
        mon.equal(got.has_bounds(), False, "no bounds")
    else:
        pb = [None] * n
        for k, b, f in zip(order, bounds, frts):
            pb[k] = [gen.seconds(b[0]) - gen.seconds(f), gen.seconds(b[1]) - gen.seconds(f)]
        mon.equal(ints(got.bounds), pb, "bounds minus reference time")
        mon.equal(got.bounds.dtype, np.dtype(np.int32), "bounds type")
    mon.equal([got.dtype, str(got.units), got.name()], [np.dtype(np.int32), "seconds", "forecast_period"], "standard")
    if attrs:
        mon.equal(dict(got.attributes), attrs, "attributes")
    mon.equal(any("negative" in str(k.message) for k in w), min(want) < 0, "warned about the past")
    mon.event("points", n)
    mon.seen("case", f"{n} {lagged} {kind} {force} {plen}")


# ---------------------------------------------------------- cycles
@scenario("C46", quick=100, thorough=2500)
def cycles(rng, mon):
    from improver.metadata.forecast_times import add_blend_time, rebadge_forecasts_as_latest_cycle, unify_cycletime

    n = rng.choice([1, 2, 3, 5])
    t = gen.random_time(rng)
    frts = [t - rng.randint(1, 30) * H for _ in range(n)]
    nt = rng.choice([1, 1, 2, 3])
    plen = rng.choice([None, 1, 3])
    cs = CubeList()
    for f in frts:
        parts = CubeList()
        for i in range(nt):
            ti = t + i * H
            b = None if plen is None else (ti - plen * H, ti)
            parts.append(cube(rng.np.rand(2, 2, 3).astype(np.float32), time=ti, frt=f, bounds=b, lead=[gen.realization_coord(2)]))
        c = parts.merge_cube() if nt > 1 else parts[0]
        if rng.chance(0.2):
            co = c.coord("forecast_reference_time")
            co.bounds = np.array([[co.points[0] - 3600, co.points[0]]], np.int64)
        if rng.chance(0.2):
            c.remove_coord("forecast_period")
        cs.append(c)
    before = [content(c) for c in cs]
    how = rng.choice(["latest", "cycle", "unify"])
    new = max(frts) if how == "latest" else t - rng.randint(0, 12) * H
    if rng.chance(0.1):
        # a reference time with a dimension of its own cannot be replaced
        parts = CubeList([cube(rng.np.rand(2, 3).astype(np.float32), time=t, frt=t - (k + 1) * H) for k in range(3)])
        for k in parts:
            k.remove_coord("forecast_period")
        bad = parts.merge_cube()
        lst = [cs[0], bad] if rng.chance(0.5) else [bad]
        if how == "latest" and len(lst) > 1:
            mon.raises(ValueError, rebadge_forecasts_as_latest_cycle, lst, label="dimension of reference times")
        elif how != "latest":
            mon.raises(ValueError, unify_cycletime, lst, new, label="dimension of reference times")
            mon.raises(ValueError, rebadge_forecasts_as_latest_cycle, lst, cycle(new), label="dimension of reference times")
        return
    arg = cs if rng.chance(0.5) else list(cs)
    if how == "latest":
        out = rebadge_forecasts_as_latest_cycle(arg)
    elif how == "cycle":
        out = rebadge_forecasts_as_latest_cycle(arg, cycle(new))
    else:
        out = unify_cycletime(arg, new)
    for c, b in zip(cs, before):
        mon.equal(snap_diff(b, content(c)), [], "input changed")
    mon.equal(len(out), n, "a cube for each")
    if how == "latest" and n == 1:
        mon.check(out[0] is cs[0], "one cube is left alone")
        return
    for c, o in zip(cs, out):
        f = o.coord("forecast_reference_time")
        mon.equal([ints(f.points), f.has_bounds(), str(f.dtype), o.coord_dims(f)], [[gen.seconds(new)], False, "int64", ()], "the cycle")
        p, tc = o.coord("forecast_period"), o.coord("time")
        mon.equal(ints(p.points), [int(x) - gen.seconds(new) for x in tc.points], "lead time from the new cycle")
        mon.equal(ints(p.bounds), None if plen is None else [[int(x) - gen.seconds(new) for x in r] for r in tc.bounds], "lead time bounds")
        mon.equal(o.coord_dims(p), o.coord_dims(tc), "dimension")
        mon.equal(gen.standard_faults(o), [], "standards")
        a, b = c.copy(), o.copy()
        for k in (a, b):
            for nm in ("forecast_period", "forecast_reference_time"):
                if k.coords(nm):
                    k.remove_coord(nm)
        mon.equal(snap_diff(content(a), content(b)), [], "the rest is kept")
    o = out[0].copy()
    add_blend_time(o, cycle(new))
    bt = o.coord("blend_time")
    mon.equal([ints(bt.points), str(bt.dtype), str(bt.units)], [[gen.seconds(new)], "int64", str(gen.TIME_UNIT)], "blend time")
    mon.event("cubes", n)
    mon.seen("case", f"{n} {nt} {how} {plen}")


@scenario("C46", quick=60, thorough=1500)
def lagged_ensemble(rng, mon):
    from improver.utilities.time_lagging import GenerateTimeLaggedEnsemble

    n = rng.choice([1, 2, 3])
    t = gen.random_time(rng)
    frts = [t - rng.randint(1, 30) * H for _ in range(n)]
    clash = rng.chance(0.5)
    start, cs, members = 0, CubeList(), []
    for f in frts:
        k = rng.randint(1, 4)
        if clash:
            r = np.arange(rng.randint(0, 1), k + 1)[:k]
        else:
            r = np.arange(start, start + k)
        start += k
        members.append((r, rng.np.rand(len(r), 2, 3).astype(np.float32)))
        cs.append(cube(members[-1][1], time=t, frt=f, lead=[gen.realization_coord(r)]))
    if not clash and rng.chance(0.5):
        order = list(range(n))
        rng.shuffle(order)
        cs = CubeList([cs[i] for i in order])
        members, frts = [members[i] for i in order], [frts[i] for i in order]
    before = [content(c) for c in cs]
    out = GenerateTimeLaggedEnsemble()(cs)
    if n > 1:
        for c, b in zip(cs, before):
            mon.equal(snap_diff(b, content(c)), [], "input changed")
    allr = [int(x) for r, _ in members for x in r]
    fields = [f for _, d in members for f in d]
    if len(set(allr)) < len(allr):
        allr = list(range(len(allr)))
        mon.event("renumbered")
    order = sorted(range(len(allr)), key=lambda i: allr[i])
    mon.equal([int(x) for x in out.coord("realization").points], [allr[i] for i in order], "realization numbers")
    mon.array_equal(np.asarray(out.data).reshape(-1, 2, 3), np.stack([fields[i] for i in order]), "each member's own field")
    mon.equal(ints(out.coord("forecast_reference_time").points), [gen.seconds(max(frts))], "latest cycle")
    mon.equal(ints(out.coord("forecast_period").points), [gen.seconds(t) - gen.seconds(max(frts))], "lead time")
    mon.equal(gen.standard_faults(out), [], "standards")
    mon.event("members", len(allr))
    mon.seen("case", f"{n} {clash}")


# ------------------------------------------------------ conversions
@scenario("C46", quick=100, thorough=2500)
def conversions(rng, mon):
    import iris
    from improver.utilities import temporal as T

    t = gen.random_time(rng) + dt.timedelta(minutes=rng.choice([0, 0, 1, 30, 59]))
    s = cycle(t)
    mon.equal(T.cycletime_to_datetime(s), t, "cycle to time")
    mon.equal(T.datetime_to_cycletime(t), s, "time to cycle")
    fmt = rng.choice(["%Y%m%d%H%M", "%Y-%m-%dT%H:%M"])
    mon.equal(T.cycletime_to_datetime(T.datetime_to_cycletime(t, fmt), fmt), t, "there and back")
    mon.raises(ValueError, T.cycletime_to_datetime, s[:-1], label="not a cycle")
    sec = t + dt.timedelta(seconds=rng.randint(0, 59))
    got = T.datetime_to_iris_time(sec)
    mon.equal([int(got), type(got) is np.int64], [gen.seconds(sec), True], "seconds since 1970")
    n = rng.randint(1, 5)
    ts = [t + i * H for i in range(n)]
    unit = rng.choice(["seconds since 1970-01-01 00:00:00", "hours since 1970-01-01 00:00:00", "minutes since 2000-01-01 00:00:00"])
    ref = dt.datetime(2000, 1, 1) if "2000" in unit else dt.datetime(1970, 1, 1)
    f = {"s": 1, "h": 3600, "m": 60}[unit[0]]
    pts = np.array([(k - ref).total_seconds() / f for k in ts])
    if unit[0] == "s":
        pts = pts.astype(np.int64)
    co = DimCoord(pts, "time", units=unit, bounds=np.stack([pts - 3600 // f, pts], 1) if rng.chance(0.5) else None)
    keep = co.copy()
    near = lambda a, b: abs((a - b).total_seconds()) < 1e-3
    mon.check(all(near(a, b) for a, b in zip(T.iris_time_to_datetime(co), ts)), "times of a coordinate")
    if co.has_bounds():
        mon.check(all(near(a[0], b - H) and near(a[1], b) for a, b in zip(T.iris_time_to_datetime(co, "bound"), ts)), "bounds of a coordinate")
    mon.check(co == keep, "coordinate unchanged")

    # extraction
    cs = CubeList([cube(np.full((2, 3), i, np.float32), time=k, frt=t - 6 * H) for i, k in enumerate(ts)])
    c = cs.merge_cube() if n > 1 else cs[0]
    before = content(c)
    i = rng.randint(0, n - 1)
    one = CubeList([c]).extract(T.datetime_constraint(ts[i])) if n > 1 else cs.extract(T.datetime_constraint(ts[i]))
    mon.equal([len(one), ints(one[0].coord("time").points)], [1, [gen.seconds(ts[i])]], "the time asked for")
    lo, hi = t.replace(minute=0), (t + 2 * H).replace(minute=0)
    r = c.extract(T.datetime_constraint(lo, hi))
    mon.equal(ints(r.coord("time").points), [gen.seconds(k) for k in ts if lo <= k < hi], "from the first up to the last")
    got = T.extract_cube_at_time(cs, ts[i], T.datetime_constraint(ts[i]))
    mon.array_equal(got.data, np.full((2, 3), i, np.float32), "cube at the time")
    away = t + 40 * H
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        mon.equal(T.extract_cube_at_time(cs, away, T.datetime_constraint(away)), None, "no cube at the time")
    mon.check(any("not found" in str(k.message) for k in w), "warned")
    off = dt.timedelta(seconds=rng.choice([-1500, -60, 0, 0, 60, 1500]))
    allow = rng.choice([0, 60, 1799])
    name = rng.choice(["time", "time", "forecast_reference_time"])
    if name == "time":
        if abs(off.total_seconds()) <= allow:
            got = T.extract_nearest_time_point(c, ts[i] + off, allowed_dt_difference=allow)
            mon.equal([ints(got.coord("time").points), float(got.data.flat[0])], [[gen.seconds(ts[i])], float(i)], "nearest time")
        else:
            mon.raises(ValueError, T.extract_nearest_time_point, c, ts[i] + off, allowed_dt_difference=allow, label="too far")
    elif abs(off.total_seconds()) <= allow:
        got = T.extract_nearest_time_point(c, t - 6 * H + off, time_name=name, allowed_dt_difference=allow)
        mon.array_equal(got.data, c.data, "nearest reference time")
    else:
        mon.raises(ValueError, T.extract_nearest_time_point, c, t - 6 * H + off, time_name=name, allowed_dt_difference=allow, label="too far")
    mon.raises(ValueError, T.extract_nearest_time_point, c, t, time_name="forecast_period", label="name")
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    mon.event("times", n)
    mon.seen("case", f"{n} {unit} {name} {allow} {off}")


# ------------------------------------------------------- periods
@scenario("C46", quick=80, thorough=2000)
def periods(rng, mon):
    from improver.utilities.temporal import integrate_time, relabel_to_period

    t = gen.random_time(rng)
    c = cube(rng.np.rand(2, 3).astype(np.float32), time=t, frt=t - 6 * H, bounds=(t - H, t) if rng.chance(0.5) else None)
    p = rng.choice([1, 3, 24])
    out = relabel_to_period(c, p)
    mon.equal([ints(out.coord("time").bounds), ints(out.coord("time").points)], [[[gen.seconds(t) - p * 3600, gen.seconds(t)]], [gen.seconds(t)]], "period")
    mon.equal(ints(out.coord("forecast_period").bounds), [[6 * 3600 - p * 3600, 6 * 3600]], "lead time of the period")
    mon.equal(gen.standard_faults(out), [], "standards")
    for bad in (None, 0, -3):
        mon.raises(ValueError, relabel_to_period, c, bad, label="period")

    n = rng.choice([1, 2, 3])
    nr = rng.choice([0, 2])
    lens = [rng.choice([60, 180, 15]) for _ in range(n)]
    times = [t + 6 * i * H for i in range(n)]
    shape = ((nr,) if nr else ()) + (2, 3)
    masked = rng.chance(0.3)
    fields = []
    for i in range(n):
        f = rng.np.rand(*shape).astype(np.float32)
        fields.append(np.ma.masked_array(f, gen.random_mask(rng, shape)) if masked else f)
    methods = [CellMethod("mean", "time"), CellMethod("mean", "realization")][: rng.randint(0, 2)]
    cs = CubeList([cube(f, "rainfall_rate", "m s-1", time=k, frt=t - 6 * H, bounds=(k - dt.timedelta(minutes=m), k), cell_methods=tuple(methods),
                        lead=[gen.realization_coord(nr)] if nr else []) for f, k, m in zip(fields, times, lens)])
    c = cs.merge_cube() if n > 1 else cs[0]
    if n > 1 and rng.chance(0.4):
        order = list(range(c.ndim))
        rng.shuffle(order)
        c.transpose(order)
    name = rng.choice([None, "rainfall_amount"])
    before = content(c)
    out = integrate_time(c, name)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    mon.equal([out.name(), str(out.units)], [name or "rainfall_rate", "m"], "name and units")
    mon.equal([(m.method, m.coord_names) for m in out.cell_methods],
              [("sum", ("time",))] + [(m.method, m.coord_names) for m in methods if "time" not in m.coord_names], "cell methods")
    for i, (k, m) in enumerate(zip(times, lens)):
        o = out
        if n > 1:
            (d,) = out.coord_dims("time")
            ix = [slice(None)] * out.ndim
            ix[d] = ints(out.coord("time").points).index(gen.seconds(k))
            o = out[tuple(ix)]
        names = [x.name() for x in o.coords(dim_coords=True)]
        want_names = (["realization"] if nr else []) + [cs[0].coord(axis="y").name(), cs[0].coord(axis="x").name()]
        data = np.ma.transpose(o.data, [names.index(w) for w in want_names])
        mon.close(data, fields[i] * np.float32(m * 60.0), "rate times period")
        mon.equal(ints(o.coord("time").bounds), [[gen.seconds(k) - m * 60, gen.seconds(k)]], "period kept")
    mon.equal(out.dtype, np.dtype(np.float32), "type")
    plain = cube(rng.np.rand(2, 3).astype(np.float32), "rainfall_rate", "m s-1", time=t, frt=t - H)
    mon.raises(ValueError, integrate_time, plain, label="no period")
    mon.event("periods", n)
    mon.seen("case", f"{n} {nr} {masked} {name} {len(methods)}")
