"""C30: accumulations.  C31: extrapolation.  C32: radar composites and orographic
enhancement.  C33: optical flow.  C34: lightning."""
import datetime as dt
import warnings

import iris
import numpy as np
from cf_units import Unit
from iris.coords import AuxCoord, DimCoord
from iris.cube import Cube, CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, standard_faults

MMH = 1.0 / 3.6e6  # mm/h in m/s


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def flipped(c):
    """The same cube with a descending y coordinate."""
    y = c.coord(axis="y")
    d = c.coord_dims(y)[0]
    out = c.copy()
    data = np.flip(c.data, d)
    pts = y.points[::-1].copy()
    out.data = data.copy()
    yc = out.coord(axis="y")
    out.remove_coord(yc)
    out.add_dim_coord(DimCoord(pts, yc.name(), units=yc.units, coord_system=yc.coord_system,
                               bounds=None if y.bounds is None else y.bounds[::-1, ::-1].copy()), d)
    return out


def scalar_state(c, skip=()):
    return sorted((k.name(), str(k.units), repr(k.points.tolist()), repr(None if k.bounds is None else k.bounds.tolist()))
                  for k in c.coords() if k.name() not in skip)


# ----------------------------------------------------------- C30 accumulations
def rate_cubes(rng, n, step, t0, shape, masked, units, bounds=False):
    out = CubeList()
    for i in range(n):
        d = np.where(rng.np.rand(*shape) < 0.3, 0, rng.np.rand(*shape) * 10).astype(np.float32)
        c = cube(d, "lwe_precipitation_rate", "mm h-1", time=t0 + dt.timedelta(seconds=i * step), frt=t0)
        if masked:
            m = gen.random_mask(rng, shape, 0.15)
            c.data = np.ma.MaskedArray(np.where(m, 9e9, d).astype(np.float32), mask=m)
        c.convert_units(units)
        c.data = c.data.astype(np.float32)
        out.append(c)
    return out


@scenario("C30", quick=160, thorough=4000)
def accumulation(rng, mon):
    """Accumulations are trapezoidal sums over exactly their own period."""
    from improver.nowcasting.accumulation import Accumulation

    n = rng.randint(2, 9)
    step = rng.choice([60, 60, 300, 900])
    t0 = dt.datetime(2019, 3, 9, 12) + dt.timedelta(minutes=15 * rng.randint(0, 200))
    shape = (rng.randint(1, 4), rng.randint(1, 4))
    masked = rng.chance(0.4)
    units = rng.choice(["mm h-1", "m s-1", "mm s-1"])
    cubes = rate_cubes(rng, n, step, t0, shape, masked, units)
    order = list(range(n))
    rng.shuffle(order)
    given = CubeList([cubes[i] for i in order])
    out_units = rng.choice(["m", "mm", "cm"])
    k = rng.randint(1, n - 1)
    kw = {"accumulation_units": out_units}
    if rng.chance(0.75):
        kw["accumulation_period"] = rng.choice([k * step, np.int32(k * step)])
        period = k * step
    else:
        period = (n - 1) * step
    if rng.chance(0.6):
        ends = rng.sample(list(range(1, n)), rng.randint(1, n - 1))
        if rng.chance(0.5):
            ends = sorted(ends)
        kw["forecast_periods"] = np.array(ends) * step
        if rng.chance(0.3):
            kw["forecast_periods"] = [e * step for e in ends]
            if not any(e * step < period for e in ends) or True:
                kw["forecast_periods"] = np.array(kw["forecast_periods"], dtype=np.int32)
        if "accumulation_period" not in kw:
            kw["forecast_periods"] = np.array([(n - 1) * step])
        want_ends = [int(e) for e in kw["forecast_periods"] if e >= period]
    else:
        want_ends = [i * step for i in range(1, n) if i * step >= period]
    snap = [content(c) for c in cubes]
    plugin = Accumulation(**kw)
    out = plugin(given)
    for a, c in zip(snap, cubes):
        mon.equal(snap_diff(a, content(c)), [], "input changed")
    mon.equal([int(c.coord("forecast_period").points[0]) for c in out], want_ends, "periods provided")

    def expected(cs, end):
        per = period // step
        e = end // step
        total = 0.0
        m = np.zeros(shape, bool)
        sub = cs[e - per:e + 1]
        rates = []
        for c in sub:
            d = c.copy()
            fac = Unit(str(d.units)).convert(1.0, "m s-1")
            rates.append(np.ma.getdata(d.data).astype(float) * fac)
            m |= np.ma.getmaskarray(d.data)
        for a, b in zip(rates[:-1], rates[1:]):
            total = total + 0.5 * (a + b) * step
        return total * Unit("m").convert(1.0, out_units), m

    def verify(out, cs, start, what):
        for c in out:
            end = int(c.coord("forecast_period").points[0])
            want, m = expected(cs, end)
            mon.array_equal(np.ma.getmaskarray(c.data), m, what + " mask")
            got = np.ma.getdata(c.data)
            mon.close(got[~m], want[~m], what + " sum", rtol=2e-5, atol=1e-9)
            mon.equal(str(c.units), out_units, "units")
            mon.equal(c.name(), "lwe_thickness_of_precipitation_amount", "name")
            mon.equal(c.coord("forecast_period").bounds.tolist(), [[end - period, end]], "forecast period bounds")
            s = gen.seconds(start)
            mon.equal(c.coord("time").points.tolist(), [s + end], "time")
            mon.equal(c.coord("time").bounds.tolist(), [[s + end - period, s + end]], "time bounds")
            mon.equal(c.coord("forecast_reference_time").points.tolist(), [s], "reference time")
            mon.equal([m_.method for m_ in c.cell_methods], ["sum"], "cell method")
            mon.equal(standard_faults(c), [], "standards")
            mon.equal(c.attributes, cs[0].attributes, "attributes")
            mon.event("accumulations")
            mon.event("points summed", int((~m).sum()))

    verify(out, cubes, t0, "accumulation")
    mon.seen("case", (n, period // step, masked, units, out_units))
    # the plugin applied to the rates of another run
    n2 = n if "forecast_periods" in kw or "accumulation_period" in kw else rng.randint(2, 9)
    t1 = t0 + dt.timedelta(hours=1)
    other = rate_cubes(rng, n2, step, t1, shape, masked, units)
    again = plugin(CubeList(other))
    if "accumulation_period" not in kw:
        period = (n2 - 1) * step
        want_ends = [period]
    mon.equal([int(c.coord("forecast_period").points[0]) for c in again], want_ends, "second run: periods")
    verify(again, other, t1, "second run")


@scenario("C30", quick=60, thorough=800)
def accumulation_refusals(rng, mon):
    from improver.nowcasting.accumulation import Accumulation

    t0 = dt.datetime(2019, 3, 9, 12)
    step = 300
    cubes = rate_cubes(rng, 6, step, t0, (2, 3), False, "mm h-1")
    k = rng.randint(0, 3)
    if k == 0:
        bad = CubeList([c for i, c in enumerate(cubes) if i != rng.choice([1, 2, 3, 4])])
        if len(bad) == 6:
            bad = CubeList([cubes[0], cubes[1], cubes[3]])
        t = sorted(c.coord("time").points[0] for c in bad)
        if len(set(np.diff(t))) > 1:
            mon.raises(ValueError, Accumulation(accumulation_period=600), bad, label="uneven steps accepted")
    elif k == 1:
        mon.raises(ValueError, Accumulation(accumulation_period=rng.choice([60, 120, 240])), cubes,
                   label="period below the step accepted")
    elif k == 2:
        mon.raises(ValueError, Accumulation(accumulation_period=rng.choice([400, 450, 700, 1000])), cubes,
                   label="period not a multiple of the step accepted")
    else:
        cubes[2].data = cubes[2].data.astype(np.float64)
        mon.raises(ValueError, Accumulation(accumulation_period=600), cubes, label="double precision accepted")


# ----------------------------------------------------------- C31 extrapolation
def bilinear_back(data, mask, u, v, t, dx, dy):
    """Value, certain mask and judgeable flags of backwards advection (float64)."""
    ny, nx = data.shape
    yy, xx = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
    sx = xx - u * t / dx
    sy = yy - v * t / dy
    eps = 2e-3
    out = np.full(data.shape, np.nan)
    masked = np.zeros(data.shape, bool)
    judge = np.ones(data.shape, bool)
    for j in range(ny):
        for i in range(nx):
            x, y = sx[j, i], sy[j, i]
            if x < -eps or y < -eps or x > nx + eps or y > ny + eps:
                masked[j, i] = True
                continue
            if not (eps < x < nx - 1 - eps or abs(x - round(x)) == 0) or not (
                    eps < y < ny - 1 - eps or abs(y - round(y)) == 0) or x > nx - 1 or y > ny - 1:
                judge[j, i] = False
                continue
            x0, y0 = int(np.floor(x)), int(np.floor(y))
            fx, fy = x - x0, y - y0
            tot, hit, maybe = 0.0, False, False
            for a, wy in ((y0, 1 - fy), (y0 + 1, fy)):
                for b, wx in ((x0, 1 - fx), (x0 + 1, fx)):
                    if a >= ny or b >= nx:
                        continue
                    w = wx * wy
                    if mask[a, b]:
                        if w > 1e-4:
                            hit = True
                        else:
                            maybe = True
                    else:
                        tot += w * data[a, b]
            # rounding to the neighbouring cell brings in other masked points
            if mask.any():
                if abs(fx - round(fx)) < eps or abs(fy - round(fy)) < eps:
                    ys = slice(max(y0 - 1, 0), y0 + 3)
                    xs = slice(max(x0 - 1, 0), x0 + 3)
                    maybe = maybe or mask[ys, xs].any()
            if hit:
                masked[j, i] = True
            elif maybe:
                judge[j, i] = False
            else:
                out[j, i] = tot
    return out, masked, judge


def velocities(rng, shape, spacing, t, kind, flip=False):
    n = max(shape)
    peak = rng.choice([0.7, 1.5, 3.0]) * spacing / t
    if kind == "whole":
        u = np.full(shape, rng.randint(-2, 2) * spacing / t)
        v = np.full(shape, rng.randint(-2, 2) * spacing / t)
    elif kind == "constant":
        u = np.full(shape, rng.uniform(-peak, peak))
        v = np.full(shape, rng.uniform(-peak, peak))
    else:
        u = rng.np.uniform(-peak, peak, shape)
        v = rng.np.uniform(-peak, peak, shape)
    out = []
    for d, name in ((u, "precipitation_advection_x_velocity"), (v, "precipitation_advection_y_velocity")):
        out.append(cube(d.astype(np.float32), name, "m s-1", time=dt.datetime(2019, 3, 9, 12), frt=None,
                        spacing=spacing))
    return out


@scenario("C31", quick=200, thorough=6000)
def advection(rng, mon):
    """Backwards advection of one field."""
    from improver.nowcasting.forecasting import AdvectField

    shape = (rng.randint(2, 8), rng.randint(2, 8))
    spacing = rng.choice([2000.0, 1000.0])
    minutes = rng.choice([15, 15, 5, 60, 7, 1440, 1500])
    secs = minutes * 60
    kind = rng.choice(["whole", "constant", "varying"])
    u, v = velocities(rng, shape, spacing, secs, kind)
    d = (rng.np.rand(*shape) * 10).astype(np.float32)
    t0 = dt.datetime(2019, 3, 9, 12) + dt.timedelta(minutes=15 * rng.randint(0, 200))
    att = dict(gen.ATTRS)
    if rng.chance(0.3):
        del att["institution"]
    name, units = rng.choice([("lwe_precipitation_rate", "m s-1"), ("rainfall_rate", "mm h-1"), ("cloud_area_fraction", "1")])
    frt = rng.choice([None, t0 - dt.timedelta(hours=1)])
    scal = [AuxCoord(np.float32(10.0), "height", units="m")] if rng.chance(0.3) else []
    c = cube(d, name, units, time=t0, frt=frt, spacing=spacing, attributes=att, scalars=scal)
    masked = rng.chance(0.5)
    m = np.zeros(shape, bool)
    if masked:
        m = gen.random_mask(rng, shape, rng.choice([0.1, 0.3]))
        c.data = np.ma.MaskedArray(np.where(m, 9e9, d).astype(np.float32), mask=m)
    desc = rng.chance(0.3)
    if desc:
        c, u, v = flipped(c), flipped(u), flipped(v)
        m = m[::-1]
    dy = float(np.diff(c.coord(axis="y").points)[0])
    dx = float(np.diff(c.coord(axis="x").points)[0])
    config = {"title": "Something"} if rng.chance(0.3) else None
    snap = (content(c), content(u), content(v))
    plugin = AdvectField(u, v, attributes_dict=config)
    times = [minutes] + ([0] if rng.chance(0.3) else []) + ([2 * minutes] if rng.chance(0.3) else [])
    for mins in times:
        out = plugin(c, dt.timedelta(minutes=mins))
        for a, b in zip(snap, (c, u, v)):
            mon.equal(snap_diff(a, content(b)), [], "input changed")
        want, wm, judge = bilinear_back(np.ma.getdata(c.data).astype(float), m,
                                        u.data.astype(float), v.data.astype(float), mins * 60.0, dx, dy)
        if mins == 0:
            want, wm, judge = np.ma.getdata(c.data).astype(float), m, np.ones(shape, bool)
        gm = np.ma.getmaskarray(out.data)
        mon.array_equal(gm[judge], wm[judge], "mask of the advected field")
        ok = judge & ~wm
        mon.close(np.ma.getdata(out.data)[ok], want[ok], "advected values", rtol=1e-4, atol=2e-3)
        # beyond the last row of points: at most the value of the source
        mon.check(bool(np.all(np.ma.getdata(out.data)[~gm] <= 10.01)), "advected values within the data")
        s = gen.seconds(t0)
        mon.equal(out.coord("time").points.tolist(), [s + mins * 60], "time")
        mon.equal(out.coord("forecast_reference_time").points.tolist(), [s], "reference time")
        mon.equal(out.coord("forecast_period").points.tolist(), [mins * 60], "forecast period")
        mon.equal(standard_faults(out), [], "standards")
        mon.equal((out.name(), str(out.units)), (name, units), "name and units")
        mon.check(out.coord(axis="y") == c.coord(axis="y") and out.coord(axis="x") == c.coord(axis="x"), "grid")
        want_att = {"source": "Met Office Nowcast" if "institution" in att else "Nowcast", "title": att["title"]}
        want_att["institution"] = att.get("institution", "unknown")
        if config:
            want_att["title"] = "Something"
        mon.equal({k: out.attributes.get(k) for k in want_att}, want_att, "attributes")
        mon.check("Nowcast" in out.attributes.get("history", ""), "history")
        if scal:
            mon.equal(out.coord("height").points.tolist(), [10.0], "scalar coordinate")
        mon.event("advected points", int(ok.sum()))
        mon.event("masked points", int(wm[judge].sum()))
    mon.seen("case", (kind, masked, desc, name))


@scenario("C31", quick=60, thorough=800)
def advection_refusals(rng, mon):
    from improver.nowcasting.forecasting import AdvectField, CreateExtrapolationForecast
    from iris.exceptions import InvalidCubeError

    shape = (4, 5)
    u, v = velocities(rng, shape, 2000.0, 900, "constant")
    c = cube(np.ones(shape, np.float32), "cloud_area_fraction", "1", frt=None)
    other = cube(np.ones(shape, np.float32), "cloud_area_fraction", "1", frt=None, corner=(-9000.0, -5000.0))
    k = rng.randint(0, 6)
    if k == 0:
        mon.raises(Exception, AdvectField(u, v), other, dt.timedelta(minutes=15), label="another grid accepted")
    elif k == 1:
        b = cube(v.data, v.name(), "m s-1", frt=None, corner=(-9000.0, -5000.0))
        mon.raises(Exception, AdvectField, u, b, label="velocities on different grids accepted")
    elif k == 2:
        e = cube(np.ones((2,) + shape, np.float32), "cloud_area_fraction", "1", frt=None,
                 lead=[gen.realization_coord(2)])
        mon.raises(Exception, AdvectField(u, v), e, dt.timedelta(minutes=15), label="three dimensions accepted")
    elif k == 3:
        c.remove_coord("time")
        mon.raises(InvalidCubeError, AdvectField(u, v), c, dt.timedelta(minutes=15), label="no time accepted")
    elif k == 4:
        p = cube(np.ones(shape, np.float32), rng.choice(["lwe_precipitation_rate", "rainfall_rate"]), "mm h-1", frt=None)
        mon.raises(ValueError, CreateExtrapolationForecast, p, u, v, label="precipitation without orographic enhancement")
    elif k == 5:
        e = u.copy(np.ones(shape, np.float32))
        e.units = "K"
        mon.raises(Exception, AdvectField, e, v, label="velocity units")
    else:
        mon.raises(Exception, CreateExtrapolationForecast, c, None, v, label="missing velocity accepted")


def enhancement(rng, shape, t0, n, spacing=2000.0, units="mm h-1", frt=None, hours=1, name="orographic_enhancement"):
    """Enhancement at n hourly times, and its fields in m/s by time."""
    ts = [t0 + dt.timedelta(hours=hours * i) for i in range(n)]
    cs = CubeList()
    for t in ts:
        d = (rng.np.rand(*shape) * rng.choice([0.5, 2.0])).astype(np.float32)
        c = cube(d, name, "mm h-1", time=t, frt=frt if frt is None else t0, spacing=spacing)
        c.convert_units(units)
        c.data = c.data.astype(np.float32)
        cs.append(c)
    merged = cs.merge_cube()
    return merged, {gen.seconds(t): c.data.astype(float) * Unit(units).convert(1.0, "m s-1") for t, c in zip(ts, cs)}


def apply_oe(rate, mask, oe, op):
    """Naive orographic enhancement in m/s."""
    floor = MMH / 32
    o = np.where(rate < floor, 0.0, oe)
    if op == "add":
        return rate + o
    r = rate - o
    return np.where((rate >= floor) & (r <= floor), floor, r)


@scenario("C32", quick=200, thorough=5000)
def orographic(rng, mon):
    """Adding and subtracting orographic enhancement."""
    from improver.nowcasting.utilities import ApplyOrographicEnhancement

    shape = (rng.randint(1, 6), rng.randint(2, 6))
    base = dt.datetime(2019, 3, 9, 12)
    n = rng.randint(1, 4)
    oe, fields = enhancement(rng, shape, base, n, units=rng.choice(["mm h-1", "m s-1"]))
    units = rng.choice(["mm h-1", "m s-1"])
    op = rng.choice(["add", "subtract"])
    precips, want = CubeList(), []
    for _ in range(rng.randint(1, 3)):
        near = rng.randrange(n)
        off = rng.choice([0, 0, 5, -5, 15, -15, 25, -25])
        t = base + dt.timedelta(hours=near, minutes=off)
        rate = np.where(rng.np.rand(*shape) < 0.3, rng.choice([0.0, 0.02, 0.04]), rng.np.rand(*shape) * 4).astype(np.float32)
        if rng.chance(0.2):
            rate[0, 0] = np.float32(1.0 / 32)
        m = gen.random_mask(rng, shape, 0.2) if rng.chance(0.5) else None
        d = rate
        if m is not None:
            d = np.ma.MaskedArray(np.where(m, rng.choice([1.0 / 32, 9.0, 1e5]), rate).astype(np.float32), mask=m)
        p = cube(d, "lwe_precipitation_rate", "mm h-1", time=t, frt=None)
        p.convert_units(units)
        if units != "mm h-1":
            p.data = p.data.astype(np.float32)
        precips.append(p)
        fac = Unit(units).convert(1.0, "m s-1")
        r = np.ma.getdata(p.data).astype(float) * fac
        want.append((apply_oe(r, m, fields[gen.seconds(base + dt.timedelta(hours=near))], op) / fac, m,
                     np.abs(r - MMH / 32) < 1e-6 * MMH, fac))
    snap = [content(p) for p in precips], content(oe)
    one = len(precips) == 1 and rng.chance(0.5)
    plugin = ApplyOrographicEnhancement(op)
    for _ in range(2):
        out = plugin(precips[0] if one else precips, oe)
        for a, p in zip(snap[0], precips):
            mon.equal(snap_diff(a, content(p)), [], "precipitation changed")
        mon.equal(snap_diff(snap[1], content(oe)), [], "enhancement changed")
        mon.equal(len(out), len(precips), "number of fields")
        for c, p, (w, m, edge, fac) in zip(out, precips, want):
            m = np.zeros(shape, bool) if m is None else m
            mon.array_equal(np.ma.getmaskarray(c.data), m, "mask kept")
            ok = ~m & ~edge
            mon.close(np.ma.getdata(c.data)[ok], w[ok], "enhanced rate", rtol=1e-4, atol=3e-7 * MMH * 1000 / fac / 1000 + 2e-6 * np.abs(w).max())
            mon.equal(standard_faults(c), [], "standards")
            mon.equal((c.name(), str(c.units), scalar_state(c), dict(c.attributes)),
                      (p.name(), str(p.units), scalar_state(p), dict(p.attributes)), "metadata")
    mon.seen("case", (op, units, n, any(w[1] is not None for w in want)))
    late = precips[0].copy()
    late.coord("time").points = late.coord("time").points + (n + 2) * 3600
    mon.raises(ValueError, plugin, late, oe, label="distant enhancement used")
    mon.raises(ValueError, ApplyOrographicEnhancement("multiply"), precips[0], oe, label="unknown operation")


@scenario("C31", quick=120, thorough=2500)
def extrapolation(rng, mon):
    """Subtract, advect, add, at every lead time."""
    from improver.nowcasting.forecasting import CreateExtrapolationForecast

    shape = (rng.randint(2, 6), rng.randint(2, 6))
    interval = rng.choice([15, 5, 10])
    maxlead = interval * rng.randint(0, 4) + rng.choice([0, 0, 2])
    t0 = dt.datetime(2019, 3, 9, 12)
    u, v = velocities(rng, shape, 2000.0, interval * 60, rng.choice(["whole", "constant", "varying"]))
    precip = rng.chance(0.7)
    rate = np.where(rng.np.rand(*shape) < 0.3, 0.0, rng.np.rand(*shape) * 4).astype(np.float32)
    c = cube(rate, "lwe_precipitation_rate" if precip else "cloud_area_fraction", "mm h-1" if precip else "1",
             time=t0, frt=None)
    if precip:
        c.convert_units("m s-1")
        c.data = c.data.astype(np.float32)
    oe, fields = enhancement(rng, shape, t0, 3, units=rng.choice(["mm h-1", "m s-1"]))
    snap = (content(c), content(oe), content(u), content(v))
    plugin = CreateExtrapolationForecast(c, u, v, oe if precip else None)
    out = plugin(interval, maxlead)
    for a, b in zip(snap, (c, oe, u, v)):
        mon.equal(snap_diff(a, content(b)), [], "input changed")
    leads = list(range(0, maxlead + 1, interval))
    s = gen.seconds(t0)
    mon.equal([int(k.coord("forecast_period").points[0]) for k in out], [60 * l for l in leads], "lead times")
    base = c.data.astype(float)
    if precip:
        base = apply_oe(base, None, fields[s], "subtract")
    none = np.zeros(shape, bool)
    for k, lead in zip(out, leads):
        mon.equal(k.coord("time").points.tolist(), [s + 60 * lead], "time")
        mon.equal(k.coord("forecast_reference_time").points.tolist(), [s], "reference time")
        if lead:
            adv, wm, judge = bilinear_back(base, none, u.data.astype(float), v.data.astype(float), lead * 60.0, 2000.0, 2000.0)
        else:
            adv, wm, judge = base, none, ~none
        mon.array_equal(np.ma.getmaskarray(k.data)[judge], wm[judge], "mask")
        ok = judge & ~wm
        want = adv
        if precip:
            near = s + 3600 * int(round(lead / 60.0 + 1e-9))
            if abs((lead / 60.0) % 1 - 0.5) < 1e-6:
                continue
            want = apply_oe(np.where(ok, adv, 0), None, fields[near], "add")
            ok &= np.abs(adv - MMH / 32) > 3e-3 * MMH
        scale = MMH if precip else 1.0
        mon.close(np.ma.getdata(k.data)[ok] / scale, want[ok] / scale, "forecast", rtol=3e-4, atol=1e-3)
        mon.equal(standard_faults(k), [], "standards")
        mon.event("forecast fields")
    mon.seen("case", (precip, len(leads)))


@scenario("C31", quick=80, thorough=1500)
def pysteps(rng, mon):
    """The wrapping of the pysteps extrapolation: displacements, times, masks, enhancement."""
    import pysteps.extrapolation.semilagrangian as semi

    from improver.nowcasting.pysteps_advection import PystepsExtrapolate

    shape = (rng.randint(3, 7), rng.randint(3, 7))
    interval = rng.choice([15, 5, 1])
    steps = rng.randint(1, 4)
    maxlead = interval * steps + rng.choice([0, 0, interval // 2])
    t0 = dt.datetime(2019, 3, 9, 12)
    a, b = rng.randint(-1, 1), rng.randint(-1, 1)
    sp = rng.choice([2000.0, 1000.0])
    u, v = (cube(np.full(shape, 0.96 * k * sp / (60 * interval), np.float32), n, "m s-1", time=t0, frt=None, spacing=sp)
            for k, n in ((a, "grid_eastward_wind"), (b, "grid_northward_wind")))
    if rng.chance(0.3):
        u.convert_units("km h-1")
        v.convert_units("km h-1")
    rate = np.where(rng.np.rand(*shape) < 0.3, 0.0, rng.np.rand(*shape) * 4 + 0.1).astype(np.float32)
    m = gen.random_mask(rng, shape, 0.15) if rng.chance(0.5) else None
    d = rate if m is None else np.ma.MaskedArray(np.where(m, 9e5, rate).astype(np.float32), mask=m)
    c = cube(d, "lwe_precipitation_rate", "mm h-1", time=t0, frt=t0 if rng.chance(0.5) else None, spacing=sp)
    units = rng.choice(["mm h-1", "m s-1"])
    c.convert_units(units)
    c.data = c.data.astype(np.float32)
    oe, fields = enhancement(rng, shape, t0, 3, spacing=sp, units=rng.choice(["mm h-1", "m s-1"]))
    snap = [content(k) for k in (c, u, v, oe)]
    att = {"mosg__model_configuration": "nc_det"} if rng.chance(0.4) else None
    plugin = PystepsExtrapolate(interval, maxlead)
    del semi.CALLS[:]
    for turn in range(2):
        out = plugin(c, u, v, oe, attributes_dict=att)
        for s0, k in zip(snap, (c, u, v, oe)):
            mon.equal(snap_diff(s0, content(k)), [], "input changed")
        mon.equal(len(out), steps + 1, "number of forecasts")
        disp = semi.CALLS[-1][1]
        mon.close(disp[0], np.full(shape, 0.96 * a), "displacement x", atol=1e-4)
        mon.close(disp[1], np.full(shape, 0.96 * b), "displacement y", atol=1e-4)
        mm = np.zeros(shape, bool) if m is None else m
        r = np.ma.getdata(c.data).astype(float) * Unit(units).convert(1.0, "m s-1")
        base = apply_oe(np.where(mm, 0, r), None, fields[gen.seconds(t0)], "subtract")
        base = np.where(mm, np.nan, base)
        for i, k in enumerate(out):
            lead = i * interval
            w = np.full(shape, np.nan)
            for y in range(shape[0]):
                for x in range(shape[1]):
                    sy, sx = y - b * i, x - a * i
                    if 0 <= sy < shape[0] and 0 <= sx < shape[1]:
                        w[y, x] = base[sy, sx]
            wm = np.isnan(w)
            hour = lead / 60.0
            if abs(hour % 1 - 0.5) > 1e-6:
                near = gen.seconds(t0) + 3600 * int(round(hour))
                want = apply_oe(np.where(wm, 0, w), None, fields[near], "add")
                ok = ~wm & (np.abs(np.where(wm, 0, w) - MMH / 32) > 1e-4 * MMH)
                mon.close(np.ma.getdata(k.data)[ok], want[ok] * Unit("m s-1").convert(1.0, units), "forecast",
                          rtol=1e-4, atol=1e-5 * (1 if units == "mm h-1" else MMH))
            mon.array_equal(np.ma.getmaskarray(k.data), wm, "mask")
            s = gen.seconds(t0)
            mon.equal((k.coord("time").points.tolist(), k.coord("forecast_period").points.tolist(),
                       k.coord("forecast_reference_time").points.tolist()), ([s + 60 * lead], [60 * lead], [s]), "times")
            mon.equal(standard_faults(k), [], "standards")
            mon.equal(str(k.units), units, "units")
            mon.equal(k.attributes.get("source"), "MONOW", "source")
            if att:
                mon.equal(k.attributes.get("mosg__model_configuration"), "nc_det", "attributes")
            mon.event("forecast fields")
    bad = cube(rate, "lwe_thickness_of_precipitation_amount", "mm", time=t0, frt=None, spacing=sp)
    mon.raises(ValueError, plugin, bad, u, v, oe, label="amounts accepted")
    mon.seen("case", (a, b, units, m is not None))


# ----------------------------------------------------------- C32 radar composites
@scenario("C32", quick=150, thorough=3000)
def radar_mask(rng, mon):
    """Radar data are masked exactly where the coverage is not valid."""
    from improver.nowcasting.utilities import ExtendRadarMask

    shape = (rng.randint(1, 6), rng.randint(1, 6))
    nt = rng.choice([0, 0, 2, 3])
    full = shape if nt == 0 else (nt,) + shape
    cov = rng.np.randint(0, 4, full).astype(np.int32)
    rate = (rng.np.rand(*full) * 5).astype(np.float32)
    m = cov == 0
    data = np.ma.MaskedArray(rate, mask=m)
    t0 = dt.datetime(2019, 3, 9, 12)
    kw = dict(frt=None, time=t0)
    if nt:
        tc = DimCoord(np.array([gen.seconds(t0) + 900 * i for i in range(nt)], np.int64), "time", units=gen.TIME_UNIT)
        kw = dict(times=False, lead=[tc])
    rad = cube(data, "lwe_precipitation_rate", "mm h-1", **kw)
    cvc = cube(cov, "radar_coverage", "1", **kw)
    snap = content(rad), content(cvc)
    out = ExtendRadarMask()(rad, cvc)
    mon.equal(snap_diff(snap[0], content(rad)) + snap_diff(snap[1], content(cvc)), [], "input changed")
    want = ~((cov == 1) | (cov == 2))
    mon.array_equal(np.ma.getmaskarray(out.data), want, "mask")
    mon.array_equal(np.ma.getdata(out.data)[~want], rate[~want], "values")
    mon.equal((out.name(), str(out.units), scalar_state(out), dict(out.attributes)),
              (rad.name(), str(rad.units), scalar_state(rad), dict(rad.attributes)), "metadata")
    mon.event("coverage values", int(cov.size))
    bad = cvc.copy()
    bad.coord(axis="x").points = bad.coord(axis="x").points + np.float32(1000)
    mon.raises(ValueError, ExtendRadarMask(), rad, bad, label="another grid accepted")
    bad = cvc.copy()
    bad.coord("time").points = bad.coord("time").points + 900
    mon.raises(ValueError, ExtendRadarMask(), rad, bad, label="another time accepted")


@scenario("C32", quick=100, thorough=2500)
def radar_holes(rng, mon):
    """Small holes are filled with the geometric mean of their surroundings."""
    from improver.nowcasting.utilities import FillRadarHoles

    shape = (rng.randint(9, 20), rng.randint(9, 20))
    kind = rng.choice(["wet", "mixed", "dry"])
    rate = {"wet": 0.05 + rng.np.rand(*shape) * 5, "dry": np.zeros(shape),
            "mixed": np.where(rng.np.rand(*shape) < 0.05, 0, 0.05 + rng.np.rand(*shape) * 5)}[kind].astype(np.float32)
    m = rng.np.rand(*shape) < rng.choice([0.02, 0.1, 0.25, 0.35])
    if rng.chance(0.5):
        y, x = rng.randint(0, shape[0] - 3), rng.randint(0, shape[1] - 3)
        m[y:y + rng.randint(1, 7), x:x + rng.randint(1, 7)] = True
    data = np.ma.MaskedArray(np.where(m, rng.choice([np.float32(9.0e5), np.nan, 0.0]), rate).astype(np.float32), mask=m)
    c = cube(data, "lwe_precipitation_rate", "mm h-1", frt=None)
    units = rng.choice(["mm h-1", "m s-1"])
    c.convert_units(units)
    c.data = c.data.astype(np.float32)
    snap = content(c)
    out = FillRadarHoles()(c)
    mon.equal(snap_diff(snap, content(c)), [], "input changed")
    fac = Unit("mm h-1").convert(1.0, units)
    want, wm = rate.astype(float).copy(), m.copy()
    filled = 0
    for y in range(shape[0]):
        for x in range(shape[1]):
            if not m[y, x]:
                continue
            out_of = 81 - (min(y + 4, shape[0] - 1) - max(y - 4, 0) + 1) * (min(x + 4, shape[1] - 1) - max(x - 4, 0) + 1)
            near = m[max(y - 4, 0):y + 5, max(x - 4, 0):x + 5].sum() + out_of
            if near >= 0.3 * 81:
                continue
            sl = (slice(max(y - 2, 0), y + 3), slice(max(x - 2, 0), x + 3))
            vals = rate[sl][~m[sl]].astype(float)
            wm[y, x] = False
            filled += 1
            want[y, x] = 0 if (vals <= 0.001).any() or not len(vals) else 10 ** np.mean(np.log10(vals))
    mon.array_equal(np.ma.getmaskarray(out.data), wm, "holes filled")
    mon.close(np.ma.getdata(out.data)[~wm] / fac, want[~wm], "values", rtol=1e-4, atol=1e-6)
    mon.equal((str(out.units), scalar_state(out)), (units, scalar_state(c)), "metadata")
    mon.equal(standard_faults(out), [], "standards")
    mon.event("holes filled", filled)
    mon.event("holes kept", int(wm.sum()))


# ----------------------------------------------------------- C33 optical flow
def blob_field(shape, cy, cx, w):
    yy, xx = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
    return np.exp(-((yy - cy) ** 2 + (xx - cx) ** 2) / (2.0 * w * w))


def rain(rng, shape, t, dy=0.0, dx=0.0, seeds=None):
    f = np.zeros(shape)
    for cy, cx, w, a in seeds:
        f += a * blob_field(shape, cy + dy, cx + dx, w)
    c = cube(f.astype(np.float32), "rainfall_rate", "mm h-1", time=t, frt=None)
    return c


@scenario("C33", quick=40, thorough=900)
def optical_flow(rng, mon):
    """Known displacements are recovered; symmetries of the method hold."""
    from improver.nowcasting.optical_flow import OpticalFlow, generate_optical_flow_components

    shape = (rng.randint(60, 90), rng.randint(60, 90))
    seeds = []
    for y in range(0, shape[0] + 15, 15):
        for x in range(0, shape[1] + 15, 15):
            seeds.append((y + rng.uniform(-4, 4), x + rng.uniform(-4, 4), rng.uniform(4, 6), rng.uniform(3, 12)))
    t0 = dt.datetime(2019, 3, 9, 12)
    mins = rng.choice([15, 10, 5])
    t1 = t0 + dt.timedelta(minutes=mins)
    box = rng.choice([15, 20, 30])
    # displacements beyond a third of the number of boxes are discarded
    most = 0.35 * ((shape[0] - 1) // box + 1) / 3.0
    dy, dx = rng.uniform(-most, most), rng.uniform(-most, most)
    a, b = rain(rng, shape, t0, seeds=seeds), rain(rng, shape, t1, dy, dx, seeds)
    method = rng.choice(["box", "kernel"])
    kw = dict(data_smoothing_method=method, data_smoothing_radius_km=rng.choice([6.0, 8.0]), iterations=rng.choice([20, 30]))
    snap = content(a), content(b)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        plugin = OpticalFlow(**kw)
        u, v = plugin(a, b, boxsize=box)
        mon.equal(snap_diff(snap[0], content(a)) + snap_diff(snap[1], content(b)), [], "input changed")
        u2, v2 = plugin(a, b, boxsize=box)
    mon.array_equal(u2.data, u.data, "second use")
    want = dx * 2000.0 / (60 * mins), dy * 2000.0 / (60 * mins)
    inner = (slice(15, -15), slice(15, -15))
    tol = 0.35 * max(abs(want[0]), abs(want[1])) + 0.25 * 2000.0 / (60 * mins) * 0.5
    mon.check(abs(float(u.data[inner].mean()) - want[0]) < tol, "mean x velocity %.3f, moved at %.3f" % (u.data[inner].mean(), want[0]))
    mon.check(abs(float(v.data[inner].mean()) - want[1]) < tol, "mean y velocity %.3f, moved at %.3f" % (v.data[inner].mean(), want[1]))
    for k, name in ((u, "precipitation_advection_x_velocity"), (v, "precipitation_advection_y_velocity")):
        mon.equal((k.name(), str(k.units), str(k.dtype)), (name, "m s-1", "float32"), "velocity metadata")
        mon.equal(k.coord("time").points.tolist(), [gen.seconds(t1)], "time is that of the later field")
        mon.equal(k.shape, shape, "shape")
    # dimension order, units and time scale
    k = rng.randint(0, 5)
    scale = float(np.abs(u.data).max() + np.abs(v.data).max())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if k == 0:
            at, bt = a.copy(), b.copy()
            which = rng.randint(0, 2)
            if which != 1:
                at.transpose()
            if which != 0:
                bt.transpose()
            ut, vt = OpticalFlow(**kw)(at, bt, boxsize=box)
            ut.data, vt.data
            for got, ref in ((ut, u), (vt, v)):
                if got.coord_dims(got.coord(axis="y")) == (1,):
                    got.transpose()
                mon.close(got.data, ref.data, "order of dimensions", atol=1e-4 * scale)
        elif k == 1:
            am, bm = a.copy(), b.copy()
            am.convert_units("m s-1")
            bm.convert_units("m s-1")
            um, vm = OpticalFlow(**kw)(am, bm, boxsize=box)
            mon.close(um.data, u.data, "units", atol=1e-2 * scale)
            mon.close(vm.data, v.data, "units", atol=1e-2 * scale)
        elif k == 2:
            # the fields exchanged: the motion reversed
            ar, br = a.copy(b.data), b.copy(a.data)
            ur, vr = OpticalFlow(**kw)(ar, br, boxsize=box)
            mon.close(ur.data, -u.data, "reversed x", atol=1e-3 * scale)
            mon.close(vr.data, -v.data, "reversed y", atol=1e-3 * scale)
        elif k == 3:
            # the diagonal mirror image exchanges the components
            as_, bs = (cube(np.ascontiguousarray(c.data.T), "rainfall_rate", "mm h-1", time=t, frt=None)
                       for c, t in ((a, t0), (b, t1)))
            us, vs = OpticalFlow(**kw)(as_, bs, boxsize=box)
            if shape[0] == shape[1] or (shape[0] - 1) // box == (shape[1] - 1) // box:
                mon.close(us.data, v.data.T, "mirrored x", atol=2e-2 * scale)
                mon.close(vs.data, u.data.T, "mirrored y", atol=2e-2 * scale)
        elif k == 4:
            # missing data count as dry
            m = np.zeros(shape, bool)
            m[:8] = True
            d0, d1 = np.where(m, 0, a.data).astype(np.float32), np.where(m, 0, b.data).astype(np.float32)
            ref = OpticalFlow(**kw)(a.copy(d0), b.copy(d1), boxsize=box)
            hid = OpticalFlow(**kw)(a.copy(np.ma.MaskedArray(np.where(m, 9e9, a.data).astype(np.float32), m)),
                                    b.copy(np.ma.MaskedArray(np.where(m, -9e9, b.data).astype(np.float32), m)), boxsize=box)
            for x, y in zip(ref, hid):
                mon.close(y.data, x.data, "masked points", atol=1e-4 * scale)
        else:
            # a forecast valid at the time of the observation
            fc = a.copy()
            fc.coord("time").points = b.coord("time").points
            fc.add_aux_coord(AuxCoord(np.array([60 * mins], np.int32), "forecast_period", units="seconds"))
            uf, vf = OpticalFlow(**kw)(fc, b, boxsize=box)
            mon.close(uf.data, u.data, "forecast against observation", atol=1e-5 * scale)
            mon.close(vf.data, v.data, "forecast against observation", atol=1e-5 * scale)
    mon.seen("case", (method, mins, box, k))
    mon.event("flow fields")


@scenario("C33", quick=16, thorough=250)
def flow_components(rng, mon):
    """Mean flow of several fields in any order, dry fields and refusals."""
    from improver.nowcasting.optical_flow import OpticalFlow, generate_optical_flow_components
    from iris.exceptions import InvalidCubeError

    shape = (48, 52)
    seeds = [(y + rng.uniform(-3, 3), x + rng.uniform(-3, 3), 5, rng.uniform(3, 12))
             for y in range(0, 60, 13) for x in range(0, 60, 13)]
    t0 = dt.datetime(2019, 3, 9, 12)
    n = rng.choice([2, 3, 4])
    dy, dx = rng.uniform(-1, 1), rng.uniform(-1, 1)
    cs = [rain(rng, shape, t0 + dt.timedelta(minutes=15 * i), i * dy, i * dx, seeds) for i in range(n)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pairs = [OpticalFlow(iterations=20)(a, b, boxsize=16) for a, b in zip(cs[:-1], cs[1:])]
        order = list(range(n))
        rng.shuffle(order)
        lst = CubeList([cs[i].copy() for i in order])
        u, v = generate_optical_flow_components(lst, 16, 20)
        for got, k in ((u, 0), (v, 1)):
            want = np.mean([p[k].data.astype(float) for p in pairs], axis=0)
            mon.close(got.data, want, "mean flow", atol=1e-5 + 1e-5 * np.abs(want).max())
            mon.equal(got.coord("time").points.tolist(), [gen.seconds(t0 + dt.timedelta(minutes=15 * (n - 1)))], "time")
            mon.equal(got.name(), pairs[0][k].name(), "name")
            mon.equal(got.shape, shape, "shape")
        dry = cs[0].copy(np.zeros(shape, np.float32))
        uz, vz = OpticalFlow()(*((dry, cs[1]) if rng.chance(0.5) else (cs[0], cs[1].copy(dry.data))), boxsize=30)
        mon.check(not uz.data.any() and not vz.data.any(), "dry fields give no motion")
        mon.raises(ValueError, OpticalFlow, iterations=rng.choice([1, 19]), label="too few iterations")
        other = cs[1].copy()
        other.rename("lwe_precipitation_rate")
        mon.raises(ValueError, OpticalFlow(), cs[0], other, boxsize=30, label="different diagnostics")
        mon.raises(Exception, OpticalFlow(), cs[1], cs[0], boxsize=30, label="fields in reverse order of time")
        mon.raises(Exception, OpticalFlow(), cs[0], cs[0], boxsize=30, label="no time difference")
        mon.raises(ValueError, OpticalFlow(data_smoothing_radius_km=5.0), cs[0], cs[1], boxsize=30, label="radius below three points")
        mon.raises(ValueError, OpticalFlow(), cs[0], cs[1], boxsize=6, label="box smaller than the radius")
        shifted = rain(rng, shape, t0 + dt.timedelta(minutes=15), 0, 0, seeds)
        shifted.coord(axis="x").points = shifted.coord(axis="x").points + np.float32(2000)
        mon.raises(Exception, OpticalFlow(), cs[0], shifted, boxsize=30, label="different grids")
        for i in (0, 1):
            timeless = [cs[0].copy(), cs[1].copy()]
            timeless[i].remove_coord("time")
            mon.raises(InvalidCubeError, OpticalFlow(), *timeless, boxsize=30, label="no time")
    mon.seen("case", n)


def flow_reference(d1, d2, radius, method, box, iterations):
    """Displacements in grid squares by the documented method, box by box in double precision."""
    def smooth(f, r, how):
        n = 2 * r + 1
        if how == "box":
            w = np.full(n, 1.0 / n)
            p = np.pad(f, r, mode="edge")
        else:
            w = np.array([r + 1 - abs(k - r) - 1.0 for k in range(n)])
            w /= w.sum()
            p = np.pad(f, r, mode="symmetric")
        p = sum(w[k] * p[k:k + f.shape[0]] for k in range(n))
        return sum(w[k] * p[:, k:k + f.shape[1]] for k in range(n))

    corners = lambda a: (a[1:, 1:] + a[1:, :-1] + a[:-1, 1:] + a[:-1, :-1]) / 4.0
    onto = lambda a: corners(np.pad(a, 1))
    a, b = smooth(d1, radius, method), smooth(d2, radius, method)
    mean = (a + b) / 2
    gx = np.diff(mean, axis=1)
    gy = np.diff(mean, axis=0)
    dx, dy, dtt = onto((gx[1:] + gx[:-1]) / 2), onto((gy[:, 1:] + gy[:, :-1]) / 2), onto(corners(b - a))
    ny, nx = [-(-n // box) for n in d1.shape]
    u, v, w = np.zeros((ny, nx)), np.zeros((ny, nx)), np.zeros((ny, nx))
    for i in range(ny):
        for j in range(nx):
            s = slice(i * box, (i + 1) * box), slice(j * box, (j + 1) * box)
            A = np.stack([dx[s].ravel(), dy[s].ravel()], axis=1)
            if np.linalg.cond(A) > 30:
                return None
            u[i, j], v[i, j] = np.linalg.lstsq(A, -dtt[s].ravel(), rcond=None)[0]
            q = 1 - np.exp(-0.5 * (a[s].sum() + b[s].sum()) / box ** 2 / 0.8)
            if abs(q - 0.01) < 1e-4:
                return None
            w[i, j] = q if q > 0.01 else 0.0
    if (np.abs(u) + np.abs(v)).max() > 0.99 * ny / 3.0:
        return None  # may be discarded as extreme
    kern = {(i, j): (0.0, 1.0, 0.5)[abs(i) + abs(j)] / 6.0 for i in (-1, 0, 1) for j in (-1, 0, 1)}

    def around(f):
        p = np.pad(f, 1, mode="symmetric")
        return sum(k * p[1 + i:1 + i + ny, 1 + j:1 + j + nx] for (i, j), k in kern.items())

    out = []
    for f in (u, v):
        it = f
        for _ in range(iterations):
            wn, vn, plain = around(w), around(w * it), around(it)
            nxt = np.where(wn > 0, vn / np.where(wn > 0, wn, 1), plain)
            norm = 0.9 * wn + 0.1 * w
            it = np.where(w > 0, (0.9 * vn + 0.1 * w * f) / np.where(w > 0, norm, 1), nxt)
        big = np.repeat(np.repeat(it, box, 0), box, 1)[:d1.shape[0], :d1.shape[1]]
        out.append(smooth(big, box // 3, "kernel"))
    return out


@scenario("C33", quick=24, thorough=600)
def flow_exactly(rng, mon):
    """The least-squares displacement of every box, weighted and smoothed as documented."""
    from improver.nowcasting.optical_flow import OpticalFlow

    box = rng.choice([8, 10, 12, 15])
    km = rng.choice([1.0, 2.0])
    mins = rng.choice([5, 10, 15, 20, 30])
    base = rng.choice([3, 4]) * km
    radius = int(base * max(1.0, mins / 15.0) / km)
    shape = (rng.randint(4, 6) * box + rng.choice([0, 3, 5]), rng.randint(3, 6) * box + rng.choice([0, 2, 7]))
    dy, dx = rng.uniform(-0.8, 0.8), rng.uniform(-0.8, 0.8)
    amp = rng.choice([0.05, 0.5, 5.0])
    seeds = [(y + rng.uniform(-4, 4), x + rng.uniform(-4, 4), rng.uniform(3, 5), amp * 10 ** rng.uniform(-1.2, 0.6))
             for y in range(0, shape[0] + 12, 10) for x in range(0, shape[1] + 12, 10)]
    t0 = dt.datetime(2019, 3, 9, 12)
    a, b = [rain(rng, shape, t0 + dt.timedelta(minutes=m), y, x, seeds) for m, y, x in ((0, 0, 0), (mins, dy, dx))]
    for c in (a, b):
        for ax in ("x", "y"):
            k = c.coord(axis=ax)
            k.points = (np.arange(len(k.points)) * 1000 * km).astype(np.float32)
            k.bounds = None
    method, iters = rng.choice(["box", "kernel"]), rng.choice([20, 35])
    if radius > box:
        return mon.raises(ValueError, OpticalFlow(method, base, iters), a, b, boxsize=box, label="box smaller than the radius")
    want = flow_reference(a.data.astype(float), b.data.astype(float), radius, method, box, iters)
    if want is None:
        return mon.event("ill conditioned")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = OpticalFlow(data_smoothing_method=method, data_smoothing_radius_km=base, iterations=iters)(a, b, boxsize=box)
    scale = max(np.abs(k).max() for k in want) + 0.05
    for g, w, name in zip(got, want, "xy"):
        mon.close(g.data * 60 * mins / (1000 * km), w, "displacement " + name, rtol=0, atol=1e-3 * scale)
    mon.event("boxes", (-(-shape[0] // box)) * (-(-shape[1] // box)))
    mon.seen("case", (method, mins, box, km, amp))


# ----------------------------------------------------------- C34 lightning
@scenario("C34", quick=150, thorough=4000)
def cape_precip(rng, mon):
    """Lightning where both CAPE and precipitation exceed their latitude-dependent thresholds."""
    from improver.lightning import LightningFromCapePrecip

    ny, nx = rng.randint(3, 9), rng.randint(2, 4)
    glob = True
    t0 = dt.datetime(2019, 3, 9, 12)
    hours = rng.choice([1, 3])
    t1 = t0 + dt.timedelta(hours=hours)
    frt = t0 - dt.timedelta(hours=6)
    lead = [gen.realization_coord(rng.randint(1, 3))] if rng.chance(0.5) else []
    shape = tuple(len(k.points) for k in lead) + (ny, nx)
    kw = dict(lead=lead, frt=frt)
    if glob:
        lat0 = rng.choice([-80.0, -60.0, -10.0, 5.0])
        kw.update(grid="latlon", yspacing=rng.choice([7.0, 13.0, 2.0]), spacing=10.0, corner=(lat0, 0.0))
    cape_d = (rng.np.rand(*shape) * 700).astype(np.float32)
    cape_d = np.where(rng.np.rand(*shape) < 0.2, 350, np.where(rng.np.rand(*shape) < 0.1, 500, cape_d)).astype(np.float32)
    rate_d = (rng.np.rand(*shape) * 6).astype(np.float32)
    cape = cube(cape_d, rng.choice(["atmosphere_convective_available_potential_energy",
                                    "atmosphere_convective_available_potential_energy_of_most_unstable"][:1]),
                "J kg-1", time=t0, **kw)
    rate = cube(rate_d, "precipitation_rate_max", "mm h-1", time=t1, bounds=(t0, t1), **kw)
    rate.rename("precipitation_rate_max")
    if glob:
        lat = cape.coord("latitude").points.astype(float)
    else:
        import cartopy.crs as ccrs
        xx, yy = np.meshgrid(cape.coord(axis="x").points, cape.coord(axis="y").points)
        lat = ccrs.PlateCarree().transform_points(cape.coord_system().as_cartopy_crs(), xx, yy)[..., 1]
    if rng.chance(0.4):
        rate.convert_units("m s-1")
        rate.data = rate.data.astype(np.float32)
    frac = np.clip((50.0 - np.abs(lat)) / 40.0, 0, 1)
    ct, rt = 350 + 150 * frac, 1 + 3 * frac
    if glob:
        ct, rt = ct[:, None], rt[:, None]
    want = (cape_d > ct) & (rate_d > rt)
    edge = (np.abs(cape_d - ct) < 1e-3) & ~((cape_d == 350) & (frac == 0 if not glob else frac[:, None] == 0)) & ~(
        (cape_d == 500) & (frac == 1 if not glob else frac[:, None] == 1))
    edge |= np.abs(rate_d - rt) < 1e-4
    snap = content(cape), content(rate)
    model = "mosg__model_configuration" if rng.chance(0.4) else None
    if model:
        for k in (cape, rate):
            k.attributes[model] = "uk_ens"
        snap = content(cape), content(rate)
    args = [cape, rate]
    if rng.chance(0.5):
        args.reverse()
    if rng.chance(0.5):
        args = [CubeList(args)]
    plugin = LightningFromCapePrecip(model_id_attr=model)
    for _ in range(2):
        out = plugin(*args)
        mon.equal(snap_diff(snap[0], content(cape)) + snap_diff(snap[1], content(rate)), [], "input changed")
        mon.equal(out.shape, shape, "shape")
        mon.array_equal(out.data[~edge], want[~edge].astype(np.float32), "lightning")
        mon.equal((out.name(), str(out.units)),
                  ("probability_of_number_of_lightning_flashes_per_unit_area_above_threshold", "1"), "name")
        mon.equal((out.coord("time").points.tolist(), out.coord("time").bounds.tolist()),
                  ([gen.seconds(t1)], [[gen.seconds(t0), gen.seconds(t1)]]), "times")
        th = out.coord(var_name="threshold")
        mon.equal((th.name(), str(th.units), th.points.tolist(), th.attributes["spp__relative_to_threshold"]),
                  ("number_of_lightning_flashes_per_unit_area", "m-2", [0.0], "greater_than"), "threshold")
        mon.equal(standard_faults(out), [], "standards")
        mon.equal(out.attributes.get("mosg__model_configuration"), "uk_ens" if model else None, "model attribute")
    mon.event("points", int((~edge).sum()))
    mon.event("lightning points", int(want.sum()))
    mon.seen("case", (glob, hours, bool(lead)))
    k = rng.randint(0, 4)
    bad_c, bad_r = cape.copy(), rate.copy()
    if k == 0:
        bad_c.coord("time").points = bad_c.coord("time").points + 3600 * rng.choice([1, -1])
    elif k == 1:
        bad_c.coord("forecast_reference_time").points = bad_c.coord("forecast_reference_time").points + 3600
    elif k == 2:
        b = bad_r.coord("time").bounds.copy()
        b[0, 1] += 3600
        if b[0, 1] - b[0, 0] in (3600, 10800):
            b[0, 1] += 3600
        bad_r.coord("time").bounds = b
    elif k == 3:
        bad_c.coord(axis="x").points = bad_c.coord(axis="x").points + np.float32(1)
    else:
        bad_r.rename("rainfall_rate")
    mon.raises(ValueError, plugin, bad_c, bad_r, label="mismatched inputs accepted (%d)" % k)


@scenario("C34", quick=150, thorough=4000)
def usaf(rng, mon):
    """The regression of the multivariate method, point by point."""
    from improver.lightning import LightningMultivariateProbability_USAF2024

    t0 = dt.datetime(2019, 3, 9, 12)
    t1 = t0 + dt.timedelta(hours=3)
    frt = t0 - dt.timedelta(hours=6)
    ny, nx = rng.randint(1, 4), rng.randint(2, 5)
    lead = [gen.realization_coord(rng.randint(1, 3))] if rng.chance(0.5) else []
    shape = tuple(len(k.points) for k in lead) + (ny, nx)
    r = lambda lo, hi: (lo + rng.np.rand(*shape) * (hi - lo)).astype(np.float32)
    cape = np.where(rng.np.rand(*shape) < 0.3, 0, r(0, 4000)).astype(np.float32)
    li = r(-12, 12)
    pwat = r(0, 60)
    cin = -np.where(rng.np.rand(*shape) < 0.3, 0, r(0, 300)).astype(np.float32)
    apcp = np.where(rng.np.rand(*shape) < 0.3, 0, r(0, rng.choice([2, 30]))).astype(np.float32)
    kw = dict(lead=lead, frt=frt)
    names = ["atmosphere_specific_convective_available_potential_energy",
             "temperature_difference_between_ambient_air_and_air_lifted_adiabatically", "precipitable_water",
             "atmosphere_specific_convective_inhibition", "precipitation_amount"]
    units = ["J kg-1", "K", rng.choice(["kg m-2", "mm"]), "J kg-1", rng.choice(["kg m-2", "mm"])]
    cubes = CubeList()
    for n, un, d in zip(names[:4], units, (cape, li, pwat, cin)):
        cubes.append(cube(d, n, un, time=t0, **kw))
    cubes.append(cube(apcp, names[4], units[4], time=t1, bounds=(t0, t1), **kw))
    C, L, P, I, A = (k.astype(float) for k in (cape, li, pwat, -cin, apcp))
    A = A / 1000 * 39.3701
    p = 0.13 * np.log(C * A + 0.7) + 0.05
    dry = 0.025 * np.log(C / (I + 100) + 0.31) + 0.03
    low = A - P / 1000 < 0.01
    edge = np.abs(A - P / 1000 - 0.01) < 1e-6
    p = np.where(low, dry, p)
    lx = np.maximum(L + 4, 0)
    p = np.where(C <= 0, 0.2 * np.sqrt(lx * A), p)
    p = np.where(P < 20, p * P / 20, p)
    p = np.minimum(p, 0.95)
    order = list(range(5))
    rng.shuffle(order)
    given = CubeList([cubes[i] for i in order])
    snap = [content(c) for c in cubes]
    plugin = LightningMultivariateProbability_USAF2024()
    for _ in range(2):
        out = plugin(given)
        for a, b in zip(snap, cubes):
            mon.equal(snap_diff(a, content(b)), [], "input changed")
        mon.close(out.data[~edge], p[~edge], "probability", rtol=1e-4, atol=1e-5)
        mon.check(float(out.data.max()) <= 0.95 + 1e-6, "at most 0.95")
        mon.equal((out.name(), str(out.units)), (
            "probability_of_number_of_lightning_flashes_per_unit_area_in_vicinity_above_threshold", "1"), "name")
        mon.equal(out.coord("time").bounds.tolist(), [[gen.seconds(t0), gen.seconds(t1)]], "time")
        mon.equal(out.coord("radius_of_vicinity").points.tolist(), [20000.0], "vicinity")
        mon.equal(out.coord(var_name="threshold").points.tolist(), [0.0], "threshold")
        mon.equal(standard_faults(out), [], "standards")
    mon.event("points", int((~edge).sum()))
    mon.event("points without CAPE", int((C <= 0).sum()))
    mon.event("points with little precipitation", int((low & (C > 0)).sum()))
    mon.event("points with little water", int((P < 20).sum()))
    mon.seen("case", (bool(lead), units[2], units[4], bool((C <= 0).any()), bool(low.any()), bool((P < 20).any())))
    k = rng.randint(0, 6)
    bad = CubeList([c.copy() for c in cubes])
    i = rng.randrange(4)
    if k == 0:
        bad[i].coord("time").points = bad[i].coord("time").points + 3600
    elif k == 1:
        bad[i].coord("forecast_reference_time").points = bad[i].coord("forecast_reference_time").points + 3600
    elif k == 2:
        bad[4].coord("time").bounds = bad[4].coord("time").bounds + np.array([[0, 3600]])
    elif k == 3:
        bad[i].coord(axis="x").points = bad[i].coord(axis="x").points + np.float32(1)
    elif k == 4:
        bad.remove(bad[i])
    elif k == 5:
        i = rng.randrange(5)
        if i in (2, 4):
            bad[i].units = "kg m-2"
            bad[i].convert_units("g m-2")
        elif i == 1:
            bad[i].convert_units("celsius")
        else:
            bad[i].convert_units("kJ kg-1")
    else:
        # another period than three hours
        b = rng.choice([3600, 7200, 6 * 3600])
        bad[4].coord("time").bounds = bad[4].coord("time").bounds[:, :1] + np.array([[0, b]])
        bad[4].coord("time").points = bad[4].coord("time").bounds[:, 1]
    mon.raises(ValueError, plugin, bad, label="mismatched inputs accepted (%d)" % k)


@scenario("C34", quick=80, thorough=1500)
def double_scaling(rng, mon):
    """Linear rescaling and the combination of a rescaled field with a limit."""
    from improver.utilities.rescale import apply_double_scaling, rescale

    shape = (rng.randint(1, 5), rng.randint(1, 5))
    d = rng.np.uniform(-10, 10, shape).astype(np.float32)
    a, b = rng.sample([-5.0, -1.0, 0.0, 2.5, 7.0], 2)
    s, e = rng.sample([-1.0, 0.0, 0.5, 1.0, 20.0], 2)
    clip = rng.chance(0.5)
    got = rescale(d, data_range=(a, b), scale_range=(s, e), clip=clip)
    want = s + (d.astype(float) - a) * (e - s) / (b - a)
    if clip:
        want = np.clip(want, min(s, e), max(s, e))
    mon.close(got, want, "rescaled", rtol=1e-4, atol=1e-4)
    full = rescale(d) if d.min() != d.max() else None
    if full is not None:
        mon.close([full.min(), full.max()], [0, 1], "default ranges", atol=1e-5)
    mon.raises(ValueError, rescale, d, data_range=(1, 1), label="empty input range")
    mon.raises(ValueError, rescale, d, data_range=(1, 2), scale_range=(1, 1), label="empty output range")
    lo, mid, hi = sorted(rng.sample([-8.0, -4.0, 0.0, 3.0, 8.0], 3))
    sv = [rng.uniform(0, 1) for _ in range(3)]
    if len(set(sv)) < 3:
        return
    limit = rng.np.rand(*shape).astype(np.float32)
    dc, sc = cube(d, "air_temperature", "K"), cube(limit, "probability", "1")
    fn = rng.choice([np.minimum, np.maximum])
    got = apply_double_scaling(dc, sc, (lo, mid, hi), tuple(sv), combine_function=fn)
    x = np.interp(d.astype(float), [lo, mid, hi], sv)
    mon.close(got, fn(x, limit), "double scaling", rtol=1e-4, atol=1e-5)


def lightning_inputs(rng, shape, t0, leads, values, vii=None):
    """First guess, rate, precipitation (and ice) cubes from fields per lead time."""
    fgs, rates, precs = CubeList(), CubeList(), CubeList()
    for i, (lead, (fg, rate, p)) in enumerate(zip(leads, values)):
        t = t0 + dt.timedelta(minutes=lead)
        fgs.append(cube(fg.astype(np.float32), "probability_of_rate_of_lightning_above_threshold", "1", time=t,
                        frt=t0 - dt.timedelta(hours=4)))
        rates.append(cube(rate.astype(np.float32), "rate_of_lightning", "min-1", time=t, frt=t0))
        for q, th in zip(p, (0.5, 7.0, 35.0)):
            tc = DimCoord(np.array([th], np.float32), "lwe_precipitation_rate", units="mm h-1", var_name="threshold",
                          attributes={"spp__relative_to_threshold": "greater_than"})
            precs.append(cube(q.astype(np.float32), "probability_of_lwe_precipitation_rate_above_threshold", "1",
                              time=t, frt=t0, scalars=[tc]))
    out = CubeList([c.merge_cube() for c in (fgs, rates, precs)])
    if vii is not None:
        tc = gen.threshold_coord([0.5, 1.0, 2.0], "vertical_integral_of_ice", "kg m-2")
        out.append(cube(vii.astype(np.float32), "probability_of_vertical_integral_of_ice_above_threshold", "1",
                        time=t0, frt=t0, lead=[tc]))
    return out


@scenario("C34", quick=60, thorough=1200)
def nowcast_lightning(rng, mon):
    """The mapping of rates, precipitation and ice to lightning, on uniform fields."""
    from iris.exceptions import ConstraintMismatchError

    from improver.nowcasting.lightning import NowcastLightning

    shape = (7, 8)
    t0 = dt.datetime(2019, 3, 9, 12)
    leads = rng.choice([[0], [15], [75], [300], [120]])  # one lead time: the neighbourhood takes no more
    values, want = [], []
    vii = np.array([[1.0]] * 3) * np.sort(rng.np.rand(3))[::-1][:, None] if rng.chance(0.5) else None
    for lead in leads:
        fg = rng.uniform(0, 1)
        rate = rng.choice([-1.0, 0.0, 0.3, rng.uniform(0.5, 3.0), 5.0])
        p = np.sort(rng.np.rand(3))[::-1] * rng.choice([1.0, 0.3, 0.1])
        if rng.chance(0.3):
            p[1:] = 0
        out = fg
        if rate >= 0 and out < 0.25:
            out = 0.25
        if rate >= 0.5 + lead * 2.0 / 360:
            out = max(out, 1.0)
        if p[1] >= 0.4 and out < 0.25:
            out = 0.25
        if p[2] >= 0.2:
            out = max(out, 1.0)
        out = min(out, float(np.interp(p[0], [0.0, 0.05, 0.1], [0.0067, 0.25, 1.0])))
        if vii is not None:
            for q, mx in zip(vii[:, 0], (0.1, 0.5, 0.9)):
                out = max(out, q * mx * (1 - lead / 150.0))
        want.append(out)
        values.append((np.full(shape, fg), np.full(shape, rate), [np.full(shape, k) for k in p]))
    ice = None if vii is None else np.broadcast_to(vii[:, :, None], (3,) + shape)
    cubes = lightning_inputs(rng, shape, t0, leads, values, ice)
    # the first guess may be up to two hours away
    off = rng.choice([0, 0, 3600, 7200, -5400, -7200])
    cubes[0].coord("time").points = cubes[0].coord("time").points + off
    bad = CubeList([k.copy() for k in cubes])
    how = rng.randint(0, 4)
    if how == 0:
        bad[0].coord("time").points = bad[0].coord("time").points - off + rng.choice([-1, 1]) * rng.choice([7260, 9000])
    elif how == 1:
        bad[1].coord("time").points = bad[1].coord("time").points + rng.choice([-60, 60, 900])
    elif how == 2:
        bad[2].coord("time").points = bad[2].coord("time").points + rng.choice([-60, 60, 900])
    elif how == 3:
        i = rng.randint(0, 2)
        bad[2].coord(var_name="threshold").points = np.where(np.arange(3) == i, 1.01, 1).astype(np.float32) * bad[2].coord(var_name="threshold").points
    elif ice is not None:
        i = rng.randint(0, 2)
        bad[3].coord(var_name="threshold").points = np.where(np.arange(3) == i, 1.01, 1).astype(np.float32) * bad[3].coord(var_name="threshold").points
    if how < 4 or ice is not None:
        mon.raises((ConstraintMismatchError, ValueError), NowcastLightning(radius=2000.0), bad, label="inputs that do not fit accepted (%d)" % how)
    out = NowcastLightning(radius=2000.0)(cubes)
    got = out.data.reshape((len(leads),) + shape)
    for k, w in enumerate(want):
        mon.close(got[k], np.full(shape, w), "lightning at %d min" % leads[k], rtol=1e-4, atol=1e-5)
    mon.equal(out.name(), "probability_of_rate_of_lightning_above_threshold", "name")
    mon.equal(out.coord("time").points.tolist(), [gen.seconds(t0) + 60 * l for l in leads], "times")
    mon.check(not out.coords(var_name="threshold"), "threshold removed")
    mon.event("lightning fields", len(leads))


@scenario("C34", quick=2, thorough=4)
def lightning_radius(rng, mon):
    """The probabilities are neighbourhood processed over the given radius."""
    from improver.nowcasting.lightning import NowcastLightning

    shape = (15, 15)
    t0 = dt.datetime(2019, 3, 9, 12)
    fg = np.zeros(shape)
    fg[7, 7] = 1.0
    one = [np.ones(shape), np.zeros(shape), np.zeros(shape)]
    cubes = lightning_inputs(rng, shape, t0, [0], [(fg, np.full(shape, -1.0), one)])
    out = NowcastLightning(radius=5000.0)(cubes).data.reshape(shape)
    mon.check(float(out[7, 8]) > 0, "radius has no effect")
