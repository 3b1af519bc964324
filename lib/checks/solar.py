"""C44: sun position, day-night mask, local solar time and clear-sky radiation."""
import math

import numpy as np

from harness import gen
from harness.core import scenario
from harness.gen import content, cube

dt = gen.dt


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


# ------------------------------------------------------------- oracle
def doy(t):
    return (dt.date(t.year, t.month, t.day) - dt.date(t.year, 1, 1)).days


def hod(t):
    """Hour of the day to the nearest minute (half up), kept within the day."""
    minutes = t.hour * 60 + t.minute + (1 if t.second >= 30 else 0)
    return minutes / 60.0


def decl(d):
    return math.radians(-23.5 * math.cos(math.radians(0.9856 * d + 9.3)))


def eqt_hours(d):
    th = 2 * math.pi * d / 365
    e = (0.000075 + 0.001868 * math.cos(th) - 0.032077 * math.sin(th) - 0.014615 * math.cos(2 * th) - 0.040849 * math.sin(2 * th))
    return e * 12 / math.pi


def solar_hours(lon, d, h):
    return h + np.asarray(lon, float) / 15.0 + eqt_hours(d)


def sine(lat, lon, d, h):
    lat = np.radians(np.asarray(lat, float))
    ha = np.radians((solar_hours(lon, d, h) - 12) * 15)
    k = decl(d)
    return np.sin(k) * np.sin(lat) + np.cos(k) * np.cos(lat) * np.cos(ha)


def some_time(rng, second=True):
    y = rng.choice([2015, 2016, 2017, 2020, 2023])
    t = dt.datetime(y, 1, 1) + dt.timedelta(minutes=rng.randint(0, 366 * 1440 - 1 if y % 4 == 0 else 365 * 1440 - 1))
    if rng.chance(0.12):
        t = rng.choice([dt.datetime(y, 12, 31, 23, 59), dt.datetime(y, 1, 1), dt.datetime(y, 12, 31, 12), dt.datetime(2016, 2, 29, 23, 59),
                        dt.datetime(y, 3, 20, 12), dt.datetime(y, 9, 23, 0), dt.datetime(y, 6, 21, 12)])
    if second:
        t = t.replace(second=rng.choice([0, 0, 1, 29, 30, 31, 59, rng.randint(0, 59)]))
    return t


# ----------------------------------------------------------- formulas
@scenario("C44", quick=150, thorough=6000)
def formulas(rng, mon):
    from improver.utilities import solar as s

    t = some_time(rng)
    mon.equal(s.get_day_of_year(t), doy(t), "day of year")
    got = s.get_hour_of_day(t)
    mon.close(got, hod(t), "hour of day", atol=1e-9)
    mon.check(0 <= got <= 24, "hour within the day", got=got)
    d, h = doy(t), hod(t)
    mon.close(s.calc_solar_declination(d), math.degrees(decl(d)), "declination", atol=1e-6)
    kind = rng.choice(["f64", "f32", "scalar", "grid", "overhead"])
    n = rng.randint(1, 20)
    lat = rng.np.uniform(-90, 90, n)
    lon = rng.np.uniform(-180, 180, n)
    for _ in range(rng.randint(0, 3)):
        lat[rng.randint(0, n - 1)] = rng.choice([-90.0, 90.0, 0.0])
        lon[rng.randint(0, n - 1)] = rng.choice([-180.0, 180.0, 0.0])
    if kind == "overhead":
        lat = np.clip(math.degrees(decl(d)) + rng.np.uniform(-0.03, 0.03, 200), -90, 90)
        lo = -(solar_hours(0.0, d, h) - 12) * 15
        lon = (lo + rng.np.uniform(-0.03, 0.03, 200) + 180) % 360 - 180
    if kind in ("f32", "overhead"):
        lat, lon = lat.astype(np.float32), lon.astype(np.float32)
    if kind == "scalar":
        lat, lon = float(lat[0]), float(lon[0])
    if kind == "grid":
        lat = np.broadcast_to(lat[:, None], (n, n)).copy()
        lon = np.broadcast_to(lon[None], (n, n)).copy()
    keep = np.array(lat), np.array(lon)
    f32 = kind in ("f32", "overhead")
    tol = 2e-5 if f32 else 1e-8
    st = s.calc_solar_time(lon, d, h)
    mon.close(st, solar_hours(lon, d, h), "solar time", atol=tol, rtol=0)
    sn = np.asarray(s.calc_solar_time(lon, d, h, normalise=True), float)
    mon.check(bool(((sn >= 0) & (sn <= 24)).all()), "solar time within a day")
    diff = np.abs((sn - solar_hours(lon, d, h) + 12) % 24 - 12)
    mon.check(bool((diff < tol).all()), "normalised solar time", got=float(diff.max()))
    mon.close(s.calc_solar_hour_angle(lon, d, h), (solar_hours(lon, d, h) - 12) * 15, "hour angle", atol=tol * 20, rtol=0)
    se = np.asarray(s.calc_solar_elevation(lat, lon, d, h, return_sine=True), float)
    w = sine(lat, lon, d, h)
    mon.close(se, w, "sine of elevation", atol=3e-6 if f32 else 1e-8, rtol=0)
    el = np.asarray(s.calc_solar_elevation(lat, lon, d, h), float)
    mon.check(bool(np.isfinite(el).all()), "elevation is a number", got=int((~np.isfinite(el)).sum()))
    mon.check(bool((np.abs(el) <= 90 + 1e-4).all()), "elevation within 90 degrees")
    mon.close(np.sin(np.radians(el)), w, "elevation", atol=3e-6 if f32 else 1e-8, rtol=0)
    term = np.asarray(s.daynight_terminator(np.atleast_1d(lon), d, h), float)
    if abs(math.degrees(decl(d))) > 0.2:
        mon.close(sine(term, np.atleast_1d(lon), d, h), np.zeros_like(term), "sun on the horizon at the terminator", atol=1e-5, rtol=0)
        mon.check(bool((np.abs(term) <= 90).all()), "terminator latitude")
        mon.event("terminators", term.size)
    mon.check(np.array_equal(keep[0], lat) and np.array_equal(keep[1], lon), "input changed")
    # refusals
    bad_d, bad_h = rng.choice([-1, 366, 1000]), rng.choice([-0.1, 24.01, 30.0])
    mon.raises(ValueError, s.calc_solar_declination, bad_d, label="day")
    for f in (s.calc_solar_time, s.daynight_terminator):
        mon.raises(ValueError, f, np.array([0.0]), bad_d, h, label="day")
        mon.raises(ValueError, f, np.array([0.0]), d, bad_h, label="hour")
    mon.raises(ValueError, s.calc_solar_hour_angle, np.array([0.0]), d, bad_h, label="hour")
    a = np.array([0.0, 10.0])
    mon.raises(ValueError, s.calc_solar_elevation, a, a, bad_d, h, label="day")
    mon.raises(ValueError, s.calc_solar_elevation, a, a, d, bad_h, label="hour")
    mon.raises(ValueError, s.calc_solar_elevation, np.array([0.0, rng.choice([-90.1, 90.1])]), a, d, h, label="latitude")
    mon.event("points", el.size)
    mon.seen("day", f"{d // 8}")


# ---------------------------------------------------------- day-night
def case_cube(rng):
    """A cube over some times; returns cube, lats, lons (grids as given), times, bounds."""
    from iris.cube import CubeList

    import cartopy.crs as ccrs
    kind = rng.choice(["latlon", "latlon", "equalarea", "spot"])
    nt = rng.choice([1, 1, 2, 3])
    t0 = some_time(rng, second=rng.chance(0.5))
    step = rng.choice([1, 6])
    times = [t0 + dt.timedelta(hours=step * i) for i in range(nt)]
    period = rng.choice([None, None, 1, 3, 12])
    bounds = [None if period is None else (t - dt.timedelta(hours=period), t) for t in times]
    frt = t0 - dt.timedelta(hours=12)
    nlead = rng.choice([0, 0, 2])
    lead = [gen.realization_coord(nlead)] if nlead else []
    cs = CubeList()
    ny, nx = rng.randint(1, 5), rng.randint(2, 6)
    ns = rng.randint(1, 7)
    if kind == "spot":
        lats, lons = rng.np.uniform(-89, 89, ns).astype(np.float32), rng.np.uniform(-180, 180, ns).astype(np.float32)
    sp = rng.choice([1.0, 10.0, 30.0])
    corner = None
    if kind == "latlon":
        corner = (rng.choice([-60.0, 0.0, 45.0, -85.0]) if sp < 30 else -90.0 + rng.uniform(0, 20), rng.choice([-180.0, -20.0, 90.0]))
        sp = min(sp, (89.0 - corner[0]) / max(ny - 1, 1), (180.0 - corner[1]) / max(nx - 1, 1))
    if kind == "equalarea":
        sp = rng.choice([2000.0, 300000.0])
    for t, b in zip(times, bounds):
        if kind == "spot":
            data = rng.np.rand(*([nlead] if nlead else []), ns).astype(np.float32)
            cs.append(gen.spot(data, "air_temperature", "K", time=t, frt=frt, bounds=b, lats=lats, lons=lons, lead=lead))
        else:
            data = rng.np.rand(*([nlead] if nlead else []), ny, nx).astype(np.float32)
            cs.append(cube(data, grid=kind, time=t, frt=frt, bounds=b, spacing=sp, corner=corner, lead=lead))
    c = cs.merge_cube() if nt > 1 else cs[0]
    if nt > 1 and rng.chance(0.3):
        order = list(range(c.ndim))
        i = c.coord_dims("time")[0]
        order.remove(i)
        order.insert(rng.randint(0, len(order)), i)
        c.transpose(order)
    if kind != "spot" and rng.chance(0.15):
        order = list(range(c.ndim))
        iy, ix = c.coord_dims(c.coord(axis="y"))[0], c.coord_dims(c.coord(axis="x"))[0]
        order[iy], order[ix] = ix, iy
        c.transpose(order)
    if kind == "latlon":
        lons, lats = np.meshgrid(c.coord("longitude").points, c.coord("latitude").points)
    elif kind == "equalarea":
        lats, lons = latlon(c)
    return kind, c, np.asarray(lats, float), np.asarray(lons, float), times, bounds


def latlon(c):
    import cartopy.crs as ccrs

    xx, yy = np.meshgrid(c.coord(axis="x").points.astype(float), c.coord(axis="y").points.astype(float))
    p = ccrs.PlateCarree().transform_points(c.coord_system().as_cartopy_crs(), xx, yy)
    return p[..., 1], p[..., 0]


@scenario("C44", quick=120, thorough=4000)
def day_night(rng, mon):
    from improver.utilities.solar import DayNightMask

    plugin = DayNightMask()
    for turn in range(rng.choice([1, 2, 3])):
        kind, c, lats, lons, times, bounds = case_cube(rng)
        before = content(c)
        out = plugin(c)
        if rng.chance(0.3):
            again = plugin(c)
            mon.array_equal(again.data, out.data, "second use")
        mon.equal(snap_diff(before, content(c)), [], "input changed")
        shape = lats.shape
        want_shape = ((len(times),) if len(times) > 1 else ()) + shape
        mon.equal(tuple(out.shape), want_shape, "shape")
        got = np.asarray(out.data).reshape((len(times),) + shape)
        for i, (t, b) in enumerate(zip(times, bounds)):
            m = t if b is None else b[0] + (b[1] - b[0]) / 2
            s = sine(lats, lons, doy(m), hod(m))
            sure = np.abs(s) > 5e-4
            mon.array_equal(np.where(sure, got[i], 0), np.where(sure, (s > 0).astype(int), 0), "day where the sun is up, night elsewhere")
            mon.event("points", int(sure.sum()))
            mon.event("day", int((s > 0).sum()))
        mon.equal(out.dtype, np.dtype(np.int32), "dtype")
        mon.equal([out.name(), str(out.units), out.attributes.get("title")], ["day_night_mask", "1", "Day-Night mask"], "metadata")
        tc = out.coord("time")
        mon.equal([int(x) for x in tc.points], [gen.seconds(t) for t in times], "times")
        mon.equal(tc.has_bounds(), bounds[0] is not None, "time bounds kept")
        if bounds[0] is not None:
            mon.equal(tc.bounds.tolist(), [[gen.seconds(b[0]), gen.seconds(b[1])] for b in bounds], "time bounds")
        for ax in "yx":
            a, b = out.coord(axis=ax), c.coord(axis=ax)
            mon.equal(a == b, True, "spatial coordinates")
        mon.equal(bool(out.coords("realization")), False, "no realizations")
        mon.seen("case", f"{kind} {len(times)} {bounds[0] is not None} {turn}")


# --------------------------------------------------------- solar time
def target(rng):
    kind = rng.choice(["latlon", "equalarea"])
    ny, nx = rng.randint(1, 5), rng.randint(2, 6)
    sp = {"latlon": rng.choice([1.0, 20.0]), "equalarea": rng.choice([2000.0, 200000.0])}[kind]
    attrs = {"title": "Grid", "source": "UM", "institution": "Met Office", "comment": "x"}
    if rng.chance(0.2):
        attrs = {"title": "Grid"}
    data = rng.np.rand(ny, nx).astype(np.float32)
    c = cube(data, "elevation", "m", grid=kind, spacing=sp, attributes=attrs, times=rng.chance(0.4))
    if kind == "latlon":
        lons, lats = np.meshgrid(c.coord("longitude").points, c.coord("latitude").points)
    else:
        lats, lons = latlon(c)
    return kind, c, lats.astype(float), lons.astype(float)


def check_header(mon, out, c, title):
    a = {k: v for k, v in out.attributes.items()}
    want = {"source": "IMPROVER", "institution": c.attributes.get("institution", "unknown")}
    if title is not None:
        want["title"] = title
    mon.equal(a, want, "attributes")
    for ax in "yx":
        mon.equal(out.coord(axis=ax) == c.coord(axis=ax), True, "spatial coordinates")
    mon.equal(out.dtype, np.dtype(np.float32), "dtype")
    mon.equal(gen.standard_faults(out), [], "standards")


@scenario("C44", quick=50, thorough=1500)
def solar_time(rng, mon):
    from improver.generate_ancillaries.generate_derived_solar_fields import GenerateSolarTime

    kind, c, lats, lons = target(rng)
    t = some_time(rng)
    title = rng.choice([None, "Solar time"])
    before = content(c)
    plugin = GenerateSolarTime()
    for _ in range(rng.choice([1, 2])):
        out = plugin(c, t, new_title=title) if title else plugin(c, t)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    want = solar_hours(lons, doy(t), hod(t))
    got = np.asarray(out.data, float)
    mon.equal(got.shape, want.shape, "shape")
    diff = np.abs((got - want + 12) % 24 - 12)
    mon.check(bool((diff < 1e-4).all()), "local solar time", got=float(diff.max()))
    mon.check(bool(((got >= 0) & (got <= 24)).all()), "within a day")
    mon.equal([out.name(), str(out.units)], ["local_solar_time", "hours"], "metadata")
    mon.equal([int(out.coord("time").points[0]), out.coord("time").has_bounds()], [gen.seconds(t), False], "time")
    mon.equal(sorted(k.name() for k in out.coords()), sorted([c.coord(axis="y").name(), c.coord(axis="x").name(), "time"]), "coordinates")
    check_header(mon, out, c, title)
    mon.event("points", got.size)
    mon.seen("case", f"{kind} {title}")


# ----------------------------------------------------------- clear sky
def ineichen(el_sine, d, alt, tl):
    zen = np.degrees(np.arccos(np.clip(el_sine, -1, 1)))
    up = zen < 90
    z = np.where(up, zen, 0.0)
    am = np.where(up, 1.0 / (np.cos(np.radians(z)) + 0.50572 * (96.07995 - z) ** -1.6364), 0.0)
    i0 = 1367.7 * (1 + 0.033 * math.cos(2 * math.pi * d / 365))
    fh1, fh2 = np.exp(-alt / 8000.0), np.exp(-alt / 1250.0)
    cg1, cg2 = 0.0000509 * alt + 0.868, 0.0000392 * alt + 0.0387
    g = cg1 * i0 * np.maximum(el_sine, 0) * np.exp(-cg2 * am * (fh1 + fh2 * (tl - 1)))
    return np.minimum(g, i0), i0


@scenario("C44", quick=70, thorough=2500)
def clear_sky(rng, mon):
    from improver.generate_ancillaries.generate_derived_solar_fields import GenerateClearskySolarRadiation

    kind, c, lats, lons = target(rng)
    t = some_time(rng)
    hours = rng.choice([1, 1, 3, 6, 24])
    spacing = rng.choice([30, 30, 15, 60, 20, 7])
    title = rng.choice([None, "Clear sky"])
    shape = c.shape
    alt = tl = None
    if rng.chance(0.6):
        f = rng.np.uniform(-50, rng.choice([500, 3000, 9000]), shape).astype(np.float32)
        if rng.chance(0.25):
            f[:] = 0
        alt = c.copy(data=f)
        alt.rename("surface_altitude")
        alt.units = "m"
    if rng.chance(0.6):
        tl = c.copy(data=rng.np.uniform(1.0, 7.0, shape).astype(np.float32))
        tl.rename("linke_turbidity")
        tl.units = "1"
    plugin = GenerateClearskySolarRadiation()
    kw = {}
    if title:
        kw["new_title"] = title
    if spacing != 30 or rng.chance(0.3):
        kw["temporal_spacing"] = spacing
    if rng.chance(0.1):
        other = cube(np.zeros((shape[0] + 1, shape[1]), np.float32), "x", "1", grid=kind)
        which = rng.choice(["surface_altitude", "linke_turbidity"])
        mon.raises(ValueError, plugin, c, t, hours, label="grid", **{which: other})
        mon.event("refusals")
        return
    if hours * 60 % spacing:
        mon.raises(ValueError, plugin, c, t, hours, label="spacing", **kw)
        mon.event("refusals")
        return
    before = [content(k) for k in (c, alt, tl) if k is not None]
    for _ in range(rng.choice([1, 2])):
        out = plugin(c, t, hours, surface_altitude=alt, linke_turbidity=tl, **kw)
    for k, b in zip([k for k in (c, alt, tl) if k is not None], before):
        mon.equal(snap_diff(b, content(k)), [], "input changed")
    a = np.zeros(shape) if alt is None else np.asarray(alt.data, float)
    l = np.full(shape, 3.0) if tl is None else np.asarray(tl.data, float)
    n = hours * 60 // spacing
    total, slack = np.zeros(shape), np.zeros(shape)
    for i in range(n + 1):
        m = t - dt.timedelta(hours=hours) + dt.timedelta(minutes=spacing * i)
        s = sine(lats, lons, doy(m), hod(m))
        g, i0 = ineichen(s, doy(m), a, l)
        w = 0.5 if i in (0, n) else 1.0
        total += w * g * spacing * 60
        # around the horizon the irradiance is almost nothing but the air mass changes fast
        slack += np.where(np.abs(s) < 1e-2, 0.01 * i0, 2e-4 * i0) * w * spacing * 60 * 0.05
    got = np.asarray(out.data, float)
    mon.equal(got.shape, total.shape, "shape")
    bad = np.abs(got - total) > slack + 2e-4 * total
    mon.check(not bad.any(), "clear-sky radiation", got=got[bad][:3], want=total[bad][:3])
    mon.check(bool((got >= 0).all()), "not negative")
    mon.equal([out.name(), str(out.units)], ["integral_of_surface_downwelling_shortwave_flux_in_air_assuming_clear_sky_wrt_time", "W s m-2"], "metadata")
    tc = out.coord("time")
    mon.equal([int(tc.points[0])] + [int(x) for x in tc.bounds[0]], [gen.seconds(t), gen.seconds(t) - hours * 3600, gen.seconds(t)], "period")
    vertical = "altitude" if np.allclose(a, 0) else "height"
    mon.equal(sorted(k.name() for k in out.coords()), sorted([c.coord(axis="y").name(), c.coord(axis="x").name(), "time", vertical]), "coordinates")
    mon.equal([float(x) for x in out.coord(vertical).points], [0.0], "vertical coordinate")
    check_header(mon, out, c, title)
    mon.event("points", got.size)
    mon.event("lit", int((total > 0).sum()))
    mon.seen("case", f"{kind} {hours} {spacing} {alt is not None} {tl is not None}")
