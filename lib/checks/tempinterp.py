"""C52: interpolating between two validity times."""
import numpy as np
from iris.coords import AuxCoord
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube
from checks.manipulation import by_name, mdata, names, same

dt = gen.dt
H = dt.timedelta(hours=1)
M = dt.timedelta(minutes=1)
ma = np.ma


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def when(c):
    return [p.point for p in c.coord("time").cells()]


def hours(a, b):
    return (b - a).total_seconds() / 3600


def pick_times(rng, t0, t1):
    """(keyword arguments, expected output times)"""
    minutes = int((t1 - t0).total_seconds() // 60)
    if rng.chance(0.5):
        steps = [s for s in (5, 10, 15, 20, 30, 45, 60, 90, 120, 180, 300, 360, 420, 720, 1440, minutes) if minutes % s == 0 and minutes / s <= 24]
        s = rng.choice(steps)
        return dict(interval_in_minutes=s), [t0 + k * s * M for k in range(1, minutes // s + 1)]
    n = rng.randint(1, 4)
    ts = [t0 + rng.randint(1, minutes - 1) * M for _ in range(n)]
    if rng.chance(0.2):
        ts.append(t1)
    if rng.chance(0.2):
        ts.append(ts[0])
    return dict(times=ts), sorted(set(ts) | {t1})


def pair(rng, name="air_temperature", units="K", lo=260, hi=300, bounds=False, grid=None, masked=0.3, nr=None, spot=False, gap=None, zero=0.0):
    t0 = gen.random_time(rng).replace(minute=0)
    gap = gap or rng.choice([1, 2, 3, 3, 6, 12, 24, 24, 30, 48])
    t1 = t0 + gap * H
    frt = t0 - rng.choice([0, 3, 6]) * H - (gap * H if bounds else 0 * H)
    nr = rng.choice([0, 0, 1, 2]) if nr is None else nr
    grid = grid or rng.choice(["equalarea", "latlon"])
    shape = ((nr,) if nr else ()) + (rng.randint(2, 3), rng.randint(2, 4))
    lead = [gen.realization_coord(nr)] if nr else []
    out = []
    mask = gen.random_mask(rng, shape) if rng.chance(masked) else None
    for t in (t0, t1):
        d = rng.np.uniform(lo, hi, shape).astype(np.float32)
        if zero:
            d = np.where(rng.np.rand(*shape) < zero, 0, d).astype(np.float32)
        if mask is not None:
            m = mask if rng.chance(0.7) else gen.random_mask(rng, shape)
            d = ma.masked_array(np.where(m, np.float32(7777), d), m)
        out.append(cube(d, name, units, grid=grid, lead=lead, time=t, frt=frt, bounds=(t - gap * H, t) if bounds else None))
    return out, t0, t1, nr


def check_times(mon, out, want, template):
    mon.equal([c.coord("time").shape for c in out], [(1,)] * len(want), "one time each")
    mon.equal([when(c)[0] for c in out], want, "times")
    for c in out:
        mon.equal([c.name(), str(c.units), names(c)], [template.name(), str(template.units), names(template)], "metadata")
        got = c.coord("forecast_period").points[0]
        lead = (when(c)[0] - [p.point for p in c.coord("forecast_reference_time").cells()][0]).total_seconds()
        mon.equal(int(got), int(lead), "forecast period")
        for f in gen.standard_faults(c):
            mon.fail("dtype standards", str(f))


# ---------------------------------------------------------------- instants
@scenario("C52", quick=80, thorough=2500)
def instants(rng, mon):
    from improver.utilities.temporal_interpolation import TemporalInterpolation

    direction = rng.chance(0.3)
    if direction:
        (a, b), t0, t1, nr = pair(rng, "wind_from_direction", "degrees", 0, 360)
    else:
        (a, b), t0, t1, nr = pair(rng)
    kws, want = pick_times(rng, t0, t1)
    given = list(kws.get("times", []))
    plugin = TemporalInterpolation(**kws)
    before = content([a, b])
    out = plugin(a, b)
    mon.equal(snap_diff(before, content([a, b])), [], "inputs changed")
    mon.equal(list(kws.get("times", [])), given, "times asked for unchanged")
    check_times(mon, out, want, b)
    for c, t in zip(out, want):
        w = hours(t0, t) / hours(t0, t1)
        x, y = ma.asanyarray(a.data).astype(float), ma.asanyarray(b.data).astype(float)
        if direction:
            z = (1 - w) * np.exp(1j * np.deg2rad(ma.getdata(x))) + w * np.exp(1j * np.deg2rad(ma.getdata(y)))
            ok = (np.abs(z) > 0.02) & ~ma.getmaskarray(x) & ~ma.getmaskarray(y)
            d = (np.rad2deg(np.angle(z)) - ma.getdata(c.data) + 180) % 360 - 180
            mon.close(d[ok], np.zeros(ok.sum()), "direction", atol=0.05)
            mon.check(bool(((ma.getdata(c.data) >= 0) & (ma.getdata(c.data) <= 360))[ok].all()), "direction range")
        else:
            v = ma.masked_array((1 - w) * ma.getdata(x) + w * ma.getdata(y), ma.getmaskarray(x) | ma.getmaskarray(y))
            if w == 1:      # at the later time itself the earlier mask has no say
                got_m = ma.getmaskarray(c.data)
                mon.check(bool((got_m >= ma.getmaskarray(y)).all()), "mask at the later time")
                v = ma.masked_array(ma.getdata(v), got_m)
            same(mon, c.data, v, "linear", rtol=1e-5, atol=1e-3)
    again = plugin(a, b)
    mon.equal([snap_diff(content(p), content(q)) for p, q in zip(out, again)], [[]] * len(out), "the same again")
    if rng.chance(0.3):
        # a later pair, with the same plugin and the cube in common
        c = b.copy(b.data[..., ::-1])
        c.coord("time").points = c.coord("time").points + int((t1 - t0).total_seconds())
        c.coord("forecast_period").points = c.coord("forecast_period").points + int((t1 - t0).total_seconds())
        if "interval_in_minutes" in kws:
            nxt = plugin(b, c)
            mon.equal([when(q)[0] for q in nxt], [w + (t1 - t0) for w in want], "times of the next pair")
            fresh = TemporalInterpolation(**kws)(b.copy(), c.copy())
            mon.equal([snap_diff(content(p), content(q)) for p, q in zip(fresh, nxt)], [[]] * len(nxt), "next pair with the same cube")
        else:
            # a wider pair
            nxt = plugin(a, c)
            mon.equal([when(q)[0] for q in nxt], sorted(set(given) | {t1 + (t1 - t0)}), "times of a wider pair")
    mon.event("interpolated", len(out))
    mon.seen("case", f"{direction} {nr} {int(hours(t0, t1))} {list(kws)} {ma.isMaskedArray(a.data)} {len(want)}")


# ----------------------------------------------------------------- periods
@scenario("C52", quick=80, thorough=2500)
def periods(rng, mon):
    from improver.utilities.temporal_interpolation import TemporalInterpolation

    kind = rng.choice(["accumulation", "max", "min"])
    nm, un, lo, hi = {"accumulation": ("lwe_thickness_of_precipitation_amount", "m", 0.0, 0.01), "max": ("wind_speed_of_gust", "m s-1", 0, 30),
                      "min": ("air_temperature", "K", 260, 300)}[kind]
    (a, b), t0, t1, nr = pair(rng, nm, un, lo, hi, bounds=True, zero=0.4 if kind == "accumulation" else 0)
    kws, want = pick_times(rng, t0, t1)
    plugin = TemporalInterpolation(**{kind: True}, **kws)
    before = content([a, b])
    out = plugin(a, b)
    mon.equal(snap_diff(before, content([a, b])), [], "inputs changed")
    check_times(mon, out, want, b)
    edges = [t0] + want
    for c, s, e in zip(out, edges[:-1], edges[1:]):
        k = c.coord("time")
        mon.equal([list(map(int, k.bounds[0])), list(map(int, c.coord("forecast_period").bounds[0] - c.coord("forecast_period").points[0]))],
                  [[gen.seconds(s), gen.seconds(e)], [-int((e - s).total_seconds()), 0]], "bounds")
    x, y = ma.asanyarray(a.data).astype(float), ma.asanyarray(b.data).astype(float)
    anymask = ma.getmaskarray(x) | ma.getmaskarray(y)
    X, Y = ma.getdata(x), ma.getdata(y)
    span = hours(t0, t1)
    lin = lambda t, p, q: p + (q - p) * hours(t0, t) / span
    if len(want) == 1:
        mon.array_equal(ma.getdata(out[0].data)[~anymask], ma.getdata(b.data)[~anymask], "nothing between")
        mon.seen("case", "nothing between")
        mon.event("unchanged")
        return
    if kind == "accumulation":
        raw = [(lin(s, X, Y) + lin(e, X, Y)) / 2 * hours(s, e) for s, e in zip(edges[:-1], edges[1:])]
        total = sum(raw)
        expect = [np.where(total > 0, r / np.where(total > 0, total, 1) * Y, 0.0) for r in raw]
    else:
        f = np.minimum if kind == "max" else np.maximum
        expect = [f(Y, lin(e, X, Y)) for e in want]
    for c, v in zip(out, expect):
        got = c.data
        mon.array_equal(ma.getmaskarray(got)[anymask & ma.getmaskarray(y)], np.ones((anymask & ma.getmaskarray(y)).sum(), bool), "masked where the period is")
        mon.check(not (ma.getmaskarray(got) & ~anymask).any(), "masked without reason")
        ok = ~anymask
        mon.close(ma.getdata(got)[ok], v[ok], kind, rtol=2e-5, atol=1e-8 if kind == "accumulation" else 1e-3)
        mon.check(bool(np.isfinite(ma.filled(got, 0)).all()), "finite")
        if kind != "accumulation":
            worst = (ma.getdata(got) - Y)[ok] * (1 if kind == "max" else -1)
            mon.check(bool((worst <= 1e-6).all()), "within the whole period")
    if kind == "accumulation":
        tot = sum(ma.getdata(c.data).astype(float) for c in out)
        mon.close(tot[~anymask], Y[~anymask], "total kept", rtol=1e-5, atol=1e-9)
    again = plugin(a, b)
    mon.equal([snap_diff(content(p), content(q)) for p, q in zip(out, again)], [[]] * len(out), "the same again")
    mon.event("divided", len(out))
    mon.seen("case", f"{kind} {nr} {int(span)} {list(kws)} {ma.isMaskedArray(a.data)}")


# ------------------------------------------------------------- by the sun
@scenario("C52", quick=50, thorough=1500)
def sunlight(rng, mon):
    from improver.utilities.temporal_interpolation import TemporalInterpolation
    from checks.solar import sine

    method = rng.choice(["solar", "daynight"])
    (a, b), t0, t1, nr = pair(rng, "surface_downwelling_shortwave_flux_in_air", "W m-2", 0, 800, grid="latlon", masked=0.0, gap=rng.choice([1, 3, 6, 24, 30]))
    lat0, lon0 = rng.uniform(-55, 55), rng.uniform(-180, 140)
    for c in (a, b):
        y, x = c.coord(axis="y"), c.coord(axis="x")
        for k, start in ((y, lat0), (x, lon0)):
            k.bounds = None
            k.points = (start + 3.0 * np.arange(k.shape[0])).astype(np.float32)
    lats, lons = np.meshgrid(a.coord(axis="y").points.astype(float), a.coord(axis="x").points.astype(float), indexing="ij")

    def elev(t):
        doy = (t - dt.datetime(t.year, 1, 1)).days
        return np.rad2deg(np.arcsin(np.clip(sine(lats, lons, doy, t.hour + t.minute / 60.0), -1, 1)))
    kws, want = pick_times(rng, t0, t1)
    plugin = TemporalInterpolation(interpolation_method=method, **kws)
    before = content([a, b])
    out = plugin(a, b)
    mon.equal(snap_diff(before, content([a, b])), [], "inputs changed")
    mon.equal([when(c)[0] for c in out], want, "times")
    if len(want) == 1:
        mon.array_equal(out[0].data, b.data, "nothing between")
        mon.event("unchanged")
        mon.seen("case", "nothing between")
        return
    check_times(mon, out, want, b)
    X, Y = a.data.astype(float), b.data.astype(float)
    e0, e1 = elev(t0), elev(t1)
    for c, t in zip(out, want):
        e, w = elev(t), hours(t0, t) / hours(t0, t1)
        dark, light = e < -0.05, e > 0.05
        sure = dark | light
        if method == "daynight":
            v = np.where(e <= 0, 0.0, X + (Y - X) * w)
        else:
            sure = sure & (np.abs(e0) > 1.0) & (np.abs(e1) > 1.0)
            s0, s1, s = (np.sin(np.deg2rad(q)) for q in (e0, e1, e))
            v = np.where(e <= 0, 0.0, s * (X / s0 + (Y / s1 - X / s0) * w))
        pick = np.broadcast_to(sure, v.shape)
        got = c.data
        mon.equal(tuple(got.shape), v.shape, "shape")
        if tuple(got.shape) == v.shape:
            mon.close(np.asarray(got)[pick], v[pick], method, rtol=2e-3, atol=0.5)
            dk = np.broadcast_to(dark, v.shape)
            mon.equal(float(np.abs(np.asarray(got)[dk]).sum()), 0.0, "nothing at night")
        mon.event("night", int(dark.sum()))
        mon.event("day", int(light.sum()))
    mon.seen("case", f"{method} {nr} {int(hours(t0, t1))} {list(kws)}")


# ---------------------------------------------------------------- refusals
@scenario("C52", quick=40, thorough=800)
def refusals(rng, mon):
    from improver.utilities.temporal_interpolation import TemporalInterpolation

    P = TemporalInterpolation
    (a, b), t0, t1, nr = pair(rng, nr=0, masked=0)
    minutes = int((t1 - t0).total_seconds() // 60)
    case = rng.choice(["none", "both", "method", "kinds", "solar period", "divide", "divide", "outside", "outside", "type", "multi", "order", "mixed", "unsaid", "undeclared", "overlap"])
    (p, q), s0, s1, _ = pair(rng, "wind_speed_of_gust", "m s-1", 0, 30, bounds=True, masked=0, nr=0, gap=3)
    if case == "none":
        mon.raises(ValueError, P, label="nothing asked for")
    elif case == "both":
        mon.raises(ValueError, P, interval_in_minutes=60, times=[t1], label="both asked for")
    elif case == "method":
        mon.raises(ValueError, P, interval_in_minutes=60, interpolation_method="cubic", label="unknown method")
    elif case == "kinds":
        two = rng.sample(["accumulation", "max", "min"], 2)
        mon.raises(ValueError, P, interval_in_minutes=60, **{k: True for k in two}, label="two kinds")
    elif case == "solar period":
        mon.raises(ValueError, P, interval_in_minutes=60, interpolation_method=rng.choice(["solar", "daynight"]), max=True, label="periods by the sun")
    elif case == "divide":
        s = rng.choice([k for k in (7, 11, 25, 50, 100, 420, 500, 1000, 7 * 60, 11 * 60, 16 * 60) if minutes % k])
        mon.raises(ValueError, P(interval_in_minutes=s), a, b, label="interval that does not divide")
    elif case == "outside":
        mon.raises(ValueError, P(times=[t0 + 30 * M, rng.choice([t0 - M, t1 + M, t0 - 48 * H])]), a, b, label="time outside")
    elif case == "type":
        mon.raises(TypeError, P(interval_in_minutes=60), rng.choice([CubeList([a]), None]), b, label="not cubes")
    elif case == "multi":
        m = CubeList([a, b]).merge_cube()
        mon.raises(ValueError, P(interval_in_minutes=60), *rng.choice([(m, b), (a, m)]), label="several times")
    elif case == "order":
        mon.raises(ValueError, P(interval_in_minutes=60), b, a, label="times reversed")
    elif case == "mixed":
        q.coord("time").bounds = None
        mon.raises(ValueError, P(interval_in_minutes=60, max=True), *rng.choice([(p, q), (p, q)]), label="period and instant")
    elif case == "unsaid":
        mon.raises(ValueError, P(interval_in_minutes=60), p, q, label="kind of period not given")
    elif case == "undeclared":
        mon.raises(ValueError, P(interval_in_minutes=minutes, **{rng.choice(["accumulation", "max", "min"]): True}), a, b, label="instants as periods")
    else:
        k = q.coord("time")
        k.bounds = np.array([[k.bounds[0][0] - rng.choice([-3600, 3600]), k.bounds[0][1]]])
        mon.raises(ValueError, P(interval_in_minutes=60, max=True), p, q, label="periods that overlap or leave a gap")
    mon.event("refused")
    mon.seen("case", case)
