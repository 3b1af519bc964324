"""C51: rain, snow, sleet, hail, freezing rain and showers from precipitation and its environment."""
import numpy as np
from iris.coords import AuxCoord
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube
from checks.manipulation import by_name, mdata, names, same

dt = gen.dt
H = dt.timedelta(hours=1)
ma = np.ma
T = dt.datetime(2021, 6, 3, 9)


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


# ------------------------------------------------------------ freezing rain
@scenario("C51", quick=80, thorough=2500)
def freezing_rain(rng, mon):
    from improver.precipitation_type.freezing_rain import FreezingRain

    period = rng.chance(0.5)
    what = rng.choice(["rate", "accumulation"])
    rain_name = {"rate": "rainfall_rate", "accumulation": "thickness_of_rainfall_amount"}[what]
    sleet_name = {"rate": "lwe_sleetfall_rate", "accumulation": "lwe_thickness_of_sleetfall_amount"}[what]
    units = {"rate": "mm h-1", "accumulation": "mm"}[what]
    shape = (rng.randint(1, 3), rng.randint(2, 4))
    n = rng.randint(1, 4)
    ths = sorted(rng.sample([0.03, 0.1, 0.5, 1.0, 2.0, 4.0], n))
    tths = sorted(rng.sample([-10.0, -5.0, 0.0, 1.0, 5.0], rng.randint(1, 4)))
    no_freezing = 0.0 not in tths
    spp_t = rng.choice(["greater_than", "greater_than_or_equal_to", "less_than", "less_than_or_equal_to"])
    mode = rng.choice(["none", "none", "same", "same", "differ", "disjoint", "some"])
    masked = rng.choice([False, False, True])
    members = {}
    pool = list(range(6))
    base = rng.sample(pool, rng.randint(1, 3))
    for k in ("rain", "sleet", "temp"):
        if mode == "none":
            members[k] = None
        elif mode in ("same", "some"):
            members[k] = sorted(base)
        elif mode == "differ":
            members[k] = sorted(set(base + rng.sample(pool, rng.randint(0, 3))))
        else:
            members[k] = sorted(base) if k != "sleet" else sorted(set(pool) - set(base))[:2]
    if mode == "some":
        members["temp"] = None
    bounds = (T - H, T) if period else None

    def make(k, name, thresholds, tu, spp):
        r = members[k]
        s = (len(thresholds),) + ((len(r),) if r else ()) + shape
        d = (rng.np.rand(*s) * 0.5).astype(np.float32)
        if spp == spp_t and k == "temp":
            d = np.sort(rng.np.rand(*s), axis=0).astype(np.float32)
        if rng.chance(0.2):
            d[...] = rng.choice([0, 1]) if k == "temp" else 0
        if masked and rng.chance(0.7):
            m = np.broadcast_to(gen.random_mask(rng, s[1:]), s)
            d = ma.masked_array(np.where(m, np.float32(9), d), m)
        lead = [gen.threshold_coord(thresholds, name, tu, spp)]
        if r:
            lead.append(gen.realization_coord(r))
        c = cube(d, gen.prob_name(name, spp), "1", lead=lead, time=T, frt=T - 6 * H, bounds=bounds,
                 attributes={"source": "IMPROVER", "institution": "MO", "title": "x", "mosg__model_configuration": "uk_ens"})
        if rng.chance(0.4) and c.ndim > 2:
            o = list(range(c.ndim - 2))
            rng.shuffle(o)
            c.transpose(o + [c.ndim - 2, c.ndim - 1])
        return c

    scale = rng.choice([1, 1, 1000])       # the sleet thresholds in metres
    su = {1: units, 1000: units.replace("mm", "m")}[scale]
    rain = make("rain", rain_name, ths, units, "greater_than")
    sleet = make("sleet", sleet_name, [t / scale for t in ths], su, "greater_than")
    temp = make("temp", "air_temperature", [t + 273.15 for t in tths], "K", spp_t)
    if rng.chance(0.3):
        temp.coord("air_temperature").convert_units("celsius")
    fault = rng.choice([None] * 6 + ["thresholds", "fewer", "time", "grid", "units", "duplicate", "two"])
    cubes = [rain, sleet, temp]
    if fault == "thresholds":
        sleet.coord(sleet_name).points = sleet.coord(sleet_name).points + np.float32(0.5)
    elif fault == "fewer":
        sleet = make("sleet", sleet_name, [t / scale for t in ths + [16.0]], su, "greater_than")
        cubes = [rain, sleet, temp]
    elif fault == "time":
        c = rng.choice(cubes)
        c.coord("time").points = c.coord("time").points + 3600
    elif fault == "grid":
        c = rng.choice(cubes)
        c.coord(axis="x").points = c.coord(axis="x").points + np.float32(500)
    elif fault == "units":
        sleet.coord(sleet_name).units = "K"
    elif fault == "duplicate":
        cubes[2] = rain.copy()
    elif fault == "two":
        cubes = cubes[:2]
    rng.shuffle(cubes)
    model = rng.choice([None, "mosg__model_configuration"])
    plugin = FreezingRain(model_id_attr=model)
    data_before = [content(c) for c in cubes] if scale == 1 else None

    def call():
        return plugin(*cubes) if rng.chance(0.5) else plugin(CubeList(cubes))
    if fault or no_freezing or mode == "disjoint":
        mon.raises(ValueError, call, label=f"{fault or mode} refused")
        mon.seen("case", f"refused {fault} {no_freezing} {mode}")
        return
    if mode == "some":
        mon.seen("case", "members on some")
        mon.event("skipped")
        return
    common = None
    if mode != "none":
        common = sorted(set(members["rain"]) & set(members["sleet"]) & set(members["temp"]))
    out = call()
    if data_before:
        mon.equal([snap_diff(b, content(c)) for b, c in zip(data_before, cubes)], [[], [], []], "inputs changed")
    fn = sleet_name.replace("sleet", "freezing_rain")
    mon.equal(out.name(), f"probability_of_{fn}_above_threshold", "name")
    mon.equal(sorted(names(out)), sorted(([fn] if out.coord_dims(fn) else []) + ["projection_y_coordinate", "projection_x_coordinate"]), "dimensions")
    mon.equal(out.coords("realization"), [], "no members left")
    mon.equal([out.coord(fn).var_name, out.coord(fn).attributes.get("spp__relative_to_threshold")], ["threshold", "greater_than"], "threshold")
    if scale == 1:
        mon.close(out.coord(fn).points, np.array(ths), "threshold values")
    mon.equal(out.coord("time"), rain.coord("time"), "time")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_ens" if model else None, "model attribute")

    def arr(c, th, keep):
        d, order = c.data, names(c)
        want = [w for w in (th, "realization") if w in order] + ["projection_y_coordinate", "projection_x_coordinate"]
        d = by_name(c, want)
        if th not in order:
            d = d[np.newaxis]
        if common is not None:
            r = list(c.coord("realization").points)
            if "realization" not in order:
                d = d[:, np.newaxis]
            d = d[:, [r.index(v) for v in common]]
        else:
            d = d[:, np.newaxis]
        return ma.asanyarray(d).astype(float)
    r, s, t = arr(rain, rain_name, 0), arr(sleet, sleet_name, 0), arr(temp, "air_temperature", 0)
    i = tths.index(0.0)
    t = t[i: i + 1]
    if spp_t.startswith("greater"):
        t = 1.0 - t
    want = ((r + s) * t)
    hidden = ma.getmaskarray(want).any(axis=1)
    full = ma.getdata(want).mean(axis=1)
    want = ma.masked_array(full, hidden)
    got = by_name(out, [fn, "projection_y_coordinate", "projection_x_coordinate"]) if fn in names(out) else out.data[np.newaxis]
    same(mon, got, want, "freezing rain", rtol=1e-5, atol=1e-6)
    mon.equal(out.data.dtype, np.dtype(np.float32), "type")
    for f in gen.standard_faults(out):
        mon.fail("dtype standards", str(f))
    mon.event("freezing rain")
    mon.seen("case", f"{what} {mode} {n} {spp_t} {masked} {scale} {period}")


# ------------------------------------------------------------------ hail
@scenario("C51", quick=60, thorough=2000)
def hail(rng, mon):
    from improver.precipitation_type.hail_fraction import HailFraction

    nr = rng.choice([0, 0, 1, 2])
    shape = ((nr,) if nr else ()) + (rng.randint(1, 4), rng.randint(2, 5))
    lead = [gen.realization_coord(nr)] if nr else []

    def pick(vals, lo, hi):
        d = rng.np.uniform(lo, hi, shape).astype(np.float32)
        s = rng.np.rand(*shape) < 0.3
        return np.where(s, rng.np.choice(np.array(vals, np.float32), size=shape), d).astype(np.float32)
    w = pick([5, 50, 0, 14], 0, 70)
    size = pick([0.002, 0.0, 0.0021], 0, 0.005)
    ccl = pick([268.15, 270.0], 260, 285)
    cct = pick([258.15, 250.0], 230, 270)
    melt = pick([50.0, 0.0], 0, 200)
    oro = pick([50.0, 0.0], 0, 200)[(0,) if nr else ()]
    if rng.chance(0.3):
        m = gen.random_mask(rng, shape)
        w = ma.masked_array(w, m)
    kw = dict(lead=lead, time=T, frt=T - H, attributes={"source": "a", "title": "x", "institution": "b", "mosg__model_configuration": "uk_det"})
    cs = [cube(w, "maximum_vertical_updraught", "m s-1", **kw), cube(size, "diameter_of_hail_stones", "m", **kw),
          cube(ccl, "air_temperature_at_condensation_level", "K", **kw),
          cube(cct, "air_temperature_at_convective_cloud_top", "K", **kw),
          cube(melt, "altitude_of_rain_from_hail_falling_level", "m", **kw),
          cube(oro, "surface_altitude", "m", time=T, frt=T - H)]
    given = list(cs)
    rng.shuffle(given)
    model = rng.choice([None, "mosg__model_configuration"])
    plugin = HailFraction(model_id_attr=model)
    before = [content(c) for c in given]
    out = plugin(*given) if rng.chance(0.5) else plugin(CubeList(given))
    mon.equal([snap_diff(b, content(c)) for b, c in zip(before, given)], [[]] * 6, "inputs changed")
    W = ma.getdata(w).astype(float)
    want = np.clip((W - 5) / 45 * 0.25, 0, 0.25)
    f32 = np.float32
    none = (ccl < f32(268.15)) | (cct > f32(258.15)) | (melt > oro)
    want[none] = 0
    # single precision decides at the limits themselves
    edge = np.isclose(ccl, 268.15, atol=1e-4) | np.isclose(cct, 258.15, atol=1e-4) | np.isclose(size, 0.002, atol=1e-7)
    raised = (size > f32(0.002)) & (want < 0.05)
    want[raised] = 0.05
    want = ma.masked_array(want, ma.getmaskarray(w) | edge) if ma.isMaskedArray(w) else ma.masked_array(want, edge)
    got = ma.masked_array(ma.getdata(out.data), ma.getmaskarray(out.data) | edge)
    same(mon, got, want, "hail fraction", rtol=1e-5)
    mon.equal([out.name(), str(out.units), out.data.dtype], ["hail_fraction", "1", np.dtype(np.float32)], "metadata")
    mon.equal(names(out), names(cs[0]), "dimensions")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_det" if model else None, "model attribute")
    conv = [c.copy() for c in cs]
    for c, u in zip(conv, ["km h-1", "mm", "celsius", "fahrenheit", "km", "ft"]):
        c.convert_units(u)
    again = plugin(CubeList(conv))
    near = edge | np.isclose(melt, oro, atol=1e-2) | np.isclose(want.data, 0.05, atol=1e-4) | np.isclose(W, 5, atol=1e-3)
    mon.close(ma.getdata(again.data)[~near], ma.getdata(out.data)[~near], "in other units", rtol=1e-3, atol=1e-4)
    bad = [c.copy() for c in cs]
    b = rng.choice(bad)
    b.coord(axis="x").points = b.coord(axis="x").points + np.float32(9)
    mon.raises(ValueError, plugin, CubeList(bad), label="grids differ")
    mon.event("hail")
    mon.seen("case", f"{nr} {ma.isMaskedArray(w)} {none.any()} {raised.any()}")


# --------------------------------------------------------- snow fraction
@scenario("C51", quick=80, thorough=2500)
def snow_fraction(rng, mon):
    from improver.precipitation_type.snow_fraction import SnowFraction

    nr = rng.choice([0, 0, 1, 2, 3])
    shape = (rng.randint(2, 5), rng.randint(2, 5))
    lead = [gen.realization_coord(nr)] if nr else []
    full = ((nr,) if nr else ()) + shape
    acc = rng.chance(0.5)
    units, other = ("m", "mm") if acc else ("m s-1", "mm h-1")
    nm = ("thickness_of_rainfall_amount", "lwe_thickness_of_snowfall_amount") if acc else ("rainfall_rate", "lwe_snowfall_rate")

    def field():
        d = rng.np.choice(np.array([0, 1, 2, 3, 5], np.float32), size=full) * (1e-6 if not acc else 1e-3)
        if rng.chance(0.5):
            d = d * (rng.np.rand(*full) > 0.5)
        return d.astype(np.float32)
    r, s = field(), field()
    if rng.chance(0.15):
        k = rng.randrange(nr) if nr else Ellipsis
        r[k] = 0
        s[k] = 0
    bounds = (T - H, T) if acc else None
    kw = dict(lead=lead, time=T, frt=T - 6 * H, bounds=bounds, attributes={"source": "a", "title": "x", "institution": "b", "mosg__model_configuration": "uk_det"})
    R, S = cube(r, nm[0], units, **kw), cube(s, nm[1], units, **kw)
    order = list(range(R.ndim))
    if nr and rng.chance(0.3):
        order = [1, 2, 0]
        R.transpose(order)
        S.transpose(order)
    fault = rng.choice([None] * 8 + ["grid", "time", "mask", "units", "three", "name"])
    unmask = rng.chance(0.2)
    if unmask:
        S.data = ma.masked_array(S.data, np.zeros(S.shape, bool))
    cubes = [R, S]
    if fault == "grid":
        S.coord(axis="x").points = S.coord(axis="x").points + np.float32(100)
    elif fault == "time":
        S.coord("time").points = S.coord("time").points + 3600
    elif fault == "mask":
        m = np.zeros(R.shape, bool)
        m[(0,) * R.ndim] = True
        c = rng.choice(cubes)
        c.data = ma.masked_array(c.data, m)
    elif fault == "units":
        S.units = "K"
    elif fault == "three":
        cubes.append(R.copy())
    elif fault == "name":
        S.rename("hail_rate")
    rng.shuffle(cubes)
    model = rng.choice([None, "mosg__model_configuration"])
    plugin = SnowFraction(model_id_attr=model)
    if fault:
        mon.raises(ValueError, plugin, CubeList(cubes), label=f"{fault} refused")
        mon.seen("case", "refused " + fault)
        return
    before = [content(c) for c in cubes]
    out = plugin(CubeList(cubes))
    if not unmask:
        mon.equal([snap_diff(b, content(c)) for b, c in zip(before, cubes)], [[], []], "inputs changed")
    mon.equal([out.name(), str(out.units), out.data.dtype], ["snow_fraction", "1", np.dtype(np.float32)], "metadata")
    mon.equal(names(out), names(R), "dimensions")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_det" if model else None, "model attribute")
    if sorted(names(out)) != sorted(names(R)):
        return
    D = by_name(out, [c.name() for c in lead] + ["projection_y_coordinate", "projection_x_coordinate"])
    D = ma.asanyarray(D).reshape((-1,) + shape)
    for k, (a, b) in enumerate(zip(r.reshape((-1,) + shape).astype(float), s.reshape((-1,) + shape).astype(float))):
        wet = (a + b) > 0
        frac = np.where(wet, b / np.where(wet, a + b, 1), np.nan)
        mon.close(ma.getdata(D[k])[wet], frac[wet], "snow fraction", rtol=1e-5)
        if not wet.any():
            mon.check(bool((np.isnan(ma.filled(D[k], np.nan))).all()), "nothing to fill from")
            mon.event("dry")
            continue
        for j, i in np.argwhere(~wet):
            d2 = [((y - j) ** 2 + (x - i) ** 2, frac[y, x]) for y, x in np.argwhere(wet)]
            near = min(d2)[0]
            options = [v for d, v in d2 if d == near]
            mon.check(any(abs(D[k][j, i] - v) < 1e-5 for v in options), "filled from the nearest", f"{D[k][j, i]} {options}")
            mon.event("filled")
    for f in gen.standard_faults(out):
        mon.fail("dtype standards", str(f))
    # the snow in other units
    if rng.chance(0.5):
        S2 = S.copy()
        S2.convert_units(other)
        again = plugin(CubeList([R, S2]))
        wet = (by_name(R, names(out)) + ma.getdata(by_name(S, names(out)))) > 0
        mon.close(ma.getdata(again.data)[wet], ma.getdata(out.data)[wet], "in other units", rtol=1e-4, atol=1e-5)
    mon.seen("case", f"{nr} {acc} {unmask} {order}")


# ------------------------------------------------- rain or snow of the rest
@scenario("C51", quick=50, thorough=1500)
def splitting(rng, mon):
    from improver.precipitation_type.snow_splitter import SnowSplitter

    nr = rng.choice([0, 0, 1, 2])
    shape = ((nr,) if nr else ()) + (rng.randint(1, 4), rng.randint(2, 5))
    lead = [gen.realization_coord(nr)] if nr else []
    kw = dict(lead=lead, time=T, frt=T - 6 * H)
    phase = rng.np.randint(0, 3, shape)
    pr, ps = (phase == 1).astype(np.float32), (phase == 2).astype(np.float32)
    fractional = rng.chance(0.3)
    if fractional:
        pr = (rng.np.randint(0, 9, shape) / 16.0).astype(np.float32)
        ps = (rng.np.randint(0, 9, shape) / 16.0).astype(np.float32)
    both = rng.chance(0.15)
    if both:
        pr.flat[0] = ps.flat[0] = 1
    p = (rng.np.rand(*shape) * 1e-3).astype(np.float32)
    if rng.chance(0.3):
        p = ma.masked_array(p, gen.random_mask(rng, shape))
    name = rng.choice(["lwe_precipitation_rate", "lwe_thickness_of_precipitation_amount", "precipitation_rate"])
    units = "m" if "amount" in name else "m s-1"
    R = cube(pr, "probability_of_rain_at_surface", "1", **kw)
    S = cube(ps, "probability_of_snow_at_surface", "1", **kw)
    P = cube(p, name, units, **kw)
    cubes = [R, S, P]
    grid = rng.chance(0.1)
    if grid:
        c = rng.choice(cubes)
        c.coord(axis="y").points = c.coord(axis="y").points + np.float32(100)
    rng.shuffle(cubes)
    want_rain = rng.chance(0.5)
    plugin = SnowSplitter(output_is_rain=want_rain)

    def call():
        return plugin(*cubes) if rng.chance(0.5) else plugin(CubeList(cubes))
    if both or grid:
        mon.raises(ValueError, call, label="inconsistent inputs")
        mon.seen("case", f"refused {both} {grid}")
        return
    before = [content(c) for c in cubes]
    out = call()
    mon.equal([snap_diff(b, content(c)) for b, c in zip(before, cubes)], [[]] * 3, "inputs changed")
    a, b = (pr, ps) if want_rain else (ps, pr)
    same(mon, out.data, ma.asanyarray(p).astype(float) * (a.astype(float) - b + 1) / 2, "contribution", rtol=1e-5, atol=1e-9)
    nm = name.replace("precipitation", "rainfall").replace("lwe_", "") if want_rain else name.replace("precipitation", "snowfall")
    mon.equal([out.name(), str(out.units), out.data.dtype], [nm, units, np.dtype(np.float32)], "metadata")
    mon.equal(names(out), names(P), "dimensions")
    other = SnowSplitter(output_is_rain=not want_rain)(CubeList(cubes))
    same(mon, out.data + other.data, ma.asanyarray(p), "rain and snow are all the precipitation", rtol=1e-5, atol=1e-9)
    mon.event("split")
    mon.seen("case", f"{nr} {fractional} {want_rain} {name} {ma.isMaskedArray(p)}")


# ----------------------------------------------------------------- sleet
@scenario("C51", quick=30, thorough=1000)
def sleet(rng, mon):
    from improver.precipitation_type.calculate_sleet_prob import calculate_sleet_probability

    nr = rng.choice([0, 0, 2])
    shape = ((nr,) if nr else ()) + (2, 3)
    lead = [gen.realization_coord(nr)] if nr else []
    whole = rng.chance(0.4)
    if whole:
        ph = rng.np.randint(0, 3, shape)
        s, r = (ph == 1).astype(np.int8 if rng.chance(0.3) else np.float32), (ph == 2).astype(np.float32)
        r = r.astype(s.dtype)
    else:
        s = (rng.np.randint(0, 9, shape) / 16).astype(np.float32)
        r = (rng.np.randint(0, 9, shape) / 16).astype(np.float32)
    m = None
    if rng.chance(0.3):
        m = gen.random_mask(rng, shape)
        s = ma.masked_array(s, m)
    bad = rng.chance(0.15)
    if bad:
        k = tuple(rng.randrange(n) for n in shape)
        s[k] = 1
        r[k] = 1
    S = cube(s, "probability_of_snow", "1", lead=lead, time=T)
    R = cube(r, "probability_of_rain", "1", lead=lead, time=T)
    before = content([S, R])
    if bad:
        mon.raises(ValueError, calculate_sleet_probability, S, R, label="negative probabilities")
        mon.seen("case", "refused")
        return
    out = calculate_sleet_probability(S, R)
    mon.equal(snap_diff(before, content([S, R])), [], "inputs changed")
    same(mon, out.data, 1.0 - (ma.asanyarray(s).astype(float) + r), "sleet")
    mon.equal([out.name(), str(out.units), out.data.dtype], ["probability_of_sleet", "1", np.result_type(s.dtype, r.dtype)], "metadata")
    mon.equal(names(out), names(S), "dimensions")
    mon.event("sleet")
    mon.seen("case", f"{nr} {whole} {m is not None}")


# ------------------------------------------------------------ convection
@scenario("C51", quick=40, thorough=1200)
def convection(rng, mon):
    from improver.precipitation_type.convection import ConvectionRatioFromComponents

    nr = rng.choice([0, 0, 1, 2])
    shape = ((nr,) if nr else ()) + (2, 4)
    lead = [gen.realization_coord(nr)] if nr else []
    units = rng.choice(["m s-1", "mm h-1", "mm s-1"])
    mm = {"m s-1": 1.0, "mm h-1": 3.6e6, "mm s-1": 1e3}[units]
    vals = np.array([0, 0, 4e-10, 2e-9, 1e-7, 1e-6, 5e-6])

    def f():
        d = (rng.np.choice(vals, size=shape) * mm).astype(np.float32)
        return ma.masked_array(d, gen.random_mask(rng, shape)) if rng.chance(0.2) else d
    c, d = f(), f()
    kw = dict(lead=lead, time=T, frt=T - H, attributes={"source": "a", "title": "x", "institution": "b", "mosg__model_configuration": "uk_det"})
    C = cube(c, "lwe_convective_precipitation_rate", units, **kw)
    D = cube(d, "lwe_stratiform_precipitation_rate", units, **kw)
    cubes = [C, D]
    bad = rng.choice([None] * 6 + ["name", "units", "one"])
    if bad == "name":
        D.rename("snow")
    elif bad == "units":
        rng.choice(cubes).units = "K"
    elif bad == "one":
        cubes = cubes[:1]
    if rng.chance(0.3):
        cubes.append(cube(np.ones(shape, np.float32), "other", "1", lead=lead))
    rng.shuffle(cubes)
    plugin = ConvectionRatioFromComponents()
    given = CubeList(cubes) if rng.chance(0.5) else cubes
    if bad:
        mon.raises(ValueError, plugin, given, label=f"{bad} refused")
        mon.seen("case", "refused " + bad)
        return
    before = content(cubes)
    model = rng.choice([None, "mosg__model_configuration"])
    out = plugin(given, model_id_attr=model)
    mon.equal(snap_diff(before, content(cubes)), [], "inputs changed")
    total = (ma.asanyarray(c).astype(float) + d) / mm
    dry = np.abs(ma.getdata(total)) <= 1e-9
    with np.errstate(all="ignore"):
        want = ma.masked_array(ma.getdata(c).astype(float) / mm / np.where(dry, 1, ma.getdata(total)), dry | ma.getmaskarray(total))
    same(mon, out.data, want, "ratio", rtol=1e-5)
    mon.equal([out.name(), str(out.units), out.data.dtype], ["convective_ratio", "1", np.dtype(np.float32)], "metadata")
    mon.equal(names(out), names(C), "dimensions")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_det" if model else None, "model attribute")
    mon.event("ratio")
    mon.seen("case", f"{nr} {units} {dry.any()} {ma.isMaskedArray(c)}")


# --------------------------------------------------------------- showers
@scenario("C51", quick=50, thorough=1500)
def showers(rng, mon):
    from improver.precipitation_type.shower_condition_probability import ShowerConditionProbability
    from improver.precipitation_type.utilities import make_shower_condition_cube

    nr = rng.choice([0, 1, 2, 3])
    shape = ((nr,) if nr else ()) + (rng.randint(2, 4), rng.randint(2, 4))
    lead = [gen.realization_coord(nr)] if nr else []
    ct, vt = rng.choice([0.8125, 0.5, 0.25]), rng.choice([0.8, 0.5, 0.25])
    cloud = rng.np.choice(np.array([0, 0.2, 0.25, 0.5, 0.8125, 0.9, 1], np.float32), size=shape)
    conv = rng.np.choice(np.array([0, 0.2, 0.25, 0.5, 0.7, 0.85, 1], np.float32), size=shape)
    if rng.chance(0.5):
        conv = ma.masked_array(conv, gen.random_mask(rng, shape))
    kw = dict(lead=lead, time=T, frt=T - H, attributes={"source": "a", "title": "x", "institution": "b", "mosg__model_configuration": "uk_ens"})
    C = cube(cloud, rng.choice(["low_and_medium_type_cloud_area_fraction", "cloud_area_fraction"]), "1", **kw)
    V = cube(conv, "convective_ratio", "1", **kw)
    cubes = [C, V]
    bad = rng.choice([None] * 6 + ["missing", "shape"])
    if bad == "missing":
        cubes = [rng.choice(cubes)]
    elif bad == "shape":
        cubes[0] = C[..., :-1]
    rng.shuffle(cubes)
    model = rng.choice([None, "mosg__model_configuration"])
    kws = {}
    if (ct, vt) != (0.8125, 0.8) or rng.chance(0.5):
        kws = dict(cloud_threshold=ct, convection_threshold=vt)
    plugin = ShowerConditionProbability(model_id_attr=model, **kws)
    if bad:
        mon.raises(ValueError, plugin, CubeList(cubes), label=f"{bad} refused")
        mon.seen("case", "refused " + bad)
        return
    before = content(cubes)
    out = plugin(CubeList(cubes))
    mon.equal(snap_diff(before, content(cubes)), [], "inputs changed")
    want = np.maximum((cloud <= np.float32(ct)).astype(float), ma.filled((conv > np.float32(vt)).astype(float), 0))
    if nr:
        want = want.mean(axis=0)
    same(mon, out.data, want, "showery", rtol=1e-5)
    mon.equal([out.name(), str(out.units), out.data.dtype], ["probability_of_shower_condition_above_threshold", "1", np.dtype(np.float32)], "metadata")
    mon.equal(names(out), ["projection_y_coordinate", "projection_x_coordinate"], "dimensions")
    k = out.coord("shower_condition")
    mon.equal([k.var_name, str(k.units), list(k.points)], ["threshold", "1", [1.0]], "threshold")
    mon.equal(out.coords("realization"), [], "no members left")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_ens" if model else None, "model attribute")
    for f in gen.standard_faults(out):
        mon.fail("dtype standards", str(f))
    # a probability renamed
    n = rng.randint(1, 2)
    p = gen.probabilities(rng.np.rand(n, 2, 3).astype(np.float32), [0.5, 0.8][:n], name="convective_ratio", threshold_units="1")
    b4 = content(p)
    if n > 1:
        mon.raises(ValueError, make_shower_condition_cube, p, label="several thresholds")
    else:
        q = make_shower_condition_cube(p)
        mon.equal(snap_diff(b4, content(p)), [], "input changed")
        mon.equal([q.name(), list(q.coord("shower_condition").points), str(q.coord("shower_condition").units), q.coord("shower_condition").var_name],
                  ["probability_of_shower_condition_above_threshold", [1.0], "1", "threshold"], "proxy")
        mon.array_equal(q.data, p.data, "proxy data")
        mon.equal(make_shower_condition_cube(p, in_place=True) is p, True, "in place")
        mon.equal(snap_diff(content(q), content(p)), [], "in place")
    bare = cube(np.ones((2, 3), np.float32))
    from iris.exceptions import CoordinateNotFoundError
    mon.raises(CoordinateNotFoundError, make_shower_condition_cube, bare, label="no threshold")
    mon.event("showers")
    mon.seen("case", f"{nr} {kws != {}} {ma.isMaskedArray(conv)}")
