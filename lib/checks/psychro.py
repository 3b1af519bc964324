"""C37: humidity, wet bulb, condensation.  C38: phase change.  C39: hail size, cloud top."""
import numpy as np
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, standard_faults

EPS, CP, CPV, R, RV, LC, LT, T3 = 0.62198, 1005.0, 1850.0, 287.0, 461.6, 2.501e6, 2340.0, 273.16


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def goff_gratch(t):
    """hPa"""
    t = np.asarray(t, float)
    w = (10.79574 * (1 - T3 / t) - 5.028 * np.log10(t / T3) + 1.50475e-4 * (1 - 10 ** (-8.2969 * (t / T3 - 1)))
         + 0.42873e-3 * (10 ** (4.76955 * (1 - T3 / t)) - 1) + 0.78614)
    i = -9.09685 * (T3 / t - 1) - 3.56654 * np.log10(T3 / t) + 0.87682 * (1 - t / T3) + 0.78614
    return 10 ** np.where(t > T3, w, i)


def svp_air(t, p):
    t, p = np.asarray(t, float), np.asarray(p, float)
    tc = t - 273.15
    return 100 * goff_gratch(np.clip(t, 183.15, 338.15)) * (1 + 1e-8 * p * (4.5 + 6e-4 * tc * tc))


def qsat(t, p):
    e = svp_air(t, p)
    return EPS * e / (np.maximum(e, p) - (1 - EPS) * e)


def latent(t):
    return LC - LT * (np.asarray(t, float) - 273.15)


def wet_bulb(t, rh, p):
    t = np.asarray(t, float)
    q = rh * qsat(t, p)
    l, c = latent(t), (1 - q) * CP + q * CPV
    h = l * q + c * t
    lo, hi = t - 80, t + 1.0
    for _ in range(60):
        m = 0.5 * (lo + hi)
        up = l * qsat(m, p) + c * m > h
        hi, lo = np.where(up, m, hi), np.where(up, lo, m)
    return 0.5 * (lo + hi)


def dry(t, p0, p1):
    return np.asarray(t, float) * (np.asarray(p1, float) / p0) ** (R / CP)


def saturated(t, q, p):
    """Temperature and humidity once the excess has condensed."""
    t = np.asarray(t, float)
    lo, hi = np.zeros_like(t), np.broadcast_to(np.asarray(q, float), t.shape).copy()
    l = latent(t) / CP
    for _ in range(60):
        m = 0.5 * (lo + hi)
        up = qsat(t + l * (q - m), p) < m      # m is more than saturation
        hi, lo = np.where(up, m, hi), np.where(up, lo, m)
    m = 0.5 * (lo + hi)
    sub = qsat(t, p) >= q
    return np.where(sub, t, t + l * (q - m)), np.where(sub, q, m)


def change(rng, mon, c, options):
    u = rng.choice(options)
    if u != str(c.units):
        c.convert_units(u)
        c.data = c.data.astype(np.float32)
    return c


# ------------------------------------------------------------ C37
@scenario("C37", quick=60, thorough=1500)
def svp_table(rng, mon):
    """The saturated vapour pressure table and its interpolation."""
    from improver.generate_ancillaries.generate_svp_table import SaturatedVapourPressureTable
    from improver.psychrometric_calculations.psychrometric_calculations import (
        calculate_svp_in_air, dry_adiabatic_pressure, dry_adiabatic_temperature, saturated_humidity)

    if rng.chance(0.3):
        lo = rng.choice([183.15, 200.0, 260.0, 273.16])
        n = rng.randint(1, 40)
        inc = rng.choice([0.1, 0.5, 1.0])
        hi = lo + n * inc
        t = SaturatedVapourPressureTable(t_min=lo, t_max=hi, t_increment=inc)()
        pts = t.coord("air_temperature").points.astype(float)
        mon.equal(len(pts), n + 1, "table length")
        mon.close(pts, lo + inc * np.arange(n + 1), "table temperatures", rtol=1e-6)
        mon.close(t.data, 100 * goff_gratch(lo + inc * np.arange(n + 1)), "table values", rtol=1e-5)
        mon.equal(str(t.units), "Pa", "table units")
    n = rng.randint(1, 30)
    t = rng.np.uniform(175, 345, n).astype(np.float32)
    if rng.chance(0.3):
        t[0] = rng.choice([183.15, 338.15, 338.25, 400.0, 150.0, 273.16])
    p = rng.np.uniform(5000, 110000, n).astype(np.float32)
    copies = t.copy(), p.copy()
    got = calculate_svp_in_air(t, p)
    mon.close(got, svp_air(t, p), "saturation vapour pressure", rtol=2e-4)
    q = saturated_humidity(t, p)
    mon.close(q, qsat(t, p), "saturated humidity", rtol=1e-3)
    mon.equal(q.dtype, np.dtype(np.float32), "dtype")
    p2 = rng.np.uniform(5000, 110000, n).astype(np.float32)
    t2 = dry_adiabatic_temperature(t, p, p2)
    mon.close(t2, dry(t, p, p2), "dry adiabat", rtol=1e-4)
    mon.close(dry_adiabatic_pressure(t, p, t2), p2, "dry adiabat back", rtol=1e-3)
    mon.array_equal(t, copies[0], "temperature changed")
    mon.array_equal(p, copies[1], "pressure changed")
    mon.event("temperatures", n)
    mon.seen("case", int(t[0]))


@scenario("C37", quick=80, thorough=2000)
def latent_heat(rng, mon):
    from improver.psychrometric_calculations.psychrometric_calculations import adjust_for_latent_heat

    n = rng.choice([1, 3, 20, 150])
    t = rng.np.uniform(230, 300, n).astype(np.float32)
    p = rng.np.uniform(30000, 105000, n).astype(np.float32)
    f = rng.np.uniform(0.2, 1.8, n)
    q = (f * qsat(t, p)).astype(np.float32)
    copies = t.copy(), q.copy()
    gt, gq = adjust_for_latent_heat(t, q, p)
    wt, wq = saturated(t, q, p)
    clear = np.abs(f - 1) > 0.01
    mon.close(np.asarray(gt)[clear], wt[clear], "temperature after condensation", atol=0.05)
    mon.close(np.asarray(gq)[clear], wq[clear], "humidity after condensation", atol=2e-5)
    mon.array_equal(np.asarray(gt)[f < 0.99], t[f < 0.99], "subsaturated temperature")
    mon.array_equal(np.asarray(gq)[f < 0.99], q[f < 0.99], "subsaturated humidity")
    mon.array_equal(t, copies[0], "temperature changed")
    mon.array_equal(q, copies[1], "humidity changed")
    mon.event("parcels", n)
    mon.seen("case", n)


def surface_cubes(rng, shape, lead=(), mask=None, tname="air_temperature", pname="air_pressure"):
    t = rng.np.uniform(rng.choice([220, 250, 280]), 312, shape).astype(np.float32)
    rh = rng.np.uniform(0.05, 1.0, shape).astype(np.float32)
    if rng.chance(0.3):
        rh.flat[0] = 1.0
    p = rng.np.uniform(60000, 104000, shape).astype(np.float32)
    def wrap(a, hide):
        return a if mask is None else np.ma.MaskedArray(np.where(mask, np.float32(hide), a), mask=mask)
    return t, rh, p, [cube(wrap(t, 400), tname, "K", lead=lead), cube(wrap(rh, 0.5), "relative_humidity", "1", lead=lead),
                      cube(wrap(p, 1e5), pname, "Pa", lead=lead)]


@scenario("C37", quick=100, thorough=2500)
def wet_bulb_temperature(rng, mon):
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperature

    lead = []
    if rng.chance(0.3):
        lead.append(gen.realization_coord(rng.randint(1, 3)))
    levels = rng.chance(0.4)
    if levels:
        lead.insert(rng.randint(0, len(lead)), gen.level_coord(sorted(rng.sample([2.0, 10.0, 50.0, 200.0, 500.0], rng.randint(1, 4)))))
    shape = tuple(len(c.points) for c in lead) + (rng.randint(1, 4), rng.randint(2, 5))
    t, rh, p, cubes = surface_cubes(rng, shape, lead)
    cubes[0].attributes["mosg__model_configuration"] = "uk_det"
    cubes[1].attributes["mosg__model_configuration"] = "uk_det"
    cubes[2].attributes["mosg__model_configuration"] = "uk_det"
    change(rng, mon, cubes[0], ["K", "K", "celsius"])
    change(rng, mon, cubes[1], ["1", "1", "%"])
    change(rng, mon, cubes[2], ["Pa", "Pa", "hPa"])
    order = list(cubes)
    rng.shuffle(order)
    snap = content(cubes)
    prec = rng.choice([0.005, 0.005, 0.0005, 0.05])
    plugin = WetBulbTemperature(precision=prec, model_id_attr=rng.choice([None, "mosg__model_configuration"]))
    for _ in range(2):
        out = plugin(*order) if rng.chance(0.5) else plugin(CubeList(order))
        mon.equal(snap_diff(snap, content(cubes)), [], "input changed")
        names = [c.name() for c in out.coords(dim_coords=True)]
        mon.equal(names, [c.name() for c in cubes[0].coords(dim_coords=True)], "dimensions")
        mon.close(out.data, wet_bulb(t, rh, p), "wet bulb temperature", atol=prec * 3 + 0.02)
    mon.check(bool(np.all(out.data <= t + 0.02)), "not above the temperature")
    mon.equal(standard_faults(out), [], "standards")
    mon.equal((out.name(), str(out.units)), ("wet_bulb_temperature", "K"), "name")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_det" if plugin.model_id_attr else None, "model attribute")
    for c in cubes[0].coords():
        mon.check(out.coord(c.name()) == c, "coordinate " + c.name())
    mon.event("points", out.data.size)
    mon.seen("case", (levels, len(lead), prec))
    if rng.chance(0.2):
        mon.raises(Exception, plugin, cubes[0], cubes[1], label="a missing input")


@scenario("C37", quick=100, thorough=2500)
def integral(rng, mon):
    """Vertical integrals of the positive values, from either end and between limits."""
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperatureIntegral
    from improver.utilities.mathematical_operations import Integration

    h = np.array(sorted(rng.sample([0.0, 5.0, 10.0, 50.0, 100.0, 200.0, 350.0, 500.0, 1000.0], rng.randint(2, 7))))
    n = len(h)
    lead = [gen.level_coord(h)]
    pos = 0
    if rng.chance(0.4):
        pos = rng.randint(0, 1)
        lead.insert(1 - pos, gen.realization_coord(rng.randint(1, 3)))
    shape = tuple(len(c.points) for c in lead) + (rng.randint(1, 3), rng.randint(2, 4))
    t = rng.np.uniform(-15, 15, shape).astype(np.float32)
    c = cube(t.copy(), "wet_bulb_temperature", "celsius", lead=lead)
    if rng.chance(0.3):
        index = [slice(None)] * c.ndim
        index[c.coord_dims("height")[0]] = slice(None, None, -1)
        c = c[tuple(index)]
    use_wb = rng.chance(0.4)
    if use_wb:
        change(rng, mon, c, ["celsius", "K"])
        if rng.chance(0.3):
            c.coord("height").convert_units("km")
        c.attributes["mosg__model_configuration"] = "uk_ens"
        attr = rng.choice([None, "mosg__model_configuration"])
        plugin = WetBulbTemperatureIntegral(model_id_attr=attr)
        start = end = None
        up = False
    else:
        up = rng.chance(0.5)
        a, b = sorted(rng.sample(list(h) + [7.0, 150.0, 0.0, 700.0], 2))
        start = rng.choice([None, a if up else b])
        end = rng.choice([None, b if up else a])
        plugin = Integration("height", start_point=start, end_point=end, positive_integration=up)
    order = None
    if rng.chance(0.3):
        order = list(range(c.ndim))
        rng.shuffle(order)
        c.transpose(order)
    snap = content(c)
    lo, hi = (start, end) if up else (end, start)
    cells = [i for i in range(n - 1) if (lo is None or h[i] >= lo) and (hi is None or h[i + 1] <= hi)]
    if not cells:
        mon.raises(ValueError, plugin, c.copy(), label="no levels between the limits")
        return
    for _ in range(2):
        out = plugin(c)
        mon.equal(snap_diff(snap, content(c)), [], "input changed")
    prof = np.moveaxis(np.maximum(t, 0).astype(float), pos if len(lead) == 2 else 0, 0)
    seq = cells if up else cells[::-1]
    total, levels, want, bounds = 0, [], [], []
    for i in seq:
        total = total + 0.5 * (prof[i] + prof[i + 1]) * (h[i + 1] - h[i])
        want.append(total)
        levels.append(h[i + 1] if up else h[i])
        bounds.append([h[i], h[i + 1]])
    k = out.coord("height")
    o = np.argsort(levels)
    mon.equal([d.name() for d in out.coords(dim_coords=True)], [d.name() for d in c.coords(dim_coords=True)], "dimensions")
    mon.close(np.sort(k.points), np.array(levels)[o], "levels", rtol=1e-6)
    names = [d.name() for d in out.coords(dim_coords=True)]
    back = [names.index("height")] + [names.index(d.name()) for d in lead if d.name() != "height"] + [
        names.index(out.coord(axis="y").name()), names.index(out.coord(axis="x").name())]
    got = np.asarray(out.data).transpose(back)[np.argsort(k.points)]
    mon.close(got, np.array(want)[o], "integral", rtol=1e-4, atol=0.5 if use_wb else 1e-2)
    mon.close(np.sort(k.bounds, axis=1)[np.argsort(k.points)], np.array(bounds)[o], "bounds", rtol=1e-6)
    mon.equal(standard_faults(out), [], "standards")
    if use_wb:
        mon.equal((out.name(), str(out.units)), ("wet_bulb_temperature_integral", "K m"), "name and units")
        mon.equal(out.attributes.get("mosg__model_configuration"), "uk_ens" if attr else None, "model attribute")
    mon.event("levels integrated", len(cells))
    mon.seen("case", (use_wb, up, start is None, end is None, len(lead), order is not None))


@scenario("C37", quick=60, thorough=1200)
def condensation_level(rng, mon):
    from improver.psychrometric_calculations.cloud_condensation_level import MetaCloudCondensationLevel
    from improver.psychrometric_calculations.psychrometric_calculations import HumidityMixingRatio

    lead = [gen.realization_coord(rng.randint(1, 3))] if rng.chance(0.4) else []
    shape = tuple(len(c.points) for c in lead) + (rng.randint(1, 4), rng.randint(2, 5))
    t, rh, p, cubes = surface_cubes(rng, shape, lead, pname="surface_air_pressure")
    t = np.clip(t, 260, 312)
    rh = np.clip(rh, 0.2, 1)
    cubes[0].data, cubes[1].data = t.copy(), rh.copy()
    for c in cubes:
        c.attributes["mosg__model_configuration"] = "uk_det"
    attr = rng.choice([None, "mosg__model_configuration"])
    order = list(cubes)
    rng.shuffle(order)
    snap = content(cubes)
    hum = HumidityMixingRatio(model_id_attr=attr)(*order)
    mon.close(hum.data, rh * qsat(t, p), "humidity mixing ratio", rtol=1e-3)
    mon.equal((hum.name(), str(hum.units)), ("humidity_mixing_ratio", "kg kg-1"), "name")
    mon.equal(standard_faults(hum), [], "standards")
    tc, pc = MetaCloudCondensationLevel(model_id_attr=attr)(*order)
    mon.equal(snap_diff(snap, content(cubes)), [], "input changed")
    mon.equal((tc.name(), str(tc.units), pc.name(), str(pc.units)),
              ("air_temperature_at_condensation_level", "K", "air_pressure_at_condensation_level", "Pa"), "names")
    q = rh * qsat(t, p)
    lo, hi = np.full(shape, 5000.0), p.astype(float).copy()
    for _ in range(50):
        m = 0.5 * (lo + hi)
        dry_ = qsat(dry(t, p, m), m) > q
        hi, lo = np.where(dry_, m, hi), np.where(dry_, lo, m)
    m = 0.5 * (lo + hi)
    mon.close(pc.data, m, "pressure at condensation", atol=200)
    mon.close(tc.data, dry(t, p, pc.data), "temperature at condensation", atol=0.05)
    mon.equal(standard_faults(tc) + standard_faults(pc), [], "standards")
    for c in (hum, tc, pc):
        mon.equal(c.attributes.get("mosg__model_configuration"), "uk_det" if attr else None, "model attribute")
    mon.event("points", tc.data.size)
    mon.seen("case", (len(lead), attr))


# ------------------------------------------------------------ C38
def column_crossing(h, profile, threshold):
    """Highest to lowest: where the integral from the top first reaches the threshold."""
    # profile: integral at h (ascending), non-increasing with height
    for i in range(len(h) - 1, -1, -1):
        if profile[i] >= threshold:
            if i == len(h) - 1:
                return h[i] if profile[i] == threshold else None
            a, b = profile[i + 1], profile[i]
            return h[i + 1] + (threshold - a) / (b - a) * (h[i] - h[i + 1])
    return None


@scenario("C38", quick=120, thorough=2500)
def phase_change_level(rng, mon):
    from improver.psychrometric_calculations.psychrometric_calculations import PhaseChangeLevel
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperatureIntegral

    ny, nx = rng.randint(4, 6), rng.randint(4, 6)
    h = np.array(sorted(rng.sample([5.0, 20.0, 50.0, 100.0, 200.0, 400.0, 700.0, 1000.0], rng.randint(5, 8))))
    lead = [gen.realization_coord(rng.randint(1, 3))] if rng.chance(0.4) else []
    m = len(lead[0].points) if lead else 1
    base = rng.np.uniform(-3, 9, (m, 1, ny, nx))
    lapse = rng.np.uniform(0.002, 0.012, (m, 1, ny, nx))
    wbt = (base - lapse * h[None, :, None, None] + rng.np.uniform(-0.3, 0.3, (m, len(h), ny, nx)))
    if rng.chance(0.2):
        wbt += 8
    wbt = (wbt + 273.15).astype(np.float32)
    orog = (rng.np.rand(ny, nx) * rng.choice([0, 300, 1500])).astype(np.float32)
    land = (rng.np.rand(ny, nx) < rng.choice([0.4, 0.8, 1.0, 0.0])).astype(np.int8)
    orog = np.where(land | (rng.np.rand(ny, nx) < 0.2), orog, 0).astype(np.float32)
    data = wbt if lead else wbt[0]
    w = cube(data, "wet_bulb_temperature", "K", lead=lead + [gen.level_coord(h)])
    w.attributes["mosg__model_configuration"] = "uk_det"
    attr = rng.choice([None, "mosg__model_configuration"])
    integ = WetBulbTemperatureIntegral(model_id_attr=attr)(w)
    if rng.chance(0.3):
        # levels of the integral in ascending order
        k = integ.coord_dims("height")[0]
        index = [slice(None)] * integ.ndim
        index[k] = slice(None, None, -1)
        integ = integ[tuple(index)]
    o = cube(orog, "surface_altitude", "m", times=False)
    l = cube(land, "land_binary_mask", "1", times=False)
    phase = rng.choice(["snow-sleet", "sleet-rain", "hail-rain"])
    name, thr = {"snow-sleet": ("snow_falling", 90.0), "sleet-rain": ("rain_falling", 202.5),
                 "hail-rain": ("rain_from_hail_falling", 5000.0)}[phase]
    radius = rng.choice([0, 1, 2])
    fill = rng.chance(0.5)
    plugin = PhaseChangeLevel(phase, grid_point_radius=radius, horizontal_interpolation=fill, model_id_attr=attr)
    order = [w, integ, o, l]
    rng.shuffle(order)
    snap = content([integ, o, l])
    for _ in range(2):
        out = plugin(CubeList(order))
        mon.equal(snap_diff(snap, content([integ, o, l])), [], "input changed")
    got = np.ma.getdata(out.data)
    gm = np.ma.getmaskarray(out.data)
    got, gm = (got, gm) if lead else (got[None], gm[None])
    mon.equal(got.shape, (m, ny, nx), "shape")
    hp = np.sort(integ.coord("height").points.astype(float))
    t = wbt.astype(float) - 273.15
    pos = np.maximum(t, 0)
    top = h[-1]
    for r in range(m):
        direct = np.full((ny, nx), np.nan)
        for j, i in np.ndindex(ny, nx):
            prof = np.zeros(len(hp))
            acc = 0
            for a in range(len(h) - 2, -1, -1):
                acc += 0.5 * (pos[r, a, j, i] + pos[r, a + 1, j, i]) * (h[a + 1] - h[a])
                prof[a] = acc
            if abs(prof.max() - thr) < 1e-3 * thr or abs(prof.min() - thr) < 1e-3 * thr:
                direct[j, i] = np.inf
                continue
            z = column_crossing(hp, prof, thr)
            if z is not None:
                mon.close(got[r, j, i], z + orog[j, i], "level where the integral reaches its threshold", rtol=1e-4, atol=2.0)
                mon.check(not gm[r, j, i], "found levels are not masked")
                direct[j, i] = z + orog[j, i]
                mon.event("levels found")
            elif prof.max() > thr:
                mon.close(got[r, j, i], top + orog[j, i], "levels above the profile", atol=0.1)
                direct[j, i] = top + orog[j, i]
                mon.event("levels at the top")
            elif not land[j, i]:
                n = min(5, len(h))
                g, b = np.polyfit(h[:n], t[r, :n, j, i], 1)
                if abs(g) < 1e-4:
                    direct[j, i] = np.inf
                    continue
                if g >= 0:
                    continue
                imax = prof.max()
                # integrate the fitted line downwards from sea level, where it is positive
                if b >= 0:
                    z = (b - np.sqrt(b * b - 2 * g * (thr - imax))) / -g
                else:
                    z = (b - np.sqrt(2 * g * (imax - thr))) / -g
                direct[j, i] = max(z, -2000) + orog[j, i]
                mon.close(got[r, j, i], direct[j, i], "levels below the sea", rtol=1e-3, atol=3.0)
                mon.event("levels extrapolated")
        hole = np.isnan(direct)
        sure = ~np.isinf(direct)
        if not fill:
            mon.array_equal(gm[r][sure], hole[sure], "masked where no level is found")
        else:
            mon.check(not gm[r][sure & ~hole].any(), "found levels are not masked")
            if (~hole & sure).any() and sure.all():
                mon.check(not gm[r].any(), "holes are filled")
                f = got[r]
                mon.check(bool(np.all(f[hole] <= orog[hole] + 0.05)), "filled levels lie within the ground")
                mon.event("levels filled", int(hole.sum()))
    mon.equal((out.name(), str(out.units)), ("altitude_of_%s_level" % name, "m"), "name")
    mon.equal(standard_faults(out), [], "standards")
    mon.check("height" not in [c.name() for c in out.coords()], "no height")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_det" if attr else None, "model attribute")
    if attr and rng.chance(0.5):
        bad = integ.copy()
        bad.attributes[attr] = "uk_ens"
        mon.raises(ValueError, plugin, CubeList([w, bad, o, l]), label="different models")
    mon.raises(ValueError, PhaseChangeLevel, "rain-sleet", label="unknown phase change")
    mon.seen("case", (phase, radius, fill, len(lead), attr))


@scenario("C38", quick=120, thorough=2500)
def phase_probability(rng, mon):
    from improver.psychrometric_calculations.precip_phase_probability import PrecipPhaseProbability

    kind = rng.choice(["snow", "rain", "rain_from_hail"])
    spot = rng.chance(0.3)
    lead = []
    pct = rng.chance(0.5)
    want_p = 80.0 if kind == "snow" else 20.0
    if pct:
        vals = sorted(set(rng.sample([5.0, 20.0, 50.0, 80.0, 95.0], rng.randint(1, 4)) + ([want_p] if rng.chance(0.85) else [])))
        lead.append(gen.percentile_coord(vals))
    elif rng.chance(0.4):
        lead.append(gen.realization_coord(rng.randint(1, 3)))
    lshape = tuple(len(c.points) for c in lead)
    n = rng.randint(3, 7)
    sp = (n,) if spot else (n, n + 1)
    data = np.round(rng.np.uniform(-100, 600, lshape + sp)).astype(np.float32)
    alt = np.round(rng.np.uniform(0, 600, sp)).astype(np.float32)
    eq = rng.np.rand(*sp) < 0.3
    sel = data[vals.index(want_p)] if pct and want_p in vals else data
    alt = np.where(eq, sel if sel.shape == sp else sel[0] if sel.ndim > len(sp) else alt, alt).astype(np.float32)
    nm = "altitude_of_%s_falling_level" % kind
    if spot:
        f = gen.spot(data, nm, "m", lead=lead)
        a = gen.spot(np.zeros(n, np.float32), "grid_neighbours", "1")
        k = a.coord("altitude")
        k.points = alt
        f.coord("altitude").points = alt
    else:
        f = cube(data, nm, "m", lead=lead)
        a = cube(alt, "surface_altitude", "m", times=False)
    unit = rng.choice(["m", "m", "ft", "km"]) if not eq.any() else "m"
    change(rng, mon, f, [unit])
    cubes = [f, a]
    rng.shuffle(cubes)
    snap = content([f, a])
    if pct and want_p not in vals:
        mon.raises(ValueError, PrecipPhaseProbability(), CubeList(cubes), label="required percentile missing")
        return
    plugin = PrecipPhaseProbability()
    out = plugin(CubeList(cubes))
    mon.equal(snap_diff(snap, content([f, a])), [], "input changed")
    want = alt >= sel if kind == "snow" else alt < sel
    clear = np.abs(alt - sel) > 0.01 if unit != "m" else np.ones(np.shape(want), bool)
    mon.equal(out.data.shape, want.shape, "shape")
    mon.array_equal(np.asarray(out.data)[clear], want.astype(np.int8)[clear], "phase at the surface")
    mon.equal(out.dtype, np.dtype(np.int8), "dtype")
    mon.equal((out.name(), str(out.units)), ("probability_of_%s_at_surface" % kind, "1"), "name")
    mon.check("percentile" not in [c.name() for c in out.coords()], "no percentile")
    mon.check(out.coord("time") == f.coord("time"), "time")
    mon.event("points", out.data.size)
    mon.event("points at the level", int(eq.sum()))
    if rng.chance(0.3) and not spot:
        bad = a.copy()
        bad.coord(axis="x").points = bad.coord(axis="x").points + np.float32(500)
        mon.raises(ValueError, plugin, CubeList([f, bad]), label="different grids")
    mon.seen("case", (kind, spot, pct, len(lead), unit))


@scenario("C38", quick=80, thorough=1200)
def phase_masks(rng, mon):
    """Rain, sleet and snow masks partition the field; sleet is what neither is."""
    from improver.precipitation_type.calculate_sleet_prob import calculate_sleet_probability
    from improver.psychrometric_calculations.significant_phase_mask import SignificantPhaseMask

    lead = [gen.realization_coord(rng.randint(1, 3))] if rng.chance(0.4) else []
    shape = tuple(len(c.points) for c in lead) + (rng.randint(2, 5), rng.randint(2, 5))
    d = rng.np.rand(*shape).astype(np.float32)
    for v in (0.0, 1.0, 0.01, 0.99):
        d[rng.np.rand(*shape) < 0.15] = v
    d = d.astype(np.float32)
    c = cube(d, "snow_fraction", "1", lead=lead)
    c.attributes["mosg__model_configuration"] = "uk_det"
    attr = rng.choice([None, "mosg__model_configuration"])
    snap = content(c)
    plugin = SignificantPhaseMask(model_id_attr=attr)
    got = {}
    for phase in ("rain", "sleet", "snow"):
        o = plugin(c, phase)
        got[phase] = o.data
        mon.equal((o.name(), str(o.units), o.dtype), (phase + "_mask", "1", np.dtype(np.int8)), "metadata")
        mon.equal(o.attributes.get("mosg__model_configuration"), "uk_det" if attr else None, "model attribute")
        mon.check(all(o.coord(k.name()) == k for k in c.coords()), "coordinates")
    mon.equal(snap_diff(snap, content(c)), [], "input changed")
    x = d.astype(float)
    near = (np.abs(x - 0.01) < 1e-6) | (np.abs(x - 0.99) < 1e-6)
    mon.array_equal(got["rain"][~near], (x <= 0.01).astype(np.int8)[~near], "rain")
    mon.array_equal(got["snow"][~near], (x >= 0.99).astype(np.int8)[~near], "snow")
    mon.array_equal(got["rain"] + got["sleet"] + got["snow"], np.ones(shape, np.int8), "each point has one phase")
    k = rng.randint(0, 4)
    bad = c.copy()
    if k == 0:
        bad.data.flat[-1] = rng.choice([1.01, -0.01])
        mon.raises(ValueError, plugin, bad, "rain", label="values out of range")
    elif k == 1:
        bad.rename("rain_fraction")
        mon.raises(ValueError, plugin, bad, "rain", label="another diagnostic")
    elif k == 2:
        bad.data = np.ma.masked_where(rng.np.rand(*shape) < 1.0, bad.data)
        mon.raises(NotImplementedError, plugin, bad, "snow", label="masked")
    elif k == 3:
        mon.raises(KeyError, plugin, bad, "hail", label="unknown phase")
    # sleet probability
    ints = rng.chance(0.4)
    if ints:
        z = rng.np.randint(0, 3, shape)
        s, r = (z == 0).astype(np.int8), (z == 1).astype(np.int8)
    else:
        s = rng.np.rand(*shape).astype(np.float32)
        r = (rng.np.rand(*shape) * (1 - s) * 0.999).astype(np.float32)
    sc, rc = cube(s, "probability_of_snow_at_surface", "1", lead=lead), cube(r, "probability_of_rain_at_surface", "1", lead=lead)
    snap = content([sc, rc])
    out = calculate_sleet_probability(sc, rc)
    mon.equal(snap_diff(snap, content([sc, rc])), [], "input changed")
    mon.close(out.data, 1 - (s.astype(float) + r.astype(float)), "sleet probability", atol=1e-6)
    mon.equal((out.name(), str(out.units)), ("probability_of_sleet", "1"), "sleet name")
    mon.equal(standard_faults(out), [], "standards")
    if ints:
        mon.equal(out.dtype, np.dtype(np.int8), "sleet dtype")
    rc2 = rc.copy()
    rc2.data.flat[-1] = 1
    sc2 = sc.copy()
    sc2.data.flat[-1] = 1
    mon.raises(ValueError, calculate_sleet_probability, sc2, rc2, label="negative sleet")
    mon.seen("case", (k, ints, len(lead), attr))


# ------------------------------------------------------------ C39
NOMOGRAM = """0 0 0 2 2 5 5 5 5 5|0 0 0 2 5 5 5 5 10 10|0 0 2 2 5 5 10 10 15 15|0 0 2 2 5 10 15 15 20 20|0 0 2 2 10 15 20 20 20 20
0 2 2 5 15 20 20 20 25 25|0 2 5 10 20 20 25 25 30 30|2 2 10 15 20 25 30 30 35 35|2 5 10 20 25 30 35 35 40 40|2 5 15 20 30 35 40 40 45 45
2 5 15 20 30 40 40 40 45 50|2 10 20 25 35 40 45 45 50 50|5 10 20 25 40 40 45 50 55 55|5 15 20 30 40 45 50 55 60 60|5 15 25 30 40 45 55 60 60 65
5 15 25 35 40 50 55 60 65 75|10 15 25 35 45 50 60 65 70 80|10 15 25 40 45 55 60 70 80 85|10 15 30 40 45 55 65 75 85 90|10 20 30 40 50 60 70 80 90 100
10 20 30 40 50 60 70 80 95 105|10 20 35 45 50 60 75 85 100 110|10 20 35 45 50 60 75 90 105 115|15 25 35 45 50 65 80 100 110 120
15 25 35 45 55 65 80 100 110 120|15 25 35 50 55 65 80 100 110 120"""
NOMOGRAM = [[int(v) for v in r.split()] for r in NOMOGRAM.replace("\n", "|").split("|")]
REDUCED = {3350: [0, 5, 10, 15, 25, 50, 65, 75], 3550: [0, 0, 5, 10, 20, 20, 25, 30], 3750: [0, 0, 0, 5, 10, 15, 15, 15],
           3950: [0, 0, 0, 0, 5, 10, 10, 10], 4150: [0, 0, 0, 0, 0, 0, 5, 5], 4400: [0] * 8}


def hail_mm(vertical, horizontal, wbz):
    v, h = np.around(vertical * 2), np.around(horizontal / 5) - 1
    size = 0
    if v >= 0 and h >= 0:
        size = NOMOGRAM[int(min(v, 25))][int(min(h, 9))]
    if wbz < 3350:
        return size
    key = max(k for k in REDUCED if k <= wbz)
    group = sum(1 for g in (5, 10, 20, 25, 50, 75, 100, 125) if size >= g)
    return REDUCED[key][group]


@scenario("C39", quick=120, thorough=1200)
def hail_size(rng, mon):
    from improver.psychrometric_calculations.hail_size import HailSize

    lead = [gen.realization_coord(rng.randint(1, 3))] if rng.chance(0.5) else []
    m = len(lead[0].points) if lead else 1
    ny, nx = rng.randint(2, 4), rng.randint(2, 5)
    press = np.array([100000.0, 85000.0, 70000.0, 60000.0, 50000.0, 40000.0, 30000.0, 20000.0])
    if rng.chance(0.3):
        press = press[::2]
    t0 = rng.np.uniform(280, 305, (m, 1, ny, nx))
    lr = rng.np.uniform(45, 90, (m, 1, ny, nx))
    t = (t0 + lr * np.log10(press / 1e5)[None, :, None, None] * rng.np.uniform(0.98, 1.02, (m, 1, ny, nx)) * 2.0).astype(np.float32)
    tccl = rng.np.uniform(262, 296, (m, ny, nx)).astype(np.float32)
    pccl = rng.np.uniform(75000, 98000, (m, ny, nx)).astype(np.float32)
    wbz = rng.np.uniform(2500, 5200, (m, ny, nx)).astype(np.float32)
    for v in (3349.0, 3350.0, 3300.0, 3320.0, 3549.0, 3550.0, 4399.0, 4400.0):
        wbz[rng.np.rand(m, ny, nx) < 0.06] = v
    orog = np.round(rng.np.rand(ny, nx) * rng.choice([0, 800])).astype(np.float32)
    if not orog.any() is False:
        pass
    asl = (wbz + orog).astype(np.float32)
    pick = (lambda a: a) if lead else (lambda a: a[0])
    tp = cube(pick(t), "air_temperature", "K", lead=lead + [gen.level_coord(press, "pressure")])
    tc = cube(pick(tccl), "air_temperature_at_condensation_level", "K", lead=lead)
    pc = cube(pick(pccl), "air_pressure_at_condensation_level", "Pa", lead=lead)
    wb = cube(pick(asl), "wet_bulb_freezing_level_altitude", "m", lead=lead)
    oc = cube(orog, "surface_altitude", "m", times=False)
    cubes = [tp, tc, pc, wb, oc]
    for c in cubes:
        c.attributes["mosg__model_configuration"] = "uk_det"
    attr = rng.choice([None, "mosg__model_configuration"])
    order = list(cubes)
    rng.shuffle(order)
    turned = False
    if lead and rng.chance(0.3):
        wb.transpose([1, 2, 0])
        turned = True
    want_dims = [c.name() for c in wb.coords(dim_coords=True)]
    snap = content(cubes)
    out = HailSize(model_id_attr=attr)(CubeList(order))
    mon.equal(snap_diff(snap, content(cubes)), [], "input changed")
    mon.equal([c.name() for c in out.coords(dim_coords=True)], want_dims, "dimensions")
    got = np.asarray(out.data.transpose([2, 0, 1]) if turned else out.data)
    got = got if lead else got[None]
    judged = hails = 0
    for r, j, i in np.ndindex(m, ny, nx):
        col = t[r, :, j, i].astype(float)
        # pressure of the first crossing of 268.15 K, from the warm side
        crossing = [k for k in range(len(press) - 1) if (col[k] - 268.15) * (col[k + 1] - 268.15) < 0]
        if len(crossing) != 1 or np.any(np.abs(col - 268.15) < 0.01):
            continue
        k = crossing[0]
        p268 = press[k] + (268.15 - col[k]) / (col[k + 1] - col[k]) * (press[k + 1] - press[k])
        tq, pq = float(tccl[r, j, i]), float(pccl[r, j, i])
        if abs(tq - 268.15) < 0.01:
            continue
        z = float(asl[r, j, i] - orog[j, i])
        if tq < 268.15:
            want = 0
        else:
            horizontal = float(dry(268.15, p268, pq)) - 268.15
            tb, _ = saturated(dry(tq, pq, p268), qsat(tq, pq), p268)
            vertical = float(tb) - 268.15
            if abs((vertical * 2) % 1 - 0.5) < 0.2 or abs((horizontal / 5) % 1 - 0.5) < 0.01:
                continue
            want = hail_mm(vertical, horizontal, z)
        judged += 1
        hails += want > 0
        mon.close(got[r, j, i], want / 1000.0, "hail size", atol=1e-6)
    mon.event("points judged", judged)
    mon.event("points with hail", hails)
    mon.equal((out.name(), str(out.units)), ("diameter_of_hail_stones", "m"), "name")
    mon.equal(standard_faults(out), [], "standards")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_det" if attr else None, "model attribute")
    mon.seen("case", (len(lead), turned, len(press), attr))


@scenario("C39", quick=300, thorough=2500)
def hail_tables(rng, mon):
    """Both tables, including their edges and missing values."""
    from improver.psychrometric_calculations.hail_size import HailSize

    n = rng.randint(5, 40)
    v = np.ma.MaskedArray(rng.np.uniform(-2, 15, n), mask=rng.np.rand(n) < 0.1)
    h = np.ma.MaskedArray(rng.np.uniform(-5, 65, n), mask=np.ma.getmaskarray(v))
    z = rng.choice([rng.np.uniform(0, 6000, n), rng.np.uniform(3200, 4500, n)])
    for k in (3300.0, 3349.9, 3350.0, 3550.0, 3949.9, 4150.0, 4400.0, -50.0):
        z[rng.np.rand(n) < 0.05] = k
    got = HailSize().get_hail_size(v, h, z)
    want = [0 if v.mask[i] else hail_mm(float(v[i]), float(h[i]), z[i]) for i in range(n)]
    # missing: zero before the reduction, which keeps zero
    mon.array_equal(np.asarray(got, float), np.array(want, float), "hail size")
    mon.event("sizes", n)
    mon.seen("sizes", tuple(sorted(set(want))))


@scenario("C39", quick=60, thorough=400)
def cloud_top(rng, mon):
    from improver.psychrometric_calculations.cloud_top_temperature import CloudTopTemperature

    lead = [gen.realization_coord(rng.randint(1, 2))] if rng.chance(0.5) else []
    m = len(lead[0].points) if lead else 1
    ny, nx = rng.randint(2, 4), rng.randint(2, 5)
    press = np.array([100000.0, 92500.0, 85000.0, 70000.0, 60000.0, 50000.0, 40000.0, 30000.0, 20000.0])
    t0 = rng.np.uniform(280, 305, (m, 1, ny, nx))
    lr = rng.np.uniform(40, 75, (m, 1, ny, nx))
    t = (t0 + lr * np.log10(press / 1e5)[None, :, None, None] * 2.2 + rng.np.uniform(-3, 3, (m, len(press), ny, nx))).astype(np.float32)
    tccl = rng.np.uniform(270, 296, (m, ny, nx)).astype(np.float32)
    pccl = rng.np.uniform(75000, 98000, (m, ny, nx)).astype(np.float32)
    pick = (lambda a: a) if lead else (lambda a: a[0])
    tp = cube(pick(t), "air_temperature", "K", lead=lead + [gen.level_coord(press, "pressure")])
    tc = cube(pick(tccl), "air_temperature_at_condensation_level", "K", lead=lead)
    pc = cube(pick(pccl), "air_pressure_at_condensation_level", "Pa", lead=lead)
    for c in (tp, tc, pc):
        c.attributes["mosg__model_configuration"] = "uk_det"
    attr = rng.choice([None, "mosg__model_configuration"])
    order = [tp, tc, pc]
    rng.shuffle(order)
    snap = content([tp, tc, pc])
    out = CloudTopTemperature(model_id_attr=attr)(CubeList(order))
    mon.equal(snap_diff(snap, content([tp, tc, pc])), [], "input changed")
    gd, gm = np.ma.getdata(out.data), np.ma.getmaskarray(out.data)
    gd, gm = (gd, gm) if lead else (gd[None], gm[None])
    for r, j, i in np.ndindex(m, ny, nx):
        tq, pq = float(tccl[r, j, i]), float(pccl[r, j, i])
        q = qsat(tq, pq)
        cct, sure = tq, True
        for k, p in enumerate(press):
            par = float(saturated(dry(tq, pq, p), q, p)[0])
            env = float(t[r, k, j, i])
            if p < pq and abs(par - env) < 0.1:
                sure = False
                break
            if p < pq and par < env:
                break
            cct = par
        if not sure or abs(tq - cct - 4) < 0.1:
            continue
        mon.equal(bool(gm[r, j, i]), tq - cct < 4, "masked where the cloud is shallow")
        if tq - cct >= 4:
            mon.close(gd[r, j, i], cct, "cloud top temperature", atol=0.1)
            mon.event("cloud tops")
    mon.equal((out.name(), str(out.units)), ("air_temperature_at_convective_cloud_top", "K"), "name")
    mon.equal(standard_faults(out), [], "standards")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_det" if attr else None, "model attribute")
    mon.seen("case", (len(lead), attr))
