"""C57: synthetic cubes and generated metadata; C58: interpreting metadata."""
from datetime import timedelta

import numpy as np
from iris.coords import AuxCoord, CellMethod, DimCoord

from harness import gen
from harness.core import scenario
from harness.gen import cube
from checks.manipulation import same

ma = np.ma
H = timedelta(hours=1)
ABOVE = ["above", "greater_than", "greater_than_or_equal_to"]
BELOW = ["below", "less_than", "less_than_or_equal_to"]


def sorted_values(rng, n, lo, hi, kind="float"):
    if kind == "int":
        first = rng.randint(int(lo), int(hi))
        return list(range(first, first + n))
    return [float(np.float32(v)) for v in sorted(rng.sample([lo + (hi - lo) * k / 50.0 for k in range(51)], n))]


def check_times(mon, c, time, frt, blend, bounds):
    base = gen.seconds(frt if frt is not None else blend)
    mon.equal(int(c.coord("time").points[0]), gen.seconds(time), "time")
    mon.equal(int(c.coord("forecast_period").points[0]), gen.seconds(time) - base, "forecast period")
    mon.equal(bool(c.coords("forecast_reference_time")), frt is not None, "a forecast reference time")
    mon.equal(bool(c.coords("blend_time")), blend is not None, "a blend time")
    for n, v in (("forecast_reference_time", frt), ("blend_time", blend)):
        if v is not None:
            mon.equal(int(c.coord(n).points[0]), gen.seconds(v), n)
    if bounds is None:
        mon.check(c.coord("time").bounds is None and c.coord("forecast_period").bounds is None, "no time bounds")
    else:
        want = sorted(gen.seconds(b) for b in bounds)
        mon.equal([int(v) for v in c.coord("time").bounds[0]], want, "time bounds")
        mon.equal([int(v) for v in c.coord("forecast_period").bounds[0]], [v - base for v in want], "period bounds")


@scenario("C57", quick=90, thorough=3000)
def set_up(rng, mon):
    from improver.synthetic_data import set_up_test_cubes as S

    kind = rng.choice(["variable", "variable", "percentile", "probability"])
    spot = rng.chance(0.3)
    n = rng.choice([1, 2, 3, 4])
    nz = rng.choice([None, None, 1, 3])
    ny, nx = rng.randint(1, 4), rng.randint(1, 5)
    sites = rng.randint(1, 5)
    tail = (sites,) if spot else (ny, nx)
    lead_on = kind != "variable" or rng.chance(0.6)
    kw = {}
    shape = ((n,) if lead_on else ()) + ((nz,) if nz else ()) + tail
    data = rng.np.uniform(0, 1, shape).astype(np.float32)
    if rng.chance(0.2):
        data = ma.masked_array(data, rng.np.rand(*shape) < 0.3)
    time = gen.random_time(rng)
    frt, blend, bounds = time - H * rng.randint(0, 40), None, None
    which = rng.choice(["frt", "frt", "blend", "both"])
    if which == "blend":
        frt, blend = None, frt
    elif which == "both":
        blend = frt
    kw["time"] = time
    if frt is not None:
        kw["frt"] = frt
    if blend is not None:
        kw["blend_time"] = blend
    if rng.chance(0.4):
        bounds = [time - H * rng.randint(1, 6), time + H * rng.choice([0, 0, 1])]
        if rng.chance(0.3):
            bounds.reverse()
        kw["time_bounds"] = bounds
    levels = None
    if nz:
        levels = sorted_values(rng, nz, 10, 2000)
        pressure = rng.chance(0.5)
        if pressure:
            levels = [v * 40 for v in levels[::-1]]
            kw["pressure"] = True
        kw["height_levels"] = levels
    if rng.chance(0.4):
        kw["attributes"] = {"title": "a title", "mosg__grid_version": "mine"}
    if rng.chance(0.3):
        kw["standard_grid_metadata"] = rng.choice(["uk_det", "uk_ens", "gl_det", "gl_ens"])
    extra = None
    if rng.chance(0.3):
        extra = DimCoord(np.array([1.5], np.float32), long_name="station_height", units="m")
        kw["include_scalar_coords"] = [extra]
    values = None
    if not spot:
        grid = rng.choice(["latlon", "equalarea"])
        kw["spatial_grid"] = grid
        dx = dy = 10.0 if grid == "latlon" else 2000.0
        if rng.chance(0.5):
            dx = rng.choice([0.5, 2.0]) if grid == "latlon" else rng.choice([500.0, 1000.0])
            kw["x_grid_spacing"] = dx
        if rng.chance(0.5):
            dy = rng.choice([0.5, 2.0]) if grid == "latlon" else rng.choice([500.0, 1000.0])
            kw["y_grid_spacing"] = dy
        cy, cx = -(ny - 1) * dy / 2, -(nx - 1) * dx / 2
        if rng.chance(0.5):
            cy, cx = (-5.0, 12.0) if grid == "latlon" else (-20000.0, 7000.0)
            kw["domain_corner"] = (cy, cx)
    else:
        lat = [float(np.float32(v)) for v in rng.np.uniform(-80, 80, sites)]
        lon = [float(np.float32(v)) for v in rng.np.uniform(-170, 170, sites)]
        alt = [float(np.float32(v)) for v in rng.np.uniform(0, 900, sites)]
        wmo = rng.sample(range(0, 99999), sites)
        kw.update(latitudes=np.array(lat, np.float32), longitudes=np.array(lon, np.float32), altitudes=np.array(alt, np.float32), wmo_ids=wmo)
        ids = None
        if rng.chance(0.5):
            ids = rng.sample(range(0, 9999999), sites)
            kw.update(unique_site_id=ids, unique_site_id_key="met_office_site_id")
    given = data.copy()
    if kind == "variable":
        if lead_on and rng.chance(0.5):
            values = sorted_values(rng, n, 0, 20, "int")
            kw["realizations"] = values
        f = S.set_up_spot_variable_cube if spot else S.set_up_variable_cube
        c = f(data, name="wind_speed", units="m s-1", **kw)
        name, units, lead = "wind_speed", "m s-1", "realization"
        if lead_on and values is None:
            values = list(range(n))
    elif kind == "percentile":
        values = sorted_values(rng, n, 0, 100)
        f = S.set_up_spot_percentile_cube if spot else S.set_up_percentile_cube
        c = f(data, values, name="wind_speed", units="m s-1", **kw)
        name, units, lead = "wind_speed", "m s-1", "percentile"
    else:
        values = sorted_values(rng, n, 0, 30)
        spp = rng.choice(ABOVE + BELOW)
        var = rng.choice(["wind_speed", "wind_speed_in_vicinity", "air_temperature"])
        f = S.set_up_spot_probability_cube if spot else S.set_up_probability_cube
        c = f(data, values, variable_name=var, threshold_units="m s-1", spp__relative_to_threshold=spp, **kw)
        name, units, lead = "probability_of_%s_%s_threshold" % (var, "above" if spp in ABOVE else "below"), "1", var.replace("_in_vicinity", "")
        crd = c.coord(lead)
        mon.equal(crd.var_name, "threshold", "threshold var_name")
        mon.equal(crd.attributes["spp__relative_to_threshold"], spp, "threshold attribute")
    mon.equal(c.name(), name, "name")
    mon.equal(str(c.units), units, "units")
    mon.array_equal(ma.getdata(data), ma.getdata(given), "data given unchanged")
    squeezed = kind != "variable" and n == 1
    same(mon, c.data, data[0] if squeezed else data, "data")
    mon.equal(gen.standard_faults(c), [], "standards")
    check_times(mon, c, time, frt, blend, bounds)
    dims = ([lead] if lead_on and not squeezed else []) + (["pressure" if kw.get("pressure") else "height"] if nz else [])
    dims += ["spot_index"] if spot else [{"latlon": "latitude", "equalarea": "projection_y_coordinate"}[grid], {"latlon": "longitude", "equalarea": "projection_x_coordinate"}[grid]]
    mon.equal([d.name() for d in c.dim_coords], dims, "dimensions")
    if lead_on:
        mon.close(c.coord(lead).points.astype(float), values, lead, rtol=1e-6, atol=0)
        mon.equal(str(c.coord(lead).units), {"realization": "1", "percentile": "%"}.get(lead, "m s-1"), lead + " units")
    if nz:
        lv = c.coord("pressure" if kw.get("pressure") else "height")
        mon.close(lv.points.astype(float), levels, "levels", rtol=1e-6, atol=0)
        mon.equal((str(lv.units), lv.attributes["positive"]), ("Pa", "down") if kw.get("pressure") else ("m", "up"), "kind of levels")
    want_attrs = {}
    if "standard_grid_metadata" in kw:
        from improver.metadata.constants.mo_attributes import MOSG_GRID_DEFINITION

        want_attrs.update(MOSG_GRID_DEFINITION[kw["standard_grid_metadata"]])
    want_attrs.update(kw.get("attributes", {}))
    mon.equal(dict(c.attributes), want_attrs, "attributes")
    if extra is not None:
        mon.equal(float(c.coord("station_height").points[0]), 1.5, "scalar coordinate")
    if spot:
        mon.close(c.coord("latitude").points.astype(float), lat, "latitude", rtol=1e-6, atol=0)
        mon.close(c.coord("longitude").points.astype(float), lon, "longitude", rtol=1e-6, atol=0)
        mon.close(c.coord("altitude").points.astype(float), alt, "altitude", rtol=1e-6, atol=0)
        mon.equal(list(c.coord("wmo_id").points), ["%05d" % w for w in wmo], "wmo_id")
        if ids:
            mon.equal(list(c.coord("met_office_site_id").points), ["%08d" % w for w in ids], "unique id")
            mon.equal(c.coord("met_office_site_id").attributes.get("unique_site_identifier"), "true", "unique id attribute")
    else:
        for ax, c0, d, m in (("y", cy, dy, ny), ("x", cx, dx, nx)):
            crd = c.coord(axis=ax)
            mon.close(crd.points.astype(float), [c0 + d * k for k in range(m)], ax + " points", rtol=1e-6, atol=1e-4)
            mon.check(crd.units == ("degrees" if grid == "latlon" else "m"), ax + " units %s" % crd.units)
            mon.check(crd.coord_system is not None, ax + " coordinate system")
            if m > 1:
                mon.close(crd.bounds.astype(float), [[c0 + d * (k - 0.5), c0 + d * (k + 0.5)] for k in range(m)], ax + " bounds", rtol=1e-5, atol=1e-3)
    mon.event("set up " + kind)
    mon.seen(kind, spot, n, nz, which, bounds is None)


@scenario("C57", quick=40, thorough=1200)
def added_coordinate(rng, mon):
    from improver.synthetic_data.set_up_test_cubes import add_coordinate

    ny, nx = rng.randint(2, 4), rng.randint(2, 4)
    time = gen.random_time(rng)
    lead = [gen.realization_coord(2)] if rng.chance(0.5) else []
    c = cube(rng.np.rand(*([2] if lead else []), ny, nx).astype(np.float32), time=time, frt=time - H * 12, lead=lead)
    before = gen.content(c)
    what = rng.choice(["time", "frt", "height", "ints"])
    n = rng.choice([1, 2, 3])
    kw = {}
    if what in ("time", "frt"):
        name = "time" if what == "time" else "forecast_reference_time"
        pts = [time - H * 6 + H * k for k in sorted(rng.sample(range(6), n))]
        kw["is_datetime"] = True
        want, dtype, units = [gen.seconds(p) for p in pts], np.int64, "seconds since 1970-01-01 00:00:00"
    elif what == "height":
        name, pts, dtype, units = "height", sorted_values(rng, n, 0, 100), np.float32, "m"
        kw.update(coord_units="m", attributes={"positive": "up"})
        want = pts
    else:
        name, pts, dtype, units = "model_id", sorted_values(rng, n, 0, 9, "int"), np.int32, "1"
        kw.update(coord_units="1", dtype=np.int32)
        want = pts
    order = None
    if n > 1 and rng.chance(0.4):
        order = list(range(c.ndim + 1))
        rng.shuffle(order)
        kw["order"] = order
    out = add_coordinate(c, pts, name, **kw)
    mon.equal(gen.snap_diff(before, gen.content(c)) or [], [], "template unchanged")
    crd = out.coord(name)
    mon.close(crd.points.astype(float), want, name, rtol=0 if kw.get("is_datetime") else 1e-6, atol=0)
    mon.equal(crd.points.dtype, np.dtype(dtype), "type")
    mon.equal(str(crd.units), units, "units")
    if what == "height":
        mon.equal(crd.attributes.get("positive"), "up", "attributes")
    data = c.data
    if n > 1:
        data = np.broadcast_to(data, (n,) + data.shape)
        if order:
            data = data.transpose(order)
    same(mon, out.data, data, "data")
    if what in ("time", "frt"):
        mon.equal([int(v) for v in np.atleast_1d(out.coord("forecast_period").points)],
                  [v - gen.seconds(time - H * 12) for v in want] if what == "time" else ([gen.seconds(time) - v for v in want] if n == 1 else
                  [int(v) for v in np.atleast_1d(out.coord("forecast_period").points)]), "forecast periods")
        fp = dict((int(a), 1) for a in np.atleast_1d(out.coord("forecast_period").points))
        mon.equal(sorted(fp), sorted({(v - gen.seconds(time - H * 12)) if what == "time" else (gen.seconds(time) - v) for v in want}), "set of forecast periods")
    mon.event("coordinate added")


@scenario("C57", quick=50, thorough=1500)
def generated(rng, mon):
    from improver.synthetic_data.generate_metadata import generate_metadata
    from improver.synthetic_data.utilities import get_height_levels, get_leading_dimension

    attrs = {"title": "t", "institution": "i", "source": "s"}
    kind = rng.choice(["variable", "percentile", "probability"])
    n = rng.choice([2, 3, 4])
    key = {"variable": "realizations", "percentile": "percentiles", "probability": "thresholds"}[kind]
    values = {"variable": list(range(n)), "percentile": sorted_values(rng, n, 0, 100), "probability": sorted_values(rng, n, 0, 40)}[kind]
    coords = {key: values} if kind != "variable" or rng.chance(0.6) else {}
    nz = rng.choice([None, None, 2, 3])
    if nz:
        coords[rng.choice(["heights", "pressures"])] = sorted_values(rng, nz, 10, 900)
    leading, cube_type = get_leading_dimension(coords)
    mon.equal((leading, cube_type), (coords.get(key), kind if key in coords else "variable"), "leading dimension")
    levels, pressure = get_height_levels(coords)
    mon.equal((levels, pressure), (coords.get("heights", coords.get("pressures")), "pressures" in coords), "levels")
    if rng.chance(0.2):
        both = dict(coords, **{"realizations": [0], "percentiles": [50.0]})
        mon.raises(ValueError, get_leading_dimension, both, label="two leading dimensions")
    kw = {}
    if cube_type == "variable" and leading is None:
        kw["ensemble_members"] = rng.choice([1, 2, 5])
    npoints = rng.choice([1, 2, 5])
    time = gen.random_time(rng)
    kw.update(time=time, frt=time - H * 6)
    bounds = None
    if rng.chance(0.5):
        kw["time_period"] = rng.choice([60, 90, 180])
        bounds = [time - timedelta(minutes=kw["time_period"]), time]
    grid = "latlon"
    if rng.chance(0.6):
        grid = kw["spatial_grid"] = rng.choice(["latlon", "equalarea"])
    step = {"latlon": 0.02, "equalarea": 2000.0}[grid]
    sx = sy = step
    if rng.chance(0.4):
        sx = kw["x_grid_spacing"] = step * 2
    if rng.chance(0.3):
        kw["y_grid_spacing"] = None
    if levels is not None:
        kw.update(height_levels=levels, pressure=pressure)
    mine = {"history": "made up"} if rng.chance(0.4) else None
    if mine is not None:
        kw["attributes"] = mine
    known = rng.chance(0.5)
    name, units = ("air_temperature", "K") if known else ("my_field", "m")
    if not known:
        kw["units"] = units
    spp = rng.choice(ABOVE + BELOW)
    out = generate_metadata(dict(attrs), name=name, leading_dimension=leading, cube_type=cube_type, npoints=npoints, spp__relative_to_threshold=spp, **kw)
    members = len(leading) if leading is not None else kw["ensemble_members"]
    shape = tuple(k for k in ([members] + ([nz] if nz else []) + [npoints, npoints]) if k > 1)
    mon.equal(out.shape, shape, "shape")
    mon.check((np.asarray(out.data) == 0).all() and out.dtype == np.float32, "zeros in single precision")
    check_times(mon, out, time, time - H * 6, None, bounds)
    if mine is not None:
        mon.equal(mine, {"history": "made up"}, "attributes given unchanged")
    mon.equal(dict(out.attributes), dict(attrs, **(mine or {})), "attributes")
    if cube_type == "probability":
        mon.equal(out.name(), "probability_of_%s_%s_threshold" % (name, "above" if spp in ABOVE else "below"), "name")
        mon.equal(str(out.coord(var_name="threshold").units), units, "threshold units")
    else:
        mon.equal((out.name(), str(out.units)), (name, units), "name and units")
    for ax, s in (("x", sx), ("y", sy)):
        crd = out.coord(axis=ax)
        mon.close(crd.points.astype(float), [s * (k - (npoints - 1) / 2) for k in range(npoints)], ax, rtol=1e-5, atol=1e-5)
        mon.equal(crd.name(), {"latlon": {"x": "longitude", "y": "latitude"}[ax], "equalarea": "projection_%s_coordinate" % ax}[grid], ax + " name")
    mon.equal(gen.standard_faults(out), [], "standards")
    bad = rng.choice(["type", "grid", "corner", "attributes", "units"])
    if bad == "type":
        mon.raises(ValueError, generate_metadata, attrs, cube_type="mean", label=bad)
    elif bad == "grid":
        mon.raises(ValueError, generate_metadata, attrs, spatial_grid="polar", label=bad)
    elif bad == "corner":
        mon.raises(ValueError, generate_metadata, attrs, domain_corner=[0], label=bad)
    elif bad == "attributes":
        mon.raises(KeyError, generate_metadata, {k: attrs[k] for k in rng.some(list(attrs), 0, 2)}, label=bad)
    else:
        mon.raises(ValueError, generate_metadata, attrs, name="no_such_name", label=bad)
    mon.event("generated " + cube_type)
    mon.seen(cube_type, nz, grid, npoints, bounds is None)


@scenario("C57", quick=20, thorough=600)
def set_up_refusals(rng, mon):
    from improver.synthetic_data import set_up_test_cubes as S

    t = gen.random_time(rng)
    d2, d3, d4 = (np.zeros((2,) * k, np.float32) for k in (2, 3, 4))
    cases = {
        "negative period": (ValueError, lambda: S.set_up_variable_cube(d2, time=t, frt=t + H)),
        "different reference and blend times": (ValueError, lambda: S.set_up_variable_cube(d2, time=t, frt=t - H, blend_time=t - 2 * H)),
        "time out of bounds": (ValueError, lambda: S.set_up_variable_cube(d2, time=t, frt=t - 9 * H, time_bounds=[t - 3 * H, t - H])),
        "one dimension": (Exception, lambda: S.set_up_variable_cube(np.zeros(3, np.float32), time=t, frt=t)),
        "no levels for four dimensions": (ValueError, lambda: S.set_up_variable_cube(d4, time=t, frt=t)),
        "wrong number of realizations": (ValueError, lambda: S.set_up_variable_cube(d3, realizations=[0, 1, 2], time=t, frt=t)),
        "wrong number of percentiles": (ValueError, lambda: S.set_up_percentile_cube(d3, [10.0, 50.0, 90.0], time=t, frt=t)),
        "wrong number of levels": (ValueError, lambda: S.set_up_variable_cube(d3, height_levels=[1.0, 2.0, 3.0], time=t, frt=t)),
        "realizations and levels in three dimensions": (ValueError, lambda: S.set_up_variable_cube(d3, realizations=[0, 1], height_levels=[1.0, 2.0], time=t, frt=t)),
        "unknown grid": (ValueError, lambda: S.set_up_variable_cube(d2, spatial_grid="polar", time=t, frt=t)),
        "unknown threshold attribute": (ValueError, lambda: S.set_up_probability_cube(d3, [1.0, 2.0], spp__relative_to_threshold="near", time=t, frt=t)),
        "double precision": (ValueError, lambda: S.set_up_variable_cube(d2.astype(float), time=t, frt=t)),
        "identifiers without a name": (ValueError, lambda: S.set_up_spot_variable_cube(np.zeros(2, np.float32), unique_site_id=[1, 2], time=t, frt=t)),
    }
    which = rng.choice(sorted(cases))
    exc, call = cases[which]
    mon.raises(exc, call, label=which)
    mon.event("refused")


# ------------------------------------------------------ metadata standard
MODELS = {"Nowcast": "nc_det", "Global": "gl_det", "MOGREPS-G": "gl_ens", "MOGREPS-UK": "uk_ens", "UKV": "uk_det"}
SPP_NAMES = {"greater_than": "above", "greater_than_or_equal_to": "above", "less_than": "below", "less_than_or_equal_to": "below"}


def blended_coords(c, codes):
    c.coord("forecast_reference_time").rename("blend_time")


def compliant(rng):
    """A cube that conforms to the standard and the facts that it states."""
    kind = rng.choice(["probabilities", "percentiles", "realizations", "realizations", "ancillary", "weather", "wind"])
    ny, nx = 2, 3
    time = gen.random_time(rng)
    frt = time - H * rng.randint(1, 24)
    spot = kind in ("probabilities", "percentiles", "realizations") and rng.chance(0.3)
    blended = kind != "ancillary" and rng.chance(0.4)
    post = blended or rng.chance(0.5)
    model = rng.choice(list(MODELS)) if not blended and rng.chance(0.7) else None
    title = ("IMPROVER Post-Processed Multi-Model Blend" if blended
             else ("Post-Processed " if post else "") + ("%s Model" % model if model else "IMPROVER") + " Forecast")
    title += " on UK 2 km Standard Grid" if not spot else " Spot Values"
    attrs = {"title": title, "source": "IMPROVER", "institution": "Met Office"}
    if model:
        attrs["mosg__model_configuration"] = MODELS[model]
    codes = []
    if blended:
        codes = rng.some(["nc_det", "uk_det", "uk_ens", "gl_ens"], 1, 3)
        attrs["mosg__model_configuration"] = " ".join(codes)
        attrs["mosg__model_run"] = "\n".join("%s:2021010%dT0000Z:%.3f" % (k, i + 1, 1 / len(codes)) for i, k in enumerate(codes))
    period = kind in ("probabilities", "percentiles", "realizations") and rng.chance(0.4)
    bounds = (time - H * 3, time) if period else None
    name, units, lead, methods = rng.choice([("air_temperature", "K"), ("wind_speed", "m s-1"), ("visibility_in_air", "m")]) + ([], [])
    diag = name
    spp = None
    method = rng.choice(["maximum", "minimum"]) if period else None
    if kind == "probabilities":
        spp = rng.choice(list(SPP_NAMES))
        lead = [gen.threshold_coord([1.0, 2.0], name, units, spp)]
        name, units = "probability_of_%s_%s_threshold" % (name, SPP_NAMES[spp]), "1"
        if method:
            methods = [CellMethod(method, coords="time", comments="of " + diag)]
    elif kind == "percentiles":
        lead = [gen.percentile_coord([10.0, 50.0, 90.0])]
    elif kind == "realizations":
        many = not (model and "det" in MODELS[model]) and not blended
        lead = [gen.realization_coord(rng.choice([1, 3]) if many else 1)] if rng.chance(0.7) else []
    if method and not methods:
        methods = [CellMethod(method, coords="time")]
    if kind == "ancillary":
        name = diag = rng.choice(["surface_altitude", "land_binary_mask", "linke_turbidity"])
        units = "m" if name == "surface_altitude" else "1"
    elif kind == "weather":
        name = diag = "weather_code"
        units = "1"
        attrs.update(weather_code="0 1", weather_code_meaning="Clear_Night Sunny_Day")
        if rng.chance(0.4):
            methods = [CellMethod("mode", coords="time", intervals="%d hour" % rng.choice([1, 3]))]
            bounds = (time - H, time)
    elif kind == "wind":
        name = diag = "wind_from_direction"
        units = "degrees"
        methods = [CellMethod("mean", coords="realization")] if rng.chance(0.5) else []
    shape = tuple(len(x.points) for x in lead)
    if spot:
        c = gen.spot(rng.np.rand(*shape, 4).astype(np.float32), name=name, units=units, lead=lead, time=time, frt=frt, bounds=bounds)
        c.attributes = attrs
        for m in methods:
            c.add_cell_method(m)
    else:
        data = rng.np.rand(*shape, ny, nx).astype(np.float32)
        c = cube(data, name=name, units=units, lead=lead, time=time, frt=frt, bounds=bounds, attributes=attrs, cell_methods=methods)
    if blended:
        if c.coords("forecast_reference_time"):
            c.coord("forecast_reference_time").rename("blend_time")
        if rng.chance(0.5):
            c.remove_coord("forecast_period")
    facts = dict(kind=kind, spot=spot, blended=blended, post=post, model=model, diag=diag, spp=spp, methods=methods, codes=codes)
    return c, facts


def interpret(c):
    from improver.developer_tools.metadata_interpreter import MOMetadataInterpreter

    m = MOMetadataInterpreter()
    try:
        m.run(c)
    except ValueError as err:
        return m, str(err)
    return m, None


def sabotage(rng, c, f):
    """Faults that can be put in this cube: name -> (function, part of the message)."""
    out = {}
    normal = f["kind"] in ("probabilities", "percentiles", "realizations")
    if f["kind"] != "ancillary":
        out["no institution"] = (lambda: c.attributes.pop("institution"), "missing one or more mandatory values")
        if not f["blended"]:
            out["no reference time"] = (lambda: c.remove_coord("forecast_reference_time"), "Missing one or more coordinates")
            out["no period"] = (lambda: c.remove_coord("forecast_period"), "Missing one or more coordinates")
        else:
            out["no blend time"] = (lambda: c.remove_coord("blend_time"), "Missing one or more coordinates")
            out["no model run"] = (lambda: c.attributes.pop("mosg__model_run"), "No mosg__model_run on blended file")
            out["no models"] = (lambda: c.attributes.pop("mosg__model_configuration"), "No mosg__model_configuration on blended file")
            out["unknown model in blend"] = (lambda: c.attributes.update(mosg__model_configuration="xx_det " + c.attributes["mosg__model_configuration"]),
                                             "unrecognised model code xx_det")
        if not f["blended"] and f["model"]:
            out["unknown model"] = (lambda: c.attributes.update(mosg__model_configuration="xx_det"), "not a valid single")
            other = [v for v in MODELS.values() if v != MODELS[f["model"]]]
            out["inconsistent model"] = (lambda: c.attributes.update(mosg__model_configuration=rng.choice(other)), "inconsistent with model ID")
        out["no time"] = (lambda: c.remove_coord("time"), "Missing one or more coordinates") if not f["methods"] else None
    forbidden = rng.choice(["mosg__grid_type", "mosg__grid_domain", "mosg__grid_version", "mosg__forecast_run_duration", "grid_id", "source_realizations", "um_version"])
    out["forbidden attribute"] = (lambda: c.attributes.update({forbidden: "x"}), "forbidden")
    out["double precision"] = (lambda: setattr(c, "data", c.data.astype(np.float64)), "required dtype")

    def wrong_time():
        t = c.coord("time")
        t.bounds = None
        t.points = t.points.astype(np.float64)

    if not f["methods"]:
        out["time type"] = (wrong_time, "required dtype")

    def mid(n):
        crd = c.coord(n)
        p = int(crd.points[0])
        crd.bounds = np.array([[p - 3600, p + 3600]], crd.points.dtype)

    for n in ("time", "forecast_period"):
        if c.coords(n):
            out["%s inside its bounds" % n] = (lambda n=n: mid(n), "%s points should be equal to upper bounds" % n)
    if f["spot"]:
        out["title of a grid"] = (lambda: c.attributes.update(title=c.attributes["title"].replace("Spot Values", "")), "not consistent with spot data")
        gone = rng.choice(["altitude", "wmo_id"])
        out["no " + gone] = (lambda: c.remove_coord(gone), "Missing one or more coordinates")
    if f["kind"] == "probabilities":
        crd = c.coord(f["diag"])
        out["units"] = (lambda: setattr(c, "units", "%"), "Expected units of 1")
        out["var_name"] = (lambda: setattr(crd, "var_name", None), "does not have var_name='threshold'")
        out["no spp"] = (lambda: crd.attributes.pop("spp__relative_to_threshold"), "no spp__relative_to_threshold")
        out["odd spp"] = (lambda: crd.attributes.update(spp__relative_to_threshold="near"), "not in permitted value set")
        turned = rng.choice([k for k, v in SPP_NAMES.items() if v != SPP_NAMES[f["spp"]]])
        out["inconsistent spp"] = (lambda: crd.attributes.update(spp__relative_to_threshold=turned), "not consistent with")
        out["threshold name"] = (lambda: (crd.rename("wrong_name"), setattr(crd, "var_name", "threshold")), "threshold coord has incorrect name 'wrong_name'")
        if f["methods"]:
            out["comment"] = (lambda: setattr(c, "cell_methods", [CellMethod(f["methods"][0].method, coords="time")]), "should have comment")
    if f["kind"] == "percentiles":
        out["percentile units"] = (lambda: setattr(c.coord("percentile"), "units", "1"), "units of %")
        out["percentile name"] = (lambda: c.coord("percentile").rename("percentile_over_realization"), "should have name percentile")
    if normal and f["methods"]:
        def unbound():
            c.coord("time").bounds = None

        out["period without bounds"] = (unbound, "has no time bounds")
    if normal:
        bad = rng.choice([CellMethod("mean", coords="realization"), CellMethod("point", coords="time"), CellMethod("weighted_mean", coords="model_id"),
                          CellMethod("mean", coords="forecast_reference_time")])
        out["forbidden method"] = (lambda: c.add_cell_method(bad), "Non-standard cell method")
    if f["kind"] == "realizations":
        out["accumulation"] = (lambda: c.rename("thickness_of_rainfall_amount"), "Expected sum over time")
        if f["model"] and "det" in MODELS[f["model"]] and c.coords("realization") and c.coord("realization").shape == (1,):
            pass
    if f["kind"] == "ancillary":
        out["method"] = (lambda: c.add_cell_method(CellMethod("mean", coords="time")), "Unexpected cell methods")
    if f["kind"] == "weather":
        out["method"] = (lambda: c.add_cell_method(rng.choice([CellMethod("mode", coords="time", intervals="2 hour"), CellMethod("mean", coords="time")])), "Unexpected cell methods")
        out["no meanings"] = (lambda: c.attributes.pop("weather_code_meaning"), "missing one or more required")
    if f["kind"] == "wind":
        out["method"] = (lambda: c.add_cell_method(CellMethod("mean", coords="time")), "Unexpected cell methods")
    return {k: v for k, v in out.items() if v is not None}


@scenario("C58", quick=100, thorough=4000)
def accepted(rng, mon):
    from improver.developer_tools.metadata_interpreter import display_interpretation

    c, f = compliant(rng)
    before = gen.content(c)
    m, err = interpret(c)
    mon.equal(gen.snap_diff(before, gen.content(c)) or [], [], "cube unchanged")
    mon.equal(err, None, "a compliant %s is accepted" % f["kind"])
    if err is not None:
        return
    kind = {"weather": "weather_code", "wind": "wind_from_direction"}.get(f["kind"], f["kind"])
    mon.equal(m.field_type, kind, "field type")
    mon.equal(m.diagnostic, f["diag"], "diagnostic")
    mon.equal(m.prod_type, "spot" if f["spot"] else "gridded", "product")
    mon.equal(m.relative_to_threshold, f["spp"], "threshold comparison")
    if f["kind"] != "ancillary":
        mon.equal((bool(m.blended), bool(m.post_processed)), (f["blended"], f["post"]), "blended and post-processed")
        names = {v: k for k, v in MODELS.items()}
        if f["blended"]:
            want = ", ".join("%s (cycle: 2021010%dT0000Z)" % (names[k], i + 1) for i, k in enumerate(f["codes"]))
        else:
            want = f["model"]
        mon.equal(m.model, want, "model")
    mon.equal(m.warnings, [], "warnings")
    for verbose in (False, True):
        text = display_interpretation(m, verbose=verbose)
        mon.check(("This is a %s" % m.prod_type) in text, "product in the text")
        if f["kind"] in ("probabilities", "percentiles", "realizations"):
            said = "It contains %s of %s" % (f["kind"], f["diag"].replace("_", " "))
            if f["spp"]:
                said += " " + f["spp"].replace("_", " ") + " thresholds"
            mon.check(said in text, "%r in %r" % (said, text))
            mon.equal("undergone some significant" in text, f["post"], "post-processing in the text")
            for cm in f["methods"]:
                mon.check("These %s are of %s %s over time" % (f["kind"], f["diag"].replace("_", " "), cm.method) in text, "method in %r" % text)
        if f["kind"] == "ancillary":
            mon.check("static ancillary" in text, "ancillary in the text")
        elif f["blended"]:
            mon.check("blended data from models: %s" % m.model in text, "models in the text")
        elif f["model"]:
            mon.check("It contains data from %s\n" % f["model"] in text, "model in the text")
        else:
            mon.check("no source model information" in text, "no model in the text")
        mon.equal("Source:" in text, verbose, "sources in the text")
    mon.event("accepted " + f["kind"])
    mon.seen(f["kind"], f["spot"], f["blended"], f["post"], f["model"] is None, bool(f["methods"]))


@scenario("C58", quick=160, thorough=6000)
def rejected(rng, mon):
    c, f = compliant(rng)
    faults = sabotage(rng, c, f)
    chosen = [rng.choice(sorted(faults))]
    for name in chosen:
        faults[name][0]()
    m, err = interpret(c)
    mon.check(err is not None, "%s on %s is reported" % (chosen, f["kind"]))
    for name in chosen:
        mon.check(err is not None and faults[name][1] in err, "%s on %s: %r" % (name, f["kind"], err))
    mon.event("reported " + chosen[0])
    mon.seen(f["kind"], chosen[0])


@scenario("C58", quick=40, thorough=1500)
def several(rng, mon):
    """Independent faults are all reported, and warnings are not errors."""
    c, f = compliant(rng)
    while f["kind"] == "ancillary":
        c, f = compliant(rng)
    c.attributes["um_version"] = "11.2"
    c.attributes.pop("institution")
    c.data = c.data.astype(np.float64)
    m, err = interpret(c)
    for part in ("forbidden", "mandatory values", "required dtype"):
        mon.check(err is not None and part in err, "%s in %r" % (part, err))
    c, f = compliant(rng)
    c.attributes["unheard_of"] = "x"
    m, err = interpret(c)
    mon.equal(err, None, "an unexpected attribute is no error")
    mon.check(len(m.warnings) == 1 and "unheard_of" in m.warnings[0], "an unexpected attribute gives a warning: %s" % m.warnings)
    # deterministic models have one realization
    c = cube(rng.np.rand(3, 2, 2).astype(np.float32), lead=[gen.realization_coord(3)], attributes={"title": "UKV Model", "source": "s", "institution": "i", "mosg__model_configuration": "uk_det"})
    m, err = interpret(c)
    mon.check(err is not None and "should not have 3 realizations" in err, "deterministic realizations: %r" % err)
    # coefficients and the like are not interpreted
    c = cube(rng.np.rand(2, 2), name=rng.choice(["emos_coefficient_alpha", "grid_neighbours", "reliability_calibration_table"]))
    m, err = interpret(c)
    mon.equal((err, m.unhandled), (None, True), "intermediate files are not handled")
    mon.event("several faults")
