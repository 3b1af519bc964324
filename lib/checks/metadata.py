"""C47: metadata standards, names, attributes and grids."""
import copy
import datetime as pydt
import re

import numpy as np
from iris.coords import AuxCoord, CellMethod, DimCoord
from iris.cube import CubeList
from iris.exceptions import CoordinateNotFoundError

from harness import gen
from harness.core import scenario
from harness.gen import content, cube

dt = gen.dt
H = dt.timedelta(hours=1)


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


DIAG = ["air_temperature", "lwe_precipitation_rate", "wind_speed_of_gust", "rainfall_amount_above_ground", "probability_score"]
SPP = {"greater_than": "above", "greater_than_or_equal_to": "above", "above": "above", "less_than": "below", "less_than_or_equal_to": "below",
       "below": "below", "between_thresholds": None, "odd": None, None: None}


# ------------------------------------------------------- new diagnostic
@scenario("C47", quick=60, thorough=1500)
def new_diagnostic(rng, mon):
    from improver.metadata.utilities import create_new_diagnostic_cube, generate_mandatory_attributes, get_model_id_attr

    n = rng.randint(1, 4)
    cs = []
    pool = {k: [rng.choice(["a", "b"]) for _ in range(2)] for k in ("title", "source", "institution", "mosg__model_configuration")}
    for _ in range(n):
        at = {k: (v[0] if rng.chance(0.8) else v[1]) for k, v in pool.items() if rng.chance(0.93)}
        at["other"] = "x"
        nr = rng.choice([0, 2])
        cs.append(cube(rng.np.rand(*((nr,) if nr else ()), 2, 3).astype(np.float32), attributes=at, lead=[gen.realization_coord(nr)] if nr else []))
    before = [content(c) for c in cs]
    model = rng.choice([None, "mosg__model_configuration"])
    want = {"title": "unknown", "source": "IMPROVER", "institution": "unknown"}
    bad = False
    for k in list(want) + ([model] if model else []):
        vals = [c.attributes.get(k) for c in cs]
        if None not in vals and len(set(vals)) == 1:
            want[k] = vals[0]
        elif k == model:
            bad = True
    if bad:
        mon.raises(ValueError, generate_mandatory_attributes, cs, model_id_attr=model, label="model")
        mon.raises(ValueError, get_model_id_attr, cs, model, label="model")
        model = None
        want.pop("mosg__model_configuration", None)
    elif model:
        mon.equal(get_model_id_attr(cs, model), want[model], "model")
    got = generate_mandatory_attributes(cs, model_id_attr=model)
    mon.equal(dict(got), want, "mandatory attributes")
    mon.equal(generate_mandatory_attributes(cs, model_id_attr=model), want, "the same again")

    t = cs[0]
    optional = rng.choice([None, {"title": "New"}, {"history": "h", "source": "S2"}])
    keep, keepo = dict(got), copy.deepcopy(optional)
    data = rng.choice([None, "plain", "masked", "int"])
    dtype = rng.choice([np.float32, np.int32])
    arr = None
    if data == "plain":
        arr = rng.np.rand(*t.shape).astype(np.float32)
    elif data == "masked":
        arr = np.ma.masked_array(rng.np.rand(*t.shape).astype(np.float32), gen.random_mask(rng, t.shape))
    elif data == "int":
        arr = rng.np.randint(0, 5, t.shape).astype(np.int32)
    name = rng.choice(["wind_speed", "my_own_name"])
    out = create_new_diagnostic_cube(name, "m s-1", t, got, optional_attributes=optional, data=arr, dtype=dtype)
    mon.equal([dict(got), optional], [keep, keepo], "attributes passed in are unchanged")
    mon.equal(dict(out.attributes), {**keep, **(optional or {})}, "attributes")
    mon.equal([out.name(), str(out.units)], [name, "m s-1"], "name and units")
    if arr is None:
        mon.array_equal(out.data, np.zeros(t.shape, dtype), "filled with zeros")
        mon.equal(out.dtype, np.dtype(dtype), "type")
    else:
        mon.array_equal(out.data, arr, "data")
    same = t.copy()
    mon.equal(sorted(k.name() for k in out.coords()), sorted(k.name() for k in same.coords()), "coordinates")
    for k in same.coords():
        mon.check(out.coord(k.name()) == k and out.coord_dims(k.name()) == same.coord_dims(k), "coordinate " + k.name())
    mon.equal(tuple(out.cell_methods), (), "no cell methods")
    out.coord("time").points = out.coord("time").points + np.int64(60)
    out.attributes["more"] = 1
    for c, b in zip(cs, before):
        mon.equal(snap_diff(b, content(c)), [], "input changed")
    mon.equal([dict(got), optional], [keep, keepo], "attributes passed in are unchanged")
    for k in want:
        short = {a: b for a, b in keep.items() if a != k}
        if k != model:
            mon.raises(ValueError, create_new_diagnostic_cube, name, "1", t, short, label="missing " + k)
    mon.event("cubes", n)
    mon.seen("case", f"{n} {model} {bad} {optional} {data}")


# --------------------------------------------------------- attributes
@scenario("C47", quick=80, thorough=2000)
def attributes(rng, mon):
    from improver.metadata import amend

    at = {"title": "Old title", "source": "UM", "history": "made", "odd": "100%"}
    c = cube(np.zeros((2, 3), np.float32), attributes=dict(at))
    changes, want = {}, dict(at)
    stamps = {}
    for k in rng.some(["title", "source", "history", "new_one", "odd"], 1, 4):
        kind = rng.choice(["set", "remove", "insert", "insert_twice", "now", "now_insert", "insert_now", "two_nows", "newline"])
        old = want.get(k, "")
        if kind == "set":
            changes[k] = want[k] = "value %d" % rng.randint(0, 9)
        elif kind == "remove":
            changes[k] = "remove"
            want.pop(k, None)
        elif kind == "insert":
            changes[k], want[k] = "before {} after", "before %s after" % old
        elif kind == "insert_twice":
            changes[k] = "{}"
            want[k] = old
        elif kind == "now":
            changes[k] = "made {now:%Y-%m-%dT%H:%M} here"
            stamps[k] = r"^made \d{4}-\d\d-\d\dT\d\d:\d\d here$"
        elif kind == "now_insert":
            changes[k] = "{now:%Y}: {}"
            stamps[k] = r"^\d{4}: " + re.escape(old) + "$"
        elif kind == "insert_now":
            changes[k] = "{}; {now:%Y%m%d}"
            stamps[k] = "^" + re.escape(old) + r"; \d{8}$"
        elif kind == "two_nows":
            changes[k] = "{now:%Y} and {now:%m}"
            stamps[k] = r"^\d{4} and \d\d$"
        else:
            changes[k] = "line one\nat {now:%H} {}"
            stamps[k] = r"^line one\nat \d\d " + re.escape(old) + "$"
        if k in stamps:
            want[k] = None
    keep = dict(changes)
    y0 = pydt.datetime.now()
    amend.amend_attributes(c, changes)
    y1 = pydt.datetime.now()
    mon.equal(changes, keep, "changes passed in")
    got = dict(c.attributes)
    mon.equal(sorted(got), sorted(want), "names of the attributes")
    for k, v in want.items():
        if k in stamps:
            mon.check(re.match(stamps[k], got[k]) is not None, "time put in", got=got[k], want=changes[k])
            y = re.search(r"(?<!\d)(\d{4})(?!\d)", got[k])
            if "%Y" in changes[k] and y and "%Y%m" not in changes[k]:
                mon.check(int(y.group(1)) in (y0.year, y1.year), "the year now", got=got[k])
        else:
            mon.equal(got[k], v, "attribute")

    append = rng.chance(0.5)
    c = cube(np.zeros((2, 3), np.float32), attributes={"history": "first"} if rng.chance(0.6) else {})
    had = c.attributes.get("history")
    amend.set_history_attribute(c, "Nowcast", append=append)
    stamp = r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ): Nowcast$"
    m = re.match(("^first; " if append and had else "^") + stamp, c.attributes["history"])
    mon.check(m is not None, "history", got=c.attributes["history"])
    when = pydt.datetime.strptime(m.group(1), "%Y-%m-%dT%H:%M:%SZ")
    mon.check(abs((pydt.datetime.utcnow() - when).total_seconds()) < 120, "universal time", got=str(when))

    names = [" ".join(rng.some(["uk_ens", "uk_det", "nc_det", "gl_ens"], 1, 3)) for _ in range(rng.randint(1, 4))]
    cs = [cube(np.zeros((2, 3), np.float32), attributes={"m": k}) for k in names]
    mon.equal(amend.update_model_id_attr_attribute(cs, "m"), {"m": " ".join(sorted({x for k in names for x in k.split()}))}, "models together")
    cs[rng.randint(0, len(cs) - 1)].attributes.pop("m")
    mon.raises(AttributeError, amend.update_model_id_attr_attribute, cs, "m", label="model missing")
    mon.event("changes", len(changes))
    mon.seen("case", str(sorted(keep.values())))


# -------------------------------------------------------------- names
@scenario("C47", quick=80, thorough=2000)
def names(rng, mon):
    from improver.metadata import probabilistic as P
    from improver.metadata.amend import update_diagnostic_name

    d = rng.choice(DIAG)
    vic = rng.choice(["", "_in_vicinity", "_in_variable_vicinity"])
    end = rng.choice(["_above_threshold", "_below_threshold", "_between_thresholds", ""])
    full = "probability_of_" + d + vic + end
    mon.equal(P.get_threshold_coord_name_from_probability_name(full), d, "threshold name")
    mon.equal(P.get_diagnostic_cube_name_from_probability_name(full), d + vic, "diagnostic name")
    mon.equal(P.in_vicinity_name_format(full), "probability_of_" + d + "_in_vicinity" + end, "vicinity name")
    for f in (P.get_threshold_coord_name_from_probability_name, P.get_diagnostic_cube_name_from_probability_name):
        mon.raises(ValueError, f, rng.choice([d, "chance_of_" + full, ""]), label="not a probability")

    spp = rng.choice([k for k in SPP if k])
    lead = rng.choice(["threshold", "scalar threshold", "percentile", "realization", "two percentiles"])
    thr = gen.threshold_coord([1.0, 2.0], d, "m")
    thr.attributes = {"spp__relative_to_threshold": spp} if rng.chance(0.85) else {}
    has_attr = bool(thr.attributes)
    methods = [CellMethod("maximum", "time", intervals="1 hour", comments=rng.choice([f"of {d}", f"of {d}", "of something", None])) for _ in range(rng.randint(0, 2))]
    methods = [CellMethod(m.method, m.coord_names, m.intervals, None if m.comments in ((), (None,)) else m.comments) for m in methods]
    kw = dict(cell_methods=tuple(methods))
    if lead.endswith("threshold"):
        pn = "probability_of_" + d + vic + ("_above_threshold")
        c = cube(np.zeros((2, 2, 3), np.float32), pn, "1", lead=[thr], **kw)
        if lead.startswith("scalar"):
            c = c[rng.randint(0, 1)]
        mon.check(P.is_probability(c), "a probability")
        mon.equal(P.find_threshold_coordinate(c).name(), d, "threshold coordinate")
        mon.equal(P.probability_is_above_or_below(c), SPP[spp] if has_attr else None, "above or below")
        mon.check(not P.is_percentile(c), "not percentiles")
        mon.raises(CoordinateNotFoundError, P.find_percentile_coordinate, c, label="no percentiles")
        new = rng.choice(["cloud_area_fraction", "rain_rate"]) + rng.choice(["", vic])
        out = c.copy()
        base = new.replace("_in_variable_vicinity", "").replace("_in_vicinity", "")
        update_diagnostic_name(c, new, out)
        mon.equal(out.name(), pn.replace(d + vic, new), "new name")
        mon.equal([out.coord(base).var_name, [float(x) for x in out.coord(base).points]], ["threshold", [float(x) for x in P.find_threshold_coordinate(c).points]], "threshold renamed")
        mon.equal(out.coords(d), [], "old threshold gone")
        want = [CellMethod(m.method, m.coord_names, m.intervals, f"of {base}") if len(m.comments) == 1 and d in m.comments[0] else m for m in methods]
        mon.equal(list(out.cell_methods), want, "cell methods")
        k = c.copy()
        P.format_cell_methods_for_diagnostic(k)
        mon.equal(list(k.cell_methods), [CellMethod(m.method, m.coord_names, m.intervals) for m in methods], "cell methods of a diagnostic")
    else:
        if lead == "percentile":
            c = cube(np.zeros((2, 2, 3), np.float32), d, "m", lead=[gen.percentile_coord([20, 50])], **kw)
            mon.check(P.is_percentile(c), "percentiles")
            mon.equal(P.find_percentile_coordinate(c).name(), "percentile", "percentile coordinate")
        elif lead == "two percentiles":
            c = cube(np.zeros((2, 2, 3), np.float32), d, "m", lead=[gen.percentile_coord([20, 50])], **kw)
            c.add_aux_coord(AuxCoord(np.float32(50), long_name="percentile_over_nbhood", units="%"))
            mon.raises(ValueError, P.find_percentile_coordinate, c, label="two percentiles")
            mon.check(not P.is_percentile(c), "two percentiles are not one")
        else:
            c = cube(np.zeros((2, 2, 3), np.float32), d, "m", lead=[gen.realization_coord(2)], **kw)
            mon.check(not P.is_percentile(c), "not percentiles")
        mon.check(not P.is_probability(c), "not a probability")
        mon.raises(CoordinateNotFoundError, P.find_threshold_coordinate, c, label="no thresholds")
        k = c.copy()
        P.format_cell_methods_for_probability(k, "thing")
        mon.equal(list(k.cell_methods), [CellMethod(m.method, m.coord_names, m.intervals, "of thing") for m in methods], "cell methods of a probability")
        out = c.copy()
        update_diagnostic_name(c, "renamed", out)
        mon.equal(out.name(), "renamed", "new name")
        want = [CellMethod(m.method, m.coord_names, m.intervals, "of renamed") if len(m.comments) == 1 and d in m.comments[0] else m for m in methods]
        mon.equal(list(out.cell_methods), want, "cell methods")
    mon.raises(TypeError, P.find_threshold_coordinate, np.zeros(3), label="not a cube")
    mon.raises(TypeError, P.find_percentile_coordinate, "cube", label="not a cube")
    mon.event("names")
    mon.seen("case", f"{lead} {vic} {end} {spp} {len(methods)}")


# ---------------------------------------------------------- standards
@scenario("C47", quick=100, thorough=2500)
def standards(rng, mon):
    from improver.metadata import check_datatypes as D

    t = gen.random_time(rng)
    dtype = rng.choice([np.float32, np.float32, np.int32, np.int8, np.int64, np.bool_])
    c = cube((rng.np.rand(2, 2, 3) * 4).astype(dtype), time=t, frt=t - 6 * H, bounds=(t - H, t) if rng.chance(0.6) else None, lead=[gen.realization_coord(2)])
    if rng.chance(0.4):
        c.add_aux_coord(AuxCoord(np.array(["x", "y"]), long_name="text", units="no_unit"), 0)
    if rng.chance(0.3):
        c.add_aux_coord(AuxCoord(np.array([0, 3600], np.int32), long_name="UTC_offset", units="seconds"), 0)
    D.check_mandatory_standards(c)
    for k in [c] + list(c.coords()):
        mon.check(D.check_dtype(k) and D.check_units(k), "sound: " + k.name())
    faults = []
    for f in rng.sample(["data", "time type", "period type", "frt type", "time units", "period units", "x type", "x bounds", "time bounds", "period bounds", "utc"], rng.randint(1, 3)):
        if f == "data":
            c.data = np.asarray(c.data).astype(np.float64)
            faults.append(c.name())
        elif f in ("time type", "period type", "frt type", "utc"):
            nm = {"time type": "time", "period type": "forecast_period", "frt type": "forecast_reference_time", "utc": "UTC_offset"}[f]
            if not c.coords(nm):
                continue
            k = c.coord(nm)
            to = rng.choice([np.float64, np.float32, np.int64 if nm in ("forecast_period", "UTC_offset") else np.int32])
            k.points = k.points.astype(to)
            if k.has_bounds() and rng.chance(0.7):
                k.bounds = k.bounds.astype(to)
            faults.append(nm)
        elif f in ("time units", "period units"):
            nm = f.split()[0].replace("period", "forecast_period")
            k = c.coord(nm)
            kind = k.points.dtype
            k.convert_units("hours since 1970-01-01 00:00:00" if nm == "time" else rng.choice(["hours", "minutes"]))
            k.points = k.points.astype(kind)
            if k.has_bounds():
                k.bounds = k.bounds.astype(kind)
            faults.append(nm)
        elif f == "x type":
            k = c.coord(axis="x")
            k.points = k.points.astype(np.float64)
            faults.append(k.name())
        elif f == "x bounds":
            k = c.coord(axis="x")
            if not k.has_bounds():
                continue
            k.bounds = k.bounds.astype(np.float64)
            faults.append(k.name())
        else:
            k = c.coord("time" if f.startswith("time") else "forecast_period")
            if not k.has_bounds():
                continue
            k.bounds = k.bounds.astype(np.float64)
            faults.append(k.name())
    faults = sorted(set(faults))
    before = content(c)
    if not faults:
        D.check_mandatory_standards(c)
        return
    try:
        D.check_mandatory_standards(c)
        mon.fail("a fault was let through", want=faults)
    except ValueError as e:
        text = str(e)
    # a coordinate with a fault of type and of units is told twice
    named = sorted(set(re.findall(r"^(\S+) of type", text, re.M)))
    mon.equal(named, faults, "every fault is named, and nothing else")
    bad = sorted({k.name() for k in [c] + list(c.coords()) if not (D.check_dtype(k) and D.check_units(k))})
    mon.equal(bad, faults, "one by one")
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    ok = cube(np.zeros((2, 3), np.float32))
    D.enforce_dtype("add", [ok, ok], ok)
    wide = cube(np.zeros((2, 3), np.float64))
    mon.raises(TypeError, D.enforce_dtype, "add", [ok, wide], wide, label="double precision")
    mon.event("faults", len(faults))
    mon.seen("faults", str(faults))


# -------------------------------------------------------------- grids
@scenario("C47", quick=80, thorough=2000)
def grids(rng, mon):
    from improver.metadata.utilities import check_grid_match, create_coordinate_hash, generate_hash
    from improver.utilities import cube_checker as K

    ny, nx = rng.randint(2, 5), rng.randint(2, 40)
    grid = rng.choice(["equalarea", "latlon"])
    sp = {"equalarea": 2000.0, "latlon": 0.5}[grid]
    a = cube(rng.np.rand(ny, nx).astype(np.float32), grid=grid, spacing=sp)
    b = cube(rng.np.rand(ny, nx).astype(np.float32), "wind_speed", "m s-1", grid=grid, spacing=sp, time=gen.random_time(rng), frt=None)
    if rng.chance(0.3):
        b.transpose()
    c = b.copy()
    kind = rng.choice(["x", "y", "both", "units", "name", "system", "length", "last"])
    ax = rng.choice(["x", "y"])
    co = c.coord(axis=ax)
    if kind in ("x", "y", "both"):
        for q in ("x", "y") if kind == "both" else (kind,):
            k = c.coord(axis=q)
            k.bounds = None
            k.points = k.points + np.float32(sp / 4)
    elif kind == "last":
        p = co.points.copy()
        p[-1] += np.float32(sp / 8)
        co.bounds = None
        co.points = p
    elif kind == "units":
        co.convert_units("km" if grid == "equalarea" else "radians")
    elif kind == "name":
        co.rename(("grid_" + co.name()) if grid == "latlon" else co.name().replace("projection", "other"))
        if not c.coords(axis=ax):
            return
    elif kind == "system":
        co.coord_system = None
    else:
        c = cube(rng.np.rand(ny + 1, nx).astype(np.float32), grid=grid, spacing=sp)
    before = [content(k) for k in (a, b, c)]
    ha, hb, hc = (create_coordinate_hash(k) for k in (a, b, c))
    mon.equal(ha, hb, "the same grid has the same hash")
    mon.check(ha != hc, "another grid has another hash: " + kind)
    check_grid_match([a, b])
    check_grid_match(iter([a]))
    lst = [a, b, c]
    rng.shuffle(lst)
    mon.raises(ValueError, check_grid_match, lst, label="grids: " + kind)
    mon.equal([K.spatial_coords_match([a, b]), K.spatial_coords_match([a])], [True, True], "grids match")
    mon.equal(K.spatial_coords_match(lst), False, "grids differ")
    mon.raises(ValueError, K.assert_spatial_coords_match, lst, label="grids")
    K.assert_spatial_coords_match([a, b])
    spot = gen.spot(np.zeros(3, np.float32))
    spot.attributes["model_grid_hash"] = ha
    check_grid_match([spot, a])
    check_grid_match([a, spot, b])
    mon.raises(ValueError, check_grid_match, [spot, c], label="sites of another grid")
    for k, s in zip((a, b, c), before):
        mon.equal(snap_diff(s, content(k)), [], "input changed")
    data = {"b": [1, 2, np.float32(3.5)], "a": (None, "x")}
    mon.equal(generate_hash(data), generate_hash({"a": (None, "x"), "b": [1, 2, np.float32(3.5)]}), "equivalent data")
    mon.check(generate_hash(data) != generate_hash({"b": [1, 2, np.float32(3.6)], "a": (None, "x")}), "other data")
    mon.check(re.match("^[0-9a-f]{64}$", generate_hash(data)) is not None, "hexadecimal")

    # axes
    K.check_for_x_and_y_axes(a)
    K.check_for_x_and_y_axes(a, require_dim_coords=True)
    d = a.copy()
    if rng.chance(0.5):
        d = d[0]
        K.check_for_x_and_y_axes(d)
        mon.raises(ValueError, K.check_for_x_and_y_axes, d, require_dim_coords=True, label="axis without a dimension")
    else:
        d.remove_coord(d.coord(axis=ax))
        mon.raises(ValueError, K.check_for_x_and_y_axes, d, label="no axis")
    names = lambda k: {q.name() for q in k.dim_coords}
    e = cube(rng.np.rand(2, ny, nx).astype(np.float32), grid=grid, lead=[gen.realization_coord(2)])
    one, two = rng.choice([(a, e), (e, a), (e, d), (d, e), (a, a)])
    mon.equal(sorted(K.find_dimension_coordinate_mismatch(one, two)), sorted(names(one) ^ names(two)), "dimensions in one only")
    mon.equal(sorted(K.find_dimension_coordinate_mismatch(one, two, two_way_mismatch=False)), sorted(names(two) - names(one)), "dimensions in the second only")
    mon.event("grids")
    mon.seen("case", f"{grid} {kind} {ax}")


@scenario("C47", quick=80, thorough=2000)
def dimensions(rng, mon):
    """A cube gets back the dimensions and order of the one it came from."""
    from improver.utilities.cube_checker import check_cube_coordinates

    ny, nx = rng.randint(1, 4), rng.randint(2, 4)
    lead = []
    if rng.chance(0.6):
        lead.append(gen.realization_coord(rng.randint(1, 3)))
    if rng.chance(0.5):
        lead.append(gen.level_coord([10.0, 20.0][: rng.randint(1, 2)]))
    shape = tuple(k.shape[0] for k in lead) + (ny, nx)
    orig = cube(rng.np.rand(*shape).astype(np.float32), lead=lead)
    order = list(range(orig.ndim))
    rng.shuffle(order)
    orig.transpose(order)
    names = [k.name() for k in orig.dim_coords]
    new = orig.copy()
    # lose the dimensions of one
    for k in list(new.dim_coords):
        if k.shape[0] == 1 and rng.chance(0.7):
            (dim,) = new.coord_dims(k)
            new = new[tuple(0 if i == dim else slice(None) for i in range(new.ndim))]
    extra = []
    for nm, vals in (("percentile", [20.0, 50.0]), ("threshold_x", [1.0, 2.0, 3.0])):
        if rng.chance(0.4):
            extra.append(nm)
            new = add_lead(new, DimCoord(np.array(vals, np.float32), long_name=nm, units="1"))
    order = list(range(new.ndim))
    rng.shuffle(order)
    new.transpose(order)
    where = {k: new.coord_dims(k)[0] for k in extra}
    rng.shuffle(extra)
    source = new.copy()
    before = content(orig)
    if rng.chance(0.1) and extra:
        mon.raises(CoordinateNotFoundError, check_cube_coordinates, orig, new.copy(), label="dimension not allowed for")
        return
    if rng.chance(0.1):
        mon.raises(CoordinateNotFoundError, check_cube_coordinates, orig, new.copy(), exception_coordinates=extra + ["absent"], label="absent exception")
        return
    out = check_cube_coordinates(orig, new, exception_coordinates=extra) if extra or rng.chance(0.5) else check_cube_coordinates(orig, new)
    mon.equal(snap_diff(before, content(orig)), [], "input changed")
    got = [k.name() for k in out.dim_coords]
    mon.equal([k for k in got if k not in extra], names, "order of the original")
    mon.equal(sorted(got), sorted(names + extra), "all dimensions")
    if len(source.dim_coords) == len(out.dim_coords):
        mon.equal({k: out.coord_dims(k)[0] for k in extra}, where, "extra dimensions stay where they are")
    # values
    have = [k.name() for k in source.dim_coords]
    sub = tuple(slice(None) if k in have else 0 for k in got)
    rest = [k for k in got if k in have]
    mon.array_equal(np.transpose(source.data, [have.index(k) for k in rest]), out.data[sub], "values")
    for k in out.coords():
        src = orig if k.name() in names else source
        if src.coords(k.name()):
            mon.check(np.array_equal(src.coord(k.name()).points, k.points), "points of " + k.name())
    mon.event("dimensions", out.ndim)
    mon.seen("case", f"{names} {have} {extra}")


def add_lead(c, coord):
    from iris.cube import Cube

    data = np.stack([c.data + np.float32(i * 10) for i in range(coord.shape[0])])
    dims = [(coord, 0)] + [(k, c.coord_dims(k)[0] + 1) for k in c.dim_coords]
    aux = [(k, None) for k in c.aux_coords]
    o = Cube(data, dim_coords_and_dims=dims, aux_coords_and_dims=aux)
    o.metadata = c.metadata
    return o


# --------------------------------------------------------- time checks
@scenario("C47", quick=50, thorough=1000)
def same_times(rng, mon):
    from improver.utilities.cube_checker import assert_time_coords_valid

    t = gen.random_time(rng)
    n = rng.randint(2, 4)
    period = rng.chance(0.5)
    blend = rng.chance(0.3)
    cs = [cube(np.zeros((2, 3), np.float32), f"d{i}", time=t, frt=t - 6 * H, bounds=(t - H, t) if period else None, blend_time=t - 6 * H if blend else None) for i in range(n)]
    assert_time_coords_valid(cs, period)
    mon.raises(ValueError, assert_time_coords_valid, cs, not period, label="bounds")
    mon.raises(ValueError, assert_time_coords_valid, cs[:1], period, label="one cube")
    i = rng.randint(0, n - 1)
    kind = rng.choice(["time", "frt", "one bound", "bounds"])
    k = cs[i]
    if kind == "time":
        co = k.coord("time")
        b = co.bounds
        co.bounds = None
        co.points = co.points + np.int64(3600)
        if b is not None:
            co.bounds = b + 3600
    elif kind == "frt":
        co = k.coord("forecast_reference_time")
        co.points = co.points - np.int64(3600)
        if blend:
            assert_time_coords_valid(cs, period)
            return
    elif kind == "one bound":
        co = k.coord("time")
        co.bounds = None if period else np.array([[co.points[0] - 60, co.points[0]]], np.int64)
    else:
        if not period:
            return
        co = k.coord("time")
        co.bounds = co.bounds - np.array([[1800, 0]])
    before = [content(q) for q in cs]
    mon.raises(ValueError, assert_time_coords_valid, cs, period, label="times: " + kind)
    mon.equal([snap_diff(a, content(q)) for a, q in zip(before, cs)], [[]] * n, "input changed")
    mon.event("refusals")
    mon.seen("case", f"{kind} {period} {blend}")
