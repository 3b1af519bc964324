"""C54: standardising metadata and copying attributes."""
import numpy as np
from iris.coords import AuxCoord, CellMethod, DimCoord
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, snap_diff
from checks.manipulation import same

dt = gen.dt
ma = np.ma
H = dt.timedelta(hours=1)
SECONDS = {"time": 1, "forecast_reference_time": 1, "blend_time": 1, "forecast_period": 1}
KIND = {"time": np.int64, "forecast_reference_time": np.int64, "blend_time": np.int64, "forecast_period": np.int32}


def _shuf(rng, seq):
    seq = list(seq)
    rng.shuffle(seq)
    return seq


def _sub(rng, seq):
    return rng.some(seq, 0)


def off_standard(rng, c):
    """Put the coordinates of a cube in non-standard units and types; returns the true values."""
    truth = {}
    for name in KIND:
        if not c.coords(name):
            continue
        crd = c.coord(name)
        truth[name] = (crd.points.astype(np.int64), None if crd.bounds is None else crd.bounds.astype(np.int64))
        unit, step = rng.choice([("seconds", 1), ("minutes", 60), ("hours", 3600)])
        dtype = rng.choice([np.float64, np.float64, np.int64, np.int32])
        if name == "forecast_period":
            units = unit
        else:
            units = unit + " since 1970-01-01 00:00:00"
            if unit == "seconds" and dtype == np.int32:
                dtype = np.int64
        p, b = truth[name]
        if any((np.asarray(v) % step).any() for v in (p, b) if v is not None):
            dtype = np.float64
        crd.bounds = None
        crd.points = (p / step).astype(dtype)
        if b is not None:
            crd.bounds = (b / step).astype(dtype)
        crd.units = units
    return truth


def messy(rng):
    """A cube with non-standard types and redundant dimensions, and its description."""
    ny, nx = rng.choice([(1, 2), (1, 3), (2, 1), (2, 3), (3, 4), (2, 2)])
    lead, shape = [], []
    nr = rng.choice([None, None, 1, 3])
    if nr:
        first = rng.randint(0, 4)
        lead.append(gen.realization_coord(list(range(first, first + nr))))
    nz = rng.choice([None, None, 1, 2])
    if nz:
        lead.append(gen.level_coord([10.0 + 5 * k for k in range(nz)]))
    lead = _shuf(rng, lead)
    shape = [len(x.points) for x in lead] + [ny, nx]
    kind = rng.choice(["f4", "f4", "f8", "f8", "i4", "i8", "i1"])
    data = rng.np.uniform(-50, 50, shape)
    data = data.astype(kind)
    if rng.chance(0.3):
        data = ma.masked_array(data, gen.random_mask(rng, tuple(shape)))
    time = gen.random_time(rng) + dt.timedelta(minutes=rng.choice([0, 0, 15, 7]))
    time = time.replace(second=0, microsecond=0)
    scalars = [DimCoord(np.array([rng.choice([1.5, 2.0, 10.0])], rng.choice([np.float32, np.float64])), long_name="station_height", units="m",
                        bounds=np.array([[0.0, 12.0]]) if rng.chance(0.3) else None)]
    if rng.chance(0.4):
        scalars.append(AuxCoord(np.array([7], rng.choice([np.int32, np.int64])), long_name="model_id", units="1"))
    if rng.chance(0.3):
        scalars.append(AuxCoord(np.array(["uk"]), long_name="model_name", units="no_unit"))
    methods = _shuf(rng, _sub(rng, [CellMethod("point", coords="time"), CellMethod("mean", coords="time"),
                                       CellMethod("point", coords="station_height"), CellMethod("point", coords=("time", "station_height"))]))
    c = cube(data, units="m", name="snow_depth", time=time, frt=time - H * rng.randint(0, 30), lead=lead, spacing=2000,
             bounds=(time - H, time) if rng.chance(0.4) else None, scalars=scalars, cell_methods=methods,
             blend_time=None, attributes={"title": "t", "mosg__grid_version": "1.3.0", "history": "x"})
    if rng.chance(0.3):
        c = gen_time_dim(rng, c)
    if rng.chance(0.4):
        order = _shuf(rng, range(c.ndim))
        c.transpose(order)
    truth = off_standard(rng, c)
    if rng.chance(0.4):
        for ax in "xy":
            crd = c.coord(axis=ax)
            b = crd.bounds
            crd.bounds = None
            crd.points = crd.points.astype(np.float64)
            if b is not None:
                crd.bounds = b.astype(np.float64)
    return c, truth, methods


def gen_time_dim(rng, c):
    from iris.util import new_axis

    return new_axis(c, rng.choice(["time", "forecast_reference_time"]))


def kept_type(dtype, name):
    if name in KIND:
        return np.dtype(KIND[name])
    return np.dtype(np.float32) if dtype.kind == "f" else dtype


@scenario("C54", quick=120, thorough=4000)
def standardise(rng, mon):
    from improver.standardise import StandardiseMetadata

    c, truth, methods = messy(rng)
    before = c.copy()
    kw, expect_attrs = {}, dict(c.attributes)
    if rng.chance(0.4):
        kw["new_name"] = "lwe_thickness_of_surface_snow_amount"
    factor = 1.0
    if rng.chance(0.4):
        kw["new_units"], factor = rng.choice([("mm", 1000.0), ("km", 0.001), ("cm", 100.0)])
    gone = []
    if rng.chance(0.4):
        gone = _sub(rng, ["station_height", "model_id", "model_name", "forecast_period", "absent"])
        kw["coords_to_remove"] = _shuf(rng, gone)
    change = {}
    if rng.chance(0.4):
        change = rng.choice([{"station_height": 1.5}, {"station_height": 2}, {"model_id": 9}, {"missing": 3.0}, {"station_height": 3.0, "model_id": 4}])
        kw["coord_modification"] = dict(change)
    if rng.chance(0.4):
        extra = rng.choice([{"title": "new"}, {"history": "remove", "institution": "MO"}, {"title": "{} again"}, {"absent": "remove"}])
        kw["attributes_dict"] = dict(extra)
        for k, v in extra.items():
            if v == "remove":
                expect_attrs.pop(k, None)
            else:
                expect_attrs[k] = v.replace("{}", str(expect_attrs.get(k, "")))
    has_bounds = {n: before.coord(n).has_bounds() for n in change if before.coords(n)}
    plugin = StandardiseMetadata(**kw)
    out = plugin(c if rng.chance(0.7) else CubeList([c]))
    if rng.chance(0.3):
        out = plugin(before.copy())
    # the dimensions
    want_dims = []
    for k, n in enumerate(before.shape):
        crd = before.coord(dimensions=k, dim_coords=True)
        if n > 1 or crd.name() == "realization":
            want_dims.append((crd.name(), k))
    mon.equal([x.name() for x in out.dim_coords], [n for n, _ in want_dims], "dimensions")
    src = before.data
    want = ma.getdata(src).astype(np.float64) * factor
    want = want.reshape([before.shape[k] for _, k in want_dims])
    mask = ma.getmaskarray(src).reshape(want.shape)
    kind = np.dtype(np.float32) if before.dtype.kind == "f" or factor != 1.0 else before.dtype
    mon.equal(str(out.dtype), str(kind), "data type")
    same(mon, out.data, ma.masked_array(want, mask), "data", rtol=3e-6, atol=1e-6)
    mon.equal(str(out.units), kw.get("new_units", "m"), "units")
    mon.equal(out.name(), kw.get("new_name", "snow_depth"), "name")
    mon.equal({k: str(v) for k, v in out.attributes.items()}, {k: str(v) for k, v in expect_attrs.items()}, "attributes")
    mon.equal(list(out.cell_methods), [m for m in methods if m != CellMethod("point", coords="time")], "cell methods")
    # the coordinates
    mon.equal(sorted(x.name() for x in out.coords()), sorted(x.name() for x in before.coords() if x.name() not in gone), "coordinates")
    for crd in before.coords():
        name = crd.name()
        if name in gone:
            continue
        got = out.coord(name)
        if name in truth:
            mon.equal(str(got.units), "seconds" if name == "forecast_period" else "seconds since 1970-01-01 00:00:00", name + " units")
            p, b = truth[name]
        else:
            p, b = crd.points, crd.bounds
        if name in change:
            p = np.array([change[name]])
        dtype = kept_type(np.asarray(p).dtype, name)
        mon.equal(str(got.points.dtype), str(dtype), name + " type")
        if b is None:
            mon.check(got.bounds is None, name + " gained bounds")
        else:
            mon.equal(str(got.bounds.dtype), str(dtype), name + " bounds type")
            if name not in change:
                mon.close(got.bounds.astype(float), np.asarray(b, float), name + " bounds", rtol=1e-6, atol=1e-6)
        if np.asarray(p).dtype.kind in "US":
            mon.equal(list(got.points), list(p), name)
        else:
            tol = 0 if name in truth else 1e-6
            mon.close(got.points.astype(float), np.asarray(p, float), name + " points", rtol=tol, atol=0)
    if not change:
        mon.equal(gen.standard_faults(out), [], "mandatory standards")
    mon.event("standardised")
    mon.seen("kind", (str(before.dtype), bool(gone), bool(change), before.ndim))


@scenario("C54", quick=25, thorough=800)
def refusals(rng, mon):
    from improver.standardise import StandardiseMetadata

    ny, nx = rng.randint(2, 4), rng.randint(2, 4)
    t = gen.random_time(rng)
    c = cube(rng.np.uniform(0, 1, (3, ny, nx)).astype(np.float32), time=t, frt=t - H, lead=[gen.level_coord([1.0, 2.0, 5.0])],
             scalars=[DimCoord(np.array([1.5], np.float32), long_name="station_height", units="m")])
    c.add_aux_coord(AuxCoord(np.array([1.0, 2.0, 3.0], np.float32), long_name="wobble", units="m"), 0)
    bad = rng.choice([{"height": 2.0}, {"projection_x_coordinate": 0.0}, {"time": 0}, {"forecast_period": 3600},
                      {"forecast_reference_time": 1}, {"station_height": [1.0, 2.0]}, {"wobble": 1.0}, {"wobble": [1.0, 2.0, 4.0]}])
    mon.raises(ValueError, StandardiseMetadata(coord_modification=bad), c.copy(), label="modification %s" % bad)
    if rng.chance(0.5):
        fine = StandardiseMetadata(coord_modification={"station_height": 2.0})(c.copy())
        mon.equal(float(fine.coord("station_height").points[0]), 2.0, "an allowed modification")
    mon.raises(Exception, StandardiseMetadata(new_units="K"), cube(np.zeros((2, 2), np.float32), name="x", units="m"), label="inconvertible units")
    mon.event("refused")


# ----------------------------------------------------------- status flags
@scenario("C54", quick=50, thorough=1500)
def below_surface(rng, mon):
    from improver.standardise import StandardiseMetadata

    name = "air_temperature status_flag"
    ny, nx, nz = rng.randint(2, 4), rng.randint(2, 4), rng.randint(2, 3)
    nr = rng.choice([None, 1, 2, 3])
    lead = [gen.level_coord([100000.0 - 5000 * k for k in range(nz)], "pressure")]
    if nr:
        lead.insert(0, gen.realization_coord(nr))
    shape = tuple(len(x.points) for x in lead) + (ny, nx)
    data = rng.np.uniform(250, 300, shape).astype(np.float32)
    if rng.chance(0.3):
        data = ma.masked_array(data, np.zeros(shape, bool))
    c = cube(data, lead=lead)
    flags = (rng.np.rand(*shape) < rng.choice([0.0, 0.3, 1.0])).astype(rng.choice([np.int8, np.int8, np.int32, np.int64]))
    attrs = {"flag_meanings": "above_surface_pressure below_surface_pressure", "flag_values": np.array([0, 1], dtype="int8")}
    c.add_aux_coord(AuxCoord(flags, long_name=name, attributes=attrs, units="1"), tuple(range(c.ndim)))
    order = list(range(c.ndim))
    if rng.chance(0.3):
        order = _shuf(rng, order)
        c.transpose(order)
    before = c.copy()
    if rng.chance(0.2):
        odd = c.coord(name)
        wrong = rng.choice(["meanings", "values", "masked", "missing"])
        if wrong == "masked":
            pts = ma.masked_array(odd.points, np.zeros(odd.shape, bool))
            pts[(0,) * c.ndim] = ma.masked
            odd.points = pts
        elif wrong == "meanings":
            odd.attributes["flag_meanings"] = "below_surface_pressure above_surface_pressure"
        elif wrong == "values":
            odd.attributes["flag_values"] = np.array([1, 0], dtype="int8")
        else:
            odd.attributes.pop("flag_values")
        mon.raises(ValueError, StandardiseMetadata(), c, label="status flag " + wrong)
        mon.event("status flag refused")
        return
    out = StandardiseMetadata()(c)
    mon.equal([x.name() for x in out.dim_coords if x.name() != "realization"],
              [x.name() for x in before.dim_coords if x.name() != "realization"], "dimensions")
    mon.equal(bool(out.coords("realization", dim_coords=True)), bool(nr), "realizations are a dimension")
    mon.check(not out.coords(name), "the flags are removed")
    got = out.copy()
    if sorted(x.name() for x in got.dim_coords) == sorted(x.name() for x in before.dim_coords):
        got.transpose([got.coord_dims(x.name())[0] for x in before.dim_coords])
    want = ma.getdata(before.data).astype(float).copy()
    dims = before.coord_dims(name)
    flag = np.transpose(before.coord(name).points, np.argsort(dims)).astype(bool)
    want[flag] = np.nan
    mon.array_equal(np.isnan(ma.filled(got.data, np.nan)), flag, "missing below the surface")
    mon.close(ma.getdata(got.data)[~flag].astype(float), want[~flag], "temperature", rtol=1e-6, atol=0)
    for crd in before.coords():
        if crd.name() != name:
            mon.array_equal(got.coord(crd.name()).points, crd.points, crd.name())
    mon.event("below surface")


# --------------------------------------------------------- copy attributes
@scenario("C54", quick=40, thorough=1500)
def copied(rng, mon):
    from improver.utilities.copy_attributes import CopyAttributes

    pool = {"title": "UKV", "source": "IMPROVER", "institution": "Met Office", "mosg__model_configuration": "uk_det", "history": "2020: StaGE",
            "um_version": "11.2", "count": 3, "factor": np.float32(2.5), "levels": np.array([1, 2], np.int32)}

    def some():
        keys = _sub(rng, list(pool))
        return {k: (pool[k] if rng.chance(0.5) else "other " + k) for k in _shuf(rng, keys)}

    cubes = [cube(rng.np.rand(2, 2).astype(np.float32), name="n%d" % k, attributes=some()) for k in range(rng.randint(1, 3))]
    template = cube(rng.np.rand(2, 2).astype(np.float32), name="template", attributes=dict(pool, **some()))
    wanted = _shuf(rng, _sub(rng, list(pool)))
    given = [c.copy() for c in cubes]
    tbefore = content(template)
    plugin = CopyAttributes(list(wanted))
    form = rng.choice(["separate", "list"])
    args = cubes if form == "separate" else [CubeList(cubes)]
    out = plugin(*args, template_cube=template if rng.chance(0.6) else CubeList([template]))
    mon.equal(snap_diff(tbefore, content(template)) or [], [], "template unchanged")
    outs = [out] if hasattr(out, "attributes") else list(out)
    mon.equal(len(outs), len(cubes), "number of cubes")
    mon.equal([o.name() for o in outs], [g.name() for g in given], "order of the cubes")
    for o, g in zip(outs, given):
        expected = dict(g.attributes)
        expected.update({k: template.attributes[k] for k in wanted})
        mon.equal(sorted(o.attributes), sorted(expected), "attribute names")
        for k in expected:
            mon.check(np.array_equal(np.asarray(o.attributes[k]), np.asarray(expected[k])), "attribute %s: %r for %r" % (k, o.attributes[k], expected[k]))
        g2, o2 = g.copy(), o.copy()
        g2.attributes = {}
        o2.attributes = {}
        mon.equal(snap_diff(content(g2), content(o2)) or [], [], "all but the attributes")
    missing = "not_there"
    mon.raises(KeyError, CopyAttributes([missing] + wanted), cubes[0].copy(), template_cube=template, label="missing attribute")
    mon.event("attributes copied", n=len(wanted))
