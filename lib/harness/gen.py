"""Workload building blocks: realistic cubes, built without improver's help."""
import datetime as dt

import iris
import numpy as np
import numpy.ma as ma
from cf_units import Unit
from iris.coord_systems import GeogCS, LambertAzimuthalEqualArea
from iris.coords import AuxCoord, CellMethod, DimCoord
from iris.cube import Cube, CubeList

ELLIPSOID = GeogCS(6371229.0)
UK_ELLIPSOID = GeogCS(semi_major_axis=6378137.0, semi_minor_axis=6356752.314140356)
LAEA = LambertAzimuthalEqualArea(
    latitude_of_projection_origin=54.9,
    longitude_of_projection_origin=-2.5,
    false_easting=0.0,
    false_northing=0.0,
    ellipsoid=UK_ELLIPSOID,
)
TIME_UNIT = Unit("seconds since 1970-01-01 00:00:00", calendar="gregorian")
EPOCH = dt.datetime(1970, 1, 1)
ATTRS = {
    "title": "MOGREPS-UK Forecast on UK 2 km Standard Grid",
    "source": "Met Office Unified Model",
    "institution": "Met Office",
}


def seconds(t):
    return int((t - EPOCH).total_seconds())


def random_time(rng, years=(2017, 2024)):
    base = dt.datetime(rng.randint(*years), 1, 1)
    return base + dt.timedelta(hours=rng.randint(0, 8759))


def yx(ny, nx, grid="equalarea", spacing=None, corner=None, dtype=np.float32, bounds=True,
       yspacing=None):
    if grid == "equalarea":
        names, units, cs = ("projection_y_coordinate", "projection_x_coordinate"), "m", LAEA
        spacing = 2000.0 if spacing is None else spacing
    else:
        names, units, cs = ("latitude", "longitude"), "degrees", ELLIPSOID
        spacing = 10.0 if spacing is None else spacing
    yspacing = spacing if yspacing is None else yspacing
    if corner is None:
        corner = (-(ny - 1) * yspacing / 2.0, -(nx - 1) * spacing / 2.0)
    out = []
    for name, n, c0, sp in ((names[0], ny, corner[0], yspacing), (names[1], nx, corner[1], spacing)):
        pts = (c0 + sp * np.arange(n)).astype(dtype)
        b = None
        if bounds and n > 1:
            b = np.stack([pts - dtype(sp / 2), pts + dtype(sp / 2)], axis=1).astype(dtype)
        out.append(DimCoord(pts, name, units=units, coord_system=cs, bounds=b))
    return out


def time_coords(time, frt=None, bounds=None, blend_time=None):
    """Scalar time, forecast_reference_time and forecast_period."""
    out = []
    tb = None if bounds is None else [[seconds(b) for b in bounds]]
    tb = None if tb is None else np.array(tb, dtype=np.int64)
    out.append(DimCoord(np.array([seconds(time)], np.int64), "time", units=TIME_UNIT, bounds=tb))
    if frt is not None:
        out.append(
            DimCoord(np.array([seconds(frt)], np.int64), "forecast_reference_time", units=TIME_UNIT)
        )
        fb = None if tb is None else (tb - seconds(frt)).astype(np.int32)
        out.append(
            DimCoord(
                np.array([seconds(time) - seconds(frt)], np.int32), "forecast_period",
                units="seconds", bounds=fb,
            )
        )
    if blend_time is not None:
        out.append(
            DimCoord(np.array([seconds(blend_time)], np.int64), long_name="blend_time", units=TIME_UNIT)
        )
    return out


def cube(data, name="air_temperature", units="K", grid="equalarea", time=dt.datetime(2017, 11, 10, 4),
         frt=dt.datetime(2017, 11, 10, 0), bounds=None, lead=(), attributes=None, spacing=None,
         corner=None, scalars=(), blend_time=None, coord_bounds=True, times=True, yspacing=None,
         cell_methods=()):
    """Gridded cube; lead: list of DimCoords for the leading dimensions."""
    data = ma.asanyarray(data) if ma.isMaskedArray(data) else np.asarray(data)
    ny, nx = data.shape[-2:]
    y, x = yx(ny, nx, grid, spacing, corner, bounds=coord_bounds, yspacing=yspacing)
    dims = [(c, i) for i, c in enumerate(lead)] + [(y, len(lead)), (x, len(lead) + 1)]
    aux = [(c, None) for c in (time_coords(time, frt, bounds, blend_time) if times else [])]
    aux += [(c, None) for c in scalars]
    c = Cube(data, units=units, dim_coords_and_dims=dims, aux_coords_and_dims=aux,
             attributes=dict(ATTRS if attributes is None else attributes), cell_methods=cell_methods)
    c.rename(name)
    return c


def realization_coord(n_or_values):
    v = np.arange(n_or_values) if np.isscalar(n_or_values) else np.asarray(n_or_values)
    return DimCoord(v.astype(np.int32), "realization", units="1")


def percentile_coord(values):
    return DimCoord(np.asarray(values, dtype=np.float32), long_name="percentile", units="%")


def threshold_coord(values, name="air_temperature", units="K", spp="greater_than"):
    c = DimCoord(np.asarray(values, dtype=np.float32), units=units, var_name="threshold",
                 attributes={"spp__relative_to_threshold": spp})
    c.rename(name)
    c.var_name = "threshold"
    return c


def level_coord(values, kind="height"):
    if kind == "height":
        return DimCoord(np.asarray(values, np.float32), "height", units="m", attributes={"positive": "up"})
    return DimCoord(np.asarray(values, np.float32), long_name="pressure", units="Pa",
                    attributes={"positive": "down"})


def ensemble(data, **kw):
    values = kw.pop("realizations", data.shape[0])
    return cube(data, lead=[realization_coord(values)], **kw)


def percentiles(data, values, **kw):
    return cube(data, lead=[percentile_coord(values)], **kw)


def prob_name(name, spp):
    return "probability_of_%s_%s" % (
        name,
        {"greater_than": "above_threshold", "greater_than_or_equal_to": "above_threshold",
         "less_than": "below_threshold", "less_than_or_equal_to": "below_threshold"}[spp],
    )


def probabilities(data, thresholds, name="air_temperature", threshold_units="K", spp="greater_than", **kw):
    vicinity = kw.pop("vicinity", "")
    tc = threshold_coord(thresholds, name, threshold_units, spp)
    full = prob_name(name + vicinity, spp)
    return cube(data, name=full, units="1", lead=[tc], **kw)


def spot(data, name="air_temperature", units="K", lead=(), time=dt.datetime(2017, 11, 10, 4),
         frt=dt.datetime(2017, 11, 10, 0), lats=None, lons=None, alts=None, wmo=None, attributes=None,
         bounds=None, scalars=(), unique=None, unique_key="met_office_site_id", cell_methods=()):
    data = ma.asanyarray(data) if ma.isMaskedArray(data) else np.asarray(data)
    n = data.shape[-1]
    lats = np.linspace(50, 59, n) if lats is None else lats
    lons = np.linspace(-6, 1, n) if lons is None else lons
    alts = np.arange(n) * 10.0 if alts is None else alts
    wmo = ["%05d" % (3000 + i) for i in range(n)] if wmo is None else wmo
    d = len(lead)
    idx = DimCoord(np.arange(n, dtype=np.int32), long_name="spot_index", units="1")
    aux = [
        (AuxCoord(np.asarray(alts, np.float32), "altitude", units="m"), d),
        (AuxCoord(np.asarray(lats, np.float32), "latitude", units="degrees"), d),
        (AuxCoord(np.asarray(lons, np.float32), "longitude", units="degrees"), d),
        (AuxCoord(np.asarray(wmo), long_name="wmo_id", units="no_unit"), d),
    ]
    if unique is not None:
        aux.append(
            (AuxCoord(np.asarray(unique), long_name=unique_key, units="no_unit",
                      attributes={"unique_site_identifier": "true"}), d)
        )
    aux += [(c, None) for c in time_coords(time, frt, bounds)]
    aux += [(c, None) for c in scalars]
    c = Cube(data, units=units, dim_coords_and_dims=[(k, i) for i, k in enumerate(lead)] + [(idx, d)],
             aux_coords_and_dims=aux, attributes=dict(ATTRS if attributes is None else attributes),
             cell_methods=cell_methods)
    c.rename(name)
    return c


# ------------------------------------------------------------------ fields
def smooth_field(rng, shape, lo, hi, dtype=np.float32):
    """Random field with spatial structure, scaled into [lo, hi]."""
    f = rng.np.rand(*shape)
    for ax in (-1, -2):
        if shape[ax] > 2 and rng.chance(0.7):
            f = (f + np.roll(f, 1, ax) + np.roll(f, -1, ax)) / 3
    mn, mx = f.min(), f.max()
    if mx > mn:
        f = (f - mn) / (mx - mn)
    return (lo + f * (hi - lo)).astype(dtype)


def random_mask(rng, shape, p=None):
    p = rng.choice([0.05, 0.2, 0.5]) if p is None else p
    kind = rng.randint(0, 2)
    m = rng.np.rand(*shape) < p
    if kind == 1:
        m[..., 0, :] = True
    elif kind == 2:
        m[..., :, -1] = True
    return m


def same_mask(rng, shape, p=None):
    """Mask that is the same on all leading slices."""
    m = random_mask(rng, shape[-2:], p)
    return np.broadcast_to(m, shape).copy()


# -------------------------------------------------------------- snapshots
def _arr(a):
    if a is None:
        return None
    if ma.isMaskedArray(a):
        m = ma.getmaskarray(a)
        d = ma.getdata(a)
        return ("masked", d.dtype.str, d.shape, m.tobytes(), np.where(m, d.dtype.type(), d).tobytes()
                if d.dtype.kind in "fiub" else repr(d.tolist()))
    a = np.asarray(a)
    return ("plain", a.dtype.str, a.shape, a.tobytes() if a.dtype.kind in "fiub" else repr(a.tolist()))


def coord_state(c):
    return (type(c).__name__, c.standard_name, c.long_name, c.var_name, str(c.units),
            repr(sorted(c.attributes.items())), repr(c.coord_system), _arr(c.points), _arr(c.bounds))


def snapshot(obj):
    """Everything observable of cubes (recursively through lists/tuples/dicts)."""
    if isinstance(obj, Cube):
        return (
            "cube", obj.standard_name, obj.long_name, obj.var_name, str(obj.units),
            tuple(sorted((k, _arr(v) if isinstance(v, np.ndarray) else repr(v)) for k, v in obj.attributes.items())),
            tuple(repr(m) for m in obj.cell_methods), _arr(obj.data),
            tuple(sorted(((coord_state(c), obj.coord_dims(c)) for c in obj.coords()), key=repr)),
        )
    if isinstance(obj, (list, tuple)):
        return tuple(snapshot(o) for o in obj)
    if isinstance(obj, dict):
        return tuple((k, snapshot(v)) for k, v in sorted(obj.items(), key=lambda i: repr(i[0])))
    if isinstance(obj, np.ndarray):
        return _arr(obj)
    return repr(obj)


def content(obj):
    """snapshot() up to the order of dimensions."""
    if isinstance(obj, Cube):
        dims = [c.name() for c in obj.coords(dim_coords=True)]
        if len(dims) == obj.ndim:
            obj = obj.copy()
            order = sorted(range(obj.ndim), key=lambda i: dims[i])
            obj.transpose(order)
        return snapshot(obj)
    if isinstance(obj, (list, tuple)):
        return tuple(content(o) for o in obj)
    return snapshot(obj)


def snap_diff(before, after, path="input"):
    """Human-readable first difference of two snapshots."""
    if before == after:
        return None
    if isinstance(before, tuple) and isinstance(after, tuple) and len(before) == len(after):
        for i, (b, a) in enumerate(zip(before, after)):
            if b != a:
                return snap_diff(b, a, "%s.%d" % (path, i))
    return "%s: %s -> %s" % (path, str(before)[:150], str(after)[:150])


STANDARD_TIMES = {
    "time": ("seconds since 1970-01-01 00:00:00", np.int64),
    "forecast_reference_time": ("seconds since 1970-01-01 00:00:00", np.int64),
    "blend_time": ("seconds since 1970-01-01 00:00:00", np.int64),
    "forecast_period": ("seconds", np.int32),
    "UTC_offset": ("seconds", np.int32),
}


def standard_faults(c, data=True):
    """Departures of a cube from the mandatory dtype/units standard."""
    out = []
    if data and c.dtype.kind == "f" and c.dtype != np.float32:
        out.append("data dtype %s" % c.dtype)
    for k in c.coords():
        if k.name() in STANDARD_TIMES:
            units, dtype = STANDARD_TIMES[k.name()]
            if k.dtype != dtype or (k.has_bounds() and k.bounds.dtype != dtype):
                out.append("%s dtype %s" % (k.name(), k.dtype))
            if Unit(str(k.units), calendar=k.units.calendar) != Unit(
                units, calendar="gregorian" if "since" in units else None
            ):
                out.append("%s units %s" % (k.name(), k.units))
        else:
            for a in (k.points, k.bounds if k.has_bounds() else None):
                if a is not None and a.dtype.kind == "f" and a.dtype != np.float32:
                    out.append("%s dtype %s" % (k.name(), a.dtype))
    return out


def time_consistent(c):
    """forecast_period == time - forecast_reference_time wherever all three are there."""
    names = [k.name() for k in c.coords()]
    if not all(n in names for n in ("time", "forecast_period", "forecast_reference_time")):
        return True
    t, f, p = (c.coord(n) for n in ("time", "forecast_reference_time", "forecast_period"))
    tp, fp, pp = (k.points.astype(np.int64) for k in (t, f, p))
    try:
        return bool(np.all(tp - fp == pp))
    except ValueError:
        return True
