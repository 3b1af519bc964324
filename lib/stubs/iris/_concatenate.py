"""Cube concatenation for the iris API stand-in."""
import numpy as np
import numpy.ma as ma

import iris.coords
import iris.exceptions
import iris.util
from iris import _lazy_data as _lazy


def _try(a, b):
    """Concatenate a and b; returns (cube or None, messages)."""
    msgs = []
    if a.metadata != b.metadata:
        for f in a.metadata._fields:
            x, y = getattr(a.metadata, f), getattr(b.metadata, f)
            same = iris.util.attrs_equal(x, y) if f == "attributes" else x == y
            if not same:
                msgs.append("Cube metadata differs for phenomenon: %s" % a.name())
        return None, msgs
    if a.ndim != b.ndim:
        return None, ["Data dimensions differ: %d != %d" % (a.ndim, b.ndim)]
    if a.dtype != b.dtype:
        return None, ["Datatypes differ: %s != %s" % (a.dtype, b.dtype)]
    da = {d: c for c, d in a._dim_coords_and_dims}
    db = {d: c for c, d in b._dim_coords_and_dims}
    if set(da) != set(db):
        return None, ["Dimension coordinates differ"]
    axis = None
    for d in da:
        if da[d].metadata != db[d].metadata:
            return None, [
                "Dimension coordinates metadata differ: %s != %s" % (da[d].name(), db[d].name())
            ]
        if da[d] != db[d]:
            if axis is not None:
                return None, ["Dimension coordinates differ on more than one dimension"]
            axis = d
    if axis is None:
        return None, ["Expected only one cube to be in the result / no dimension to concatenate"]
    for d in range(a.ndim):
        if d != axis and a.shape[d] != b.shape[d]:
            return None, ["Shapes differ"]
    ca, cb = da[axis], db[axis]
    pts = np.concatenate([ca.points, cb.points])
    if ca.has_bounds() != cb.has_bounds():
        return None, ["Bounds presence differs"]
    # order the pieces
    swap = False
    if len(ca.points) > 1:
        direction = np.sign(ca.points[1] - ca.points[0])
    elif len(cb.points) > 1:
        direction = np.sign(cb.points[1] - cb.points[0])
    else:
        direction = 1
    if direction * (cb.points[0] - ca.points[0]) < 0:
        swap = True
    first, second = (b, a) if swap else (a, b)
    cf, cs = (cb, ca) if swap else (ca, cb)
    pts = np.concatenate([cf.points, cs.points])
    d = np.diff(pts)
    if not (np.all(d > 0) or np.all(d < 0)):
        return None, ["An unexpected problem prevented concatenation. (overlapping extents)"]
    bounds = np.concatenate([cf.bounds, cs.bounds]) if cf.has_bounds() else None
    data = [x.data for x in (first, second)]
    if any(ma.isMaskedArray(x) for x in data):
        data = ma.concatenate(data, axis=axis)
    else:
        data = np.concatenate(data, axis=axis)
    from iris.cube import Cube

    new = Cube(data)
    new.metadata = a.metadata
    try:
        nc = cf.copy(points=pts, bounds=bounds)
    except ValueError as err:
        return None, [str(err)]
    new.add_dim_coord(nc, axis)
    for dd, c in da.items():
        if dd != axis:
            new.add_dim_coord(c.copy(), dd)
    if len(a.aux_coords) != len(b.aux_coords):
        names = {c.name() for c in a.aux_coords} ^ {c.name() for c in b.aux_coords}
        return None, ["Auxiliary/scalar coordinates differ: %s" % ", ".join(sorted(names))]
    for c, dims in first._aux_coords_and_dims:
        match = [
            (c2, d2)
            for c2, d2 in second._aux_coords_and_dims
            if c2.metadata == c.metadata or c2.name() == c.name()
        ]
        if len(match) != 1 or match[0][1] != dims:
            return None, ["Auxiliary coordinates differ: %s" % c.name()]
        c2 = match[0][0]
        if axis in dims:
            ax = dims.index(axis)
            p = np.concatenate([c.points, c2.points], axis=ax)
            bb = (
                np.concatenate([c.bounds, c2.bounds], axis=ax)
                if c.has_bounds() and c2.has_bounds()
                else None
            )
            m = c
            kwargs = dict(
                standard_name=m.standard_name,
                long_name=m.long_name,
                var_name=m.var_name,
                units=m.units,
                bounds=bb,
                attributes=m.attributes,
                coord_system=m.coord_system,
            )
            made = None
            if isinstance(c, iris.coords.DimCoord):
                try:
                    made = iris.coords.DimCoord(p, **kwargs)
                except ValueError:
                    made = None
            new.add_aux_coord(made or iris.coords.AuxCoord(p, **kwargs), dims)
        else:
            if c != c2:
                kind = "Scalar" if dims == () else "Auxiliary"
                return None, ["%s coordinates values or metadata differ: %s" % (kind, c.name())]
            new.add_aux_coord(c.copy(), dims)
    return new, []


def concatenate(cubes, error_on_mismatch=False):
    from iris.cube import CubeList

    pending = [c for c in cubes]
    msgs = []
    out = []
    for cube in pending:
        merged = False
        for i, existing in enumerate(out):
            new, m = _try(existing, cube)
            if new is not None:
                out[i] = new
                merged = True
                break
            msgs.extend(m)
        if not merged:
            out.append(cube)
    # a second sweep joins pieces that became adjacent
    changed = True
    while changed and len(out) > 1:
        changed = False
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                new, m = _try(out[i], out[j])
                if new is not None:
                    out[i] = new
                    del out[j]
                    changed = True
                    break
            if changed:
                break
    return CubeList(out), (msgs if len(out) > 1 else [])
