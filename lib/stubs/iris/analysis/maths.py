"""Cube arithmetic of the iris API stand-in."""
import operator

import cf_units
import numpy as np
import numpy.ma as ma

import iris.coords
import iris.util


def _get_dtype(operand):
    return np.min_scalar_type(operand) if np.isscalar(operand) else operand.dtype


def _output_dtype(op, a, b):
    arrays = [np.array([1], dtype=a), np.array([1], dtype=b)]
    return op(*arrays).dtype


def _units(name, cube, other):
    ou = getattr(other, "units", None)
    if name in ("add", "subtract"):
        return cube.units
    if ou is None:
        ou = cf_units.Unit("1")
    if name == "multiply":
        return cube.units * ou
    return cube.units / ou


def _binary(cube, other, op, name, in_place=False, reverse=False):
    import iris.cube

    if isinstance(other, iris.cube.Cube):
        if name in ("add", "subtract") and cube.units != other.units:
            if not (cube.units.is_unknown() or other.units.is_unknown()):
                from iris.exceptions import NotYetImplementedError

                raise NotYetImplementedError(
                    "Differing units (%s & %s) %s not implemented"
                    % (cube.units, other.units, name)
                )
        rhs = _broadcast(cube, other)
        lhs_template = cube
        lhs = cube.data
        if rhs is None:
            # other has more dimensions
            lhs_template = other
            lhs = _broadcast(other, cube)
            rhs = other.data
            if lhs is None:
                raise ValueError("Cubes cannot be combined: shapes %s %s" % (cube.shape, other.shape))
        other_dtype = other.dtype
    elif isinstance(other, iris.coords.Coord):
        dims = cube.coord_dims(other) if cube.coords(other) else cube.coord_dims(cube.coord(other.name()))
        shape = [1] * cube.ndim
        for d, n in zip(dims, other.shape):
            shape[d] = n
        rhs = other.points.reshape(shape) if dims else other.points[0]
        lhs_template, lhs = cube, cube.data
        other_dtype = other.dtype
    else:
        if not (np.isscalar(other) or isinstance(other, np.ndarray)):
            return NotImplemented
        rhs = other
        lhs_template, lhs = cube, cube.data
        other_dtype = _get_dtype(other)
    new_dtype = _output_dtype(op, cube.dtype, other_dtype) if not in_place else cube.dtype
    with np.errstate(all="ignore"):
        data = op(lhs, rhs)
    if data.dtype != new_dtype:
        data = data.astype(new_dtype)
    data = np.asanyarray(data)
    units = _units(name, cube, other)
    if in_place:
        cube._data = data
        cube.units = units
        cube.rename(None)
        return cube
    new = iris.cube.Cube(data)
    new.metadata = lhs_template.metadata
    if isinstance(other, iris.cube.Cube):
        # lenient: one-sided attributes are kept, differing ones are dropped
        both = {**other.attributes, **cube.attributes}
        new.attributes = {
            k: v
            for k, v in both.items()
            if not (k in cube.attributes and k in other.attributes)
            or np.all(other.attributes[k] == v)
        }
        new.cell_methods = cube.cell_methods if cube.cell_methods == other.cell_methods else ()
    new.rename(None)
    new.units = units
    other_cube = other if isinstance(other, iris.cube.Cube) else None
    second = None
    if other_cube is not None:
        second = other_cube if lhs_template is cube else cube
    for c in lhs_template.dim_coords:
        new.add_dim_coord(c.copy(), lhs_template.coord_dims(c)[0])
    for c in lhs_template.aux_coords:
        dims = lhs_template.coord_dims(c)
        if second is not None and not dims:
            match = [d for d in second.coords(c.name())]
            if match and match[0] != c and second.coord_dims(match[0]) == ():
                continue  # differing scalar coords are dropped
        new.add_aux_coord(c.copy(), dims)
    if second is not None:
        for c in second.aux_coords:
            if second.coord_dims(c) == () and not lhs_template.coords(c.name()):
                if not [k for k in new.coords() if k.metadata == c.metadata]:
                    new.add_aux_coord(c.copy())
    return new


def _broadcast(cube, other):
    """Data of other, broadcast onto cube's dimensions (None if impossible)."""
    a = other.data
    if other.ndim > cube.ndim:
        return None
    mapping = []
    for d in range(other.ndim):
        dc = other.coords(dimensions=d, dim_coords=True)
        target = None
        if dc:
            cand = cube.coords(dc[0].name())
            if cand:
                dims = cube.coord_dims(cand[0])
                if len(dims) == 1 and cube.shape[dims[0]] in (other.shape[d],) or (
                    len(dims) == 1 and other.shape[d] == 1
                ):
                    target = dims[0]
        mapping.append(target)
    if other.ndim == cube.ndim and any(m is None for m in mapping):
        if other.shape == cube.shape:
            return a
        mapping = list(range(other.ndim))
    if any(m is None for m in mapping) or len(set(mapping)) != len(mapping):
        # right-align as numpy does
        off = cube.ndim - other.ndim
        mapping = [off + i for i in range(other.ndim)]
    order = sorted(range(other.ndim), key=lambda i: mapping[i])
    a = a.transpose(order)
    shape = [1] * cube.ndim
    for d, m in enumerate(mapping):
        shape[m] = other.shape[d]
    a = a.reshape(shape)
    try:
        np.broadcast(np.empty(cube.shape, dtype=bool), np.empty(a.shape, dtype=bool))
    except ValueError:
        return None
    return a


def add(cube, other, dim=None, in_place=False):
    return _binary(cube, other, operator.add, "add", in_place)


def subtract(cube, other, dim=None, in_place=False):
    return _binary(cube, other, operator.sub, "subtract", in_place)


def multiply(cube, other, dim=None, in_place=False):
    return _binary(cube, other, operator.mul, "multiply", in_place)


def divide(cube, other, dim=None, in_place=False):
    return _binary(cube, other, operator.truediv, "divide", in_place)


def exponentiate(cube, exponent, in_place=False):
    data = cube.data ** exponent
    new = cube.copy(data=data)
    new.rename(None)
    new.units = cube.units ** exponent
    return new


def abs(cube, in_place=False):
    return cube.copy(data=np.abs(cube.data))
