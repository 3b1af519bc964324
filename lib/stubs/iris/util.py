"""Utilities of the iris API stand-in."""
import itertools
from collections.abc import Hashable

import numpy as np
import numpy.ma as ma


def attrs_equal(a, b):
    if set(a.keys()) != set(b.keys()):
        return False
    for k in a:
        x, y = a[k], b[k]
        r = x == y
        if isinstance(r, np.ndarray) or isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not (np.shape(x) == np.shape(y) and np.all(np.asarray(x) == np.asarray(y))):
                return False
        elif not r:
            return False
    return True


def _as_np(a):
    return a if isinstance(a, np.ndarray) else (
        a.compute(scheduler="synchronous") if hasattr(a, "compute") else np.asanyarray(a)
    )


def array_equal(array1, array2, withnans=False):
    array1, array2 = _as_np(array1), _as_np(array2)
    eq = array1.shape == array2.shape
    if not eq:
        return False
    if array1.dtype.kind in "SUO" or array2.dtype.kind in "SUO":
        return bool(np.all(np.asarray(array1) == np.asarray(array2)))
    if ma.isMaskedArray(array1) or ma.isMaskedArray(array2):
        m1, m2 = ma.getmaskarray(array1), ma.getmaskarray(array2)
        if (m1 != m2).any():
            return False
        eqs = (ma.getdata(array1) == ma.getdata(array2)) | m1
        if withnans:
            eqs = eqs | (np.isnan(ma.getdata(array1)) & np.isnan(ma.getdata(array2)))
        return bool(np.all(eqs))
    eqs = array1 == array2
    if withnans and array1.dtype.kind == "f" and array2.dtype.kind == "f":
        eqs = eqs | (np.isnan(array1) & np.isnan(array2))
    return bool(np.all(eqs))


def approx_equal(a, b, max_absolute_error=1e-10, max_relative_error=1e-10):
    if abs(a - b) < max_absolute_error:
        return True
    return abs(a - b) < max_relative_error * max(abs(a), abs(b))


def monotonic(array, strict=False, return_direction=False):
    if array.ndim != 1 or len(array) <= 1:
        raise ValueError(
            "The array to check must be 1 dimensional and have more than 1 element."
        )
    if ma.isMaskedArray(array) and ma.count_masked(array) != 0:
        raise ValueError("The array to check contains missing data.")
    d = np.diff(array)
    sign_d = np.sign(d)
    if strict:
        mono = bool(np.all(sign_d == sign_d[0]) and sign_d[0] != 0)
        direction = sign_d[0]
    else:
        nz = np.where(sign_d != 0)[0]
        direction = sign_d[nz[0]] if len(nz) else 1
        mono = bool(np.all(sign_d[nz] == direction))
    if return_direction:
        return mono, direction
    return mono


def guess_coord_axis(coord):
    axis = None
    if coord.standard_name in ("longitude", "grid_longitude", "projection_x_coordinate"):
        axis = "X"
    elif coord.standard_name in ("latitude", "grid_latitude", "projection_y_coordinate"):
        axis = "Y"
    elif coord.units.is_convertible("hPa") or coord.attributes.get("positive") in ("up", "down"):
        axis = "Z"
    elif coord.units.is_time_reference():
        axis = "T"
    return axis


def column_slices_generator(full_slice, ndims):
    """Split a full slice with several tuple keys into successive slices
    (orthogonal indexing)."""
    list_of_slices = []
    # Map current dimensions to new dimensions, or None
    dimension_mapping = {None: None}
    _count_current_dim = 0
    for i, i_key in enumerate(full_slice):
        if isinstance(i_key, (int, np.integer)):
            dimension_mapping[i] = None
        else:
            dimension_mapping[i] = _count_current_dim
            _count_current_dim += 1

    # Get all of the dimensions for which a tuple of indices were provided
    # (numpy.ndarrays are treated in the same way tuples in this case)
    def is_tuple_style_index(key):
        return isinstance(key, tuple) or (isinstance(key, np.ndarray) and key.ndim == 1)

    tuple_indices = [i for i, key in enumerate(full_slice) if is_tuple_style_index(key)]

    # stg1: Take a copy of the full_slice specification, turning all tuples into a full slice
    if tuple_indices != list(range(len(full_slice))):
        first_slice = list(full_slice)
        for tuple_index in tuple_indices:
            first_slice[tuple_index] = slice(None, None)
        # turn first_slice back into a tuple ready for indexing
        list_of_slices.append(tuple(first_slice))

    # stg2 iterate over each of the tuples
    for tuple_index in tuple_indices:
        # Create a list with the indices to span the whole data array that we currently have
        spanning_slice_with_tuple = [slice(None, None)] * _count_current_dim
        # Replace the slice(None, None) with our current tuple
        spanning_slice_with_tuple[dimension_mapping[tuple_index]] = full_slice[tuple_index]
        # if we just have [(0, 1)] turn it into [(0, 1), ...] as this is Numpy's syntax.
        if len(spanning_slice_with_tuple) == 1:
            spanning_slice_with_tuple.append(Ellipsis)
        spanning_slice_with_tuple = tuple(spanning_slice_with_tuple)
        list_of_slices.append(spanning_slice_with_tuple)

    # return the dimension mapping and a generator of slices
    return dimension_mapping, iter(list_of_slices)


def _build_full_slice_given_keys(keys, ndim):
    if not isinstance(keys, tuple):
        keys = (keys,)
    # catch the case where an extra Ellipsis has been provided which can be
    # discarded iff len(keys)-1 == ndim
    if len(keys) - 1 == ndim and any(k is Ellipsis for k in keys):
        keys = list(keys)
        is_ellipsis = [key is Ellipsis for key in keys]
        keys.pop(is_ellipsis.index(True))
        keys = tuple(keys)
    # for ndim >= 1 appending a ":" to the slice specification is allowable
    if len(keys) > ndim and ndim != 0 and isinstance(keys[-1], slice) and keys[-1] == slice(None, None):
        keys = keys[:-1]
    if len(keys) > ndim:
        raise IndexError("More slices requested than dimensions. Requested %r, but there were only %s dimensions." % (keys, ndim))
    full_slice = [slice(None, None)] * ndim
    for i, key in enumerate(keys):
        if key is Ellipsis:
            j = 0
            for key in keys[:i:-1]:
                j -= 1
                if key is Ellipsis:
                    key = slice(None, None)
                full_slice[j] = key
            break
        full_slice[i] = key

    # remove any tuples on dimensions, turning them into numpy array's for consistent behaviour
    full_slice = tuple([np.array(key, ndmin=1) if isinstance(key, (tuple, list)) else key for key in full_slice])
    out = []
    for dim, key in enumerate(full_slice):
        if isinstance(key, np.ndarray) and key.dtype == bool:
            out.append(tuple(np.where(key)[0]) if key.ndim == 1 else key)
        elif isinstance(key, np.ndarray) and key.ndim == 1:
            out.append(tuple(int(k) for k in key))
        elif isinstance(key, np.ndarray) and key.ndim == 0:
            out.append(int(key))
        else:
            out.append(key)
    return tuple(out)


def _index(array, keys):
    """Orthogonally index array; returns (dimension mapping, (result,))."""
    full = _build_full_slice_given_keys(keys, array.ndim)
    mapping, slices_gen = column_slices_generator(full, array.ndim)
    result = array
    for sl in slices_gen:
        sl = tuple(np.array(k, dtype=int) if isinstance(k, tuple) else k for k in sl)
        result = result[sl]
    return mapping, (result,)


def is_regular(coord):
    try:
        regular_step(coord)
        return True
    except Exception:
        return False


def regular_step(coord):
    from iris.exceptions import CoordinateMultiDimError, CoordinateNotRegularError

    if coord.ndim != 1:
        raise CoordinateMultiDimError(coord)
    if coord.shape[0] < 2:
        raise ValueError("Expected a non-scalar coord")
    diffs = coord.points[1:] - coord.points[:-1]
    avdiff = np.mean(diffs)
    if not np.allclose(diffs, avdiff, rtol=0.001):
        raise CoordinateNotRegularError("Coord %s is not regular" % coord.name())
    return avdiff.astype(coord.points.dtype)


def broadcast_to_shape(array, shape, dim_map):
    dim_map = [d % len(shape) for d in dim_map]
    if len(dim_map) != array.ndim:
        raise ValueError("dim_map must have an entry for every dimension of the input array")
    new_axis = [slice(None)]  # noqa
    # transpose array so that dims are in order
    order = sorted(range(array.ndim), key=lambda i: dim_map[i])
    arr = array.transpose(order)
    dims = sorted(dim_map)
    idx = []
    n = 0
    for d in range(len(shape)):
        if d in dims:
            idx.append(slice(None))
            n += 1
        else:
            idx.append(None)
    arr = arr[tuple(idx)]
    if ma.isMaskedArray(arr):
        data = np.broadcast_to(arr.data, shape)
        mask = np.broadcast_to(ma.getmaskarray(arr), shape)
        return ma.array(data, mask=mask)
    return np.broadcast_to(arr, shape)


def new_axis(src_cube, scalar_coord=None):
    from iris import _lazy_data
    from iris.coords import DimCoord
    from iris.cube import Cube

    if scalar_coord is not None:
        scalar_coord = src_cube.coord(scalar_coord)
        if not src_cube.coord_dims(scalar_coord) == ():
            raise ValueError("{} is not a scalar coordinate.".format(scalar_coord.name()))
    data = src_cube.core_data()
    if ma.isMaskedArray(data):
        new_data = ma.expand_dims(data, 0) if False else data.reshape((1,) + data.shape)
    else:
        new_data = data.reshape((1,) + data.shape)
    new_cube = Cube(new_data)
    new_cube.metadata = src_cube.metadata
    for coord in src_cube.aux_coords:
        if scalar_coord is not None and scalar_coord == coord:
            dim_coord = DimCoord(
                coord.points,
                standard_name=coord.standard_name,
                long_name=coord.long_name,
                var_name=coord.var_name,
                units=coord.units,
                bounds=coord.bounds,
                attributes=coord.attributes,
                coord_system=coord.coord_system,
                circular=getattr(coord, "circular", False),
            )
            new_cube.add_dim_coord(dim_coord, 0)
        else:
            dims = np.array(src_cube.coord_dims(coord)) + 1
            new_cube.add_aux_coord(coord.copy(), [int(d) for d in dims])
    for coord in src_cube.dim_coords:
        coord_dims = np.array(src_cube.coord_dims(coord)) + 1
        new_cube.add_dim_coord(coord.copy(), int(coord_dims[0]))
    return new_cube


def squeeze(cube):
    slices = [0 if cube.shape[i] == 1 else slice(None) for i in range(cube.ndim)]
    squeezed = cube[tuple(slices)]
    if squeezed.ndim < cube.ndim:
        cube = squeezed
    return cube


def equalise_attributes(cubes):
    if not cubes:
        return
    common_keys = list(cubes[0].attributes.keys())
    for cube in cubes[1:]:
        cube_keys = list(cube.attributes.keys())
        common_keys = [
            key
            for key in common_keys
            if (key in cube_keys and np.all(cube.attributes[key] == cubes[0].attributes[key]))
        ]
    for cube in cubes:
        for key in list(cube.attributes.keys()):
            if key not in common_keys:
                del cube.attributes[key]


def unify_time_units(cubes):
    epochs = {}
    for cube in cubes:
        for time_coord in cube.coords():
            if time_coord.units.is_time_reference():
                epoch = epochs.setdefault(time_coord.units.calendar, time_coord.units.origin)
                import cf_units

                time_coord.convert_units(cf_units.Unit(epoch, time_coord.units.calendar))


def describe_diff(cube_a, cube_b, output_file=None):
    lines = []
    if cube_a.metadata != cube_b.metadata:
        lines.append("metadata differ: {} {}".format(cube_a.metadata, cube_b.metadata))
    if cube_a != cube_b:
        lines.append("cubes differ")
    if lines:
        print("\n".join(lines), file=output_file)


def promote_aux_coord_to_dim_coord(cube, name_or_coord):
    from iris.coords import Coord, DimCoord

    aux_coord = name_or_coord if isinstance(name_or_coord, Coord) else cube.coord(name_or_coord)
    if aux_coord in cube.dim_coords:
        return
    coord_dim = cube.coord_dims(aux_coord)
    if len(coord_dim) != 1:
        raise ValueError(
            "Attempt to promote an AuxCoord ({}) when it is associated with {} dimensions.".format(
                aux_coord.name(), len(coord_dim)
            )
        )
    try:
        dim_coord = _dim_from_coord(aux_coord)
    except ValueError as err:
        raise ValueError(
            "Attempt to promote an AuxCoord ({}) fails when attempting to create a DimCoord "
            "from the AuxCoord because: {}".format(aux_coord.name(), err)
        )
    old = cube.coords(dimensions=coord_dim, dim_coords=True)
    cube.remove_coord(aux_coord)
    if old:
        demote_dim_coord_to_aux_coord(cube, old[0])
    cube.add_dim_coord(dim_coord, coord_dim[0])


def _dim_from_coord(coord):
    from iris.coords import DimCoord

    return DimCoord(
        coord.points,
        standard_name=coord.standard_name,
        long_name=coord.long_name,
        var_name=coord.var_name,
        units=coord.units,
        bounds=coord.bounds,
        attributes=coord.attributes,
        coord_system=coord.coord_system,
        circular=getattr(coord, "circular", False),
        climatological=coord.climatological,
    )


def demote_dim_coord_to_aux_coord(cube, name_or_coord):
    from iris.coords import Coord

    dim_coord = name_or_coord if isinstance(name_or_coord, Coord) else cube.coord(name_or_coord)
    if dim_coord not in cube.dim_coords:
        return
    dims = cube.coord_dims(dim_coord)
    cube.remove_coord(dim_coord)
    cube.add_aux_coord(dim_coord, dims)


def as_compatible_shape(src_cube, target_cube):
    raise NotImplementedError


def reverse(cube_or_array, coords_or_dims):
    from iris.cube import Cube

    sl = [slice(None)] * cube_or_array.ndim
    if isinstance(coords_or_dims, (str, int)) or not hasattr(coords_or_dims, "__iter__"):
        coords_or_dims = [coords_or_dims]
    for c in coords_or_dims:
        if isinstance(cube_or_array, Cube) and not isinstance(c, int):
            for d in cube_or_array.coord_dims(c):
                sl[d] = slice(None, None, -1)
        else:
            sl[c] = slice(None, None, -1)
    return cube_or_array[tuple(sl)]


def rolling_window(a, window=1, step=1, axis=-1):
    axis = axis % a.ndim
    num_windows = (a.shape[axis] - window + step) // step
    shape = a.shape[:axis] + (num_windows, window) + a.shape[axis + 1 :]
    strides = (
        a.strides[:axis]
        + (step * a.strides[axis], a.strides[axis])
        + a.strides[axis + 1 :]
    )
    return np.lib.stride_tricks.as_strided(a, shape=shape, strides=strides)


def file_is_newer_than(result_path, source_paths):
    raise NotImplementedError
