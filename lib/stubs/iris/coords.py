"""Coordinates of the iris API stand-in (behaviour of iris 3.0)."""
import operator
import warnings
from collections import namedtuple
from collections.abc import Container, Iterator
from functools import wraps

import cf_units
import numpy as np
import numpy.ma as ma

import iris.exceptions
import iris.time
import iris.util
from iris import _lazy_data as _lazy
from iris._metadata import (
    CFVariableMixin,
    CoordMetadata,
    DimCoordMetadata,
    DimensionalMetadata,
    copy_attrs,
)

DEFAULT_POINTS = None


def _sanitise_array(src, ndmin):
    if _lazy.is_lazy_data(src):
        if src.ndim >= ndmin:
            return src
        return src.reshape((1,) * (ndmin - src.ndim) + src.shape)
    if ma.isMaskedArray(src):
        result = ma.array(src, ndmin=ndmin, copy=False)
    else:
        result = np.array(src, ndmin=ndmin, copy=False)
    return result


class _DimensionalMetadata(CFVariableMixin):
    def __init__(
        self, values, standard_name=None, long_name=None, var_name=None, units=None, attributes=None
    ):
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units
        self.attributes = attributes
        self._values = values

    # storage
    @property
    def _values(self):
        if _lazy.is_lazy_data(self._vals):
            self._vals = _lazy.as_concrete_data(self._vals)
        return self._vals.view()

    @_values.setter
    def _values(self, values):
        values = _sanitise_array(values, 1 if isinstance(self, Coord) else 0)
        if getattr(self, "_vals", None) is not None and values.shape != self._vals.shape:
            raise ValueError(
                "Require data with shape {!r}, got {!r}.".format(self._vals.shape, values.shape)
            )
        self._vals = values

    def _core_values(self):
        if _lazy.is_lazy_data(self._vals):
            return self._vals
        return self._vals.view()

    @property
    def shape(self):
        return self._vals.shape

    @property
    def ndim(self):
        return self._vals.ndim

    @property
    def dtype(self):
        return self._vals.dtype

    def has_bounds(self):
        return False

    def copy(self, values=None):
        new = self.__class__.__new__(self.__class__)
        new.__dict__.update(self.__dict__)
        new._attributes = copy_attrs(self._attributes)
        new._vals = self._vals.copy()
        if values is not None:
            del new.__dict__["_vals"]
            new._values = values
        return new

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def cube_dims(self, cube):
        return cube.coord_dims(self)

    def convert_units(self, unit):
        if self.units.is_unknown():
            raise iris.exceptions.UnitConversionError(
                'Cannot convert from unknown units. The "units" attribute may be set directly.'
            )
        self._values = self.units.convert(self._values, unit)
        self.units = unit

    def __hash__(self):
        return hash(id(self))


class AncillaryVariable(_DimensionalMetadata):
    def __init__(
        self, data, standard_name=None, long_name=None, var_name=None, units=None, attributes=None
    ):
        super().__init__(
            data,
            standard_name=standard_name,
            long_name=long_name,
            var_name=var_name,
            units=units,
            attributes=attributes,
        )

    @property
    def data(self):
        return self._values

    @data.setter
    def data(self, data):
        self._values = data

    @property
    def metadata(self):
        return DimensionalMetadata(
            self.standard_name, self.long_name, self.var_name, self.units, self.attributes
        )


class CellMeasure(AncillaryVariable):
    def __init__(
        self,
        data,
        standard_name=None,
        long_name=None,
        var_name=None,
        units=None,
        attributes=None,
        measure=None,
    ):
        super().__init__(data, standard_name, long_name, var_name, units, attributes)
        self.measure = measure


CoordExtent = namedtuple(
    "CoordExtent", "name_or_coord minimum maximum min_inclusive max_inclusive"
)


class _CoordExtentNew(CoordExtent):
    def __new__(cls, name_or_coord, minimum, maximum, min_inclusive=True, max_inclusive=True):
        return super().__new__(cls, name_or_coord, minimum, maximum, min_inclusive, max_inclusive)


CoordExtent = _CoordExtentNew


class Cell(namedtuple("Cell", ["point", "bound"])):
    __array_priority__ = 100

    def __new__(cls, point=None, bound=None):
        if point is None:
            raise ValueError("point can not be None.")
        if isinstance(point, (tuple, list)):
            if len(point) != 1:
                raise ValueError("Unexpected point type %s" % (type(point),))
            point = point[0]
        if isinstance(point, np.ndarray):
            if point.shape != (1,):
                raise ValueError("point may only have one element")
            point = point[0]
        if isinstance(bound, (list, np.ndarray)):
            bound = tuple(bound)
        return super().__new__(cls, point, bound)

    def __mod__(self, mod):
        point = self.point
        bound = self.bound
        if point is not None:
            point = point % mod
        if bound is not None:
            bound = tuple([val % mod for val in bound])
        return Cell(point, bound)

    def __add__(self, mod):
        point = self.point + mod
        bound = None if self.bound is None else tuple([val + mod for val in self.bound])
        return Cell(point, bound)

    def __hash__(self):
        if self.bound is None:
            return hash(self.point)
        bound = self.bound
        rbound = bound[::-1]
        if rbound < bound:
            bound = rbound
        return hash((self.point, bound))

    def __eq__(self, other):
        if isinstance(other, (int, float, np.number)) or hasattr(other, "timetuple"):
            if self.bound is not None:
                return self.contains_point(other)
            return self.point == other
        elif isinstance(other, Cell):
            return (self.point == other.point) and (
                self.bound == other.bound
                or (
                    self.bound is not None
                    and other.bound is not None
                    and self.bound == other.bound[::-1]
                )
            )
        elif (
            isinstance(other, str)
            and self.bound is None
            and isinstance(self.point, str)
        ):
            return self.point == other
        elif isinstance(other, iris.time.PartialDateTime):
            if self.bound is not None:
                return self.contains_point(other)
            return other == self.point
        else:
            return NotImplemented

    def __ne__(self, other):
        result = self.__eq__(other)
        if result is not NotImplemented:
            result = not result
        return result

    def __common_cmp__(self, other, operator_method):
        if isinstance(other, iris.time.PartialDateTime):
            # swap around so the partial datetime does the comparing
            swap = {
                operator.gt: operator.lt,
                operator.lt: operator.gt,
                operator.ge: operator.le,
                operator.le: operator.ge,
            }[operator_method]
            if self.bound is not None:
                if operator_method in (operator.gt, operator.le):
                    me = min(self.bound)
                else:
                    me = max(self.bound)
            else:
                me = self.point
            if swap in (operator.le, operator.ge) and other == me:
                return True
            return swap(other, me)
        if not (
            isinstance(other, (int, float, np.number, Cell)) or hasattr(other, "timetuple")
        ):
            raise TypeError("Unexpected type of other {}.".format(type(other)))
        if operator_method not in (operator.gt, operator.lt, operator.ge, operator.le):
            raise ValueError("Unexpected operator_method")
        # Cell to Cell comparison: strict sort order on (point, bounded?, lower bound)
        if isinstance(other, Cell):
            def key(c):
                return (c.point, c.bound is not None, min(c.bound) if c.bound is not None else 0)

            return operator_method(key(self), key(other))
        else:
            # Cell vs scalar
            if self.bound is not None:
                if operator_method in (operator.gt, operator.le):
                    me = min(self.bound)
                else:
                    me = max(self.bound)
            else:
                me = self.point
        return operator_method(me, other)

    def __ge__(self, other):
        return self.__common_cmp__(other, operator.ge)

    def __le__(self, other):
        return self.__common_cmp__(other, operator.le)

    def __gt__(self, other):
        return self.__common_cmp__(other, operator.gt)

    def __lt__(self, other):
        return self.__common_cmp__(other, operator.lt)

    def __str__(self):
        if self.bound is not None:
            return repr(self)
        return str(self.point)

    def contains_point(self, point):
        if self.bound is None:
            raise ValueError("Point cannot exist inside an unbounded cell.")
        if isinstance(point, Cell):
            raise TypeError("Unexpected point type")
        if isinstance(point, iris.time.PartialDateTime):
            lo, hi = min(self.bound), max(self.bound)
            return (point > lo or point == lo) and (point < hi or point == hi)
        return np.min(self.bound) <= point <= np.max(self.bound)


class Coord(_DimensionalMetadata):
    def __init__(
        self,
        points,
        standard_name=None,
        long_name=None,
        var_name=None,
        units=None,
        bounds=None,
        attributes=None,
        coord_system=None,
        climatological=False,
    ):
        super().__init__(
            values=points,
            standard_name=standard_name,
            long_name=long_name,
            var_name=var_name,
            units=units,
            attributes=attributes,
        )
        self.coord_system = coord_system
        self._bnds = None
        self.bounds = bounds
        self.climatological = climatological

    def copy(self, points=None, bounds=None):
        if points is None and bounds is not None:
            raise ValueError(
                "If bounds are specified, points must also be specified"
            )
        new = super().copy(values=None)
        new._bnds = None if self._bnds is None else self._bnds.copy()
        if isinstance(self, DimCoord):
            new._lock()
        if points is not None:
            # regardless of whether bounds are provided as an argument, new
            # points will result in new bounds, discarding those copied.
            new._bnds = None
            del new.__dict__["_vals"]
            new.points = points
            new.bounds = bounds
        return new

    def _lock(self):
        pass

    @property
    def points(self):
        return self._values

    @points.setter
    def points(self, points):
        self._values = points

    @property
    def bounds(self):
        if self._bnds is None:
            return None
        if _lazy.is_lazy_data(self._bnds):
            self._bnds = _lazy.as_concrete_data(self._bnds)
        return self._bnds.view()

    @bounds.setter
    def bounds(self, bounds):
        if bounds is None:
            self._bnds = None
        else:
            bounds = _sanitise_array(bounds, 2)
            if self.shape != bounds.shape[:-1]:
                raise ValueError(
                    "Bounds shape must be compatible with points shape."
                )
            self._bnds = bounds

    def core_points(self):
        return self._core_values()

    def core_bounds(self):
        return self.bounds

    def lazy_points(self):
        return _lazy.as_lazy_data(self._vals)

    def lazy_bounds(self):
        return None if self._bnds is None else _lazy.as_lazy_data(self._bnds)

    def has_lazy_points(self):
        return _lazy.is_lazy_data(self._vals)

    def has_lazy_bounds(self):
        return self._bnds is not None and _lazy.is_lazy_data(self._bnds)

    def has_bounds(self):
        return self._bnds is not None

    @property
    def bounds_dtype(self):
        return None if self._bnds is None else self._bnds.dtype

    @property
    def nbounds(self):
        return 0 if self._bnds is None else self._bnds.shape[-1]

    @property
    def climatological(self):
        return self._climatological and self.has_bounds()

    @climatological.setter
    def climatological(self, value):
        if value:
            if not self.units.is_time_reference():
                raise TypeError(
                    "Cannot set climatological coordinate, does not have valid time reference units"
                )
            if not self.has_bounds():
                raise ValueError("Cannot set climatological coordinate, no bounds exist.")
        self._climatological = bool(value)

    @property
    def metadata(self):
        return CoordMetadata(
            self.standard_name,
            self.long_name,
            self.var_name,
            self.units,
            self.attributes,
            self.coord_system,
            self.climatological,
        )

    _as_defn = metadata

    def __getitem__(self, keys):
        points = self._vals
        bounds = self._bnds
        if keys != () and keys != Ellipsis:
            _, (points,) = iris.util._index(points, keys)
            if bounds is not None:
                key_t = keys if isinstance(keys, tuple) else (keys,)
                _, (bounds,) = iris.util._index(bounds, key_t + (Ellipsis,))
        points = points.copy()
        if bounds is not None:
            bounds = bounds.copy()
            if points.ndim == 0 and bounds.ndim == 1:
                bounds = bounds.reshape((1,) + bounds.shape)
        new = self.copy(points=np.atleast_1d(points) if not _lazy.is_lazy_data(points) else points, bounds=bounds)
        return new

    def __eq__(self, other):
        if hasattr(other, "metadata") and hasattr(other, "points"):
            eq = self.metadata.__eq__(other.metadata)
            if eq is NotImplemented:
                # DimCoord vs AuxCoord: compare on the shared members
                a, b = self.metadata, other.metadata
                shared = [f for f in a._fields if f in b._fields]
                eq = all(
                    iris.util.attrs_equal(getattr(a, f), getattr(b, f))
                    if f == "attributes"
                    else getattr(a, f) == getattr(b, f)
                    for f in shared
                ) 
            if eq:
                eq = iris.util.array_equal(self.points, other.points, withnans=True)
            if eq:
                if self.has_bounds() or other.has_bounds():
                    eq = (
                        self.has_bounds()
                        and other.has_bounds()
                        and iris.util.array_equal(self.bounds, other.bounds, withnans=True)
                    )
            return bool(eq)
        return NotImplemented

    def __ne__(self, other):
        result = self.__eq__(other)
        if result is not NotImplemented:
            result = not result
        return result

    __hash__ = _DimensionalMetadata.__hash__

    def __binary_operator__(self, other, mode_constant):
        if isinstance(other, Coord):
            raise iris.exceptions.NotYetImplementedError("coord %s coord" % mode_constant)
        if not isinstance(other, (int, float, np.number)):
            return NotImplemented
        ops = {
            "add": lambda v: v + other,
            "sub": lambda v: v - other,
            "mul": lambda v: v * other,
            "div": lambda v: v / other,
            "rdiv": lambda v: other / v,
        }
        op = ops[mode_constant]
        points = op(self.points)
        bounds = op(self.bounds) if self.has_bounds() else None
        return self.copy(points, bounds)

    def __add__(self, other):
        return self.__binary_operator__(other, "add")

    __radd__ = __add__

    def __sub__(self, other):
        return self.__binary_operator__(other, "sub")

    def __rsub__(self, other):
        return (-self) + other

    def __mul__(self, other):
        return self.__binary_operator__(other, "mul")

    __rmul__ = __mul__

    def __truediv__(self, other):
        return self.__binary_operator__(other, "div")

    def __rtruediv__(self, other):
        return self.__binary_operator__(other, "rdiv")

    def __neg__(self):
        return self.copy(-self.points, -self.bounds if self.has_bounds() else None)

    def convert_units(self, unit):
        if self.units.is_unknown():
            raise iris.exceptions.UnitConversionError(
                'Cannot convert from unknown units. The "units" attribute may be set directly.'
            )
        new_points = self.units.convert(self.points, unit)
        new_bounds = self.units.convert(self.bounds, unit) if self.has_bounds() else None
        # points and bounds are replaced together
        self._bnds = None
        self.points = new_points
        if new_bounds is not None:
            self.bounds = new_bounds
        self.units = unit

    def cells(self):
        return _CellIterator(self)

    def cell(self, index):
        index = iris.util._build_full_slice_given_keys(index, self.ndim)
        point = tuple(np.array(self.points[index], ndmin=1).flatten())
        if len(point) != 1:
            raise IndexError(
                "The index %s did not uniquely identify a single point to create a cell with."
                % (index,)
            )
        point = point[0]
        bound = None
        if self.has_bounds():
            bound = tuple(np.array(self.bounds[index], ndmin=1).flatten())
        if self.units.is_time_reference():
            point = self.units.num2date(point)
            if bound is not None:
                bound = tuple(self.units.num2date(np.array(bound)))
        return Cell(point, bound)

    def index(self, cell):
        raise iris.exceptions.IrisError("Coord.index() is no longer available.")

    def is_monotonic(self):
        if self.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(self)
        if self.shape == (1,):
            return True
        if self.points is not None and not iris.util.monotonic(self.points, strict=True):
            return False
        if self.has_bounds():
            for b in range(self.nbounds):
                if not iris.util.monotonic(self.bounds[..., b], strict=True):
                    return False
        return True

    def _sanity_check_bounds(self):
        if self.ndim == 1:
            if self.nbounds not in (0, 2):
                raise ValueError(
                    "Invalid operation for {!r}, with {} bounds. Contiguous bounds are only "
                    "defined for 1D coordinates with 2 bounds.".format(self.name(), self.nbounds)
                )
        elif self.ndim == 2:
            if self.nbounds != 4:
                raise ValueError("Invalid operation for {!r}".format(self.name()))
        else:
            raise ValueError("Invalid operation for {!r}".format(self.name()))

    def is_contiguous(self, rtol=1e-05, atol=1e-08):
        if self.has_bounds():
            self._sanity_check_bounds()
            if self.ndim == 1:
                return bool(
                    np.allclose(self.bounds[1:, 0], self.bounds[:-1, 1], rtol=rtol, atol=atol)
                )
            return False
        return False

    def contiguous_bounds(self):
        if not self.has_bounds():
            if self.ndim == 1:
                warnings.warn("Coordinate {!r} is not bounded, guessing contiguous bounds.".format(self.name()))
                bounds = self._guess_bounds()
            else:
                raise ValueError("Cannot guess bounds")
        else:
            self._sanity_check_bounds()
            bounds = self.bounds
        c_bounds = np.resize(bounds[:, 0], bounds.shape[0] + 1)
        c_bounds[-1] = bounds[-1, 1]
        return c_bounds

    def is_compatible(self, other, ignore=None):
        compatible = self.name() == other.name() and self.units == other.units
        if compatible:
            common_keys = set(self.attributes).intersection(other.attributes)
            if ignore is not None:
                if isinstance(ignore, str):
                    ignore = (ignore,)
                common_keys = common_keys.difference(ignore)
            for key in common_keys:
                if np.any(self.attributes[key] != other.attributes[key]):
                    compatible = False
                    break
            compatible = compatible and self.coord_system == other.coord_system
        return compatible

    def collapsed(self, dims_to_collapse=None):
        if isinstance(dims_to_collapse, (int, np.integer)):
            dims_to_collapse = [dims_to_collapse]
        if np.issubdtype(self.dtype, np.str_):

            def serialize(x):
                return "|".join([str(i) for i in x.flatten()])

            bounds = None
            if self.has_bounds():
                bounds = np.array([[serialize(self.bounds[..., i]) for i in range(self.nbounds)]])
            points = np.array([serialize(self.points)])
            return self.copy(points=points, bounds=bounds)
        if self.ndim > 1:
            warnings.warn(
                "Collapsing a multi-dimensional coordinate. Metadata may not be fully "
                "descriptive for {!r}.".format(self.name())
            )
        else:
            try:
                self._sanity_check_bounds()
            except ValueError as exc:
                warnings.warn(
                    "Cannot check if coordinate is contiguous: {} Metadata may not be fully "
                    "descriptive for {!r}. Ignoring bounds.".format(str(exc), self.name())
                )
                self.bounds = None
            else:
                if not self.is_contiguous():
                    warnings.warn(
                        "Collapsing a non-contiguous coordinate. Metadata may not be fully "
                        "descriptive for {!r}.".format(self.name())
                    )
        if self.has_bounds():
            item = self.bounds
            if dims_to_collapse is not None:
                dims_to_collapse = tuple(dim % self.ndim for dim in dims_to_collapse) + (-1,)
        else:
            item = self.points
        if dims_to_collapse is not None:
            dims_to_collapse = tuple(dims_to_collapse)
        bounds = np.stack(
            [item.min(axis=dims_to_collapse), item.max(axis=dims_to_collapse)], axis=-1
        )
        points = np.array(bounds.sum(axis=-1) * 0.5, dtype=self.dtype)
        return self.copy(points=points, bounds=bounds)

    def _guess_bounds(self, bound_position=0.5):
        if self.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(self)
        if self.shape[0] < 2:
            raise ValueError("Cannot guess bounds for a coordinate of length 1.")
        if self.has_bounds():
            raise ValueError("Coord already has bounds. Remove the bounds before guessing new ones.")
        if getattr(self, "circular", False):
            points = np.empty(self.points.shape[0] + 2)
            points[1:-1] = self.points
            direction = 1 if self.points[-1] > self.points[0] else -1
            points[0] = self.points[-1] - (self.units.modulus * direction)
            points[-1] = self.points[0] + (self.units.modulus * direction)
            diffs = np.diff(points)
        else:
            diffs = np.diff(self.points)
            diffs = np.insert(diffs, 0, diffs[0])
            diffs = np.append(diffs, diffs[-1])
        min_bounds = self.points - diffs[:-1] * bound_position
        max_bounds = self.points + diffs[1:] * (1 - bound_position)
        bounds = np.array([min_bounds, max_bounds]).transpose()
        if (
            self.name() in ("latitude", "grid_latitude")
            and self.units == "degree"
        ):
            points = self.points
            if (points >= -90).all() and (points <= 90).all():
                np.clip(bounds, -90, 90, out=bounds)
        return bounds

    def guess_bounds(self, bound_position=0.5):
        self.bounds = self._guess_bounds(bound_position)

    def intersect(self, other, return_indices=False):
        if not self.is_compatible(other):
            raise ValueError("The coordinates are not compatible")
        self_cells = [cell for cell in self.cells()]
        other_cells = [cell for cell in other.cells()]
        self_intersect_indices = [i for i, c in enumerate(self_cells) if c in other_cells]
        if not self_intersect_indices:
            raise ValueError("No intersection between %s coords possible." % self.name())
        self_intersect_indices = np.array(self_intersect_indices)
        if return_indices:
            return self_intersect_indices
        return self[self_intersect_indices]

    def nearest_neighbour_index(self, point):
        points = self.points
        bounds = self.bounds if self.has_bounds() else np.array([])
        if self.ndim != 1:
            raise ValueError("Nearest-neighbour is currently limited to one-dimensional coordinates.")
        do_circular = getattr(self, "circular", False)
        if do_circular:
            wrap_modulus = self.units.modulus
            wrap_origin = 0
            points = points % wrap_modulus
            point = point % wrap_modulus
        if len(bounds) and not do_circular:
            # use bounds if they enclose the point
            inside = (bounds.min(axis=1) <= point) & (bounds.max(axis=1) >= point)
            if inside.any():
                inds = np.where(inside)[0]
                return int(inds[np.argmin(np.abs(points[inds] - point))])
        diffs = np.abs(points - point)
        if do_circular:
            diffs = np.minimum(diffs, wrap_modulus - diffs)
        return int(np.argmin(diffs))

    def summary(self, *args, **kwargs):
        return str(self)

    def _repr_other_metadata(self):
        fmt = ""
        if self.long_name:
            fmt = ", long_name={!r}".format(self.long_name)
        if self.var_name:
            fmt += ", var_name={!r}".format(self.var_name)
        if len(self.attributes) > 0:
            fmt += ", attributes={}".format(dict(self.attributes))
        if self.coord_system:
            fmt += ", coord_system={}".format(self.coord_system)
        if self.climatological:
            fmt += ", climatological={}".format(self.climatological)
        return fmt

    def __str__(self):
        if self.units.is_time_reference():
            pts = self.units.num2date(self.points)
            b = "" if self.bounds is None else ", bounds={}".format(self.units.num2date(self.bounds))
            fmt = "{cls}({points}{bounds}, standard_name={sn!r}, calendar={cal!r}{other})"
            return fmt.format(
                cls=type(self).__name__,
                points=pts,
                bounds=b,
                sn=self.standard_name,
                cal=self.units.calendar,
                other=self._repr_other_metadata(),
            )
        return repr(self)

    def __repr__(self):
        return "{}({!r}{}, standard_name={!r}, units={!r}{})".format(
            type(self).__name__,
            self.points,
            "" if self.bounds is None else ", bounds=" + repr(self.bounds),
            self.standard_name,
            self.units,
            self._repr_other_metadata(),
        )

    def xml_element(self):
        return _coord_xml(self)


def _coord_xml(coord):
    def arr(a):
        return "%s%s%s" % (a.dtype, a.shape, a.tolist())

    m = coord.metadata
    return "<%s %s pts=%s bnds=%s>" % (
        type(coord).__name__,
        [
            (f, sorted((k, repr(v)) for k, v in getattr(m, f).items()) if f == "attributes" else str(getattr(m, f)))
            for f in m._fields
        ],
        arr(coord.points),
        arr(coord.bounds) if coord.has_bounds() else None,
    )


class DimCoord(Coord):
    def __init__(
        self,
        points,
        standard_name=None,
        long_name=None,
        var_name=None,
        units=None,
        bounds=None,
        attributes=None,
        coord_system=None,
        circular=False,
        climatological=False,
    ):
        super().__init__(
            points,
            standard_name=standard_name,
            long_name=long_name,
            var_name=var_name,
            units=units,
            bounds=bounds,
            attributes=attributes,
            coord_system=coord_system,
            climatological=climatological,
        )
        self.circular = bool(circular)

    @classmethod
    def from_regular(cls, zeroth, step, count, **kwargs):
        with_bounds = kwargs.pop("with_bounds", False)
        points = (zeroth + step) + step * np.arange(count, dtype=np.float32)
        coord = cls(points, **kwargs)
        if with_bounds:
            delta = 0.5 * step
            coord.bounds = np.concatenate([[points - delta], [points + delta]]).T
        return coord

    @property
    def metadata(self):
        return DimCoordMetadata(
            self.standard_name,
            self.long_name,
            self.var_name,
            self.units,
            self.attributes,
            self.coord_system,
            self.climatological,
            self.circular,
        )

    def _lock(self):
        if isinstance(self._vals, np.ndarray):
            self._vals.flags.writeable = False
        if isinstance(self._bnds, np.ndarray):
            self._bnds.flags.writeable = False

    def _new_points_requirements(self, points):
        if points.ndim not in (0, 1):
            raise ValueError("The {!r} DimCoord points array must be 1-dimensional.".format(self.name()))
        if not np.issubdtype(points.dtype, np.number):
            raise ValueError("The {!r} DimCoord points array must be numeric.".format(self.name()))
        if ma.is_masked(points):
            raise TypeError("A {!r} DimCoord points array must not be masked.".format(self.name()))
        if points.size > 1 and not iris.util.monotonic(points, strict=True):
            raise ValueError("The {!r} DimCoord points array must be strictly monotonic.".format(self.name()))

    @property
    def _values(self):
        return _DimensionalMetadata._values.fget(self)

    @_values.setter
    def _values(self, values):
        values = np.array(_lazy.as_concrete_data(values), ndmin=1, copy=True) if not ma.isMaskedArray(values) else ma.array(values, ndmin=1)
        self._new_points_requirements(values)
        if ma.isMaskedArray(values):
            values = values.data.copy()
        _DimensionalMetadata._values.fset(self, values)
        self._vals.flags.writeable = False

    @property
    def bounds(self):
        return Coord.bounds.fget(self)

    @bounds.setter
    def bounds(self, bounds):
        if bounds is not None:
            if ma.is_masked(bounds):
                raise TypeError("A {!r} DimCoord bounds array must not be masked.".format(self.name()))
            bounds = np.array(_lazy.as_concrete_data(bounds), ndmin=2, copy=True)
            if bounds.shape[:-1] != self.shape:
                raise ValueError(
                    "The shape of the {!r} DimCoord bounds array should be points.shape + (n_bounds,)".format(
                        self.name()
                    )
                )
            if not np.issubdtype(bounds.dtype, np.number):
                raise ValueError("The {!r} DimCoord bounds array must be numeric.".format(self.name()))
            n_points = bounds.shape[0]
            if n_points > 1:
                directions = set()
                for b_index in range(bounds.shape[1]):
                    mono, direction = iris.util.monotonic(
                        bounds[:, b_index], strict=True, return_direction=True
                    )
                    if not mono:
                        raise ValueError(
                            "The {!r} DimCoord bounds array must be strictly monotonic.".format(
                                self.name()
                            )
                        )
                    directions.add(direction)
                if len(directions) != 1:
                    raise ValueError(
                        "The direction of monotonicity for {!r} must be consistent across all "
                        "bounds".format(self.name())
                    )
        Coord.bounds.fset(self, bounds)
        if self._bnds is not None:
            self._bnds.flags.writeable = False

    def collapsed(self, dims_to_collapse=None):
        coord = Coord.collapsed(self, dims_to_collapse=dims_to_collapse)
        if self.circular and self.units.modulus is not None:
            bnds = coord.bounds.copy()
            bnds[0, 1] = coord.bounds[0, 0] + self.units.modulus
            coord.bounds = bnds
            coord.points = np.array(np.sum(coord.bounds) * 0.5, dtype=self.points.dtype)
            coord.circular = False
        return coord

    def __getitem__(self, key):
        coord = super().__getitem__(key)
        coord.circular = self.circular and coord.shape == self.shape
        return coord

    def is_monotonic(self):
        return True

    def _repr_other_metadata(self):
        result = Coord._repr_other_metadata(self)
        if self.circular:
            result += ", circular=%r" % self.circular
        return result


class AuxCoord(Coord):
    pass


# A DimCoord that fails its requirements on indexing becomes an AuxCoord in
# cube indexing; see Cube.__getitem__.


class CellMethod:
    def __init__(self, method, coords=None, intervals=None, comments=None):
        if not isinstance(method, str):
            raise TypeError("'method' must be a string - got a '%s'" % type(method))
        default_name = CFVariableMixin.DEFAULT_NAME
        _coords = []
        if coords is None:
            pass
        elif isinstance(coords, Coord):
            _coords.append(coords.name(token=True))
        elif isinstance(coords, str):
            _coords.append(coords or default_name)
        else:
            for coord in coords:
                if isinstance(coord, Coord):
                    _coords.append(coord.name(token=True))
                else:
                    _coords.append(coord or default_name)

        def tup(x):
            if x is None:
                return ()
            if isinstance(x, str):
                return (x,)
            return tuple(x)

        self.method = method
        self.coord_names = tuple(_coords)
        self.intervals = tup(intervals)
        self.comments = tup(comments)

    def _tuple(self):
        return (self.method, self.coord_names, self.intervals, self.comments)

    def __eq__(self, other):
        if not isinstance(other, CellMethod):
            return NotImplemented
        return self._tuple() == other._tuple()

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __lt__(self, other):
        return self._tuple() < other._tuple()

    def __le__(self, other):
        return self._tuple() <= other._tuple()

    def __gt__(self, other):
        return self._tuple() > other._tuple()

    def __ge__(self, other):
        return self._tuple() >= other._tuple()

    def __hash__(self):
        return hash(str(self))

    def __str__(self):
        parts = []
        for i, coord in enumerate(self.coord_names):
            other_info = [x for x in (
                self.intervals[i] if i < len(self.intervals) else None,
                self.comments[i] if i < len(self.comments) else None,
            ) if x]
            parts.append(
                "%s (%s)" % (coord, ", ".join(other_info)) if other_info else coord
            )
        return "%s: %s" % (self.method, ", ".join(parts))

    def __repr__(self):
        return "CellMethod(method={!r}, coord_names={!r}, intervals={!r}, comments={!r})".format(
            self.method, self.coord_names, self.intervals, self.comments
        )


class _CellIterator(Iterator):
    def __init__(self, coord):
        self._coord = coord
        if coord.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(coord)
        self._indices = iter(range(coord.shape[0]))

    def __next__(self):
        i = next(self._indices)
        return self._coord.cell(i)

    next = __next__
