"""Constraints of the iris API stand-in."""
import operator
from collections.abc import Iterable, Mapping

import numpy as np

import iris.coords
import iris.exceptions


class Constraint:
    def __init__(self, name=None, cube_func=None, coord_values=None, **kwargs):
        if not (name is None or isinstance(name, str)):
            raise TypeError("name must be None or string, got %r" % name)
        if not (cube_func is None or callable(cube_func)):
            raise TypeError("cube_func must be None or callable, got %r" % cube_func)
        if not (coord_values is None or isinstance(coord_values, Mapping)):
            raise TypeError("coord_values must be None or a collections.Mapping, got %r" % coord_values)
        coord_values = coord_values or {}
        duplicate_keys = set(coord_values.keys()) & set(kwargs.keys())
        if duplicate_keys:
            raise ValueError("Duplicate coordinate conditions specified for: %s" % (list(duplicate_keys),))
        self._name = name
        self._cube_func = cube_func
        self._coord_values = dict(coord_values)
        self._coord_values.update(kwargs)
        self._coord_constraints = [
            _CoordConstraint(coord_name, coord_thing)
            for coord_name, coord_thing in self._coord_values.items()
        ]

    def __repr__(self):
        args = []
        if self._name:
            args.append(("name", self._name))
        if self._cube_func:
            args.append(("cube_func", self._cube_func))
        if self._coord_values:
            args.append(("coord_values", self._coord_values))
        return "Constraint(%s)" % ", ".join("%s=%r" % (k, v) for k, v in args)

    def _coordless_match(self, cube):
        match = True
        if self._name:
            match = self._name in _cube_names(cube)
        if match and self._cube_func:
            match = self._cube_func(cube)
        return match

    def extract(self, cube):
        resultant_CIM = self._CIM_extract(cube)
        slice_tuple = resultant_CIM.as_slice()
        result = None
        if slice_tuple == ():
            result = cube
        elif slice_tuple is not None:
            result = cube[slice_tuple]
        return result

    def _CIM_extract(self, cube):
        resultant_CIM = _ColumnIndexManager(len(cube.shape))
        if not self._coordless_match(cube):
            resultant_CIM.all_false()
        else:
            for coord_constraint in self._coord_constraints:
                resultant_CIM = resultant_CIM & coord_constraint.extract(cube)
        return resultant_CIM

    def __and__(self, other):
        return ConstraintCombination(self, other, operator.__and__)

    def __rand__(self, other):
        return ConstraintCombination(other, self, operator.__and__)


def _cube_names(cube):
    return (cube.standard_name, cube.long_name, cube.var_name, cube.name())


class ConstraintCombination(Constraint):
    def __init__(self, lhs, rhs, operator):
        try:
            lhs_constraint = as_constraint(lhs)
            rhs_constraint = as_constraint(rhs)
        except TypeError:
            raise TypeError("Can only combine Constraint instances, got: %s and %s" % (type(lhs), type(rhs)))
        self.lhs = lhs_constraint
        self.rhs = rhs_constraint
        self.operator = operator
        self._coord_values = {}

    def _coordless_match(self, cube):
        return self.operator(self.lhs._coordless_match(cube), self.rhs._coordless_match(cube))

    def __repr__(self):
        return "ConstraintCombination(%r, %r, %r)" % (self.lhs, self.rhs, self.operator)

    def _CIM_extract(self, cube):
        return self.operator(self.lhs._CIM_extract(cube), self.rhs._CIM_extract(cube))


class _CoordConstraint:
    def __init__(self, coord_name, coord_thing):
        self.coord_name = coord_name
        self._coord_thing = coord_thing

    def __repr__(self):
        return "_CoordConstraint(%r, %r)" % (self.coord_name, self._coord_thing)

    def extract(self, cube):
        cube_cim = _ColumnIndexManager(len(cube.shape))
        try:
            coord = cube.coord(self.coord_name)
        except iris.exceptions.CoordinateNotFoundError:
            cube_cim.all_false()
            return cube_cim
        dims = cube.coord_dims(coord)
        if len(dims) > 1:
            raise iris.exceptions.CoordinateMultiDimError(
                "Cannot apply constraints to multidimensional coordinates"
            )
        try_quick = False
        if callable(self._coord_thing):
            call_func = self._coord_thing
        elif isinstance(self._coord_thing, Iterable) and not isinstance(
            self._coord_thing, (str, iris.coords.Cell)
        ):
            desired_values = list(self._coord_thing)
            # A dramatic speedup can be had if we don't have bounds.
            if coord.has_bounds():

                def call_func(cell):
                    return cell in desired_values

            else:

                def call_func(cell):
                    return cell.point in desired_values

        else:

            def call_func(c):
                return c == self._coord_thing

            try_quick = isinstance(coord, iris.coords.DimCoord) and not isinstance(
                self._coord_thing, iris.coords.Cell
            )
        r = np.array([bool(call_func(cell)) for cell in coord.cells()])
        if dims:
            cube_cim[dims[0]] = r
        elif not all(r):
            cube_cim.all_false()
        return cube_cim


class _ColumnIndexManager:
    def __init__(self, ndims):
        self._column_arrays = [True] * ndims
        self.ndims = ndims
        self._false = False

    def __repr__(self):
        return "<_ColumnIndexManager: %s>" % self._column_arrays

    def all_false(self):
        for i in range(self.ndims):
            self[i] = False
        self._false = True

    def __and__(self, other):
        if self.ndims != other.ndims:
            raise ValueError("Cannot merge two ColumnIndexManagers with different dimensions")
        r = _ColumnIndexManager(self.ndims)
        r._false = self._false or other._false
        for i in range(self.ndims):
            if isinstance(self[i], bool) and isinstance(other[i], bool):
                r[i] = self[i] and other[i]
            else:
                r[i] = self[i] & other[i]
        return r

    def __getitem__(self, key):
        return self._column_arrays[key]

    def __setitem__(self, key, value):
        self._column_arrays[key] = value

    def as_slice(self):
        result = [None] * self.ndims
        if self._false:
            return None
        for dim, dimension_array in enumerate(self._column_arrays):
            # If dimension_array has not been set, span the entire dimension
            if isinstance(dimension_array, np.ndarray):
                where_true = np.where(dimension_array)[0]
                # If the array had no True values in it, then the dimension is equivalent to False
                if len(where_true) == 0:
                    return None
                # If there was exactly one match, the key should be an integer
                if where_true.shape == (1,):
                    result[dim] = int(where_true[0])
                else:
                    # Finally, we can either provide a slice if possible, or a tuple of indices which match.
                    delta = np.diff(where_true, axis=0)
                    # if the diff is consistent we can create a slice object
                    if all(delta[0] == delta):
                        result[dim] = slice(int(where_true[0]), int(where_true[-1]) + 1, int(delta[0]))
                    else:
                        result[dim] = tuple(int(w) for w in where_true)
            else:
                if dimension_array is False:
                    return None
                result[dim] = slice(None, None)
        if all(r == slice(None, None) for r in result if isinstance(r, slice)) and all(
            isinstance(r, slice) for r in result
        ):
            return ()
        return tuple(result)


def list_of_constraints(constraints):
    if not isinstance(constraints, (list, tuple)):
        constraints = [constraints]
    return [as_constraint(constraint) for constraint in constraints]


def as_constraint(thing):
    if isinstance(thing, Constraint):
        return thing
    elif thing is None:
        return Constraint()
    elif isinstance(thing, str):
        return Constraint(thing)
    raise TypeError("Cannot cast %s to a constraint." % type(thing))


class AttributeConstraint(Constraint):
    def __init__(self, **attributes):
        self._attributes = attributes
        super().__init__(cube_func=self._cube_func_attr)

    def _cube_func_attr(self, cube):
        match = True
        for name, value in self._attributes.items():
            if name in cube.attributes:
                cube_attr = cube.attributes.get(name)
                if callable(value):
                    if not value(cube_attr):
                        match = False
                        break
                else:
                    if cube_attr != value:
                        match = False
                        break
            else:
                match = False
                break
        return match

    def __repr__(self):
        return "AttributeConstraint(%r)" % self._attributes


class NameConstraint(Constraint):
    def __init__(self, standard_name="none", long_name="none", var_name="none", STASH="none"):
        self._want = {
            k: v
            for k, v in dict(
                standard_name=standard_name, long_name=long_name, var_name=var_name
            ).items()
            if v != "none"
        }
        super().__init__(cube_func=self._match)

    def _match(self, cube):
        for k, v in self._want.items():
            actual = getattr(cube, k)
            if callable(v):
                if not v(actual):
                    return False
            elif actual != v:
                return False
        return True
