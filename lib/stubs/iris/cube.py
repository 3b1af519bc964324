"""Cube and CubeList of the iris API stand-in (behaviour of iris 3.0)."""
import copy as _copy
import itertools
import operator
import warnings
from collections import OrderedDict
from collections.abc import Container, Iterable, Iterator, MutableMapping
from functools import reduce

import cf_units
import numpy as np
import numpy.ma as ma

import iris._constraints
import iris.coords
import iris.exceptions
import iris.util
from iris import _lazy_data as _lazy
from iris._metadata import CFVariableMixin, CubeMetadata, LimitedAttributeDict, copy_attrs


class CubeList(list):
    def __new__(cls, list_of_cubes=None):
        cube_list = list.__new__(cls, list_of_cubes)
        return cube_list

    def __init__(self, list_of_cubes=None):
        super().__init__(list_of_cubes if list_of_cubes is not None else [])

    def __str__(self):
        result = ["%s: %s" % (i, cube.summary(shorten=True)) for i, cube in enumerate(self)]
        if result:
            result = "\n".join(result)
        else:
            result = "< No cubes >"
        return result

    def __repr__(self):
        return "[%s]" % ",\n".join([repr(cube) for cube in self])

    def __add__(self, other):
        return CubeList(list.__add__(self, other))

    def __getitem__(self, keys):
        result = super().__getitem__(keys)
        if isinstance(result, list):
            result = CubeList(result)
        return result

    def copy(self):
        return CubeList(list(self))

    def is_compatible(self, other, ignore=None):
        compatible = (
            self.name() == other.name()
            and self.units == other.units
            and self.cell_methods == other.cell_methods
        )
        if compatible:
            keys = set(self.attributes) & set(other.attributes)
            if ignore is not None:
                keys -= {ignore} if isinstance(ignore, str) else set(ignore)
            compatible = all(np.all(self.attributes[k] == other.attributes[k]) for k in keys)
        return compatible

    def xml(self, checksum=False, order=True, byteorder=True):
        return "\n".join(c.xml(checksum, order, byteorder) for c in self)

    def extract(self, constraints, strict=False):
        if strict:
            return self.extract_cubes(constraints)
        return self._extract_and_merge(self, constraints, strict=None, return_single_cube=False)

    def extract_cube(self, constraint):
        return self._extract_and_merge(self, constraint, strict=True, return_single_cube=True)

    def extract_cubes(self, constraints):
        return self._extract_and_merge(self, constraints, strict=True, return_single_cube=False)

    def extract_strict(self, constraints):
        constraints = iris._constraints.list_of_constraints(constraints)
        return self._extract_and_merge(
            self, constraints, strict=True, return_single_cube=len(constraints) == 1
        )

    @staticmethod
    def _extract_and_merge(cubes, constraints, strict=False, return_single_cube=False):
        constraints = iris._constraints.list_of_constraints(constraints)
        groups = [(c, CubeList()) for c in constraints]
        for cube in cubes:
            for c, sub in groups:
                sub_cube = c.extract(cube)
                if sub_cube is not None:
                    sub.append(sub_cube)
        result = CubeList()
        for constraint, cubelist in groups:
            constraint_cubes = cubelist
            if strict and len(constraint_cubes) != 1:
                if len(constraint_cubes) == 0:
                    msg = "Got 0 cubes for constraint {!r}, expecting 1.".format(constraint)
                else:
                    msg = "Got {} cubes for constraint {!r}, expecting 1.".format(
                        len(constraint_cubes), constraint
                    )
                raise iris.exceptions.ConstraintMismatchError(msg)
            result.extend(constraint_cubes)
        if return_single_cube:
            if len(result) != 1:
                raise iris.exceptions.ConstraintMismatchError(
                    "Got {!s} cubes for constraints {!r}, expecting 1.".format(
                        len(result), constraints
                    )
                )
            result = result[0]
        return result

    def merge_cube(self):
        from iris._merge import merge_cube

        return merge_cube(self)

    def merge(self, unique=True):
        from iris._merge import merge

        return merge(self, unique=unique)

    def concatenate_cube(self, check_aux_coords=True):
        from iris._concatenate import concatenate

        if not self:
            raise ValueError("can't concatenate an empty CubeList")
        res, msgs = concatenate(self, error_on_mismatch=True)
        if len(res) == 1:
            return res[0]
        names = {c.name() for c in self}
        if len(names) != 1:
            msgs = ["Cube names differ: {}".format(sorted(names))]
        raise iris.exceptions.ConcatenateError(
            msgs or ["An unexpected problem prevented concatenation."]
        )

    def concatenate(self, check_aux_coords=True):
        from iris._concatenate import concatenate

        return concatenate(self)[0]

    def realise_data(self):
        for c in self:
            c.data


class Cube(CFVariableMixin):
    __array_priority__ = 100
    __hash__ = None

    def __init__(
        self,
        data,
        standard_name=None,
        long_name=None,
        var_name=None,
        units=None,
        attributes=None,
        cell_methods=None,
        dim_coords_and_dims=None,
        aux_coords_and_dims=None,
        aux_factories=None,
        cell_measures_and_dims=None,
        ancillary_variables_and_dims=None,
    ):
        if isinstance(data, str):
            raise TypeError("Invalid data type: {!r}.".format(data))
        if not (isinstance(data, np.ndarray) or _lazy.is_lazy_data(data)):
            data = np.asarray(data)
        self._data = data
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units
        self.cell_methods = cell_methods
        self.attributes = attributes
        self._dim_coords_and_dims = []
        self._aux_coords_and_dims = []
        self._cell_measures_and_dims = []
        self._ancillary_variables_and_dims = []
        self._aux_factories = []
        identities = set()
        if dim_coords_and_dims:
            dims = set()
            for coord, dim in dim_coords_and_dims:
                identity = coord.standard_name, coord.long_name
                if identity not in identities and dim not in dims:
                    self._add_unique_dim_coord(coord, dim)
                    dims.add(dim)
                else:
                    self.add_dim_coord(coord, dim)
                identities.add(identity)
        if aux_coords_and_dims:
            for coord, dims in aux_coords_and_dims:
                identity = coord.standard_name, coord.long_name
                if identity not in identities:
                    self._add_unique_aux_coord(coord, dims)
                else:
                    self.add_aux_coord(coord, dims)
                identities.add(identity)
        for cm, dims in cell_measures_and_dims or []:
            self.add_cell_measure(cm, dims)
        for av, dims in ancillary_variables_and_dims or []:
            self.add_ancillary_variable(av, dims)

    # ------------------------------------------------------------ metadata
    @property
    def metadata(self):
        return CubeMetadata(
            self.standard_name,
            self.long_name,
            self.var_name,
            self.units,
            self.attributes,
            self.cell_methods,
        )

    @metadata.setter
    def metadata(self, value):
        if isinstance(value, CubeMetadata):
            value = value._asdict()
        elif not hasattr(value, "keys"):
            try:
                value = CubeMetadata(*value)._asdict()
            except TypeError:
                raise TypeError("Invalid metadata")
        for k, v in value.items():
            if k == "attributes":
                v = copy_attrs(v)
            setattr(self, k, v)

    def _names(self):
        return (self.standard_name, self.long_name, self.var_name)

    @property
    def cell_methods(self):
        return self._cell_methods

    @cell_methods.setter
    def cell_methods(self, cell_methods):
        if not cell_methods:
            self._cell_methods = ()
        else:
            cell_methods = tuple(cell_methods)
            self._cell_methods = cell_methods

    def add_cell_method(self, cell_method):
        self.cell_methods += (cell_method,)

    # ---------------------------------------------------------------- data
    @property
    def shape(self):
        return self._data.shape

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def ndim(self):
        return self._data.ndim

    @property
    def data(self):
        if _lazy.is_lazy_data(self._data):
            self._data = _lazy.as_concrete_data(self._data)
        return self._data

    @data.setter
    def data(self, data):
        if not (hasattr(data, "shape") or ma.isMaskedArray(data)) or np.isscalar(data):
            data = np.asanyarray(data)
        if isinstance(data, ma.core.MaskedConstant):
            data = ma.array(data.data, mask=data.mask)
        if self.shape != data.shape:
            # The _ONLY_ data reshape permitted is converting a 0-dimensional array i.e. self.shape == () into a 1-dimensional array of length one i.e. data.shape == (1,)
            if self.shape or data.shape != (1,):
                raise ValueError(
                    "Require data with shape {!r}, got {!r}.".format(self.shape, data.shape)
                )
        self._data = data

    def core_data(self):
        return self._data

    def lazy_data(self):
        return _lazy.as_lazy_data(self._data)

    def has_lazy_data(self):
        return _lazy.is_lazy_data(self._data)

    # -------------------------------------------------------------- coords
    @property
    def dim_coords(self):
        return tuple(
            coord
            for coord, dim in sorted(self._dim_coords_and_dims, key=lambda co_di: (co_di[1], co_di[0].name()))
        )

    @property
    def aux_coords(self):
        return tuple(
            coord
            for coord, dims in sorted(
                self._aux_coords_and_dims, key=lambda co_di: (co_di[1], co_di[0].name())
            )
        )

    @property
    def derived_coords(self):
        return ()

    @property
    def aux_factories(self):
        return ()

    def _check_multi_dim(self, data_dims, coord):
        if data_dims is None:
            data_dims = ()
        elif isinstance(data_dims, Container):
            data_dims = tuple(int(d) for d in data_dims)
        else:
            data_dims = (int(data_dims),)
        if data_dims:
            if len(data_dims) != coord.ndim:
                raise iris.exceptions.CannotAddError(
                    ""
                ) if False else ValueError(
                    "Invalid data dimensions: {} given, {} expected for {!r}.".format(
                        len(data_dims), coord.ndim, coord.name()
                    )
                )
            for i, dim in enumerate(data_dims):
                if coord.shape[i] != self.shape[dim]:
                    raise ValueError(
                        "Unequal lengths. Cube dimension {} => {}; metadata {!r} dimension {} => {}.".format(
                            dim, self.shape[dim], coord.name(), i, coord.shape[i]
                        )
                    )
        elif coord.shape != (1,):
            raise ValueError(
                "Missing data dimensions for multi-valued {} {!r}".format(
                    type(coord).__name__, coord.name()
                )
            )
        return data_dims

    def _same_metadata_coords(self, coord):
        return [c for c in self.coords() if c.metadata == coord.metadata or _defn(c) == _defn(coord)]

    def add_aux_coord(self, coord, data_dims=None):
        if self._same_metadata_coords(coord):
            raise ValueError("Duplicate coordinates are not permitted.")
        self._add_unique_aux_coord(coord, data_dims)

    def _add_unique_aux_coord(self, coord, data_dims):
        data_dims = self._check_multi_dim(data_dims, coord)
        self._aux_coords_and_dims.append((coord, data_dims))

    def add_dim_coord(self, dim_coord, data_dim):
        if self._same_metadata_coords(dim_coord):
            raise ValueError(
                "The coordinate already exists on the cube. Duplicate coordinates are not permitted."
            )
        # Check dimension is available
        if isinstance(data_dim, Container):
            if len(data_dim) != 1:
                raise ValueError("The supplied data dimension must be a single number.")
            data_dim = list(data_dim)[0]
        data_dim = int(data_dim)
        if self.coords(dimensions=data_dim, dim_coords=True):
            raise ValueError(
                "A dim_coord is already associated with dimension %d." % data_dim
            )
        self._add_unique_dim_coord(dim_coord, data_dim)

    def _add_unique_dim_coord(self, dim_coord, data_dim):
        if isinstance(data_dim, Container):
            if len(data_dim) != 1:
                raise ValueError("The supplied data dimension must be a single number.")
            data_dim = list(data_dim)[0]
        data_dim = int(data_dim)
        if not isinstance(dim_coord, iris.coords.DimCoord):
            raise ValueError("The coordinate must be an instance of DimCoord, not an AuxCoord.") if False else ValueError(
                "The dim_coord may not be an AuxCoord instance."
            )
        # Check data_dim value is valid
        if data_dim < 0 or data_dim >= self.ndim:
            raise ValueError("The cube does not have the specified dimension (%d)" % data_dim)
        # Check compatibility with the shape of the data
        if dim_coord.shape[0] != self.shape[data_dim]:
            raise ValueError(
                "Unequal lengths. Cube dimension {} => {}; coord {!r} => {}.".format(
                    data_dim, self.shape[data_dim], dim_coord.name(), len(dim_coord.points)
                )
            )
        self._dim_coords_and_dims.append((dim_coord, data_dim))

    def add_cell_measure(self, cm, data_dims=None):
        data_dims = () if data_dims is None else tuple(np.atleast_1d(data_dims))
        self._cell_measures_and_dims.append((cm, data_dims))

    def cell_measures(self, name_or_cell_measure=None):
        return [
            cm
            for cm, _ in self._cell_measures_and_dims
            if name_or_cell_measure is None or cm.name() == name_or_cell_measure
        ]

    def add_ancillary_variable(self, av, data_dims=None):
        data_dims = () if data_dims is None else tuple(int(d) for d in np.atleast_1d(data_dims))
        self._ancillary_variables_and_dims.append((av, data_dims))

    def ancillary_variables(self, name_or_ancillary_variable=None):
        return [
            av
            for av, _ in self._ancillary_variables_and_dims
            if name_or_ancillary_variable is None or av.name() == name_or_ancillary_variable
        ]

    def ancillary_variable(self, name=None):
        avs = self.ancillary_variables(name)
        if len(avs) != 1:
            raise iris.exceptions.AncillaryVariableNotFoundError(name)
        return avs[0]

    def ancillary_variable_dims(self, av):
        for a, d in self._ancillary_variables_and_dims:
            if a is av:
                return d
        raise iris.exceptions.AncillaryVariableNotFoundError(av.name())

    def remove_ancillary_variable(self, av):
        if isinstance(av, str):
            av = self.ancillary_variable(av)
        self._ancillary_variables_and_dims = [
            (a, d) for a, d in self._ancillary_variables_and_dims if a is not av
        ]

    def _remove_coord(self, coord):
        self._dim_coords_and_dims = [
            (c, dim) for c, dim in self._dim_coords_and_dims if c is not coord
        ]
        self._aux_coords_and_dims = [
            (c, dims) for c, dims in self._aux_coords_and_dims if c is not coord
        ]

    def remove_coord(self, coord):
        coord = self.coord(coord)
        self._remove_coord(coord)

    def replace_coord(self, new_coord):
        old_coord = self.coord(new_coord)
        dims = self.coord_dims(old_coord)
        was_dimensioned = any(old_coord is c for c, _ in self._dim_coords_and_dims)
        self._remove_coord(old_coord)
        if was_dimensioned and isinstance(new_coord, iris.coords.DimCoord):
            self.add_dim_coord(new_coord, dims[0])
        else:
            self.add_aux_coord(new_coord, dims)

    def coord_dims(self, coord):
        name_provided = isinstance(coord, str)
        if name_provided:
            coord = self.coord(coord)
        # Search for existing coordinate (object) on the cube, faster lookup than equality
        for c, d in self._dim_coords_and_dims:
            if c is coord:
                return (d,)
        for c, d in self._aux_coords_and_dims:
            if c is coord:
                return d
        # Search for a coord with the same metadata
        target = _defn(coord)
        for c, d in self._dim_coords_and_dims:
            if _defn(c) == target:
                return (d,)
        for c, d in self._aux_coords_and_dims:
            if _defn(c) == target:
                return d
        raise iris.exceptions.CoordinateNotFoundError(coord.name())

    def coords(
        self,
        name_or_coord=None,
        standard_name=None,
        long_name=None,
        var_name=None,
        attributes=None,
        axis=None,
        contains_dimension=None,
        dimensions=None,
        coord_system=None,
        dim_coords=None,
        mesh_coords=None,
    ):
        if isinstance(name_or_coord, str):
            name, coord = name_or_coord, None
        else:
            name, coord = None, name_or_coord
        out = []
        if dim_coords in [True, None]:
            out += list(self.dim_coords)
        if dim_coords in [False, None]:
            out += list(self.aux_coords)
        if name is not None:
            out = [c for c in out if name in (c.standard_name, c.long_name, c.var_name) or c.name() == name]
        if standard_name is not None:
            out = [c for c in out if c.standard_name == standard_name]
        if long_name is not None:
            out = [c for c in out if c.long_name == long_name]
        if var_name is not None:
            out = [c for c in out if c.var_name == var_name]
        if axis is not None:
            axis = axis.upper()
            out = [c for c in out if iris.util.guess_coord_axis(c) == axis]
        if attributes is not None:
            if not isinstance(attributes, dict):
                raise ValueError("The attributes keyword was expecting a dictionary type")
            out = [
                c
                for c in out
                if all(k in c.attributes and c.attributes[k] == v for k, v in attributes.items())
            ]
        if coord_system is not None:
            out = [c for c in out if c.coord_system == coord_system]
        if coord is not None:
            if hasattr(coord, "metadata"):
                target = _defn(coord)
            else:
                target = coord._asdict()
                target.pop("circular", None)
                target = tuple(sorted(target.items(), key=lambda i: i[0]))
                target = _DefnKey(coord)
            out = [c for c in out if _defn(c) == target]
        if contains_dimension is not None:
            out = [c for c in out if contains_dimension in self.coord_dims(c)]
        if dimensions is not None:
            if not isinstance(dimensions, Container):
                dimensions = [dimensions]
            dimensions = tuple(dimensions)
            out = [c for c in out if self.coord_dims(c) == dimensions]
        return out

    def coord(
        self,
        name_or_coord=None,
        standard_name=None,
        long_name=None,
        var_name=None,
        attributes=None,
        axis=None,
        contains_dimension=None,
        dimensions=None,
        coord_system=None,
        dim_coords=None,
        mesh_coords=None,
    ):
        coords = self.coords(
            name_or_coord=name_or_coord,
            standard_name=standard_name,
            long_name=long_name,
            var_name=var_name,
            attributes=attributes,
            axis=axis,
            contains_dimension=contains_dimension,
            dimensions=dimensions,
            coord_system=coord_system,
            dim_coords=dim_coords,
        )
        if len(coords) > 1:
            msg = "Expected to find exactly 1 coordinate, but found {}. They were: {}.".format(
                len(coords), ", ".join(c.name() for c in coords)
            )
            raise iris.exceptions.CoordinateNotFoundError(msg)
        elif len(coords) == 0:
            _name = name_or_coord
            if name_or_coord is not None:
                if not isinstance(name_or_coord, str):
                    _name = name_or_coord.name()
            bad_name = _name or standard_name or long_name or ""
            if bad_name:
                msg = "Expected to find exactly 1 {} coordinate, but found none.".format(bad_name)
            else:
                msg = "Expected to find exactly 1 coordinate, but found none."
            raise iris.exceptions.CoordinateNotFoundError(msg)
        return coords[0]

    def coord_system(self, spec=None):
        import iris.coord_systems

        if isinstance(spec, str) or spec is None:
            spec_name = spec
        else:
            spec_name = spec.__name__
        coord_systems = {}
        for coord in self.coords():
            if coord.coord_system:
                coord_systems.setdefault(type(coord.coord_system).__name__, coord.coord_system)
        if spec_name is None or spec_name == "CoordSystem":
            for key in sorted(coord_systems.keys(), key=lambda k: (k != "GeogCS" and False, k)):
                return coord_systems[key]
            return None
        return coord_systems.get(spec_name)

    # ------------------------------------------------------------- summary
    def summary(self, shorten=False, name_padding=35):
        nameunit = "{} / ({})".format(self.name(), self.units)
        dims = []
        for i in range(self.ndim):
            dc = self.coords(dimensions=i, dim_coords=True)
            dims.append("%s: %d" % (dc[0].name() if dc else "-- ", self.shape[i]))
        head = "{:<{}} ({})".format(nameunit, name_padding, "; ".join(dims) or "scalar cube")
        if shorten:
            return head
        lines = [head]
        vec = [c for c in self.dim_coords]
        if vec:
            lines.append("     Dimension coordinates:")
            for c in vec:
                lines.append("          " + c.name())
        aux = [c for c in self.aux_coords if self.coord_dims(c)]
        if aux:
            lines.append("     Auxiliary coordinates:")
            for c in aux:
                lines.append("          %s %s" % (c.name(), self.coord_dims(c)))
        sca = [c for c in self.aux_coords if not self.coord_dims(c)]
        if sca:
            lines.append("     Scalar coordinates:")
            for c in sorted(sca, key=lambda c: c.name()):
                cell = c.cell(0)
                val = str(cell.point)
                if not c.units.is_time_reference() and c.units != "1" and not c.units.is_no_unit():
                    val += " " + str(c.units)
                if cell.bound is not None:
                    val += ", bound=(%s)" % ", ".join(str(b) for b in cell.bound)
                lines.append("          %s: %s" % (c.name(), val))
        if self.attributes:
            lines.append("     Attributes:")
            for k in sorted(self.attributes):
                lines.append("          %s: %s" % (k, self.attributes[k]))
        if self.cell_methods:
            lines.append("     Cell methods:")
            for cm in self.cell_methods:
                lines.append("          " + str(cm))
        return "\n".join(lines)

    def __str__(self):
        return self.summary()

    def __repr__(self):
        return "<iris 'Cube' of %s>" % self.summary(shorten=True, name_padding=1)

    def is_compatible(self, other, ignore=None):
        compatible = (
            self.name() == other.name()
            and self.units == other.units
            and self.cell_methods == other.cell_methods
        )
        if compatible:
            keys = set(self.attributes) & set(other.attributes)
            if ignore is not None:
                keys -= {ignore} if isinstance(ignore, str) else set(ignore)
            compatible = all(np.all(self.attributes[k] == other.attributes[k]) for k in keys)
        return compatible

    def xml(self, checksum=False, order=True, byteorder=True):
        out = [repr(self._names()), str(self.units), str(sorted((k, repr(v)) for k, v in self.attributes.items()))]
        out.append(str(self.cell_methods))
        for c in sorted(self.coords(), key=lambda c: c.name()):
            out.append(c.xml_element() + str(self.coord_dims(c)))
        out.append("%s %s" % (self.shape, self.dtype))
        if checksum:
            d = self.data
            if ma.isMaskedArray(d):
                out.append("masked %s %s" % (d.mask.tolist(), d.filled(0).tolist() if d.dtype.kind != "S" else ""))
            else:
                out.append(str(d.tolist()))
        return "\n".join(out)

    # ------------------------------------------------------------ indexing
    # not iterable (iterating must not fall back on __getitem__)
    __iter__ = None

    def __hash__(self):
        return hash(id(self))

    def __getitem__(self, keys):
        full_slice = iris.util._build_full_slice_given_keys(keys, self.ndim)

        def new_coord_dims(coord_):
            return [
                dimension_mapping[d]
                for d in self.coord_dims(coord_)
                if dimension_mapping[d] is not None
            ]

        dimension_mapping, (data,) = iris.util._index(self._data, full_slice)
        # We don't want a view of the data, so take a copy of it.
        if isinstance(data, np.ndarray):
            data = _copy.deepcopy(data)
        elif not _lazy.is_lazy_data(data):
            # scalar
            if data is ma.masked:
                data = ma.array(ma.getdata(self._data)[full_slice], mask=True, dtype=self.dtype)
            else:
                data = np.asanyarray(data)
        cube = Cube(data)
        cube.metadata = self.metadata

        # Record a mapping from old coordinate IDs to new coordinates
        for coord in self.aux_coords:
            dims = self.coord_dims(coord)
            coord_keys = tuple([full_slice[dim] for dim in dims])
            try:
                new_coord = coord[coord_keys] if coord_keys else coord.copy()
            except ValueError:
                # TODO make this except more specific to catch monotonic error
                new_coord = iris.coords.AuxCoord(
                    coord.points[coord_keys[0]] if len(coord_keys) == 1 else coord.points[coord_keys],
                    coord.standard_name,
                    coord.long_name,
                    coord.var_name,
                    coord.units,
                    bounds=None if coord.bounds is None else coord.bounds[coord_keys[0]],
                    attributes=coord.attributes,
                    coord_system=coord.coord_system,
                )
            cube._add_unique_aux_coord(new_coord, new_coord_dims(coord))
        for coord in self.dim_coords:
            dims = self.coord_dims(coord)
            coord_keys = tuple([full_slice[dim] for dim in dims])
            new_dims = new_coord_dims(coord)
            try:
                new_coord = coord[coord_keys]
                # If the dimension has been collapsed, this becomes a scalar
                if not new_dims:
                    cube._add_unique_aux_coord(new_coord, new_dims)
                else:
                    cube._add_unique_dim_coord(new_coord, new_dims[0])
            except ValueError:
                # slicing a coord non-monotonically: demote to AuxCoord
                k = coord_keys[0]
                k = np.array(k, dtype=int) if isinstance(k, tuple) else k
                new_coord = iris.coords.AuxCoord(
                    coord.points[k].copy(),
                    coord.standard_name,
                    coord.long_name,
                    coord.var_name,
                    coord.units,
                    bounds=None if coord.bounds is None else coord.bounds[k].copy(),
                    attributes=copy_attrs(coord.attributes),
                    coord_system=coord.coord_system,
                )
                cube._add_unique_aux_coord(new_coord, new_dims)
        for av, dims in self._ancillary_variables_and_dims:
            k = tuple(full_slice[d] for d in dims)
            nd = [dimension_mapping[d] for d in dims if dimension_mapping[d] is not None]
            vals = iris.util._index(av.data, k)[1][0] if k else av.data
            cube.add_ancillary_variable(av.copy(values=vals) if False else _av_copy(av, vals), nd)
        return cube

    def subset(self, coord):
        if not isinstance(coord, iris.coords.Coord):
            raise ValueError("coord_to_extract must be a valid Coord.")
        coord_to_extract = self.coord(coord)
        if coord_to_extract.shape == (1,) and not self.coord_dims(coord_to_extract):
            try:
                coord_to_extract.intersect(coord)
            except ValueError:
                return None
            return self
        if len(self.coord_dims(coord_to_extract)) > 1:
            raise iris.exceptions.CoordinateMultiDimError("subset")
        coord_to_extract_dim = self.coord_dims(coord_to_extract)[0]
        coord_indices = coord_to_extract.intersect(coord, return_indices=True)
        full_slice = [slice(None, None)] * self.ndim
        full_slice[coord_to_extract_dim] = tuple(coord_indices)
        return self[tuple(full_slice)]

    def extract(self, constraint):
        constraint = iris._constraints.as_constraint(constraint)
        return constraint.extract(self)

    def intersection(self, *args, **kwargs):
        result = self
        ignore_bounds = kwargs.pop("ignore_bounds", False)
        for arg in args:
            result = result._intersect(*arg, ignore_bounds=ignore_bounds)
        for name, value in kwargs.items():
            result = result._intersect(name, *value, ignore_bounds=ignore_bounds)
        return result

    def _intersect(
        self, name_or_coord, minimum, maximum, min_inclusive=True, max_inclusive=True, ignore_bounds=False
    ):
        coord = self.coord(name_or_coord)
        if coord.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(coord)
        if coord.nbounds not in (0, 2):
            raise ValueError("expected 0 or 2 bound values per cell")
        if minimum > maximum:
            raise ValueError("minimum greater than maximum")
        modulus = coord.units.modulus
        if modulus is None:
            raise ValueError("coordinate units with no modulus are not yet supported")
        if maximum > minimum + modulus:
            raise ValueError("requested range greater than coordinate's unit's modulus")
        if coord.has_bounds():
            values = coord.bounds
        else:
            values = coord.points
        if values.max() > values.min() + modulus:
            raise ValueError("coordinate's range greater than coordinate's unit's modulus")
        min_comp = np.less_equal if min_inclusive else np.less
        max_comp = np.less_equal if max_inclusive else np.less

        def wrap(v):
            # wrap into [minimum, minimum + modulus)
            return (v - minimum) % modulus + minimum

        if coord.has_bounds() and not ignore_bounds:
            bounds = wrap(coord.bounds)
            pts = wrap(coord.points)
            # cells: lower/upper in wrapped space
            lo = coord.bounds.min(axis=1)
            hi = coord.bounds.max(axis=1)
            width = hi - lo
            wlo = wrap(lo)
            # a cell wrapped so that its upper edge reaches minimum belongs before
            whi = wlo + width
            crosses = whi >= minimum + modulus
            wlo2 = np.where(crosses, wlo - modulus, wlo)
            whi2 = wlo2 + width
            inside = (
                (min_comp(minimum, whi2) & max_comp(wlo2, maximum))
                | (min_comp(minimum, whi) & max_comp(wlo, maximum))
            )
            sel_pts = np.where(
                min_comp(minimum, whi2) & max_comp(wlo2, maximum) & crosses,
                wlo2 + (coord.points - lo),
                wlo + (coord.points - lo),
            )
        else:
            sel_pts = wrap(coord.points)
            # tolerance as in iris: floating error on the wrap
            inside = min_comp(minimum, sel_pts) & max_comp(sel_pts, maximum)
        (inds,) = np.where(inside)
        if len(inds) == 0:
            raise IndexError("No cells in the requested range" if False else "zero-size array to reduction operation minimum which has no identity")
        # order by wrapped point, following the coordinate's direction
        order = inds[np.argsort(sel_pts[inds], kind="stable")]
        asc = len(coord.points) < 2 or coord.points[1] > coord.points[0]
        if not asc:
            order = order[::-1]
        (dim,) = self.coord_dims(coord) or (None,)
        if dim is None:
            return self.copy()
        keys = [slice(None)] * self.ndim
        # data: roll then select
        keys[dim] = tuple(int(i) for i in order)
        # build with shifted points so that monotonicity is preserved
        shift = (sel_pts - coord.points)
        new_pts = (coord.points + shift)[order]
        new_bounds = None
        if coord.has_bounds():
            new_bounds = (coord.bounds + shift[:, None])[order]
        new_pts = new_pts.astype(coord.points.dtype)
        result = self[tuple(keys)]
        rc = result.coord(coord.name())
        if isinstance(coord, iris.coords.DimCoord):
            nc = iris.coords.DimCoord(
                new_pts,
                coord.standard_name,
                coord.long_name,
                coord.var_name,
                coord.units,
                bounds=None if new_bounds is None else new_bounds.astype(coord.bounds.dtype),
                attributes=coord.attributes,
                coord_system=coord.coord_system,
            )
            nc.circular = coord.circular and len(order) == len(coord.points)
            dims = result.coord_dims(rc)
            result._remove_coord(rc)
            if dims:
                result.add_dim_coord(nc, dims[0])
            else:
                result.add_aux_coord(nc)
        return result

    # ----------------------------------------------------------- slicing
    def _as_list_of_coords(self, names_or_coords):
        if isinstance(names_or_coords, str) or isinstance(names_or_coords, iris.coords.Coord):
            names_or_coords = [names_or_coords]
        coords = []
        for name_or_coord in names_or_coords:
            if isinstance(name_or_coord, (str, iris.coords.Coord)):
                coords.append(self.coord(name_or_coord))
            else:
                raise TypeError(
                    "Don't know how to handle coordinate type %s." % type(name_or_coord)
                )
        return coords

    def slices_over(self, ref_to_slice):
        if isinstance(ref_to_slice, (str, iris.coords.Coord)) or np.isscalar(ref_to_slice):
            ref_to_slice = [ref_to_slice]
        slice_dims = set()
        for ref in ref_to_slice:
            try:
                (coord,) = self._as_list_of_coords(ref)
            except TypeError:
                dim = int(ref)
                if dim < 0 or dim > self.ndim:
                    raise ValueError("Requested an iterator over a dimension ({}) which does not exist.".format(dim))
                coord_dims = (dim,)
            else:
                coord_dims = self.coord_dims(coord)
            slice_dims.update(coord_dims)
        all_dims = set(range(self.ndim))
        opposite_dims = list(all_dims - slice_dims)
        return self.slices(opposite_dims, ordered=False)

    def slices(self, ref_to_slice, ordered=True):
        if not isinstance(ordered, bool):
            raise TypeError("'ordered' argument to slices must be boolean.")
        if isinstance(ref_to_slice, (str, iris.coords.Coord)) or np.isscalar(ref_to_slice):
            ref_to_slice = [ref_to_slice]
        slice_dims = []
        for ref in ref_to_slice:
            try:
                (coord,) = self._as_list_of_coords(ref)
            except TypeError:
                dim = int(ref)
                if dim < 0 or dim > self.ndim:
                    raise ValueError("Requested an iterator over a dimension ({}) which does not exist.".format(dim))
                slice_dims.append(dim)
            else:
                dims = self.coord_dims(coord)
                slice_dims.extend(dims)
        if len(set(slice_dims)) != len(slice_dims):
            raise ValueError(
                "The requested coordinates are not orthogonal."
            )
        if ref_to_slice and not slice_dims:
            raise ValueError("The requested coordinates do not span a dimension.")
        dims_index = [self.shape[d] if d not in slice_dims else self.shape[d] for d in range(self.ndim)]
        for d in slice_dims:
            dims_index[d] = 1
        return _SliceIterator(self, dims_index, slice_dims, ordered)

    def transpose(self, new_order=None):
        if new_order is None:
            new_order = np.arange(self.ndim)[::-1]
        elif len(new_order) != self.ndim:
            raise ValueError("Incorrect number of dimensions.")
        new_order = [int(d) % self.ndim if int(d) < 0 else int(d) for d in new_order]
        self._data = self._data.transpose(new_order)
        dim_mapping = {src: dest for dest, src in enumerate(new_order)}
        self._dim_coords_and_dims = [(c, dim_mapping[d]) for c, d in self._dim_coords_and_dims]
        self._aux_coords_and_dims = [
            (c, tuple(dim_mapping[d] for d in dims)) for c, dims in self._aux_coords_and_dims
        ]
        self._ancillary_variables_and_dims = [
            (c, tuple(dim_mapping[d] for d in dims))
            for c, dims in self._ancillary_variables_and_dims
        ]

    # --------------------------------------------------------------- copy
    def copy(self, data=None):
        if data is None:
            if isinstance(self._data, np.ndarray):
                new_data = self._data.copy()
            else:
                new_data = self._data
        else:
            new_data = data if hasattr(data, "shape") else np.asanyarray(data)
            if new_data.shape != self.shape and not (
                self.shape == () and new_data.shape == (1,)
            ):
                raise ValueError(
                    "Cannot copy cube with new data of a different shape (slice or subset the cube first)."
                )
        new = Cube.__new__(type(self))
        Cube.__init__(new, np.zeros(()))
        new._data = new_data
        new.metadata = self.metadata
        new._dim_coords_and_dims = [(c.copy(), d) for c, d in self._dim_coords_and_dims]
        new._aux_coords_and_dims = [(c.copy(), d) for c, d in self._aux_coords_and_dims]
        new._cell_measures_and_dims = [(c.copy(), d) for c, d in self._cell_measures_and_dims]
        new._ancillary_variables_and_dims = [
            (c.copy(), d) for c, d in self._ancillary_variables_and_dims
        ]
        return new

    def __copy__(self):
        raise _copy.Error(
            "Cube shallow-copy not allowed. Use deepcopy() or Cube.copy()"
        )

    def __deepcopy__(self, memo):
        return self.copy()

    # -------------------------------------------------------- comparison
    def __eq__(self, other):
        if not isinstance(other, Cube):
            return NotImplemented
        result = self.metadata == other.metadata
        if result:
            # having checked the metadata, now check the coordinates
            a, b = list(self.coords()), list(other.coords())
            result = len(a) == len(b)
            if result:
                for c in a:
                    match = [d for d in b if d == c]
                    if not match or self.coord_dims(c) != other.coord_dims(match[0]):
                        result = False
                        break
        if result:
            result = self.shape == other.shape
        if result:
            d1, d2 = self.data, other.data
            if d1.dtype.kind in "SU" or d2.dtype.kind in "SU":
                result = iris.util.array_equal(d1, d2)
            else:
                m1, m2 = ma.getmaskarray(d1), ma.getmaskarray(d2)
                if (m1 != m2).any():
                    result = False
                else:
                    x, y = ma.getdata(d1)[~m1], ma.getdata(d2)[~m1]
                    result = bool(np.allclose(x, y))
        return result

    def __ne__(self, other):
        result = self.__eq__(other)
        if result is not NotImplemented:
            result = not result
        return result

    # --------------------------------------------------------------- units
    def convert_units(self, unit):
        if self.units.is_unknown():
            raise iris.exceptions.UnitConversionError(
                "Cannot convert from unknown units. The 'units' attribute may be set directly."
            )
        unit = cf_units.as_unit(unit)
        if self.has_lazy_data():
            old = self.units
            new_data = self._data.map_blocks(lambda v: old.convert(v, unit), dtype=float if self.dtype.kind in "iu" else self.dtype)
        else:
            new_data = self.units.convert(self.data, unit)
        self._data = new_data if hasattr(new_data, "shape") and isinstance(new_data, np.ndarray) or _lazy.is_lazy_data(new_data) else np.asanyarray(new_data)
        for key in "actual_range", "valid_max", "valid_min", "valid_range":
            self.attributes.pop(key, None)
        self.units = unit

    # ---------------------------------------------------------------- math
    def _math(self, other, op, name, in_place=False, reverse=False):
        from iris.analysis import maths

        return maths._binary(self, other, op, name, in_place, reverse)

    def __add__(self, other):
        return self._math(other, operator.add, "add")

    __radd__ = __add__

    def __iadd__(self, other):
        return self._math(other, operator.add, "add", in_place=True)

    def __sub__(self, other):
        return self._math(other, operator.sub, "subtract")

    def __rsub__(self, other):
        return (-self) + other

    def __isub__(self, other):
        return self._math(other, operator.sub, "subtract", in_place=True)

    def __mul__(self, other):
        return self._math(other, operator.mul, "multiply")

    __rmul__ = __mul__

    def __imul__(self, other):
        return self._math(other, operator.mul, "multiply", in_place=True)

    def __truediv__(self, other):
        return self._math(other, operator.truediv, "divide")

    __div__ = __truediv__

    def __rtruediv__(self, other):
        data = 1 / self.core_data()
        reciprocal = self.copy(data=data)
        reciprocal.units = reciprocal.units ** -1
        return reciprocal * other

    def __itruediv__(self, other):
        return self._math(other, operator.truediv, "divide", in_place=True)

    def __pow__(self, other):
        from iris.analysis import maths

        return maths.exponentiate(self, other)

    def __neg__(self):
        return self.copy(data=-self.core_data())

    # ---------------------------------------------------------- statistics
    def collapsed(self, coords, aggregator, **kwargs):
        from iris.analysis import WeightedAggregator

        if isinstance(coords, (str, iris.coords.Coord)):
            coords = [coords]
        coords = self._as_list_of_coords(coords)
        if isinstance(aggregator, WeightedAggregator) and not aggregator.uses_weighting(**kwargs):
            lat_match = [coord for coord in coords if "latitude" in coord.name()]
            if lat_match:
                for coord in lat_match:
                    warnings.warn(
                        "Collapsing spatial coordinate {!r} without weighting".format(coord.name())
                    )
        dims_to_collapse = set()
        for coord in coords:
            dims_to_collapse.update(self.coord_dims(coord))
        if not dims_to_collapse:
            msg = "Cannot collapse a dimension which does not describe any data."
            raise iris.exceptions.CoordinateCollapseError(msg)
        dims_to_collapse = sorted(dims_to_collapse)
        untouched_dims = [d for d in range(self.ndim) if d not in dims_to_collapse]
        # Remove the collapsed dimension(s) from the metadata
        indices = [slice(None, None)] * self.ndim
        for dim in dims_to_collapse:
            indices[dim] = 0
        collapsed_cube = self[tuple(indices)]
        # Collapse any coords that span the dimension(s) being collapsed
        for coord in self.aux_coords + self.dim_coords:
            coord_dims = self.coord_dims(coord)
            if set(dims_to_collapse).intersection(coord_dims):
                local_dims = [coord_dims.index(dim) for dim in dims_to_collapse if dim in coord_dims]
                collapsed_cube.replace_coord(coord.collapsed(local_dims))
        untouched_shape = [self.shape[d] for d in untouched_dims]
        end_size = reduce(operator.mul, (self.shape[d] for d in dims_to_collapse))
        new_shape = untouched_shape + [end_size]
        dims = untouched_dims + dims_to_collapse
        unrolled_data = np.transpose(self.data, dims).reshape(new_shape)
        weights = kwargs.get("weights")
        if weights is not None and weights.ndim > 1:
            weights = weights.view()
            kwargs["weights"] = np.transpose(weights, dims).reshape(new_shape)
        data_result = aggregator.aggregate(unrolled_data, axis=-1, **kwargs)
        aggregator.update_metadata(collapsed_cube, coords, axis=-1, **kwargs)
        return aggregator.post_process(collapsed_cube, data_result, coords, **kwargs)

    def aggregated_by(self, coords, aggregator, **kwargs):
        groupby = self._as_list_of_coords(coords)
        dims = set()
        for c in groupby:
            dims.update(self.coord_dims(c))
        if len(dims) != 1:
            raise iris.exceptions.CoordinateCollapseError(
                "Cannot aggregate over more than one dimension."
            )
        (dim,) = dims
        keys = OrderedDict()
        for i in range(self.shape[dim]):
            k = tuple(c.points[i] for c in groupby)
            # contiguous runs for numeric coords are grouped by value (as iris)
            keys.setdefault(k, []).append(i)
        cubes = []
        out_data = []
        groups = list(keys.values())
        first_idx = [g[0] for g in groups]
        sl = [slice(None)] * self.ndim
        sl[dim] = tuple(first_idx)
        result = self[tuple(sl)] if len(first_idx) > 1 else None
        if result is None:
            sl[dim] = slice(first_idx[0], first_idx[0] + 1)
            result = self[tuple(sl)]
        data = []
        for g in groups:
            data.append(aggregator.aggregate(np.ma.take(self.data, g, axis=dim) if ma.isMaskedArray(self.data) else np.take(self.data, g, axis=dim), axis=dim, **kwargs))
        stack = (ma if any(ma.isMaskedArray(d) for d in data) else np).stack(data, axis=dim)
        result.data = stack
        for c in self.coords(contains_dimension=dim):
            if any(c is g for g in groupby) or c.dtype.kind in "SUO":
                continue
            pts, bnds = [], []
            src = c.bounds if c.has_bounds() else c.points
            for g in groups:
                sub = src[g]
                bnds.append([sub.min(), sub.max()])
                pts.append(0.5 * (sub.min() + sub.max()))
            nc = result.coord(c)
            dims_c = result.coord_dims(nc)
            newc = iris.coords.AuxCoord(
                np.array(pts, dtype=c.dtype),
                c.standard_name,
                c.long_name,
                c.var_name,
                c.units,
                bounds=np.array(bnds),
                attributes=c.attributes,
                coord_system=c.coord_system,
            )
            result._remove_coord(nc)
            result.add_aux_coord(newc, dims_c)
        aggregator.update_metadata(result, groupby, **kwargs)
        return result

    def interpolate(self, sample_points, scheme, collapse_scalar=True):
        coords, points = zip(*sample_points)
        interp = scheme.interpolator(self, coords)
        return interp(points, collapse_scalar=collapse_scalar)

    def regrid(self, grid, scheme):
        regridder = scheme.regridder(self, grid)
        return regridder(self)


def _av_copy(av, vals):
    new = type(av)(
        vals, av.standard_name, av.long_name, av.var_name, av.units, copy_attrs(av.attributes)
    )
    return new


class _DefnKey:
    """Coordinate identity: metadata shared by DimCoord and AuxCoord."""

    def __init__(self, m):
        m = m.metadata if hasattr(m, "metadata") else m
        self.key = (m.standard_name, m.long_name, m.var_name, m.units)
        self.coord_system = m.coord_system
        self.attributes = m.attributes
        self.clim = m.climatological

    def __eq__(self, other):
        return (
            self.key == other.key
            and self.clim == other.clim
            and self.coord_system == other.coord_system
            and iris.util.attrs_equal(self.attributes, other.attributes)
        )

    __hash__ = None


def _defn(coord):
    return _DefnKey(coord)


class _SliceIterator(Iterator):
    def __init__(self, cube, dims_index, requested_dims, ordered):
        self._cube = cube
        self._ordered = ordered
        self._requested_dims = requested_dims
        self._ndindex = np.ndindex(*dims_index)

    def __next__(self):
        index_tuple = next(self._ndindex)
        index_list = list(index_tuple)
        for d in self._requested_dims:
            index_list[d] = slice(None, None)
        cube = self._cube[tuple(index_list)]
        if self._ordered:
            if any(self._requested_dims != sorted(self._requested_dims) for _ in (0,)):
                transpose_order = []
                n = sorted(self._requested_dims)
                for d in self._requested_dims:
                    transpose_order.append(n.index(d))
                cube.transpose(transpose_order)
        return cube

    next = __next__
