"""Metadata containers of the iris API stand-in."""
from collections import namedtuple

import numpy as np

from iris.util import attrs_equal


class _Base:
    DEFAULT_NAME = "unknown"

    def name(self, default=None, token=False):
        return self.standard_name or self.long_name or self.var_name or default or self.DEFAULT_NAME

    def __eq__(self, other):
        if not isinstance(other, _Base) or self._fields != other._fields:
            return NotImplemented
        for f in self._fields:
            a, b = getattr(self, f), getattr(other, f)
            if f == "attributes":
                if not attrs_equal(a, b):
                    return False
            elif a != b:
                return False
        return True

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else not res

    __hash__ = None

    def _sort_key(self):
        return tuple(
            (getattr(self, f) is not None, str(getattr(self, f)))
            for f in self._fields
            if f != "attributes"
        )

    def __lt__(self, other):
        return self._sort_key() < other._sort_key()

    def __gt__(self, other):
        return self._sort_key() > other._sort_key()


class CoordMetadata(
    _Base,
    namedtuple(
        "CoordMetadata",
        "standard_name long_name var_name units attributes coord_system climatological",
    ),
):
    __hash__ = None


class DimCoordMetadata(
    _Base,
    namedtuple(
        "DimCoordMetadata",
        "standard_name long_name var_name units attributes coord_system climatological circular",
    ),
):
    __hash__ = None


class CubeMetadata(
    _Base,
    namedtuple(
        "CubeMetadata", "standard_name long_name var_name units attributes cell_methods"
    ),
):
    __hash__ = None


class DimensionalMetadata(
    _Base, namedtuple("DimensionalMetadata", "standard_name long_name var_name units attributes")
):
    __hash__ = None


FORBIDDEN = (
    "standard_name",
    "long_name",
    "units",
    "bounds",
    "axis",
    "calendar",
    "leap_month",
    "leap_year",
    "month_lengths",
    "coordinates",
    "grid_mapping",
    "climatology",
    "cell_methods",
    "formula_terms",
    "compress",
    "add_offset",
    "scale_factor",
    "_FillValue",
)


class LimitedAttributeDict(dict):
    def __init__(self, *args, **kwargs):
        dict.__init__(self, *args, **kwargs)
        for key in self.keys():
            if key in FORBIDDEN:
                raise ValueError("%r is not a permitted attribute" % key)

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        return attrs_equal(self, other)

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __setitem__(self, key, value):
        if key in FORBIDDEN:
            raise ValueError("%r is not a permitted attribute" % key)
        dict.__setitem__(self, key, value)

    def update(self, other=(), **kwargs):
        standard = dict(other, **kwargs)
        for key in standard:
            if key in FORBIDDEN:
                raise ValueError("%r is not a permitted attribute" % key)
        dict.update(self, standard)

    def copy(self):
        return LimitedAttributeDict(self)


class CFVariableMixin:
    """name/rename/units/attributes shared by cubes and coords."""

    DEFAULT_NAME = "unknown"

    def name(self, default=None, token=False):
        return (
            self.standard_name or self.long_name or self.var_name or default or self.DEFAULT_NAME
        )

    def rename(self, name):
        try:
            self.standard_name = name
            self.long_name = None
        except ValueError:
            self.standard_name = None
            self.long_name = str(name)
        # Always clear var_name when renaming.
        self.var_name = None

    @property
    def standard_name(self):
        return self._standard_name

    @standard_name.setter
    def standard_name(self, name):
        from iris.std_names import get_valid_standard_name

        self._standard_name = get_valid_standard_name(name)

    @property
    def long_name(self):
        return self._long_name

    @long_name.setter
    def long_name(self, value):
        self._long_name = value

    @property
    def var_name(self):
        return self._var_name

    @var_name.setter
    def var_name(self, name):
        if name is not None:
            if name == "" or any(c.isspace() for c in str(name)):
                raise ValueError(
                    "{!r} is not a valid NetCDF variable name.".format(name)
                )
        self._var_name = name

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, unit):
        import cf_units

        self._units = cf_units.as_unit(unit)

    @property
    def attributes(self):
        return self._attributes

    @attributes.setter
    def attributes(self, attributes):
        self._attributes = LimitedAttributeDict(attributes or {})


def copy_attrs(attributes):
    return LimitedAttributeDict(
        {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in attributes.items()}
    )
