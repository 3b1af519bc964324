"""Coordinate systems of the iris API stand-in."""
from abc import ABCMeta, abstractmethod


def _float_or_none(arg):
    return None if arg is None else float(arg)


def _arg_default(value, default, cast_as=float):
    return default if value is None else cast_as(value)


def _1or2_parallels(arg):
    if arg is None:
        return ()
    try:
        return tuple(float(x) for x in arg)
    except TypeError:
        return (float(arg),)


class CoordSystem(metaclass=ABCMeta):
    grid_mapping_name = None

    def __eq__(self, other):
        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__

    def __ne__(self, other):
        return not (self == other)

    __hash__ = None

    @abstractmethod
    def as_cartopy_crs(self):
        pass

    @abstractmethod
    def as_cartopy_projection(self):
        pass

    @staticmethod
    def _ellipsoid_to_globe(ellipsoid, globe_default):
        if ellipsoid is not None:
            return ellipsoid.as_cartopy_globe()
        return globe_default


class GeogCS(CoordSystem):
    grid_mapping_name = "latitude_longitude"

    def __init__(
        self,
        semi_major_axis=None,
        semi_minor_axis=None,
        inverse_flattening=None,
        longitude_of_prime_meridian=None,
    ):
        if (
            semi_major_axis is None
            and semi_minor_axis is None
            and inverse_flattening is None
        ):
            raise ValueError("No ellipsoid specified")
        if None not in (semi_major_axis, semi_minor_axis, inverse_flattening):
            raise ValueError("Ellipsoid is overspecified")
        if semi_major_axis is not None and (
            inverse_flattening is None and semi_minor_axis is None
        ):
            semi_minor_axis = semi_major_axis
            inverse_flattening = 0.0
        elif semi_major_axis is not None and semi_minor_axis is not None:
            if float(semi_major_axis) == float(semi_minor_axis):
                inverse_flattening = 0.0
            else:
                inverse_flattening = 1 / (
                    (semi_major_axis - semi_minor_axis) / semi_major_axis
                )
        elif semi_major_axis is not None:
            semi_minor_axis = semi_major_axis - (1.0 / inverse_flattening) * semi_major_axis
        elif semi_minor_axis is not None and inverse_flattening is not None:
            semi_major_axis = -semi_minor_axis / ((1.0 - inverse_flattening) / inverse_flattening)
        else:
            raise ValueError("Insufficient ellipsoid specification")
        self.semi_major_axis = float(semi_major_axis)
        self.semi_minor_axis = float(semi_minor_axis)
        self.inverse_flattening = float(inverse_flattening)
        self.longitude_of_prime_meridian = _arg_default(longitude_of_prime_meridian, 0)

    def _pretty_attrs(self):
        attrs = [("semi_major_axis", self.semi_major_axis)]
        if self.semi_major_axis != self.semi_minor_axis:
            attrs.append(("semi_minor_axis", self.semi_minor_axis))
        if self.longitude_of_prime_meridian != 0.0:
            attrs.append(("longitude_of_prime_meridian", self.longitude_of_prime_meridian))
        return attrs

    def __repr__(self):
        attrs = self._pretty_attrs()
        if len(attrs) == 1 and attrs[0][0] == "semi_major_axis":
            return "GeogCS(%r)" % self.semi_major_axis
        return "GeogCS(" + ", ".join("%s=%r" % (k, v) for k, v in attrs) + ")"

    __str__ = __repr__

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.Geodetic(self.as_cartopy_globe())

    def as_cartopy_projection(self):
        import cartopy.crs as ccrs

        return ccrs.PlateCarree(
            central_longitude=self.longitude_of_prime_meridian,
            globe=self.as_cartopy_globe(),
        )

    def as_cartopy_globe(self):
        import cartopy.crs as ccrs

        return ccrs.Globe(
            ellipse=None,
            semimajor_axis=self.semi_major_axis,
            semiminor_axis=self.semi_minor_axis,
        )


class RotatedGeogCS(CoordSystem):
    grid_mapping_name = "rotated_latitude_longitude"

    def __init__(
        self,
        grid_north_pole_latitude,
        grid_north_pole_longitude,
        north_pole_grid_longitude=None,
        ellipsoid=None,
    ):
        self.grid_north_pole_latitude = float(grid_north_pole_latitude)
        self.grid_north_pole_longitude = float(grid_north_pole_longitude)
        self.north_pole_grid_longitude = _arg_default(north_pole_grid_longitude, 0)
        self.ellipsoid = ellipsoid

    def __repr__(self):
        return "RotatedGeogCS({!r}, {!r}, ellipsoid={!r})".format(
            self.grid_north_pole_latitude, self.grid_north_pole_longitude, self.ellipsoid
        )

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.RotatedGeodetic(
            self.grid_north_pole_longitude,
            self.grid_north_pole_latitude,
            self.north_pole_grid_longitude,
            globe=self._ellipsoid_to_globe(self.ellipsoid, ccrs.Globe()),
        )

    def as_cartopy_projection(self):
        import cartopy.crs as ccrs

        return ccrs.RotatedPole(
            self.grid_north_pole_longitude,
            self.grid_north_pole_latitude,
            self.north_pole_grid_longitude,
            globe=self._ellipsoid_to_globe(self.ellipsoid, ccrs.Globe()),
        )


class TransverseMercator(CoordSystem):
    grid_mapping_name = "transverse_mercator"

    def __init__(
        self,
        latitude_of_projection_origin,
        longitude_of_central_meridian,
        false_easting=None,
        false_northing=None,
        scale_factor_at_central_meridian=None,
        ellipsoid=None,
    ):
        self.latitude_of_projection_origin = float(latitude_of_projection_origin)
        self.longitude_of_central_meridian = float(longitude_of_central_meridian)
        self.false_easting = _arg_default(false_easting, 0)
        self.false_northing = _arg_default(false_northing, 0)
        self.scale_factor_at_central_meridian = _arg_default(scale_factor_at_central_meridian, 1.0)
        self.ellipsoid = ellipsoid

    def __repr__(self):
        return (
            "TransverseMercator(latitude_of_projection_origin={!r}, "
            "longitude_of_central_meridian={!r}, false_easting={!r}, false_northing={!r}, "
            "scale_factor_at_central_meridian={!r}, ellipsoid={!r})".format(
                self.latitude_of_projection_origin,
                self.longitude_of_central_meridian,
                self.false_easting,
                self.false_northing,
                self.scale_factor_at_central_meridian,
                self.ellipsoid,
            )
        )

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.TransverseMercator(
            central_longitude=self.longitude_of_central_meridian,
            central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting,
            false_northing=self.false_northing,
            scale_factor=self.scale_factor_at_central_meridian,
            globe=self._ellipsoid_to_globe(self.ellipsoid, None),
        )

    as_cartopy_projection = as_cartopy_crs


class OSGB(TransverseMercator):
    def __init__(self):
        TransverseMercator.__init__(
            self, 49, -2, 400000, -100000, 0.9996012717, GeogCS(6377563.396, 6356256.909)
        )

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.OSGB()

    as_cartopy_projection = as_cartopy_crs


class LambertAzimuthalEqualArea(CoordSystem):
    grid_mapping_name = "lambert_azimuthal_equal_area"

    def __init__(
        self,
        latitude_of_projection_origin=None,
        longitude_of_projection_origin=None,
        false_easting=None,
        false_northing=None,
        ellipsoid=None,
    ):
        self.latitude_of_projection_origin = _arg_default(latitude_of_projection_origin, 0.0)
        self.longitude_of_projection_origin = _arg_default(longitude_of_projection_origin, 0.0)
        self.false_easting = _arg_default(false_easting, 0.0)
        self.false_northing = _arg_default(false_northing, 0.0)
        self.ellipsoid = ellipsoid

    def __repr__(self):
        return (
            "LambertAzimuthalEqualArea(latitude_of_projection_origin={!r}, "
            "longitude_of_projection_origin={!r}, false_easting={!r}, false_northing={!r}, "
            "ellipsoid={!r})"
        ).format(
            self.latitude_of_projection_origin,
            self.longitude_of_projection_origin,
            self.false_easting,
            self.false_northing,
            self.ellipsoid,
        )

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.LambertAzimuthalEqualArea(
            central_longitude=self.longitude_of_projection_origin,
            central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting,
            false_northing=self.false_northing,
            globe=self._ellipsoid_to_globe(self.ellipsoid, ccrs.Globe()),
        )

    as_cartopy_projection = as_cartopy_crs


class Mercator(CoordSystem):
    grid_mapping_name = "mercator"

    def __init__(
        self,
        longitude_of_projection_origin=None,
        ellipsoid=None,
        standard_parallel=None,
        false_easting=None,
        false_northing=None,
    ):
        self.longitude_of_projection_origin = _arg_default(longitude_of_projection_origin, 0)
        self.ellipsoid = ellipsoid
        self.standard_parallel = _arg_default(standard_parallel, 0)
        self.false_easting = _arg_default(false_easting, 0)
        self.false_northing = _arg_default(false_northing, 0)

    def __repr__(self):
        return "Mercator(longitude_of_projection_origin={!r})".format(
            self.longitude_of_projection_origin
        )

    def as_cartopy_crs(self):
        raise NotImplementedError("Mercator")

    as_cartopy_projection = as_cartopy_crs
