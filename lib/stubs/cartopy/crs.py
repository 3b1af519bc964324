"""Coordinate reference systems of the cartopy API stand-in.

Transforms go source -> geodetic lon/lat (degrees) -> target.  The ellipsoidal
formulae are Snyder (1987)."""
import numpy as np

WGS84_SEMIMAJOR_AXIS = 6378137.0
WGS84_SEMIMINOR_AXIS = 6356752.3142


class Globe:
    def __init__(
        self,
        datum=None,
        ellipse="WGS84",
        semimajor_axis=None,
        semiminor_axis=None,
        flattening=None,
        inverse_flattening=None,
        towgs84=None,
        nadgrids=None,
    ):
        self.datum = datum
        self.ellipse = ellipse
        self.semimajor_axis = semimajor_axis
        self.semiminor_axis = semiminor_axis
        self.flattening = flattening
        self.inverse_flattening = inverse_flattening
        self.towgs84 = towgs84
        self.nadgrids = nadgrids

    def _ab(self):
        a = self.semimajor_axis
        b = self.semiminor_axis
        if a is None:
            if self.ellipse == "sphere":
                return 6370997.0, 6370997.0
            if self.ellipse == "airy":
                return 6377563.396, 6356256.910
            a, b0 = WGS84_SEMIMAJOR_AXIS, WGS84_SEMIMINOR_AXIS
            return a, (b if b is not None else b0)
        if b is None:
            if self.inverse_flattening:
                b = a * (1 - 1 / self.inverse_flattening)
            elif self.flattening:
                b = a * (1 - self.flattening)
            else:
                b = a if self.ellipse is None or True else b
        return float(a), float(b)

    def __eq__(self, other):
        return isinstance(other, Globe) and self.__dict__ == other.__dict__

    def __hash__(self):
        return hash(tuple(sorted((k, str(v)) for k, v in self.__dict__.items())))


class CRS:
    _degrees = False

    def __init__(self, globe=None):
        self.globe = globe if globe is not None else Globe()

    def _params(self):
        return ()

    def __eq__(self, other):
        return (
            type(self) is type(other)
            and self._params() == other._params()
            and self.globe == other.globe
        )

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((type(self).__name__, self._params(), self.globe))

    def _to_lonlat(self, x, y):
        raise NotImplementedError

    def _from_lonlat(self, lon, lat):
        raise NotImplementedError

    def as_geocentric(self):
        return Geocentric(self.globe)

    def as_geodetic(self):
        return Geodetic(self.globe)

    def transform_point(self, x, y, src_crs, trap=True):
        r = self.transform_points(src_crs, np.array([x], dtype=float), np.array([y], dtype=float))
        return (float(r[0, 0]), float(r[0, 1]))

    def transform_points(self, src_crs, x, y, z=None, trap=False):
        x = np.asarray(x)
        y = np.asarray(y)
        if x.shape != y.shape:
            raise ValueError("x and y arrays must have the same shape")
        if x.ndim not in (1, 2):
            raise ValueError("x and y arrays must be 1 or 2 dimensional")
        x = x.astype(float)
        y = y.astype(float)
        z = np.zeros_like(x) if z is None else np.asarray(z).astype(float)
        result = np.empty(x.shape + (3,))
        if src_crs == self:
            if isinstance(self, Geodetic) or isinstance(self, PlateCarree):
                # degrees are wrapped by the projection library
                x = _wrap180(x) if isinstance(self, PlateCarree) else x
            result[..., 0], result[..., 1], result[..., 2] = x, y, z
            return result
        if isinstance(src_crs, Geocentric):
            raise NotImplementedError("from geocentric")
        lon, lat = src_crs._to_lonlat(x, y)
        if isinstance(self, Geocentric):
            a, b = self.globe._ab()
            e2 = 1 - (b * b) / (a * a)
            lam, phi = np.radians(lon), np.radians(lat)
            n = a / np.sqrt(1 - e2 * np.sin(phi) ** 2)
            result[..., 0] = (n + z) * np.cos(phi) * np.cos(lam)
            result[..., 1] = (n + z) * np.cos(phi) * np.sin(lam)
            result[..., 2] = (n * (1 - e2) + z) * np.sin(phi)
            return result
        tx, ty = self._from_lonlat(lon, lat)
        result[..., 0], result[..., 1], result[..., 2] = tx, ty, z
        return result

    def transform_vectors(self, src_proj, x, y, u, v):
        raise NotImplementedError


def _wrap180(lon):
    lon = np.asarray(lon, dtype=float)
    out = (lon + 180.0) % 360.0 - 180.0
    # +180 stays +180 as in PROJ
    out = np.where((out == -180.0) & (lon > 0), 180.0, out)
    return np.where((lon >= -180.0) & (lon <= 180.0), lon, out)


class Geodetic(CRS):
    _degrees = True

    def _to_lonlat(self, x, y):
        return x, y

    def _from_lonlat(self, lon, lat):
        return _wrap180(lon), lat


class Geocentric(CRS):
    pass


class Projection(CRS):
    pass


class PlateCarree(Projection):
    _degrees = True

    def __init__(self, central_longitude=0.0, globe=None):
        self.central_longitude = central_longitude
        if globe is None:
            globe = Globe(semimajor_axis=WGS84_SEMIMAJOR_AXIS)
        super().__init__(globe)

    def _params(self):
        return (self.central_longitude,)

    def __eq__(self, other):
        return isinstance(other, PlateCarree) and self.central_longitude == other.central_longitude

    __hash__ = CRS.__hash__

    def _to_lonlat(self, x, y):
        return _wrap180(x + self.central_longitude), y

    def _from_lonlat(self, lon, lat):
        return _wrap180(lon - self.central_longitude), lat


class RotatedGeodetic(CRS):
    _degrees = True

    def __init__(
        self, pole_longitude, pole_latitude, central_rotated_longitude=0.0, globe=None
    ):
        self.pole = (float(pole_longitude), float(pole_latitude), float(central_rotated_longitude))
        super().__init__(globe)

    def _params(self):
        return self.pole

    def _matrix(self):
        lp, pp, _ = self.pole
        th = np.radians(90.0 - pp)
        ph = np.radians(lp)
        # rotate about z by the pole longitude, then about y
        rz = np.array([[np.cos(ph), np.sin(ph), 0], [-np.sin(ph), np.cos(ph), 0], [0, 0, 1]])
        ry = np.array([[np.cos(th), 0, -np.sin(th)], [0, 1, 0], [np.sin(th), 0, np.cos(th)]])
        # rotated longitude 0 points away from the pole meridian
        flip = np.array([[-1, 0, 0], [0, -1, 0], [0, 0, 1]])
        return flip @ ry @ rz

    @staticmethod
    def _vec(lon, lat):
        lam, phi = np.radians(lon), np.radians(lat)
        return np.stack([np.cos(phi) * np.cos(lam), np.cos(phi) * np.sin(lam), np.sin(phi)])

    @staticmethod
    def _ll(v):
        lat = np.degrees(np.arcsin(np.clip(v[2], -1, 1)))
        lon = np.degrees(np.arctan2(v[1], v[0]))
        return lon, lat

    def _from_lonlat(self, lon, lat):
        v = np.tensordot(self._matrix(), self._vec(lon, lat), axes=1)
        rl, rp = self._ll(v)
        return _wrap180(rl + self.pole[2]), rp

    def _to_lonlat(self, x, y):
        v = np.tensordot(self._matrix().T, self._vec(x - self.pole[2], y), axes=1)
        return self._ll(v)


class RotatedPole(RotatedGeodetic, Projection):
    def __init__(
        self,
        pole_longitude=0.0,
        pole_latitude=90.0,
        central_rotated_longitude=0.0,
        globe=None,
    ):
        RotatedGeodetic.__init__(
            self, pole_longitude, pole_latitude, central_rotated_longitude, globe
        )


class LambertAzimuthalEqualArea(Projection):
    def __init__(
        self,
        central_longitude=0.0,
        central_latitude=0.0,
        false_easting=0.0,
        false_northing=0.0,
        globe=None,
    ):
        self.p = (
            float(central_longitude),
            float(central_latitude),
            float(false_easting),
            float(false_northing),
        )
        super().__init__(globe)

    def _params(self):
        return self.p

    def _consts(self):
        a, b = self.globe._ab()
        e2 = 1 - (b * b) / (a * a)
        e = np.sqrt(max(e2, 0.0))
        return a, e, e2

    @staticmethod
    def _q(phi, e, e2):
        s = np.sin(phi)
        if e < 1e-12:
            return 2 * s
        return (1 - e2) * (
            s / (1 - e2 * s * s) - (1 / (2 * e)) * np.log((1 - e * s) / (1 + e * s))
        )

    def _setup(self):
        a, e, e2 = self._consts()
        lon0, lat0, fe, fn = self.p
        phi1 = np.radians(lat0)
        qp = self._q(np.pi / 2, e, e2)
        q1 = self._q(phi1, e, e2)
        rq = a * np.sqrt(qp / 2)
        beta1 = np.arcsin(np.clip(q1 / qp, -1, 1))
        m1 = np.cos(phi1) / np.sqrt(1 - e2 * np.sin(phi1) ** 2)
        d = a * m1 / (rq * np.cos(beta1))
        return a, e, e2, phi1, qp, rq, beta1, d

    def _from_lonlat(self, lon, lat):
        a, e, e2, phi1, qp, rq, beta1, d = self._setup()
        lon0, lat0, fe, fn = self.p
        lam = np.radians(lon - lon0)
        beta = np.arcsin(np.clip(self._q(np.radians(lat), e, e2) / qp, -1, 1))
        den = 1 + np.sin(beta1) * np.sin(beta) + np.cos(beta1) * np.cos(beta) * np.cos(lam)
        bb = rq * np.sqrt(2 / np.maximum(den, 1e-15))
        x = bb * d * np.cos(beta) * np.sin(lam)
        y = (bb / d) * (
            np.cos(beta1) * np.sin(beta) - np.sin(beta1) * np.cos(beta) * np.cos(lam)
        )
        return x + fe, y + fn

    def _to_lonlat(self, x, y):
        a, e, e2, phi1, qp, rq, beta1, d = self._setup()
        lon0, lat0, fe, fn = self.p
        x = x - fe
        y = y - fn
        rho = np.sqrt((x / d) ** 2 + (d * y) ** 2)
        ce = 2 * np.arcsin(np.clip(rho / (2 * rq), -1, 1))
        with np.errstate(invalid="ignore", divide="ignore"):
            q = qp * (
                np.cos(ce) * np.sin(beta1)
                + np.where(rho > 0, d * y * np.sin(ce) * np.cos(beta1) / np.where(rho > 0, rho, 1), 0)
            )
        lam = np.arctan2(
            x * np.sin(ce),
            d * rho * np.cos(beta1) * np.cos(ce) - d * d * y * np.sin(beta1) * np.sin(ce),
        )
        lam = np.where(rho > 0, lam, 0.0)
        phi = np.arcsin(np.clip(q / 2, -1, 1))
        if e >= 1e-12:
            for _ in range(12):
                s = np.sin(phi)
                with np.errstate(invalid="ignore", divide="ignore"):
                    step = (
                        (1 - e2 * s * s) ** 2
                        / (2 * np.cos(phi))
                        * (
                            q / (1 - e2)
                            - s / (1 - e2 * s * s)
                            + (1 / (2 * e)) * np.log((1 - e * s) / (1 + e * s))
                        )
                    )
                phi = phi + np.where(np.isfinite(step), step, 0)
        return _wrap180(np.degrees(lam) + lon0), np.degrees(phi)


class TransverseMercator(Projection):
    def __init__(
        self,
        central_longitude=0.0,
        central_latitude=0.0,
        false_easting=0.0,
        false_northing=0.0,
        scale_factor=1.0,
        globe=None,
        approx=None,
    ):
        self.p = (
            float(central_longitude),
            float(central_latitude),
            float(false_easting),
            float(false_northing),
            float(scale_factor),
        )
        super().__init__(globe)

    def _params(self):
        return self.p

    @staticmethod
    def _m(phi, a, e2):
        return a * (
            (1 - e2 / 4 - 3 * e2 ** 2 / 64 - 5 * e2 ** 3 / 256) * phi
            - (3 * e2 / 8 + 3 * e2 ** 2 / 32 + 45 * e2 ** 3 / 1024) * np.sin(2 * phi)
            + (15 * e2 ** 2 / 256 + 45 * e2 ** 3 / 1024) * np.sin(4 * phi)
            - (35 * e2 ** 3 / 3072) * np.sin(6 * phi)
        )

    def _from_lonlat(self, lon, lat):
        a, b = self.globe._ab()
        e2 = 1 - b * b / (a * a)
        lon0, lat0, fe, fn, k0 = self.p
        phi = np.radians(lat)
        ep2 = e2 / (1 - e2)
        n = a / np.sqrt(1 - e2 * np.sin(phi) ** 2)
        t = np.tan(phi) ** 2
        c = ep2 * np.cos(phi) ** 2
        aa = np.radians(_wrap180(lon - lon0)) * np.cos(phi)
        m = self._m(phi, a, e2)
        m0 = self._m(np.radians(lat0), a, e2)
        x = (
            k0
            * n
            * (
                aa
                + (1 - t + c) * aa ** 3 / 6
                + (5 - 18 * t + t ** 2 + 72 * c - 58 * ep2) * aa ** 5 / 120
            )
        )
        y = k0 * (
            m
            - m0
            + n
            * np.tan(phi)
            * (
                aa ** 2 / 2
                + (5 - t + 9 * c + 4 * c ** 2) * aa ** 4 / 24
                + (61 - 58 * t + t ** 2 + 600 * c - 330 * ep2) * aa ** 6 / 720
            )
        )
        return x + fe, y + fn

    def _to_lonlat(self, x, y):
        a, b = self.globe._ab()
        e2 = 1 - b * b / (a * a)
        lon0, lat0, fe, fn, k0 = self.p
        x = x - fe
        y = y - fn
        ep2 = e2 / (1 - e2)
        m = self._m(np.radians(lat0), a, e2) + y / k0
        mu = m / (a * (1 - e2 / 4 - 3 * e2 ** 2 / 64 - 5 * e2 ** 3 / 256))
        e1 = (1 - np.sqrt(1 - e2)) / (1 + np.sqrt(1 - e2))
        phi1 = (
            mu
            + (3 * e1 / 2 - 27 * e1 ** 3 / 32) * np.sin(2 * mu)
            + (21 * e1 ** 2 / 16 - 55 * e1 ** 4 / 32) * np.sin(4 * mu)
            + (151 * e1 ** 3 / 96) * np.sin(6 * mu)
            + (1097 * e1 ** 4 / 512) * np.sin(8 * mu)
        )
        c1 = ep2 * np.cos(phi1) ** 2
        t1 = np.tan(phi1) ** 2
        n1 = a / np.sqrt(1 - e2 * np.sin(phi1) ** 2)
        r1 = a * (1 - e2) / (1 - e2 * np.sin(phi1) ** 2) ** 1.5
        d = x / (n1 * k0)
        phi = phi1 - (n1 * np.tan(phi1) / r1) * (
            d ** 2 / 2
            - (5 + 3 * t1 + 10 * c1 - 4 * c1 ** 2 - 9 * ep2) * d ** 4 / 24
            + (61 + 90 * t1 + 298 * c1 + 45 * t1 ** 2 - 252 * ep2 - 3 * c1 ** 2) * d ** 6 / 720
        )
        lam = (
            d
            - (1 + 2 * t1 + c1) * d ** 3 / 6
            + (5 - 2 * c1 + 28 * t1 - 3 * c1 ** 2 + 8 * ep2 + 24 * t1 ** 2) * d ** 5 / 120
        ) / np.cos(phi1)
        return _wrap180(np.degrees(lam) + lon0), np.degrees(phi)


class OSGB(TransverseMercator):
    def __init__(self, approx=None):
        super().__init__(
            -2, 49, 400000, -100000, 0.9996012717, Globe(datum="OSGB36", ellipse="airy")
        )


class Mercator(Projection):
    def __init__(self, central_longitude=0.0, globe=None, **kwargs):
        self.central_longitude = float(central_longitude)
        super().__init__(globe)

    def _params(self):
        return (self.central_longitude,)

    def _from_lonlat(self, lon, lat):
        a, b = self.globe._ab()
        e = np.sqrt(max(1 - b * b / (a * a), 0))
        phi = np.radians(lat)
        x = a * np.radians(_wrap180(lon - self.central_longitude))
        es = e * np.sin(phi)
        y = a * np.log(np.tan(np.pi / 4 + phi / 2) * ((1 - es) / (1 + es)) ** (e / 2))
        return x, y

    def _to_lonlat(self, x, y):
        a, b = self.globe._ab()
        e = np.sqrt(max(1 - b * b / (a * a), 0))
        t = np.exp(-y / a)
        phi = np.pi / 2 - 2 * np.arctan(t)
        for _ in range(10):
            es = e * np.sin(phi)
            phi = np.pi / 2 - 2 * np.arctan(t * ((1 - es) / (1 + es)) ** (e / 2))
        return _wrap180(np.degrees(x / a) + self.central_longitude), np.degrees(phi)


for _name in (
    "AlbersEqualArea AzimuthalEquidistant LambertConformal LambertCylindrical Miller Mollweide "
    "NorthPolarStereo OSNI Orthographic Robinson Sinusoidal SouthPolarStereo Stereographic UTM "
    "EuroPP Geostationary Gnomonic InterruptedGoodeHomolosine NearsidePerspective"
).split():
    globals()[_name] = type(_name, (Projection,), {})
