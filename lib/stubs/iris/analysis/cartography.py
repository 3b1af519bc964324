"""rotate_winds of the iris API stand-in."""
import numpy as np
import numpy.ma as ma

import iris.coords
import iris.coord_systems


def _lonlat_differentials(crs, x, y):
    """d(lon)/dx, d(lat)/dx, d(lon)/dy, d(lat)/dy of a crs at points x, y and
    the true latitude (differences over a small step in crs units)."""
    import cartopy.crs as ccrs

    latlon = ccrs.Geodetic(globe=crs.globe)
    lat = latlon.transform_points(crs, x, y)[..., 1]
    d = 1e-3 if getattr(crs, "_degrees", False) else 1.0

    def central(dx, dy):
        hi = latlon.transform_points(crs, x + dx, y + dy)
        lo = latlon.transform_points(crs, x - dx, y - dy)
        dlon = (hi[..., 0] - lo[..., 0] + 180.0) % 360.0 - 180.0
        return dlon / (2 * d), (hi[..., 1] - lo[..., 1]) / (2 * d)

    return lat, central(d, 0.0), central(0.0, d)


def _distance_differentials(crs, x, y):
    """Nominal distance per unit x and per unit y (latitude-scaled degrees)."""
    lat, (dlon_dx, dlat_dx), (dlon_dy, dlat_dy) = _lonlat_differentials(crs, x, y)
    factor = np.cos(np.deg2rad(lat)) ** 2
    return (
        np.sqrt(dlat_dx ** 2 + dlon_dx ** 2 * factor),
        np.sqrt(dlat_dy ** 2 + dlon_dy ** 2 * factor),
    )


def _inter_crs_differentials(src, x, y, tgt):
    d = 1e-3 if getattr(src, "_degrees", False) else 1.0
    out = []
    for dx, dy in ((d, 0.0), (0.0, d)):
        hi = tgt.transform_points(src, x + dx, y + dy)
        lo = tgt.transform_points(src, x - dx, y - dy)
        diff = (hi - lo)[..., :2]
        if getattr(tgt, "_degrees", False):
            diff = (diff + 180.0) % 360.0 - 180.0
        out.append(diff / (2 * d))
    return out  # (dx2/dx1, dy2/dx1), (dx2/dy1, dy2/dy1)


def rotate_winds(u_cube, v_cube, target_cs):
    """Transform wind vectors to a different coordinate system.

    As iris: the result keeps the source grid, with 2-D aux coords of the
    target system; the magnitude of the vectors is conserved."""
    for coord in u_cube.coords():
        if coord not in v_cube.coords() and v_cube.coords(coord) == []:
            raise ValueError("u and v cubes must have the same coordinates")
    if u_cube.shape != v_cube.shape:
        raise ValueError("u and v cubes must have the same shape")
    x_coord = u_cube.coord(axis="x", dim_coords=True)
    y_coord = u_cube.coord(axis="y", dim_coords=True)
    if x_coord.coord_system != y_coord.coord_system:
        raise ValueError("coord systems differ")
    src_crs = x_coord.coord_system.as_cartopy_projection()
    tgt_crs = target_cs.as_cartopy_projection()
    x = x_coord.points.astype(float)
    y = y_coord.points.astype(float)
    x2d, y2d = np.meshgrid(x, y)
    (xdim,) = u_cube.coord_dims(x_coord)
    (ydim,) = u_cube.coord_dims(y_coord)
    transposed = xdim < ydim
    pts = tgt_crs.transform_points(src_crs, x2d, y2d)
    tx, ty = pts[..., 0], pts[..., 1]
    src_dx, src_dy = _distance_differentials(src_crs, x2d, y2d)
    tgt_dx, tgt_dy = _distance_differentials(tgt_crs, tx, ty)
    d_dx1, d_dy1 = _inter_crs_differentials(src_crs, x2d, y2d, tgt_crs)
    uu = d_dx1[..., 0] / src_dx * tgt_dx
    uv = d_dy1[..., 0] / src_dy * tgt_dx
    vu = d_dx1[..., 1] / src_dx * tgt_dy
    vv = d_dy1[..., 1] / src_dy * tgt_dy
    dims = [ydim, xdim]
    if transposed:
        uu, uv, vu, vv, tx, ty = (a.T for a in (uu, uv, vu, vv, tx, ty))
        dims = [xdim, ydim]
    shape = [1] * u_cube.ndim
    for d in dims:
        shape[d] = u_cube.shape[d]
    uu, uv, vu, vv = (a.reshape(shape) for a in (uu, uv, vu, vv))
    u, v = u_cube.data, v_cube.data
    ut = u * uu + v * uv
    vt = u * vu + v * vv
    out = []
    for cube, data in ((u_cube, ut), (v_cube, vt)):
        new = cube.copy(data=data)
        # remove any existing aux coords of the target kind
        for coord in new.aux_coords:
            if coord.name() in ("projection_x_coordinate", "projection_y_coordinate") and new.coord_dims(coord) == tuple(dims):
                new.remove_coord(coord)
        target_deg = getattr(tgt_crs, "_degrees", False)
        names = ("longitude", "latitude") if isinstance(target_cs, iris.coord_systems.GeogCS) else (
            ("grid_longitude", "grid_latitude")
            if isinstance(target_cs, iris.coord_systems.RotatedGeogCS)
            else ("projection_x_coordinate", "projection_y_coordinate")
        )
        units = "degrees" if target_deg else "m"
        xc = iris.coords.AuxCoord(tx, names[0], units=units, coord_system=target_cs)
        yc = iris.coords.AuxCoord(ty, names[1], units=units, coord_system=target_cs)
        for coord in (xc, yc):
            if not [k for k in new.coords(coord.name()) ]:
                new.add_aux_coord(coord, dims)
            else:
                new.add_aux_coord(coord, dims) if coord not in new.coords(coord.name()) else None
        out.append(new)
    out[0].rename("transformed_" + u_cube.name() if False else u_cube.name())
    return tuple(out)


def area_weights(cube):
    raise NotImplementedError
