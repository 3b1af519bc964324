"""Rectilinear interpolation / regridding for the iris API stand-in."""
import numpy as np
import numpy.ma as ma

import iris.coords
import iris.cube


def _interp_weights(src, tgt, method, mode):
    """Return index lo/hi, weight of hi, and out-of-range mask."""
    n = len(src)
    asc = n < 2 or src[1] > src[0]
    s = src if asc else src[::-1]
    s = s.astype(np.float64)
    t = np.asarray(tgt).astype(np.float64)
    out = (t < s[0]) | (t > s[-1]) | np.isnan(t)
    if n == 1:
        lo = np.zeros(t.shape, dtype=int)
        hi = lo
        w = np.zeros(t.shape)
    else:
        lo = np.clip(np.searchsorted(s, t, side="right") - 1, 0, n - 2)
        hi = lo + 1
        w = (t - s[lo]) / (s[hi] - s[lo])
        if method == "nearest":
            # scipy convention: weight <= 0.5 picks the lower index
            w = np.where(w <= 0.5, 0.0, 1.0)
    if not asc:
        lo, hi = n - 1 - lo, n - 1 - hi
    return lo, hi, w, out


def _apply_1d(data, axis, lo, hi, w, method):
    a = np.moveaxis(np.asarray(data), axis, -1)
    if method == "nearest":
        idx = np.where(w > 0.5, hi, lo)
        res = a[..., idx]
    else:
        alo, ahi = a[..., lo], a[..., hi]
        # exact at nodes, so that nan/inf neighbours are not touched by zero weights
        with np.errstate(invalid="ignore"):
            res = alo * (1 - w) + ahi * w
        res = np.where(w == 0, alo, np.where(w == 1, ahi, res))
    return np.moveaxis(res, -1, axis)


class _Base:
    def __init__(self, method, mode):
        self._method = method
        self._mode = mode

    def _interp(self, data, axis, src, tgt):
        method, mode = self._method, self._mode
        lo, hi, w, out = _interp_weights(src, tgt, method, mode)
        if mode == "error" and out.any():
            raise ValueError("One of the requested xi is out of bounds")
        masked = ma.isMaskedArray(data)
        vals = _apply_1d(ma.getdata(data), axis, lo, hi, w, method)
        if method == "linear" and vals.dtype.kind in "iu":
            vals = vals.astype(np.float64)
        shape = [1] * vals.ndim
        shape[axis] = len(out)
        outb = np.broadcast_to(out.reshape(shape), vals.shape)
        if mode in ("nan", "nanmask") and out.any():
            if vals.dtype.kind in "iu":
                vals = vals.astype(np.float64)
            vals = np.where(outb, np.nan, vals)
        mask = None
        if masked:
            m = _apply_1d(ma.getmaskarray(data).astype(float), axis, lo, hi, w, method)
            mask = m > 0
            if mode in ("mask", "nanmask"):
                mask = mask | outb
        elif mode == "mask":
            # "mask": a masked result only if something is masked
            mask = outb
        if mask is not None:
            return ma.array(vals, mask=mask)
        return vals


class RectilinearInterpolator(_Base):
    def __init__(self, src_cube, coords, method, mode):
        super().__init__(method, mode)
        self._cube = src_cube
        if isinstance(coords, str) or not hasattr(coords, "__iter__"):
            coords = [coords]
        self._coords = [src_cube.coord(c) for c in coords]

    def __call__(self, sample_points, collapse_scalar=True):
        cube = self._cube
        collapse = []
        for coord, pts in zip(self._coords, sample_points):
            pts_in = pts
            if not isinstance(pts, (np.ndarray,)) and (
                hasattr(pts, "timetuple")
                or (isinstance(pts, (list, tuple)) and len(pts) and hasattr(pts[0], "timetuple"))
            ):
                pts = coord.units.date2num(pts)
            elif isinstance(pts, np.ndarray) and pts.dtype.kind == "O":
                pts = coord.units.date2num(pts)
            scalar = np.ndim(pts) == 0
            tgt = np.atleast_1d(np.asarray(pts))
            (dim,) = cube.coord_dims(coord)
            src = coord.points
            shape_in = cube.data
            data = self._interp(shape_in, dim, src, tgt)
            # result dtype: float data keep their dtype under linear interpolation
            if cube.dtype.kind == "f":
                data = data.astype(cube.dtype)
            new = iris.cube.Cube(data)
            new.metadata = cube.metadata
            for c in cube.coords():
                dims = cube.coord_dims(c)
                if dim not in dims:
                    nc = c.copy()
                    is_dim = any(c is d for d in cube.dim_coords)
                elif c is coord or c == coord:
                    pts_cast = tgt.astype(np.asarray(coord.points).dtype) if tgt.dtype.kind != "f" or coord.points.dtype.kind == "f" else tgt
                    nc = c.copy(pts_cast)
                    is_dim = isinstance(c, iris.coords.DimCoord)
                    if is_dim and len(tgt) > 1:
                        d = np.diff(tgt)
                        is_dim = bool(np.all(d > 0) or np.all(d < 0))
                        if not is_dim:
                            nc = iris.coords.AuxCoord(
                                pts_cast,
                                c.standard_name,
                                c.long_name,
                                c.var_name,
                                c.units,
                                attributes=c.attributes,
                                coord_system=c.coord_system,
                            )
                else:
                    if c.dtype.kind in "SUO":
                        continue
                    ax = dims.index(dim)
                    lo, hi, w, _ = _interp_weights(src, tgt, self._method, self._mode)
                    p = _apply_1d(np.asarray(c.points), ax, lo, hi, w, self._method)
                    b = None
                    if c.has_bounds():
                        b = _apply_1d(np.asarray(c.bounds), ax, lo, hi, w, self._method)
                    nc = iris.coords.AuxCoord(
                        p,
                        c.standard_name,
                        c.long_name,
                        c.var_name,
                        c.units,
                        bounds=b,
                        attributes=c.attributes,
                        coord_system=c.coord_system,
                    )
                    is_dim = False
                if is_dim and dims:
                    new.add_dim_coord(nc, dims[0])
                else:
                    new.add_aux_coord(nc, dims)
            cube = new
            if scalar and collapse_scalar:
                collapse.append(coord.name())
        for name in collapse:
            (dim,) = cube.coord_dims(cube.coord(name))
            sl = [slice(None)] * cube.ndim
            sl[dim] = 0
            cube = cube[tuple(sl)]
        return cube


class RectilinearRegridder(_Base):
    def __init__(self, src_cube, tgt_cube, method, mode):
        super().__init__(method, mode)
        self._src = src_cube
        self._tgt = tgt_cube
        self._tx = tgt_cube.coord(axis="x", dim_coords=True).copy()
        self._ty = tgt_cube.coord(axis="y", dim_coords=True).copy()

    def __call__(self, src):
        sx = src.coord(axis="x", dim_coords=True)
        sy = src.coord(axis="y", dim_coords=True)
        (xd,) = src.coord_dims(sx)
        (yd,) = src.coord_dims(sy)
        tx, ty = self._tx, self._ty
        if sx.coord_system == tx.coord_system and sy.coord_system == ty.coord_system:
            same = sx.units == tx.units
            tpx = tx.points if same else tx.units.convert(tx.points, sx.units)
            tpy = ty.points if sy.units == ty.units else ty.units.convert(ty.points, sy.units)
            data = src.data
            sxp = sx.points
            if getattr(sx, "circular", False):
                modulus = sx.units.modulus
                data = np.ma.concatenate([data, np.take(data, [0], axis=xd)], axis=xd) if ma.isMaskedArray(
                    data
                ) else np.concatenate([data, np.take(data, [0], axis=xd)], axis=xd)
                sxp = np.append(sxp, sxp[0] + modulus)
                tpx = (tpx - sxp[0]) % modulus + sxp[0]
            data = self._interp(data, xd, sxp, tpx)
            data = self._interp(data, yd, sy.points, tpy)
        else:
            data = self._general(src, sx, sy, xd, yd)
        if src.dtype.kind == "f" or self._method == "nearest":
            if self._method != "nearest" or src.dtype.kind == "f":
                data = data.astype(src.dtype)
        if self._mode == "mask" and ma.isMaskedArray(data) and not ma.isMaskedArray(src.data) and not ma.is_masked(data):
            data = ma.getdata(data)
        if self._mode == "mask" and not ma.isMaskedArray(data):
            data = ma.array(data, mask=np.zeros(data.shape, bool)) if ma.isMaskedArray(src.data) else data
        new = iris.cube.Cube(data)
        new.metadata = src.metadata
        for c in src.coords(dim_coords=True):
            d = src.coord_dims(c)[0]
            if d == xd:
                new.add_dim_coord(tx.copy(), d)
            elif d == yd:
                new.add_dim_coord(ty.copy(), d)
            else:
                new.add_dim_coord(c.copy(), d)
        for c in src.coords(dim_coords=False):
            dims = src.coord_dims(c)
            if xd in dims or yd in dims:
                continue
            new.add_aux_coord(c.copy(), dims)
        return new

    def _general(self, src, sx, sy, xd, yd):
        tx, ty = self._tx, self._ty
        txx, tyy = np.meshgrid(tx.points.astype(float), ty.points.astype(float))
        scrs = sx.coord_system.as_cartopy_projection()
        tcrs = tx.coord_system.as_cartopy_projection()
        pts = scrs.transform_points(tcrs, txx, tyy)
        px, py = pts[..., 0], pts[..., 1]
        if getattr(sx, "circular", False) or sx.units.modulus:
            m = sx.units.modulus or 360.0
            lo = sx.points.min()
            px = (px - lo) % m + lo
        data = src.data
        sxp, syp = sx.points, sy.points
        xl, xh, xw, xo = _interp_weights(sxp, px, self._method, self._mode)
        yl, yh, yw, yo = _interp_weights(syp, py, self._method, self._mode)
        out = xo | yo
        if self._mode == "error" and out.any():
            raise ValueError("One of the requested xi is out of bounds")
        a = np.moveaxis(np.asarray(ma.getdata(data)), (yd, xd), (-2, -1))

        def gather(a):
            if self._method == "nearest":
                yi = np.where(yw > 0.5, yh, yl)
                xi = np.where(xw > 0.5, xh, xl)
                return a[..., yi, xi]
            return (
                a[..., yl, xl] * (1 - yw) * (1 - xw)
                + a[..., yl, xh] * (1 - yw) * xw
                + a[..., yh, xl] * yw * (1 - xw)
                + a[..., yh, xh] * yw * xw
            )

        res = gather(a)
        mask = None
        if ma.isMaskedArray(data):
            m = np.moveaxis(ma.getmaskarray(data).astype(float), (yd, xd), (-2, -1))
            mask = gather(m) > 0
        if self._mode in ("nan", "nanmask"):
            res = np.where(out, np.nan, res)
        if self._mode == "mask" or (self._mode == "nanmask" and mask is not None):
            mask = out if mask is None else (mask | out)
        res = np.moveaxis(res, (-2, -1), (yd, xd))
        if mask is not None:
            mask = np.broadcast_to(mask, gather(a).shape)
            mask = np.moveaxis(mask, (-2, -1), (yd, xd))
            res = ma.array(res, mask=mask)
        return res
