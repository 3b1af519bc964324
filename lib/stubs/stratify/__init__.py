"""Stand-in for python-stratify: linear vertical interpolation at the first
crossing of a target level along an axis (documented behaviour only)."""
import numpy as np

EXTRAPOLATE_NAN = "nan"
EXTRAPOLATE_NEAREST = "nearest"
EXTRAPOLATE_LINEAR = "linear"
INTERPOLATE_LINEAR = "linear"
INTERPOLATE_NEAREST = "nearest"


def interpolate(
    z_target_levels,
    z_src,
    fz_src,
    axis=-1,
    rising=None,
    interpolation="linear",
    extrapolation="nan",
):
    z = np.moveaxis(np.asarray(z_src, dtype=np.float64), axis, 0)
    f = np.asarray(fz_src)
    out_dtype = f.dtype if f.dtype.kind == "f" else np.float64
    f = np.asarray(f, dtype=np.float64)
    f = np.moveaxis(f, axis, 0) if f.ndim == z.ndim else f.reshape((-1,) + (1,) * (z.ndim - 1))
    f = np.broadcast_to(f, z.shape)
    levels = np.asarray(z_target_levels, dtype=np.float64)
    if levels.ndim == 1:
        levels = np.broadcast_to(
            levels.reshape((-1,) + (1,) * (z.ndim - 1)), (len(levels),) + z.shape[1:]
        )
    else:
        levels = np.moveaxis(levels, axis, 0)
    if rising is None:
        first = z.reshape(z.shape[0], -1)
        rising = bool(first.shape[1] == 0 or first[0, 0] <= first[-1, 0])
    sign = 1.0 if rising else -1.0
    out = np.full(levels.shape, np.nan)
    with np.errstate(all="ignore"):
        for k in range(levels.shape[0]):
            target = levels[k] * sign
            zs = z * sign
            done = np.zeros(target.shape, dtype=bool)
            res = np.full(target.shape, np.nan)
            hit = zs[0] == target
            res[hit] = f[0][hit]
            done |= hit
            for i in range(1, z.shape[0]):
                cross = ~done & (zs[i - 1] < target) & (zs[i] >= target)
                w = (target - zs[i - 1]) / (zs[i] - zs[i - 1])
                if interpolation == "nearest":
                    w = np.where(w > 0.5, 1.0, 0.0)
                val = f[i - 1] + w * (f[i] - f[i - 1])
                res[cross] = val[cross]
                done |= cross
            if extrapolation == "nearest":
                low = ~done & (target < zs[0])
                res[low] = f[0][low]
                high = ~done & ~low & ~np.isnan(target)
                res[high] = f[-1][high]
            out[k] = res
    return np.moveaxis(out, 0, axis).astype(out_dtype)
