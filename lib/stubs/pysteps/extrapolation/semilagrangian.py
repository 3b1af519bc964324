"""Backward semi-Lagrangian extrapolation (nearest neighbour) with the calling
convention of pysteps.extrapolation.semilagrangian.extrapolate."""
import numpy as np

CALLS = []


def extrapolate(
    precip,
    velocity,
    timesteps,
    outval=np.nan,
    xy_coords=None,
    allow_nonfinite_values=False,
    vel_timestep=1,
    **kwargs,
):
    interp_order = kwargs.get("interp_order", 1)
    if interp_order != 0:
        raise NotImplementedError("stand-in: only interp_order=0")
    precip = np.asarray(precip)
    if precip.ndim != 2:
        raise ValueError("precip must be a two-dimensional array")
    if velocity.ndim != 3 or velocity.shape[0] != 2:
        raise ValueError("velocity must be a three-dimensional array")
    if not allow_nonfinite_values and np.any(~np.isfinite(precip)):
        raise ValueError("precip contains non-finite values")
    if np.any(~np.isfinite(velocity)):
        raise ValueError("velocity contains non-finite values")
    CALLS.append((precip.copy(), np.array(velocity), timesteps))
    if isinstance(outval, str) and outval == "min":
        outval = np.nanmin(precip)
    ny, nx = precip.shape
    y0, x0 = np.meshgrid(np.arange(ny, dtype=float), np.arange(nx, dtype=float), indexing="ij")
    dy = np.zeros((ny, nx))
    dx = np.zeros((ny, nx))
    out = []
    for _ in range(int(timesteps)):
        yi = np.clip(np.rint(y0 - dy), 0, ny - 1).astype(int)
        xi = np.clip(np.rint(x0 - dx), 0, nx - 1).astype(int)
        dx = dx + velocity[0][yi, xi]
        dy = dy + velocity[1][yi, xi]
        fy, fx = y0 - dy, x0 - dx
        inside = (fy >= 0) & (fy <= ny - 1) & (fx >= 0) & (fx <= nx - 1)
        sy, sx = np.rint(fy).astype(int), np.rint(fx).astype(int)
        step = np.full((ny, nx), outval, dtype=float)
        step[inside] = precip[sy[inside], sx[inside]]
        out.append(step)
    return np.stack(out) if out else np.zeros((0, ny, nx))
