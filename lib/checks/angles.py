"""C04: angles survive conversion to vectors and their ensemble mean is a vector mean."""
import numpy as np

from harness.core import scenario
from harness.gen import cube, ensemble, snapshot, snap_diff, standard_faults


def adiff(a, b):
    """Distance on the circle, degrees."""
    d = np.abs(np.asarray(a, float) - np.asarray(b, float)) % 360.0
    return np.minimum(d, 360.0 - d)


def angles(rng, shape, dtype):
    kind = rng.randint(0, 4)
    if kind == 0:
        a = rng.np.uniform(0, 360, shape)
    elif kind == 1:
        a = rng.np.choice([0.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 315.0, 359.9999, 1e-4], shape)
    elif kind == 2:
        a = rng.np.uniform(-720, 720, shape)
    elif kind == 3:
        a = 360.0 - 10.0 ** rng.np.uniform(-12, 0, shape)
    else:
        a = -(10.0 ** rng.np.uniform(-12, 0, shape))
    return a.astype(dtype)


@scenario("C04", quick=250, thorough=5000)
def round_trip(rng, mon):
    from improver.utilities.complex_conversion import complex_to_deg, deg_to_complex

    shape = tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 3)))
    a = angles(rng, shape, rng.choice([np.float32, np.float64]))
    radius = rng.choice([1, 2.5, rng.np.uniform(0.01, 10, shape)])
    before = a.copy()
    z = deg_to_complex(a, radius=radius) if not np.isscalar(radius) or radius != 1 else deg_to_complex(a)
    rad = np.deg2rad(a.astype(float))
    mon.close(z, np.asarray(radius) * (np.cos(rad) + 1j * np.sin(rad)), "complex value", rtol=1e-4, atol=1e-4)
    mon.close(np.abs(z), np.broadcast_to(radius, shape), "radius kept", rtol=1e-5)
    back = complex_to_deg(z)
    mon.equal(back.dtype, np.dtype(np.float32), "angle type")
    mon.check(np.all((back >= 0) & (back < 360)), "angle outside [0, 360)", values=back[(back < 0) | (back >= 360)][:3])
    mon.check(np.all(adiff(back, a) < (2e-3 if a.dtype == np.float32 else 1e-4)), "angle changed by round trip",
              a=a.ravel()[:4], back=back.ravel()[:4])
    mon.array_equal(a, before, "input changed")
    mon.seen(a.dtype.name, len(shape), np.isscalar(radius))
    if rng.chance(0.1):
        mon.raises(TypeError, complex_to_deg, rng.choice([1 + 1j, [1 + 1j], "x"]), label="not an array accepted")


@scenario("C04", quick=150, thorough=3000)
def any_complex(rng, mon):
    """Every non-zero complex number has its angle in [0, 360)."""
    from improver.utilities.complex_conversion import complex_to_deg

    n = rng.randint(1, 30)
    mag = 10.0 ** rng.np.uniform(-6, 6, n)
    ang = angles(rng, (n,), np.float64)
    z = mag * np.exp(1j * np.deg2rad(ang))
    k = rng.randint(0, 3)
    if k == 1:
        z = np.array([1 - 1e-9j, 1 - 1e-20j, 1 + 0j, -1 + 0j, -1 - 1e-20j, 0 + 1j, 0 - 1j])
    if k == 2:
        z = z.astype(np.complex64)
    out = complex_to_deg(z)
    mon.check(np.all((out >= 0) & (out < 360)), "angle outside [0, 360)", values=out[(out < 0) | (out >= 360)][:3])
    mon.check(np.all(adiff(out, np.rad2deg(np.arctan2(z.imag, z.real))) < 1e-3), "angle of complex value")
    mon.seen(k, n > 5)


def directions(rng, mon_shape):
    nr, ny, nx = mon_shape
    kind = rng.randint(0, 4)
    if kind == 0:
        d = rng.np.uniform(0, 360, mon_shape)
    elif kind == 1:  # clustered round north
        d = (rng.np.normal(0, 25, mon_shape)) % 360
    elif kind == 2:
        centre = rng.np.uniform(0, 360, (1, ny, nx))
        d = (centre + rng.np.normal(0, rng.choice([1, 10, 60]), mon_shape)) % 360
    elif kind == 3:
        d = rng.np.choice([0.0, 90.0, 180.0, 270.0], mon_shape)
    else:  # all the same
        d = np.broadcast_to(rng.np.uniform(0, 360, (1, ny, nx)), mon_shape)
    return np.mod(d.astype(np.float32), np.float32(360)).astype(np.float32), kind


def window_mean(field, r):
    """Mean over the part of a (2r+1) square that is inside the domain."""
    ny, nx = field.shape[-2:]
    out = np.empty(field.shape, complex)
    for y in range(ny):
        for x in range(nx):
            out[..., y, x] = field[..., max(0, y - r): y + r + 1, max(0, x - r): x + r + 1].mean(axis=(-1, -2))
    return out


def expected_mean(d, backup, r):
    z = np.exp(1j * np.deg2rad(d.astype(float)))
    m = z.mean(axis=0)
    low = np.abs(m) < 0.01
    second = window_mean(z, r).mean(axis=0)
    ang = np.rad2deg(np.angle(m)) % 360
    alt = np.rad2deg(np.angle(second)) % 360 if backup == "neighbourhood" else d[0]
    sure = np.abs(np.abs(m) - 0.01) > 1e-4
    sure &= ~low | ((np.abs(second) > 0.01) if backup == "neighbourhood" else True)
    return np.where(low, alt, ang), low, sure, np.abs(m)


@scenario("C04", quick=120, thorough=2500)
def ensemble_mean(rng, mon):
    """Vector mean over realizations, with the documented stand-by where it has no direction."""
    from improver.wind_calculations.wind_direction import WindDirection

    nr, ny, nx = rng.randint(2, 6), rng.randint(6, 9), rng.randint(6, 9)
    d, kind = directions(rng, (nr, ny, nx))
    cancel = rng.chance(0.5)
    if cancel:  # exactly opposed members
        base = rng.np.randint(0, 360, (ny, nx)).astype(np.float32)
        pts = rng.np.rand(ny, nx) < 0.3
        for k in range(nr - nr % 2):
            d[k][pts] = (base[pts] + (180 if k % 2 else 0)) % 360
        if nr % 2:
            d[:, pts] = (base[pts][None] + 360.0 / nr * np.arange(nr)[:, None]) % 360
    spacing = rng.choice([2000.0, 3000.0, 5000.0])
    backup = rng.choice(["neighbourhood", "first_realization"])
    c = ensemble(d, name="wind_from_direction", units="degrees", spacing=spacing)
    before = snapshot(c)
    plugin = WindDirection(backup_method=backup)
    out = plugin(c)
    exp, low, sure, r = expected_mean(d, backup, int(6000.0 / spacing))
    mon.note(kind=kind, backup=backup, nr=nr, cancel=cancel, spacing=spacing)
    mon.equal(out.shape, (ny, nx), "result shape")
    mon.equal(snap_diff(before, snapshot(c)), None, "input changed")
    mon.equal(standard_faults(out), [], "types of the result")
    data = out.data
    mon.check(np.all((data >= 0) & (data < 360)), "mean outside [0, 360)", values=data[(data < 0) | (data >= 360)][:3])
    tol = np.where(low, 0.05 if backup == "neighbourhood" else 1e-3, 0.02)
    tol = np.where(low & (backup == "neighbourhood"), 0.5, np.maximum(tol, 1e-4 / np.maximum(r, 0.01)))
    bad = (adiff(data, exp) > tol) & sure
    mon.check(not bad.any(), "mean direction", at=np.argwhere(bad)[:2].tolist(), got=data[bad][:2], want=exp[bad][:2],
              low=low[bad][:2])
    mon.equal([str(m.method) for m in out.cell_methods], ["mean"], "cell method")
    mon.check(not out.coords("realization"), "realization left on the mean")
    mon.event("points with no direction", int((low & sure).sum()))
    mon.seen(kind, backup, nr, bool((low & sure).any()))
    if rng.chance(0.4):
        # the order of the members does not matter where the mean has a direction
        p = rng.np.permutation(nr)
        again = WindDirection(backup_method=backup)(ensemble(d[p], name="wind_from_direction", units="degrees", spacing=spacing))
        keep = ~low & sure
        mon.check(np.all(adiff(again.data, data)[keep] < 0.02), "member order changes the mean")
    if rng.chance(0.4):
        # turning every member turns the mean
        turn = np.float32(rng.choice([10, 90, 181.5, 300]))
        again = WindDirection(backup_method=backup)(
            ensemble(np.mod(d + turn, np.float32(360)), name="wind_from_direction", units="degrees", spacing=spacing))
        keep = ~low & sure & (r > 0.05)
        mon.check(np.all(adiff(again.data, data + turn)[keep] < 0.05), "rotation of members")
    if rng.chance(0.4):
        # the plugin has no memory
        d2, _ = directions(rng, (nr, ny, nx))
        c2 = ensemble(d2, name="wind_from_direction", units="degrees", spacing=spacing)
        fresh = WindDirection(backup_method=backup)(c2)
        reused = plugin(ensemble(d2, name="wind_from_direction", units="degrees", spacing=spacing))
        mon.array_equal(reused.data, fresh.data, "second use of a plugin")


@scenario("C04", quick=40, thorough=500)
def leading_dimension(rng, mon):
    """Several times at once give what each time gives alone; radians are degrees."""
    from iris.coords import DimCoord
    from improver.wind_calculations.wind_direction import WindDirection
    from harness import gen

    nr, nt, ny, nx = rng.randint(2, 4), rng.randint(2, 3), 6, 7
    d = np.stack([directions(rng, (nr, ny, nx))[0] for _ in range(nt)])
    heights = gen.level_coord(10.0 * np.arange(1, nt + 1))
    order = rng.chance(0.5)
    data = d if order else d.swapaxes(0, 1)
    lead = [heights, gen.realization_coord(nr)]
    c = cube(data, name="wind_from_direction", units="degrees", lead=lead if order else lead[::-1])
    out = WindDirection()(c)
    mon.equal(out.shape, (nt, ny, nx), "result shape")
    for i in range(nt):
        one = WindDirection()(ensemble(d[i], name="wind_from_direction", units="degrees"))
        mon.check(np.all(adiff(out.data[i], one.data) < 1e-3), "slice differs from the slice alone", i=i)
    r = ensemble(np.deg2rad(d[0]).astype(np.float32), name="wind_from_direction", units="radians")
    res = WindDirection()(r)
    exp, low, sure, mag = expected_mean(d[0], "neighbourhood", 3)
    keep = ~low & sure & (mag > 0.05)
    mon.check(np.all(adiff(res.data, exp)[keep] < 0.05), "radians input")
    mon.equal(str(res.units), "degrees", "units of the mean")
    mon.seen(order, nt, nr)
    mon.raises(TypeError, WindDirection(), rng.choice([None, "x", 3.0, [1.0]]), label="not a cube accepted")
    mon.raises(ValueError, WindDirection(), ensemble(d[0], name="wind_speed", units="m s-1"), label="bad units accepted")
    mon.raises(ValueError, WindDirection, backup_method="random", label="bad option accepted")
