"""C02: neighbourhood windows and sums are those of a direct enumeration."""
import numpy as np

from harness.core import scenario
from harness.gen import snapshot


def arr(rng, ndim=None, lo=1, hi=8, kind=None):
    ndim = rng.randint(2, 4) if ndim is None else ndim
    shape = tuple(rng.randint(1, 3) for _ in range(ndim - 2)) + (rng.randint(lo, hi), rng.randint(lo, hi))
    kind = kind or rng.choice(["f4", "f8", "i8", "i4", "bool"])
    if kind == "bool":
        return rng.np.rand(*shape) < 0.5
    if kind[0] == "i":
        return rng.np.randint(-50, 50, shape).astype(kind)
    return (rng.np.rand(*shape) * rng.choice([1, 100])).astype(kind)


def layout(rng, a):
    """Same values, another memory layout."""
    k = rng.randint(0, 3)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if k == 3:
        return a[..., ::-1].copy()[..., ::-1]
    return a


def windows_by_hand(a, shape):
    n = len(shape)
    lead = a.shape[: a.ndim - n]
    counts = tuple(d - s + 1 for d, s in zip(a.shape[-n:], shape))
    out = np.empty(lead + counts + tuple(shape), a.dtype)
    for i in np.ndindex(*lead):
        for j in np.ndindex(*counts):
            for k in np.ndindex(*shape):
                out[i + j + k] = a[i + tuple(p + q for p, q in zip(j, k))]
    return out


@scenario("C02", quick=200, thorough=3000)
def rolling(rng, mon):
    from improver.utilities.neighbourhood_tools import rolling_window

    a = layout(rng, arr(rng, hi=6))
    n = rng.randint(1, 2)
    shape = tuple(rng.randint(1, 4) for _ in range(n))
    mon.note(shape=a.shape, window=shape)
    before = a.copy()
    if any(s > d for s, d in zip(shape, a.shape[-n:])):
        mon.raises(RuntimeError, rolling_window, a, shape, label="oversized window accepted")
        mon.seen("too big")
        return
    w = rolling_window(a, shape)
    mon.array_equal(w, windows_by_hand(a, shape), "window contents")
    mon.equal(w.dtype, a.dtype, "window type")
    mon.check(not w.flags.writeable, "windows are writeable by default")
    mon.array_equal(a, before, "input changed")
    mon.seen("ok", a.ndim, n, a.flags["C_CONTIGUOUS"], a.dtype.kind)
    if rng.chance(0.3):
        v = rolling_window(a, shape, writeable=True)
        v[(0,) * v.ndim] = not v[(0,) * v.ndim] if a.dtype == bool else 77
        mon.check(a[(0,) * a.ndim] == v[(0,) * v.ndim], "writeable window is not a view")
    mon.raises(ValueError, rolling_window, a.ravel(), (1, 1), label="too few dimensions accepted")


@scenario("C02", quick=200, thorough=3000)
def padded_windows(rng, mon):
    from improver.utilities.neighbourhood_tools import pad_and_roll

    a = layout(rng, arr(rng, hi=6, kind=rng.choice(["f4", "f8", "i8"])))
    shape = (rng.choice([1, 3, 5]), rng.choice([1, 3, 5]))
    mode = rng.choice(["constant", "edge", "reflect", "symmetric", "wrap"])
    kw = {"mode": mode}
    fill = None
    if mode == "constant" and rng.chance(0.7):
        fill = rng.choice([0, 7, -3]) if a.dtype.kind == "i" else rng.choice([0.0, np.nan, -3.0])
        kw["constant_values"] = fill
    hy, hx = shape[0] // 2, shape[1] // 2
    ny, nx = a.shape[-2:]
    if mode in ("reflect", "symmetric", "wrap") and (hy >= ny or hx >= nx):
        return mon.event("padding wider than data")
    before = a.copy()
    out = pad_and_roll(a, shape, **kw)
    mon.equal(out.shape, a.shape + shape, "padded windows shape")

    def look(n, i):
        if 0 <= i < n:
            return i
        if mode == "constant":
            return None
        if mode == "edge":
            return min(max(i, 0), n - 1)
        if mode == "wrap":
            return i % n
        if mode == "symmetric":
            return -i - 1 if i < 0 else 2 * n - 1 - i
        return -i if i < 0 else 2 * n - 2 - i

    expected = np.empty(out.shape, a.dtype)
    for y in range(ny):
        for x in range(nx):
            for dy in range(shape[0]):
                for dx in range(shape[1]):
                    sy, sx = look(ny, y + dy - hy), look(nx, x + dx - hx)
                    if sy is None or sx is None:
                        expected[..., y, x, dy, dx] = 0 if fill is None else fill
                    else:
                        expected[..., y, x, dy, dx] = a[..., sy, sx]
    mon.array_equal(out, expected, "padded window contents", mode=mode)
    mon.array_equal(a, before, "input changed")
    mon.seen(mode, shape, a.ndim, fill is not None)


@scenario("C02", quick=320, thorough=5000)
def box_sums(rng, mon):
    from improver.utilities.neighbourhood_tools import boxsum, pad_boxsum

    a = layout(rng, arr(rng, hi=9))
    size = rng.choice([1, 3, 5, 7])
    box = rng.choice([size, (size, rng.choice([1, 3, 5, 7])), [size], np.int64(size), np.array([size, 3])])
    b = np.atleast_1d(box)
    bi, bj = int(b[0]), int(b[-1])
    before = a.copy()
    how = rng.choice(["padded", "padded", "raw", "cumulative", "self"])
    mon.note(shape=a.shape, box=box, how=how)
    ny, nx = a.shape[-2:]
    tol = 1e-4 * (1 + np.abs(a).sum()) if a.dtype == np.float32 else 1e-9 * (1 + np.abs(a).sum())
    if a.dtype.kind in "ib":
        tol = 0
    work = a.astype(float)
    if how in ("padded", "self"):
        mode = rng.choice(["constant", "edge"]) if how == "padded" else "constant"
        res = boxsum(a, box, mode=mode) if how == "padded" else boxsum(pad_boxsum(a, box, mode="constant"), box)
        expected = np.zeros(a.shape)
        for y in range(ny):
            for x in range(nx):
                for dy in range(-(bi // 2), bi // 2 + 1):
                    for dx in range(-(bj // 2), bj // 2 + 1):
                        sy, sx = y + dy, x + dx
                        if mode == "edge":
                            sy, sx = min(max(sy, 0), ny - 1), min(max(sx, 0), nx - 1)
                        elif not (0 <= sy < ny and 0 <= sx < nx):
                            continue
                        expected[..., y, x] += work[..., sy, sx]
        if a.dtype == bool and mode == "edge":
            tol = 0
    else:
        if ny <= bi or nx <= bj:
            return mon.event("box larger than data")
        data = a.cumsum(-2).cumsum(-1) if how == "cumulative" else a
        res = boxsum(data, box, cumsum=how != "cumulative")
        expected = np.zeros(a.shape[:-2] + (ny - bi, nx - bj))
        for y in range(ny - bi):
            for x in range(nx - bj):
                expected[..., y, x] = work[..., y + 1: y + 1 + bi, x + 1: x + 1 + bj].sum(axis=(-1, -2))
    mon.close(res, expected, "box sum", rtol=0, atol=tol, how=how)
    mon.array_equal(a, before, "input changed")
    mon.seen(how, bi, bj, a.dtype.kind, a.ndim)


@scenario("C02", quick=40, thorough=300)
def bad_boxes(rng, mon):
    from improver.utilities.neighbourhood_tools import boxsum

    a = arr(rng, hi=9)
    bad = rng.choice([2, 4, (3, 2), (2, 3), 3.0, (3.0, 3.0), 0, [4], (4, 5)])
    mon.raises(ValueError, boxsum, a, bad, label="bad box accepted", bad=None) if False else None
    try:
        boxsum(a, bad, mode="constant")
    except ValueError:
        mon.checks += 1
    else:
        mon.fail("bad box accepted", box=bad)
    mon.seen(bad)
