"""C12: percentiles of ensembles.  C13: percentiles from percentiles and from probabilities.
C14: ensemble copula coupling.  C15: percentiles and probabilities of fitted distributions."""
import datetime as dt
import warnings

import numpy as np
import scipy.stats
from iris.cube import CubeList
from scipy.special import ndtr, ndtri

from harness import gen
from harness.core import scenario
from harness.gen import cube, ensemble, content, snapshot, snap_diff, standard_faults

# name, units of a cube, range of the distribution in these units
DIAGNOSTICS = [
    ("air_temperature", "K", 173.15, 333.15, 250.0, 310.0),
    ("air_temperature", "celsius", -100.0, 60.0, -20.0, 35.0),
    ("wind_speed", "m s-1", 0.0, 50.0, 0.0, 40.0),
    ("rainfall_rate", "mm h-1", 0.0, 400.0, 0.0, 30.0),
    ("relative_humidity", "1", 0.0, 1.2, 0.0, 1.0),
]


def build(rng, data, lead, mask, spot_ok=True, **kw):
    """A gridded or spot cube of data (lead dims first, one trailing spatial axis or two)."""
    arr = data if mask is None else np.ma.masked_array(data.copy(), mask)
    if data.ndim - len(lead) == 1:
        return gen.spot(arr, lead=lead, **kw)
    return cube(arr, lead=lead, **kw)


def space(rng):
    return (rng.randint(2, 5),) if rng.chance(0.3) else (rng.randint(1, 4), rng.randint(2, 4))


def labelled(c, coord, want=None):
    """[(value of coord, data slice)]."""
    out = []
    for s in c.slices_over(coord):
        out.append((float(s.coord(coord).points[0]), s.data))
    return out


def shuffle_dims(rng, c):
    order = list(range(c.ndim))
    rng.shuffle(order)
    if order != sorted(order):
        c.transpose(order)
    return order


# --------------------------------------------------------------------- C12
@scenario("C12", quick=120, thorough=3000)
def collapse(rng, mon):
    """Percentiles interpolate linearly between the ordered members."""
    from improver.percentile import PercentileConverter

    n = rng.randint(1, 9)
    sp = (rng.randint(1, 4), rng.randint(1, 5))
    data = gen.smooth_field(rng, (n,) + sp, 250, 300)
    if rng.chance(0.4):
        data = np.round(data / 10).astype(np.float32)
    if rng.chance(0.2):
        data = data.astype(np.int32)
    pct = sorted(rng.sample([0, 5, 10, 20, 33.3, 50, 75, 90, 95, 100], rng.randint(1, 5)))
    coords = ["realization"] if rng.chance(0.7) else rng.sample(
        ["realization", "projection_y_coordinate", "projection_x_coordinate"], rng.randint(1, 2))
    mask = None
    if rng.chance(0.3) and data.dtype.kind == "f" and coords == ["realization"]:
        mask = gen.random_mask(rng, data.shape, 0.2) if rng.chance(0.5) else gen.same_mask(rng, data.shape, 0.3)
    c = ensemble(data if mask is None else np.ma.masked_array(data, mask))
    shuffle_dims(rng, c)
    before = snapshot(c)
    slow = mask is not None or rng.chance(0.2)
    arg = coords if len(coords) > 1 or rng.chance(0.5) else coords[0]
    default = rng.chance(0.15)
    plugin = PercentileConverter(arg, percentiles=None if default else pct, fast_percentile_method=not slow)
    if default:
        pct = [0, 5, 10, 20, 25, 30, 40, 50, 60, 70, 75, 80, 90, 95, 100]
    out = plugin(c)
    mon.equal(snap_diff(before, snapshot(c)), None, "input changed")
    got = dict(labelled(out, "percentile"))
    mon.equal(sorted(np.float32(p) for p in got), sorted(np.float32(p) for p in pct), "percentiles")
    mon.equal(str(out.coord("percentile").units), "%", "percentile units")
    for name in coords:
        mon.check(not out.coords(name), "collapsed coordinate kept", name=name)
    names = ["realization", "projection_y_coordinate", "projection_x_coordinate"]
    axes = tuple(names.index(k) for k in coords)
    left = [k for k in names if k not in coords]
    dims = [k.name() for k in out.coords(dim_coords=True) if k.name() != "percentile"]
    mon.equal(out.dtype, data.dtype, "type")
    for p in pct:
        key = [k for k in got if np.isclose(k, p, rtol=1e-6)][0]
        g = got[key]
        if mask is None:
            x = np.moveaxis(data.astype(float), axes, list(range(len(axes)))).reshape((-1,) + tuple(
                data.shape[i] for i in range(3) if i not in axes))
            x = np.sort(x, axis=0)
            pos = float(np.float32(p)) / 100 * (len(x) - 1)
            lo = int(np.floor(pos))
            hi = min(lo + 1, len(x) - 1)
            exp = x[lo] + (pos - lo) * (x[hi] - x[lo])
            if data.dtype.kind == "i":
                mon.check(np.all(np.abs(np.asarray(g).reshape(-1) - _order(exp, left, dims).reshape(-1)) <= 1.0), "percentile")
                continue
        else:
            exp = np.ma.masked_all(sp)
            for idx in np.ndindex(*sp):
                v = np.sort(data[(slice(None),) + idx][~mask[(slice(None),) + idx]].astype(float))
                if len(v):
                    pos = float(np.float32(p)) / 100 * (len(v) - 1)
                    lo = int(np.floor(pos))
                    hi = min(lo + 1, len(v) - 1)
                    exp[idx] = v[lo] + (pos - lo) * (v[hi] - v[lo])
        mon.close(g, _order(exp, left, dims), "percentile", rtol=2e-6, atol=1e-4, p=p)
    mon.close(plugin(c).data, out.data, "second use", rtol=0, atol=0)
    mon.raises(Exception, PercentileConverter("nothing"), c, label="missing coordinate accepted")
    mon.seen(n, len(pct), coords, mask is not None, slow)


def _order(a, have, want):
    """Axes named have, put in the order want (length-1 axes may have gone)."""
    order = [have.index(k) for k in want]
    rest = [i for i in range(len(have)) if i not in order]
    a = np.ma.asanyarray(a).transpose(rest + order)
    return a.reshape(a.shape[len(rest):]) if rest else a


@scenario("C12", quick=60, thorough=1200)
def rebadge(rng, mon):
    """Rebadging sorts the members at each point and names them by the stated law; and back."""
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        RebadgePercentilesAsRealizations, RebadgeRealizationsAsPercentiles)

    n = rng.randint(1, 8)
    sp = space(rng)
    data = gen.smooth_field(rng, (n,) + (sp if len(sp) == 2 else (1,) + sp), 0, 30).reshape((n,) + sp)
    mask = None
    if rng.chance(0.4):
        mask = np.broadcast_to(rng.np.rand(*sp) < 0.3, data.shape).copy()
        if rng.chance(0.5):
            mask = rng.np.rand(*data.shape) < 0.3
            data[mask] = rng.choice([-99.0, 0.0, 99.0])
    c = build(rng, data, [gen.realization_coord(n)], mask, name="wind_speed", units="m s-1")
    shuffle_dims(rng, c)
    before = snapshot(c)
    optimal = rng.chance(0.5)
    out = RebadgeRealizationsAsPercentiles(optimal_crps_percentiles=optimal)(c)
    mon.equal(snap_diff(before, snapshot(c)), None, "input changed")
    exp_p = [100 * (k + 0.5) / n for k in range(n)] if optimal else [100.0 * (k + 1) / (n + 1) for k in range(n)]
    mon.close(out.coord("percentile").points, np.array(exp_p, np.float32), "percentiles")
    mon.check(not out.coords("realization"), "realization kept")
    mon.equal(str(out.coord("percentile").units), "%", "units")
    ax = out.coord_dims("percentile")[0]
    src = c.data
    exp = np.sort(src, axis=ax)
    if mask is not None:
        # the valid values in order, the missing ones above them
        sm = np.ma.getmaskarray(src)
        v = np.sort(np.where(sm, np.inf, np.ma.getdata(src)), axis=ax)
        exp = np.ma.masked_array(np.where(np.isinf(v), 0, v).astype(np.float32), np.isinf(v))
    mon.close(out.data, exp, "sorted members", rtol=0, atol=0)
    # and back
    if not optimal:
        numbers = None if rng.chance(0.5) else np.arange(n) + rng.randint(0, 5)
        if numbers is not None and rng.chance(0.4) and not out.coords("percentile", dim_coords=True) == []:
            numbers = numbers[::-1].copy()
        before = snapshot(out)
        back = RebadgePercentilesAsRealizations()(out, ensemble_realization_numbers=numbers)
        mon.equal(snap_diff(before, snapshot(out)), None, "input changed by rebadging percentiles")
        mon.array_equal(back.coord("realization").points, np.arange(n) if numbers is None else numbers, "realization numbers")
        mon.equal(back.coord("realization").dtype, np.dtype(np.int32), "realization type")
        mon.equal(str(back.coord("realization").units), "1", "realization units")
        mon.close(back.data, exp, "data after rebadging", rtol=0, atol=0)
    k = rng.randint(0, 2)
    if k == 0:
        pts = np.array([100.0 * (i + 1) / 4 for i in range(3)])
        pts[rng.randint(0, 2)] += rng.choice([-10, -2, -0.5, 0.5, 2, 10])
        pts = rng.choice([[25, 50, 60], [10, 50, 90], [10, 30, 50, 70, 90], list(pts), list(pts)])
        uneven = gen.percentiles(np.zeros((len(pts), 2, 2), np.float32), pts)
        mon.raises(ValueError, RebadgePercentilesAsRealizations(), uneven, label="uneven percentiles accepted")
    elif k == 1:
        plain = cube(np.zeros((2, 2), np.float32))
        mon.raises(Exception, RebadgeRealizationsAsPercentiles(), plain, label="no realizations accepted")
    else:
        both = gen.percentiles(np.zeros((3, 2, 2), np.float32), [25, 50, 75], scalars=[gen.realization_coord([0])])
        before = snapshot(both)
        mon.raises(Exception, RebadgePercentilesAsRealizations(), both, label="second realization accepted")
        mon.equal(snap_diff(before, snapshot(both)), None, "refused cube changed")
    mon.seen(n, optimal, mask is not None, len(sp), k)


# --------------------------------------------------------------------- C13
def wanted(rng):
    """(kwargs, percentiles in the order requested or None)"""
    k = rng.randint(0, 3)
    if k == 0:
        n = rng.randint(1, 9)
        return {"no_of_percentiles": n}, [100.0 * (i + 1) / (n + 1) for i in range(n)]
    p = rng.sample([0, 2.5, 5, 10, 30, 50, 62.5, 80, 90, 99, 100], rng.randint(1, 5))
    if rng.chance(0.6):
        p.sort()
    return {"percentiles": [float(x) for x in p]}, p


def percentile_faults(mon, out, pct, leads=True):
    got = labelled(out, "percentile")
    mon.equal(len(got), len(pct), "number of percentiles")
    mon.check(np.allclose(sorted(g for g, _ in got), sorted(pct), atol=1e-3), "percentiles", got=[g for g, _ in got], want=pct)
    mon.equal(str(out.coord("percentile").units), "%", "percentile units")
    if len(pct) > 1 and leads:
        mon.equal(out.coord_dims("percentile"), (0,), "percentile dimension leads")
    return got


@scenario("C13", quick=160, thorough=4000)
def resample(rng, mon):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ResamplePercentiles

    name, units, lo, hi, dlo, dhi = rng.choice(DIAGNOSTICS)
    src = sorted(rng.sample([0, 1, 5, 10, 20, 25, 40, 50, 60, 75, 90, 95, 99, 100], rng.randint(1, 6)))
    sp = space(rng)
    extra = rng.choice([(), (), (2,)])
    data = rng.np.uniform(dlo, dhi, (len(src),) + extra + sp).astype(np.float32)
    if rng.chance(0.3):
        data = np.round(data).astype(np.float32)
    data = np.sort(data, axis=0)
    outside = rng.chance(0.2)
    if outside:
        side = rng.randint(0, 2)
        if side != 0:
            data[-1].flat[0] = hi * 1.02 + 1
        if side != 1:
            data[0].flat[-1] = lo - 5
    mask = None
    if rng.chance(0.35):
        m = rng.np.rand(*sp) < rng.choice([0.2, 0.5])
        mask = np.broadcast_to(m, data.shape).copy()
    lead = [gen.percentile_coord(src)] + ([gen.realization_coord(2)] if extra else [])
    c = build(rng, data, lead, mask, name=name, units=units)
    order = shuffle_dims(rng, c)
    skip, warn = rng.chance(0.3), rng.chance(0.5)
    kw, pct = wanted(rng)
    if rng.chance(0.15):
        kw, pct = {}, [100.0 * (i + 1) / (len(src) + 1) for i in range(len(src))]
    before = content(c)
    mon.note(src=src, pct=pct, order=order, skip=skip, warn=warn, mask=mask is not None, outside=outside, extra=extra)
    plugin = ResamplePercentiles(ecc_bounds_warning=warn, skip_ecc_bounds=skip)
    seen_out = ((data < np.float32(lo)) | (data > np.float32(hi)))
    if mask is not None:
        seen_out &= ~mask
    if seen_out.any() and not skip and not warn:
        mon.raises(ValueError, plugin, c, label="values beyond the allowed range accepted", **kw)
        mon.seen("refused")
        return
    out = plugin(c, **kw)
    mon.equal(snap_diff(before, content(c)), None, "input changed")
    got = percentile_faults(mon, out, pct)
    xp = [float(np.float32(s)) for s in src]
    names = [d.name() for d in build(rng, data, lead, None, name=name, units=units).coords(dim_coords=True)][1:]
    if c.ndim != len(names) + 1:
        names = None
    # expected in the input's own (transposed) order of dimensions
    pos = order.index(0)
    rest = [i for i in order if i != 0]
    ordered = np.transpose(data, [0] + rest).astype(float)
    om = None if mask is None else np.transpose(mask, [0] + rest)[0]
    shape = ordered.shape[1:]
    ll, hh = lo, hi
    if warn:
        # the range is widened to take in the data
        ok = data[~mask] if mask is not None else data
        if ok.size:
            ll, hh = min(lo, float(ok.min())), max(hi, float(ok.max()))
    scale = hi - lo
    for p, g in got:
        exp = np.empty(shape)
        for idx in np.ndindex(*shape):
            x, f = list(xp), list(ordered[(slice(None),) + idx])
            if not skip:
                if x[0] > 0:
                    x, f = [0.0] + x, [ll] + f
                if x[-1] < 100:
                    x, f = x + [100.0], f + [hh]
            exp[idx] = np.interp(p, x, f)
        gm = np.ma.getmaskarray(g)
        if om is not None:
            mon.array_equal(gm, np.broadcast_to(om, shape), "mask of the result")
        else:
            mon.check(not gm.any(), "result masked")
        mon.close(np.ma.getdata(g)[~gm], exp[~gm], "resampled value", rtol=1e-5, atol=scale * 2e-6, p=p)
    mon.equal(out.dtype, np.dtype(np.float32), "type")
    mon.equal((out.name(), str(out.units)), (c.name(), str(c.units)), "identity")
    mon.equal(standard_faults(out), [], "type standard")
    if rng.chance(0.4):
        mon.close(plugin(c, **kw).data, out.data, "second use", rtol=0, atol=0)
    mon.seen(len(src), len(pct), skip, warn, mask is not None, pos, len(sp))


@scenario("C13", quick=200, thorough=5000)
def from_probabilities(rng, mon):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertProbabilitiesToPercentiles

    name, units, lo, hi, dlo, dhi = rng.choice(DIAGNOSTICS)
    nt = rng.randint(1, 5)
    ths = sorted({round(rng.uniform(dlo, dhi), 2) for _ in range(nt)})
    outside = rng.chance(0.12)
    if outside:
        side = rng.randint(0, 2)
        ths = ([lo - 5.0] if side != 0 else []) + ths + ([hi + 5.0] if side != 1 else [])
    nt = len(ths)
    spp = rng.choice(["greater_than", "greater_than_or_equal_to", "less_than", "less_than_or_equal_to"])
    sp = space(rng)
    nr = rng.choice([0, 0, 2])
    cdf = np.sort(rng.np.rand(nt, *((nr,) if nr else ()), *sp), axis=0)
    if rng.chance(0.5):
        cdf = np.round(cdf * rng.choice([2, 4, 10])) / rng.choice([10]) if rng.chance(0.3) else np.round(cdf * 4) / 4
        cdf = np.clip(cdf, 0, 1)
    if rng.chance(0.3):
        cdf[...] = np.where(rng.np.rand(*cdf.shape[1:]) < 0.4, rng.choice([0.0, 1.0]), cdf)
    above = spp.startswith("greater")
    probs = (1 - cdf if above else cdf).astype(np.float32)
    mask = None
    if rng.chance(0.3):
        mask = np.broadcast_to(rng.np.rand(*sp) < rng.choice([0.2, 0.5]), probs.shape).copy()
    tc = gen.threshold_coord(ths, name, units, spp)
    lead = [tc] + ([gen.realization_coord(nr)] if nr else [])
    c = build(rng, probs, lead, mask, name=gen.prob_name(name, spp), units="1")
    if nr or rng.chance(0.6):
        order = [0] + list(range(1, c.ndim))
        if rng.chance(0.4):
            order = shuffle_dims(rng, c)
    else:
        order = shuffle_dims(rng, c)
    skip, warn, mask_p = rng.chance(0.3), rng.chance(0.5), rng.chance(0.3) and mask is None
    kw, pct = wanted(rng)
    if rng.chance(0.1):
        kw, pct = {}, [100.0 * (i + 1) / (nt + 1) for i in range(nt)]
    if rng.chance(0.1):
        kw, pct = {"percentiles": 50.0}, [50.0]
    before = content(c)
    mon.note(ths=ths, spp=spp, pct=pct, order=order, skip=skip, warn=warn, mask=mask is not None, nr=nr, mask_p=mask_p)
    plugin = ConvertProbabilitiesToPercentiles(ecc_bounds_warning=warn, mask_percentiles=mask_p, skip_ecc_bounds=skip)
    th32 = [float(np.float32(t)) for t in ths]
    beyond = th32[0] < lo - 1e-4 or th32[-1] > hi + 1e-4
    if beyond and not skip and not warn:
        mon.raises(ValueError, plugin, c, label="thresholds beyond the allowed range accepted", **kw)
        mon.seen("refused")
        return
    out = plugin(c, **kw)
    mon.equal(snap_diff(before, content(c)), None, "input changed")
    percentile_faults(mon, out, pct, leads=not nr)
    mon.equal(out.name(), name, "name")
    mon.equal(str(out.units), units if units != "celsius" else str(c.coord(name).units), "units")
    mon.check(not any(k.var_name == "threshold" for k in out.coords()), "threshold coordinate kept")
    # bring expectation to the order of the result
    names = ["threshold"] + (["realization"] if nr else []) + (
        ["spot_index"] if len(sp) == 1 else ["projection_y_coordinate", "projection_x_coordinate"])
    ll, hh = min(lo, th32[0]), max(hi, th32[-1])
    full = probs.astype(float)
    F = 1 - full if above else full
    shape = F.shape[1:]
    eps = 2e-6
    for k, s in enumerate(out.slices_over("percentile")):
        p = float(s.coord("percentile").points[0]) / 100
        dims = [d.name() for d in s.coords(dim_coords=True)]
        g = s.data
        order_s = [dims.index(n) for n in names[1:] if n in dims]
        g = np.ma.transpose(g, order_s).reshape(shape)
        gm = np.ma.getmaskarray(g)
        if mask is not None:
            mon.array_equal(gm, mask[0], "mask of the result")
        elif not mask_p:
            mon.check(not gm.any(), "result masked")
        gd = np.ma.getdata(g)
        for idx in np.ndindex(*shape):
            if mask is not None and mask[0][idx]:
                continue
            x, f = list(F[(slice(None),) + idx]), list(th32)
            if mask_p:
                exists = x[-1] if not above else 1 - full[-1][idx]
                # percentiles beyond the probability that the diagnostic exists
                if abs(exists - p) > 1e-5:
                    mon.equal(bool(gm[idx]), bool(exists < p), "masked percentile", exists=exists, p=p)
                if gm[idx]:
                    continue
            if not skip:
                x, f = [0.0] + x + [1.0], [ll] + f + [hh]
            a, b = inverse(x, f, p, eps)
            tol = 1e-4 * (hi - lo) * 0.05 + 1e-5 * abs(b)
            mon.check(a - tol <= gd[idx] <= b + tol, "value at percentile", got=float(gd[idx]), lo=a, hi=b, p=p, at=idx, x=x, f=f)
    mon.equal(out.dtype, np.dtype(np.float32), "type")
    mon.equal(standard_faults(out), [], "type standard")
    if rng.chance(0.3):
        mon.close(plugin(c, **kw).data, out.data, "second use", rtol=0, atol=0)
    mon.seen(nt, spp, len(pct), skip, warn, mask is not None, nr, mask_p, order[0], len(sp))


def inverse(x, f, p, eps):
    """Smallest and largest value at which the cumulative distribution can be p (to within eps)."""
    x = np.asarray(x, float)
    f = np.asarray(f, float)

    def low(q):
        if q <= x[0]:
            return f[0]
        j = int(np.argmax(x >= q)) if (x >= q).any() else None
        if j is None:
            return f[-1]
        return f[j - 1] + (q - x[j - 1]) / (x[j] - x[j - 1]) * (f[j] - f[j - 1])

    def high(q):
        if q >= x[-1]:
            return f[-1]
        js = np.flatnonzero(x <= q)
        if not len(js):
            return f[0]
        j = js[-1]
        return f[j] + (q - x[j]) / (x[j + 1] - x[j]) * (f[j + 1] - f[j])

    return low(p - eps), high(p + eps)


@scenario("C13", quick=30, thorough=500)
def fast_and_slow(rng, mon):
    """The compiled interpolation gives the plain one's answer."""
    import os
    import sys

    stub = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs_numba")
    sys.path.insert(0, stub)
    try:
        from improver.ensemble_copula_coupling import numba_utilities as fast
    finally:
        sys.path.remove(stub)
        sys.modules.pop("numba", None)
    from improver.ensemble_copula_coupling import utilities as slow

    m, n, k = rng.randint(1, 6), rng.randint(1, 5), rng.randint(1, 7)
    x = rng.np.uniform(-10, 110, k)
    if rng.chance(0.6):
        x = np.sort(x)
    xp = np.sort(rng.np.uniform(0, 100, m))
    fp = np.sort(rng.np.uniform(-5, 5, (n, m)), axis=1)
    mon.close(fast.fast_interp_same_x(x, xp, fp), slow.slow_interp_same_x(x, xp, fp), "same x", atol=1e-5)
    xps = np.sort(rng.np.uniform(0, 100, (n, m)), axis=1)
    f = rng.np.uniform(-5, 5, m)
    mon.close(fast.fast_interp_same_y(x, xps, f), slow.slow_interp_same_y(x, xps, f), "same y", atol=1e-5)
    exp = np.array([np.interp(x, xp, row) for row in fp])
    mon.close(slow.slow_interp_same_x(x, xp, fp), exp, "plain", atol=1e-5)
    mon.seen(m, n, k)


@scenario("C13", quick=40, thorough=500)
def sampling(rng, mon):
    from improver.ensemble_copula_coupling.utilities import choose_set_of_percentiles, get_bounds_of_distribution

    n = rng.randint(1, 40)
    mon.close(np.array(choose_set_of_percentiles(n)), np.array([100 * (i + 1) / (n + 1) for i in range(n)]), "quantiles")
    r = choose_set_of_percentiles(n, sampling="random")
    mon.equal(len(r), n, "number")
    mon.check(r == sorted(r), "sorted")
    mon.check(all(100 / (n + 1) - 1e-9 <= v <= 100 * n / (n + 1) + 1e-9 for v in r), "range")
    mon.raises(ValueError, choose_set_of_percentiles, n, sampling="other", label="unknown sampling accepted")
    for name, units, lo, hi, _, _ in DIAGNOSTICS:
        mon.close(get_bounds_of_distribution(name, units), np.array([lo, hi]), "range of values", name=name)
    mon.raises(KeyError, get_bounds_of_distribution, "kittens", "1", label="unknown diagnostic accepted")
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        ConvertProbabilitiesToPercentiles, ResamplePercentiles)

    c = gen.percentiles(np.full((2, 2, 2), 280, np.float32), [20, 80])
    mon.raises(ValueError, ResamplePercentiles(), c, percentiles=[rng.choice([-1.0, 101.0]), 50.0], label="percentile outside 0-100")
    p = gen.probabilities(np.full((2, 2, 2), 0.5, np.float32), [280, 290])
    mon.raises(ValueError, ConvertProbabilitiesToPercentiles(), p, no_of_percentiles=2, percentiles=[50.0], label="both given")
    mon.seen(n)


# --------------------------------------------------------------------- C14
@scenario("C14", quick=160, thorough=4000)
def reorder(rng, mon):
    """Each point keeps its multiset of values, ranked as the raw members are."""
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering

    n = rng.randint(1, 7)
    nraw = n if rng.chance(0.5) else rng.randint(1, 9)
    sp = space(rng)
    times = rng.choice([0, 0, 2])
    dims = ((times,) if times else ()) + sp
    pct = [100.0 * (i + 1) / (n + 1) for i in range(n)]
    cal = np.sort(rng.np.uniform(0, 30, (n,) + dims).astype(np.float32), axis=0)
    raw = rng.np.uniform(0, 30, (nraw,) + dims).astype(np.float32)
    ties = rng.chance(0.4)
    if ties:
        raw = np.round(raw / 10).astype(np.float32)
    elif rng.chance(0.3):
        raw = (5 + raw * rng.choice([1e-5, 1e-3])).astype(np.float32)  # members that barely differ
    first = rng.choice([0, 0, 3])
    mask = None
    if rng.chance(0.3):
        m = rng.np.rand(*sp) < rng.choice([0.2, 0.5])
        m.flat[0] = not m.flat[1:].any()
        mask = np.broadcast_to(m, (1,) + dims)[0]
    raw_masked = mask is not None and rng.chance(0.5)
    extra = []
    frt = dt.datetime(2017, 11, 10, 0)

    def make(arr, lead, masked, **kw):
        arr = arr if not masked else np.ma.masked_array(arr, np.broadcast_to(mask, arr.shape).copy())
        if not times:
            return build(rng, arr, [lead], None, **kw) if not masked else build_masked(arr, [lead], **kw)
        slices = CubeList()
        for t in range(times):
            s = arr[:, t]
            kw2 = dict(kw, time=frt + dt.timedelta(hours=3 * (t + 1)), frt=frt)
            slices.append(build_masked(s, [lead], **kw2))
        return slices.merge_cube()

    calc = make(cal, gen.percentile_coord(pct), mask is not None, name="wind_speed", units="m s-1")
    numbers = np.arange(nraw) + first
    if rng.chance(0.3):
        numbers = np.array(sorted(rng.sample(range(20), nraw)))
        first = int(numbers[0])
    rawc = make(raw, gen.realization_coord(numbers), raw_masked, name="wind_speed", units="m s-1")
    for k in (calc, rawc):
        if rng.chance(0.4):
            move_first(rng, k, "percentile" if k is calc else "realization")
    random_order = rng.chance(0.2)
    seed = None if rng.chance(0.5) else rng.randint(0, 1000)
    before = content([calc, rawc])
    mon.note(n=n, nraw=nraw, sp=sp, times=times, ties=ties, mask=mask is not None, raw_masked=raw_masked, first=first)
    args = dict(random_ordering=random_order, random_seed=seed)
    out = EnsembleReordering()(calc, rawc, **args)
    mon.equal(snap_diff(before, content([calc, rawc])), None, "input changed")
    mon.check(not out.coords("percentile"), "percentile coordinate kept")
    if n > 1:
        mon.equal(out.coord_dims("realization"), (0,), "realizations lead")
    want_numbers = numbers if n == nraw else np.arange(n) + first
    mon.array_equal(out.coord("realization").points, want_numbers, "realization numbers")
    mon.equal(out.coord("realization").dtype, np.dtype(np.int32), "realization type")
    got = align(out, ["realization"] + (["time"] if times else []) + space_names(sp), (n,) + dims)
    gm, gd = np.ma.getmaskarray(got), np.ma.getdata(got)
    if mask is not None:
        mon.array_equal(gm, np.broadcast_to(mask, gm.shape), "mask of the result")
    else:
        mon.check(not gm.any(), "result masked")
    used = raw[[i % nraw for i in range(n)]]
    for idx in np.ndindex(*dims):
        if mask is not None and mask[idx]:
            continue
        v = gd[(slice(None),) + idx]
        mon.array_equal(np.sort(v), cal[(slice(None),) + idx], "values at a point are not those of the forecast")
        if not random_order:
            r = used[(slice(None),) + idx]
            for i in range(n):
                for j in range(n):
                    if r[i] < r[j]:
                        mon.check(v[i] <= v[j], "order differs from the raw ensemble", raw=r, got=v)
    mon.equal(out.dtype, np.dtype(np.float32), "type")
    if seed is not None:
        again = EnsembleReordering()(calc, rawc, **args)
        mon.close(again.data, out.data, "repeat with the same seed", rtol=0, atol=0)
    mon.event("points", int(np.prod(dims)))
    mon.seen(n, nraw, times, ties, mask is not None, raw_masked, first, random_order, len(sp))


def move_first(rng, c, name):
    """The named dimension somewhere else, the others in order."""
    dims = c.coord_dims(name)
    if not dims:
        return
    order = [k for k in range(c.ndim) if k != dims[0]]
    order.insert(rng.randint(0, c.ndim - 1), dims[0])
    c.transpose(order)


def build_masked(arr, lead, **kw):
    if arr.ndim - len(lead) == 1:
        return gen.spot(arr, lead=lead, **kw)
    return cube(arr, lead=lead, **kw)


def space_names(sp):
    return ["spot_index"] if len(sp) == 1 else ["projection_y_coordinate", "projection_x_coordinate"]


def align(c, names, shape):
    dims = [d.name() for d in c.coords(dim_coords=True)]
    order = [dims.index(n) for n in names if n in dims]
    return np.ma.transpose(c.data, order).reshape(shape)


@scenario("C14", quick=40, thorough=600)
def mask_agreement(rng, mon):
    """Masks that do not fit together are refused."""
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering

    n, sp = 3, (2, 3)
    cal = np.sort(rng.np.rand(n, *sp).astype(np.float32), axis=0)
    raw = rng.np.rand(n, *sp).astype(np.float32)
    m = np.zeros((n,) + sp, bool)
    m[:, 0, 0] = True
    k = rng.randint(0, 3)
    mc, mr = m.copy(), m.copy()
    if k == 0:
        mc = None
    elif k == 3:
        # as many points missing, in another place
        mr = np.zeros_like(m)
        mr[:, 1, rng.randint(0, 2)] = True
        if rng.chance(0.5):
            mr[: rng.randint(1, 2)] = m[0]
    elif k == 1:
        mc[rng.randint(0, 2), 1, rng.randint(0, 2)] = True
    else:
        mr[rng.randint(0, 2), 1, rng.randint(0, 2)] = True
    calc = build_masked(cal if mc is None else np.ma.masked_array(cal, mc), [gen.percentile_coord([25, 50, 75])])
    rawc = build_masked(np.ma.masked_array(raw, mr), [gen.realization_coord(n)])
    mon.raises(ValueError, EnsembleReordering(), calc, rawc, label="masks that disagree accepted")
    mon.seen(k)


@scenario("C14", quick=12, thorough=100)
def arbitrary_ties(rng, mon):
    """Where members tie no member is favoured everywhere, and other seeds break the ties differently."""
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering

    n, sp = rng.randint(2, 4), (8, 8)
    calc = gen.percentiles(np.sort(rng.np.uniform(0, 9, (n,) + sp).astype(np.float32), axis=0), [100.0 * (i + 1) / (n + 1) for i in range(n)])
    rawc = ensemble(np.full((n,) + sp, rng.choice([0.0, 7.5]), np.float32))
    free = rng.chance(0.3)
    outs = [np.ma.getdata(EnsembleReordering()(calc.copy(), rawc.copy(), random_ordering=free, random_seed=s).data)
            for s in rng.sample(range(1000), 2) + [None]]
    for got in outs:
        mon.array_equal(np.sort(got, axis=0), calc.data, "values at a point are not those of the forecast")
        largest = np.argmax(got, axis=0)
        mon.equal(sorted(set(largest.ravel().tolist())), list(range(n)), "some member never has the largest value")
    mon.check(not np.array_equal(outs[0], outs[1]), "ties do not depend on the seed")
    mon.event("tied points", 64)
    mon.seen(n, free)


@scenario("C14", quick=60, thorough=1000)
def realizations_cli(rng, mon):
    """generate-realizations: values come from the forecast distribution, ranked as the raw ensemble."""
    from improver.cli.generate_realizations import process

    n, sp = rng.randint(1, 5), (rng.randint(1, 3), rng.randint(2, 3))
    lo, hi = 0.0, 50.0
    kind = rng.choice(["percentile", "probability", "realization", "other"])
    raw = rng.np.uniform(0, 30, (n,) + sp).astype(np.float32)
    rawc = ensemble(raw, name="wind_speed", units="m s-1")
    use_raw = rng.chance(0.7)
    count = None if use_raw and rng.chance(0.7) else rng.randint(1, 5)
    kw = dict(realizations_count=count, random_seed=rng.choice([None, 0, 4]))
    if use_raw:
        kw["raw_cube"] = rawc
    if kind == "realization":
        c = ensemble(raw.copy(), name="wind_speed", units="m s-1")
        before = content(c)
        mon.equal(snap_diff(before, content(process(c, **kw))), None, "realizations not returned as they are")
        mon.seen(kind)
        return
    if kind == "other":
        mon.raises(ValueError, process, cube(raw[0], name="wind_speed", units="m s-1"), label="no distribution accepted", **kw)
        mon.seen(kind)
        return
    m = rng.randint(2, 5)
    if kind == "percentile":
        src = sorted(rng.sample([5, 10, 30, 50, 70, 90, 95], m))
        vals = np.sort(rng.np.uniform(1, 40, (m,) + sp).astype(np.float32), axis=0)
        c = gen.percentiles(vals, src, name="wind_speed", units="m s-1")
    else:
        ths = sorted(rng.sample([2.0, 5.0, 8.0, 12.0, 20.0, 33.0], m))
        cdf = np.sort(rng.np.uniform(0.01, 0.99, (m,) + sp), axis=0)
        c = gen.probabilities((1 - cdf).astype(np.float32), ths, name="wind_speed", threshold_units="m s-1")
    if not use_raw and count is None:
        mon.raises(ValueError, process, c, label="unknown number of members accepted", **kw)
        return
    want = count or n
    out = process(c, **kw)
    mon.array_equal(out.coord("realization").points, np.arange(want), "members")
    got = out.data.reshape((want,) + sp)
    exp = np.empty((want,) + sp)
    for i in range(want):
        p = (i + 1) / (want + 1)
        for idx in np.ndindex(*sp):
            if kind == "percentile":
                exp[(i,) + idx] = np.interp(100 * p, [0.0] + [float(s) for s in src] + [100.0], [lo] + list(vals[(slice(None),) + idx]) + [hi])
            else:
                f = 1 - c.data[(slice(None),) + idx].astype(float)
                exp[(i,) + idx] = np.interp(p, [0.0] + list(f) + [1.0], [lo] + ths + [hi])
    mon.close(np.sort(got, axis=0), exp, "values of the members", rtol=1e-4, atol=2e-3)
    if use_raw:
        used = raw[[i % n for i in range(want)]]
        for i in range(want):
            for j in range(want):
                mon.check(np.all((got[i] <= got[j] + 1e-6) | (used[i] >= used[j])), "order of the members")
    else:
        mon.close(got, exp, "members in order", rtol=1e-4, atol=2e-3)
    mon.seen(kind, want, n, use_raw)


# --------------------------------------------------------------------- C15
def _truncnorm_ppf(q, a, b, mu, sd):
    fa, fb = ndtr((a - mu) / sd), ndtr((b - mu) / sd)
    return mu + sd * ndtri(fa + q * (fb - fa))


def _truncnorm_cdf(x, a, b, mu, sd):
    fa, fb = ndtr((a - mu) / sd), ndtr((b - mu) / sd)
    return np.clip((ndtr((x - mu) / sd) - fa) / (fb - fa), 0, 1)


def fitted(rng, sp):
    dist = rng.choice(["norm", "truncnorm", "logistic"])
    mu = rng.np.uniform(2, 20, sp).astype(np.float32)
    sd = rng.np.uniform(0.5, 4, sp).astype(np.float32)
    a, b = 0.0, rng.choice([np.inf, 40.0])
    shape = None if dist != "truncnorm" else np.array([a, b], np.float32)
    if dist == "norm":
        ppf = lambda q: mu.astype(float) + sd * ndtri(q)
        cdf = lambda x: ndtr((x - mu.astype(float)) / sd)
    elif dist == "truncnorm":
        ppf = lambda q: _truncnorm_ppf(q, a, b, mu.astype(float), sd)
        cdf = lambda x: _truncnorm_cdf(x, a, b, mu.astype(float), sd)
    else:
        ppf = lambda q: mu.astype(float) + sd * np.log(q / (1 - q))
        cdf = lambda x: 1 / (1 + np.exp(-(x - mu.astype(float)) / sd))
    return dist, shape, mu, sd, ppf, cdf


@scenario("C15", quick=120, thorough=3000)
def to_percentiles(rng, mon):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertLocationAndScaleParametersToPercentiles as P

    sp = space(rng)
    n_uses = rng.randint(1, 2)
    template_kind = rng.choice(["realization", "percentile"])
    dist, shape, mu, sd, ppf, _ = fitted(rng, sp)
    plugin = P(distribution=dist, shape_parameters=shape)
    for use in range(n_uses):
        if use:
            keep = dist
            while True:
                dist, _, mu, sd, ppf, _ = fitted(rng, sp)
                if dist == keep:
                    break
            if dist == "truncnorm":
                a, b = float(shape[0]), float(shape[1])
                ppf = (lambda mu, sd: lambda q: _truncnorm_ppf(q, a, b, mu.astype(float), sd))(mu, sd)
        m = None
        if rng.chance(0.3):
            m = rng.np.rand(*sp) < 0.3
        zero = np.zeros(sp, bool)
        if dist == "norm" and rng.chance(0.2):
            zero = rng.np.rand(*sp) < 0.3
            sd = np.where(zero, 0, sd).astype(np.float32)
        which = rng.choice(["both", "location", "scale"])
        loc = build_masked(np.ma.masked_array(mu, m) if m is not None and which != "scale" else mu, [], name="wind_speed", units="m s-1")
        scl = build_masked(np.ma.masked_array(sd, m) if m is not None and which != "location" else sd, [], name="wind_speed", units="m s-1")
        nt = rng.randint(2, 4)
        tdata = rng.np.uniform(0, 20, (nt,) + sp).astype(np.float32)
        lead = gen.realization_coord(nt) if template_kind == "realization" else gen.percentile_coord([100.0 * (i + 1) / (nt + 1) for i in range(nt)])
        tmpl = build_masked(tdata, [lead], name="wind_speed", units="m s-1")
        if rng.chance(0.5):
            n = rng.randint(1, 6)
            kw, pct = {"no_of_percentiles": n}, [100.0 * (i + 1) / (n + 1) for i in range(n)]
        else:
            pct = rng.sample([1, 5, 20, 50, 62.5, 90, 99], rng.randint(1, 4))
            if rng.chance(0.6):
                pct.sort()
            kw = {"percentiles": [float(p) for p in pct]}
        before = content([loc, scl, tmpl])
        out = plugin(loc, scl, tmpl, **kw)
        mon.equal(snap_diff(before, content([loc, scl, tmpl])), None, "input changed")
        got = percentile_faults(mon, out, pct)
        for p, g in got:
            q = float(np.float32(p / 100))
            exp = ppf(q)
            exp = np.where(zero, mu, exp)
            gm = np.ma.getmaskarray(g).reshape(sp)
            mon.array_equal(gm, np.zeros(sp, bool) if m is None else m, "mask of the result")
            mon.close(np.ma.getdata(g).reshape(sp)[~gm], exp[~gm], "percentile of the distribution", rtol=2e-4, atol=2e-4, dist=dist, p=p, use=use)
        mon.equal(out.dtype, np.dtype(np.float32), "type")
        mon.check(not out.coords("realization"), "realizations kept")
        mon.equal(standard_faults(out), [], "type standard")
        mon.seen(dist, use, m is not None, which, len(pct), template_kind, bool(zero.any()))
    mon.raises(ValueError, plugin, loc, scl, tmpl, no_of_percentiles=3, percentiles=[50.0], label="both given")
    mon.raises(AttributeError, P, distribution="kittens", label="unknown distribution accepted")
    mon.raises(ValueError, P, distribution="truncnorm", label="no shape accepted")


@scenario("C15", quick=120, thorough=3000)
def to_probabilities(rng, mon):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertLocationAndScaleParametersToProbabilities as P

    sp = space(rng)
    dist, shape, mu, sd, _, cdf = fitted(rng, sp)
    plugin = P(distribution=dist, shape_parameters=shape)
    spp = rng.choice(["greater_than", "greater_than_or_equal_to", "less_than", "less_than_or_equal_to"])
    for use in range(rng.randint(1, 2)):
        ths = sorted(rng.sample([0.5, 3.0, 5.0, 8.0, 12.0, 20.0, 33.0], rng.randint(1, 4)))
        units, factor = rng.choice([("m s-1", 1.0), ("km h-1", 3.6)])
        if shape is not None and np.isfinite(shape[1]):
            units, factor = "m s-1", 1.0  # the shape belongs to these units
        m = rng.np.rand(*sp) < 0.3 if rng.chance(0.3) else None
        which = rng.choice(["both", "location", "scale"])
        hidden = lambda a: np.ma.masked_array(a, m)
        loc = build_masked(hidden(mu) if m is not None and which != "scale" else mu, [], name="wind_speed", units="m s-1")
        scl = build_masked(hidden(sd) if m is not None and which != "location" else sd, [], name="wind_speed", units="m s-1")
        tdata = np.zeros((len(ths),) + sp, np.float32)
        tmpl = build_masked(tdata, [gen.threshold_coord([t * factor for t in ths], "wind_speed", units, spp)],
                            name=gen.prob_name("wind_speed", spp), units="1")
        if rng.chance(0.3):
            move_first(rng, tmpl, "wind_speed")
        before = content([loc, scl])
        out = plugin(loc, scl, tmpl)
        mon.equal(snap_diff(before, content([loc, scl])), None, "input changed")
        got = align(out, ["wind_speed"] + space_names(sp), (len(ths),) + sp)
        for i, t in enumerate(ths):
            exp = cdf(t)
            if spp.startswith("greater"):
                exp = 1 - exp
            gm = np.ma.getmaskarray(got[i])
            mon.array_equal(gm, np.zeros(sp, bool) if m is None else m, "mask of the result")
            mon.close(np.ma.getdata(got[i])[~gm], exp[~gm], "probability", rtol=1e-4, atol=2e-5, dist=dist, t=t, spp=spp, use=use)
        mon.equal(out.name(), tmpl.name(), "name")
        mon.equal(out.dtype, np.dtype(np.float32), "type")
        mon.seen(dist, use, spp, units, m is not None, which, len(ths))
    # temperatures: the scale is a difference of temperatures
    k = 273.15
    tl = build_masked((mu + np.float32(k)).astype(np.float32), [], name="air_temperature", units="K")
    ts = build_masked(sd, [], name="air_temperature", units="K")
    tt = build_masked(np.zeros((1,) + sp, np.float32), [gen.threshold_coord([9.0], "air_temperature", "celsius", spp)],
                      name=gen.prob_name("air_temperature", spp), units="1")
    got = P("norm")(tl, ts, tt).data.reshape(sp)
    exp = ndtr((9.0 - mu.astype(float)) / sd)
    mon.close(got, exp if spp.startswith("less") else 1 - exp, "probability of temperature in other units", atol=1e-4)
    bad = build_masked(mu, [], name="air_temperature", units="K")
    mon.raises(ValueError, plugin, bad, scl.copy(), tmpl, label="units that do not fit accepted")
