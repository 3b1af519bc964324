"""C24: estimation of EMOS coefficients.  C25: application of EMOS coefficients."""
import datetime as dt
import warnings

import iris
import numpy as np
from iris.coords import AuxCoord, DimCoord
from iris.cube import Cube, CubeList
from scipy.optimize import minimize
from scipy.special import ndtr, ndtri

from checks.calib import DAY, HOUR, history
from harness import gen
from harness.core import scenario
from harness.gen import content, cube, snap_diff, standard_faults

RTPI = np.sqrt(np.pi)


def pdf(x):
    return np.exp(-0.5 * x * x) / np.sqrt(2 * np.pi)


def crps(dist, mu, sigma, y):
    """CRPS of N(mu, sigma), or of it truncated at zero."""
    with np.errstate(all="ignore"):
        z = (y - mu) / sigma
        if dist == "norm":
            return sigma * (z * (2 * ndtr(z) - 1) + 2 * pdf(z) - 1 / RTPI)
        p = ndtr(mu / sigma)
        return sigma / p ** 2 * (z * p * (2 * ndtr(z) + p - 2) + 2 * pdf(z) * p - ndtr(np.sqrt(2) * mu / sigma) / RTPI)


def parameters(co, preds, var, predictor):
    """preds (npred, ...)"""
    beta = np.asarray(co[1:-2], float)
    if predictor == "realizations":
        beta = beta ** 2
    mu = co[0] + np.tensordot(beta, preds, axes=(0, 0))
    return mu, np.sqrt(co[-2] ** 2 + co[-1] ** 2 * var)


@scenario("C24", quick=60, thorough=1500)
def score(rng, mon):
    """The minimised score is the mean CRPS, by integration of the distribution."""
    from improver.calibration.ensemble_calibration import ContinuousRankedProbabilityScoreMinimisers

    dist = rng.choice(["norm", "truncnorm"])
    predictor = rng.choice(["mean", "realizations"])
    k = rng.randint(1, 3)
    n = rng.randint(1, 6)
    if dist == "norm":
        x = 5 + 3 * rng.np.randn(n, k)
        y = 5 + 3 * rng.np.randn(n)
    else:
        x = 1 + 6 * rng.np.rand(n, k)
        y = 8 * rng.np.rand(n)
    var = 0.2 + 3 * rng.np.rand(n)
    co = [rng.uniform(-0.5, 0.5)] + [rng.uniform(0.3, 0.8) for _ in range(k)] + [rng.uniform(-1, 1), rng.uniform(0.3, 1.5)]
    nan = rng.chance(0.3) and n > 1
    if nan:
        y[rng.randrange(n)] = np.nan
    plugin = ContinuousRankedProbabilityScoreMinimisers(predictor)
    fn = plugin.minimisation_dict[dist]
    got = fn(np.array(co), x.copy(), y.copy(), var.copy(), RTPI)
    mu, sigma = parameters(co, x.T, var, predictor)
    vals = []
    for i in range(n):
        if np.isnan(y[i]):
            continue
        lo = min(mu[i] - 9 * sigma[i], y[i] - 1)
        hi = max(mu[i] + 9 * sigma[i], y[i] + 1)
        if dist == "truncnorm":
            lo = 0.0
        total = 0.0
        for a, b, step in ((lo, y[i], 0), (y[i], hi, 1)):
            if b <= a:
                continue
            g = np.linspace(a, b, 4001)
            cdf = ndtr((g - mu[i]) / sigma[i])
            if dist == "truncnorm":
                p0 = ndtr(-mu[i] / sigma[i])
                cdf = (cdf - p0) / (1 - p0)
            total += np.trapz((cdf - step) ** 2, g)
        vals.append(total)
    mon.close(np.array(got), np.array(np.mean(vals)), "score", rtol=2e-4, atol=1e-5, dist=dist, predictor=predictor)
    mon.seen(dist, predictor, k, n, nan)


def training(rng, dist, spot, nr, nt, sp, start, lag, extra=0):
    name, units = ("air_temperature", "K") if dist == "norm" else ("wind_speed", "m s-1")
    if dist == "norm":
        base = 280 + 6 * rng.np.randn(nt, *sp)
    else:
        base = 2 + 10 * rng.np.rand(nt, *sp)
    spread = 0.3 + rng.np.rand(nt, *sp)
    fc = base[:, None] + spread[:, None] * rng.np.randn(nt, nr, *sp)
    ob = base * rng.choice([1.0, 1.02]) + rng.choice([0, 1.0]) + spread * rng.np.randn(*base.shape)
    if dist != "norm":
        fc, ob = np.abs(fc), np.abs(ob)
    return name, units, fc.astype(np.float32), ob.astype(np.float32)


def altitude_field(rng, spot, sp, like, name="surface_altitude"):
    alt = np.round(300 * rng.np.rand(*sp)).astype(np.float32) / np.float32(100)
    c = next(like.slices_over("time")).copy()
    while c.ndim > len(sp):
        c = c[0]
    c = c.copy(data=alt)
    c.rename(name)
    c.units = "m"
    for k in ("time", "forecast_period", "forecast_reference_time", "realization"):
        if c.coords(k):
            c.remove_coord(k)
    return alt, c


@scenario("C24", quick=40, thorough=400)
def estimate(rng, mon):
    """Coefficients minimise the score over the matching history and are labelled with it."""
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration

    dist = rng.choice(["norm", "norm", "truncnorm"])
    predictor = rng.choice(["mean", "mean", "realizations"])
    spot = rng.chance(0.4)
    pbp = rng.chance(0.35)
    nr = rng.randint(2, 4)
    nt = rng.randint(4, 7)
    large = not pbp and rng.chance(0.3)
    if large:
        nt = 25
    sp = (rng.randint(1, 3),) if spot else (rng.randint(1, 2), rng.randint(2, 3))
    start, lag = gen.random_time(rng), rng.choice([3, 6])
    name, units, fc, ob = training(rng, dist, spot, nr, nt, sp, start, lag)
    nan = spot and rng.chance(0.35)
    if nan:
        ob[rng.randrange(nt), rng.randrange(sp[0])] = np.nan
    deg = dist == "norm" and rng.chance(0.4)
    f = history(rng, fc, name, units, [gen.realization_coord(nr)], start, lag, spot=spot)
    drop = rng.randrange(nt) if rng.chance(0.3) and nt > 5 else None
    days = [d for d in range(nt) if d != drop]
    t = history(rng, ob[days], name, units, [], start, lag, obs=True, spot=spot, days=days)
    if rng.chance(0.4):
        dims = [k.name() for k in f.coords(dim_coords=True)]
        r, tm = dims.index("realization"), dims.index("time")
        order = list(range(f.ndim))
        order[r], order[tm] = order[tm], order[r]
        f.transpose(order)
    if deg and rng.chance(0.5):
        t.convert_units("degC")
        t.data = t.data.astype(np.float32)
    extra, fields = None, None
    if predictor == "mean" and rng.chance(0.35):
        alt, a = altitude_field(rng, spot, sp, t)
        extra, fields = alt, CubeList([a])
    mask, mcube = None, None
    if not spot and not pbp and rng.chance(0.4 if extra is None else 0.7):
        mask = rng.np.rand(*sp) < 0.6
        mask.flat[rng.randrange(mask.size)] = True
        if mask.sum() > 0:
            mcube = cube(mask.astype(np.int8), name="land_binary_mask", units="1")
            for k in ("time", "forecast_reference_time", "forecast_period"):
                mcube.remove_coord(k)
    default = rng.chance(0.5)
    tol = 1e-4
    plugin = EstimateCoefficientsForEnsembleCalibration(
        dist, point_by_point=pbp, use_default_initial_guess=default, desired_units="degC" if deg else None,
        predictor=predictor, tolerance=tol, max_iterations=250)
    snap = (content(f), content(t), content(fields), content(mcube))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = plugin(f, t, fields, mcube)
    mon.equal(snap_diff(snap, (content(f), content(t), content(fields), content(mcube))), None, "input changed")
    names = ["emos_coefficient_%s" % k for k in ("alpha", "beta", "gamma", "delta")]
    mon.equal([c.name() for c in out], names, "coefficients")
    # predictors per point
    x = fc[days].astype(float)
    y = ob[days].astype(float)
    if deg:
        x, y = x - 273.15, y - 273.15
    var = x.var(axis=1, ddof=1)
    preds = x.mean(axis=1)[None] if predictor == "mean" else np.moveaxis(x, 1, 0)
    if extra is not None:
        preds = np.concatenate([preds, np.broadcast_to(extra, (1,) + y.shape)])
    k = len(preds)

    def best(p, v, o):
        """p (k, n), v (n,), o (n,)"""
        ok = ~np.isnan(o)
        use_default = default or not ok.all()
        if use_default:
            guess = [0.0] + ([1.0 / k] * k if predictor == "mean" else [np.sqrt(1.0 / k)] * k) + [0, 1]
        else:
            guess = list(np.linalg.lstsq(np.column_stack([np.ones(len(o)), p.T]), o, rcond=None)[0]) + [0, 1]

        def cost(co):
            mu, sg = parameters(co, p[:, ok], v[ok], predictor)
            val = np.nanmean(crps(dist, mu, sg, o[ok]))
            return val if np.isfinite(val) else 999999

        if not ok.any():
            return guess, None, cost
        res = minimize(cost, np.float32(guess).astype(float), method="Nelder-Mead", tol=tol, options={"maxiter": 250})
        return guess, res.fun, cost

    arrays = [np.ma.filled(c.data, np.nan) for c in out]
    if pbp:
        beta = np.asarray(out[1].data)
        bd = [c.name() for c in out[1].coords(dim_coords=True)]
        beta = beta.reshape((k,) + sp)
        mon.check(k == 1 or len(bd) == 0 or bd[0] in ("predictor_index", "realization"), "leading dimension of beta", dims=bd)
        pts = list(np.ndindex(*sp))
        for q in pts:
            sel = (slice(None), slice(None)) + q
            g, fun, cost = best(preds[sel], var[(slice(None),) + q], y[(slice(None),) + q])
            got = [float(np.asarray(arrays[0]).reshape(sp)[q])] + [float(beta[(i,) + q]) for i in range(k)] + [
                float(np.asarray(arrays[2]).reshape(sp)[q]), float(np.asarray(arrays[3]).reshape(sp)[q])]
            if fun is None:
                mon.close(np.array(got), np.array(g), "coefficients without truths", atol=1e-6)
            elif cost(np.array(g)) < 50:  # beyond that the guess is degenerate
                mon.check(cost(np.array(got)) <= cost(np.array(g)) + 1e-4, "worse than the first guess at a point", got=cost(np.array(got)), guess=cost(np.array(g)), co=got, g=list(g))
                mon.check(cost(np.array(got)) <= fun + (0.15 if large else 0.6) * abs(fun) + 1e-2, "score of the coefficients at a point",
                          got=cost(np.array(got)), want=fun, point=q)
    else:
        w = np.ones(sp, bool) if mask is None else mask
        p = preds[(slice(None), slice(None), w)].reshape(k, -1)
        g, fun, cost = best(p, var[:, w].reshape(-1), y[:, w].reshape(-1))
        got = [float(arrays[0])] + [float(v) for v in np.atleast_1d(arrays[1])] + [float(arrays[2]), float(arrays[3])]
        mon.check(cost(np.array(got)) <= cost(np.array(g)) + 1e-4, "worse than the first guess")
        mon.equal(len(got), k + 3, "number of coefficients")
        mon.check(cost(np.array(got)) <= fun + (0.15 if large else 0.6) * abs(fun) + 1e-2, "score of the coefficients",
                  got=cost(np.array(got)), want=fun, coefficients=got)
    # labels
    frts = [gen.seconds(start + d * DAY - lag * HOUR) for d in days]
    for c, nm in zip(out, names):
        mon.equal(str(c.units), ("degC" if deg else units) if nm.endswith(("alpha", "gamma")) else "1", "units of " + nm)
        frt = c.coord("forecast_reference_time")
        mon.equal(([int(v) for v in frt.points], [int(v) for v in frt.bounds[0]]), ([max(frts)], [min(frts), max(frts)]), "period")
        mon.equal([int(v) for v in c.coord("forecast_period").points], [lag * 3600], "forecast period")
        mon.equal((c.attributes["diagnostic_standard_name"], c.attributes["distribution"]), (name, dist), "attributes")
        mon.equal([float(v) for v in c.attributes.get("shape_parameters", [])], [0.0, np.inf] if dist == "truncnorm" else [], "shape parameters")
        mon.check(not c.coords("time"), "validity time kept")
        mon.equal(c.dtype, np.float32, "type")
        for ax in "xy":
            sc = f.coord(axis=ax)
            cc = c.coord(axis=ax)
            if pbp:
                mon.close(cc.points, sc.points, "points of " + sc.name())
            else:
                mon.equal(len(cc.points), 1, "points")
                lo = sc.bounds.min() if sc.has_bounds() else sc.points.min()
                hi = sc.bounds.max() if sc.has_bounds() else sc.points.max()
                mon.close(np.sort(cc.bounds[0]), np.array([lo, hi]), "extent of " + sc.name())
        if pbp and spot:
            mon.equal([str(v) for v in c.coord("wmo_id").points], [str(v) for v in f.coord("wmo_id").points], "sites")
    if predictor == "mean":
        mon.equal([str(v) for v in out[1].coord("predictor_name").points], [name] + (["surface_altitude"] if extra is not None else []),
                  "names of the predictors")
    if rng.chance(0.3):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            again = plugin(f, t, fields, mcube)
        for a, b in zip(out, again):
            mon.close(b.data, a.data, "second use", rtol=0, atol=0)
    mon.seen(dist, predictor, spot, pbp, extra is not None, mask is not None, default, deg, nan, drop is not None)


@scenario("C24", quick=16, thorough=200)
def points_without_truths(rng, mon):
    """Where no truth exists the coefficients are the first guess, at that point alone."""
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration

    predictor = rng.choice(["mean", "realizations"])
    spot = rng.chance(0.6)
    nr, nt = rng.randint(2, 4), rng.randint(3, 5)
    sp = (rng.randint(2, 3),) if spot else (2, rng.randint(1, 2))
    start, lag = gen.random_time(rng), 6
    dist = rng.choice(["norm", "truncnorm"])
    name, units, fc, ob = training(rng, dist, spot, nr, nt, sp, start, lag)
    pts = list(np.ndindex(*sp))
    gone = rng.sample(pts, rng.randint(1, len(pts) - 1))
    for q in gone:
        ob[(slice(None),) + q] = np.nan
    f = history(rng, fc, name, units, [gen.realization_coord(nr)], start, lag, spot=spot)
    t = history(rng, ob, name, units, [], start, lag, obs=True, spot=spot)
    plugin = EstimateCoefficientsForEnsembleCalibration(
        dist, point_by_point=True, use_default_initial_guess=rng.chance(0.5), predictor=predictor, max_iterations=20)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = plugin(f, t)
    k = nr if predictor == "realizations" else 1
    al, be, ga, de = [np.ma.filled(c.data, np.nan).astype(float) for c in out]
    be = be.reshape((k,) + sp)
    first = np.sqrt(1.0 / nr) if predictor == "realizations" else 1.0
    for q in pts:
        got = [al.reshape(sp)[q]] + [be[(i,) + q] for i in range(k)] + [ga.reshape(sp)[q], de.reshape(sp)[q]]
        guess = [0.0] + [first] * k + [0.0, 1.0]
        if q in gone:
            mon.close(np.array(got), np.array(guess), "coefficients without truths", rtol=0, atol=1e-6)
        else:
            mon.check(all(np.isfinite(got)), "coefficients missing although there are truths")
            # the minimisation may legitimately stop where it began, so moving is counted, not required
            mon.event("moved" if np.abs(np.array(got) - guess).max() > 1e-6 else "stayed")
    for c in out:
        mon.equal(c.dtype, np.float32, "type")
    mon.seen(predictor, spot, len(gone))


@scenario("C24", quick=15, thorough=150)
def estimate_refusals(rng, mon):
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration as Est

    start = gen.random_time(rng)
    name, units, fc, ob = training(rng, "norm", False, 2, 3, (2, 2), start, 6)
    f = history(rng, fc, name, units, [gen.realization_coord(2)], start, 6)
    t = history(rng, ob, name, units, [], start, 6, obs=True)
    plugin = Est("norm", use_default_initial_guess=True)
    mon.raises(ValueError, Est, "gamma", label="unknown distribution")
    mon.raises(ValueError, Est, "norm", predictor="median", label="unknown predictor")
    late = history(rng, ob, name, units, [], start + 60 * DAY, 6, obs=True)
    mon.raises(ValueError, plugin, f, late, label="no matching times")
    tc = t.copy()
    tc.convert_units("degC")
    mon.raises(ValueError, plugin, f, tc, label="units differ")
    mask = cube(np.ones((2, 2), np.int8), name="land_binary_mask", units="1")
    mon.raises(NotImplementedError, Est("norm", point_by_point=True), f, t, None, mask)
    mix = CubeList(list(history(rng, fc[:2], name, units, [gen.realization_coord(2)], start, 6).slices_over("time"))
                   + list(history(rng, fc[:1], name, units, [gen.realization_coord(2)], start + 2 * DAY, 7).slices_over("time")))
    try:
        mixed = mix.merge_cube()
    except Exception:
        mixed = None
    if mixed is not None:
        mon.raises(ValueError, plugin, mixed, t, label="mixed lead times accepted")
    field = next(t.slices_over("time"))
    mon.raises(ValueError, plugin, f, t, CubeList([field]), label="time-dependent extra predictor accepted")
    _, alt = altitude_field(rng, False, (2, 2), t)
    mon.raises(NotImplementedError, Est("norm", predictor="realizations"), f, t, CubeList([alt]))
    # a minimisation that ends where it began returns the first guess
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        loose = Est("norm", use_default_initial_guess=True, tolerance=1e6)(f, t)
    mon.close(np.array([float(c.data) for c in loose]), np.array([0.0, 1.0, 0.0, 1.0]), "first guess", rtol=0, atol=0.06)
    # the user is told when the minimisation stopped before converging
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter("always")
        Est("norm", use_default_initial_guess=True, max_iterations=rng.choice([1, 3]))(f, t)
    mon.check(any("did not" in str(w.message) or "not result in convergence" in str(w.message) for w in told), "not told about the lack of convergence",
              told=[str(w.message)[:80] for w in told])
    mon.seen("refused")


# --------------------------------------------------------------------- C25
def coefficient_cubes(rng, dist, predictor, pbp, f_hist, k, sp, fields):
    """Cubes of chosen coefficients, in the layout of the estimation."""
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration

    shape = sp if pbp else ()
    if predictor == "realizations":
        beta = np.sqrt((0.5 + rng.np.rand(k, *shape)) / k)
    else:
        beta = np.concatenate([0.9 + 0.2 * rng.np.rand(1, *shape), rng.np.randn(k - 1, *shape)])
    co = np.concatenate([rng.np.randn(1, *shape), beta, 0.2 + rng.np.rand(1, *shape), 0.5 + rng.np.rand(1, *shape)]).astype(np.float32)
    plugin = EstimateCoefficientsForEnsembleCalibration(dist, predictor=predictor, point_by_point=pbp)
    preds = CubeList([f_hist] + list(fields or []))
    cubes = plugin.create_coefficients_cubelist(co, f_hist, preds)
    return co.astype(float), cubes


def quantile(dist, mu, sg, q):
    if dist == "norm":
        return mu + sg * ndtri(q)
    p0 = ndtr(-mu / sg)
    return mu + sg * ndtri(p0 + (1 - p0) * q)


@scenario("C25", quick=120, thorough=3000)
def apply_emos(rng, mon):
    """Location and scale follow from the coefficients; output has the form of the input."""
    from improver.calibration.ensemble_calibration import (
        ApplyEMOS, CalibratedForecastDistributionParameters)

    dist = rng.choice(["norm", "norm", "truncnorm"])
    predictor = rng.choice(["mean", "mean", "realizations"])
    spot = rng.chance(0.4)
    pbp = rng.chance(0.35) and (spot or predictor == "mean")
    nr = rng.randint(2, 5)
    sp = (rng.randint(1, 4),) if spot else (rng.randint(2, 3), rng.randint(2, 4))
    start, lag = gen.random_time(rng), rng.choice([3, 6])
    name, units, fc, _ = training(rng, dist, spot, nr, 3, sp, start, lag)
    hist = history(rng, fc, name, units, [gen.realization_coord(nr)], start, lag, spot=spot)
    dims = [c.name() for c in hist.coords(dim_coords=True)]
    if dims.index("realization") > 0 and predictor == "realizations":
        d = dims.index("realization")
        hist.transpose([d] + [i for i in range(hist.ndim) if i != d])
    extra, fields = None, None
    if predictor == "mean" and rng.chance(0.3):
        extra, a = altitude_field(rng, spot, sp, hist)
        fields = CubeList([a])
    k = nr if predictor == "realizations" else 1 + (extra is not None)
    co, coeffs = coefficient_cubes(rng, dist, predictor, pbp, hist, k, sp, fields)
    now = start + 5 * DAY
    raw = fc[0] if dist == "norm" else fc[0]
    raw = (raw + rng.np.randn(*raw.shape) * 0.1).astype(np.float32)
    if dist != "norm":
        raw = np.abs(raw)
    if rng.chance(0.2):
        raw = np.round(raw).astype(np.float32)
    make = gen.spot if spot else cube
    kw = dict(name=name, units=units, time=now, frt=now - lag * HOUR)
    form = rng.choice(["realizations", "realizations", "percentiles", "probabilities"])
    if predictor == "realizations":
        form = "realizations"
    count = None
    if form == "realizations":
        f = make(raw, lead=[gen.realization_coord(nr)], **kw)
    elif form == "percentiles":
        np_ = rng.randint(2, 4)
        pc = np.linspace(10, 90, np_).astype(np.float32)
        f = make(np.sort(raw, axis=0)[:1] + np.arange(np_, dtype=np.float32).reshape((-1,) + (1,) * len(sp)),
                 lead=[gen.percentile_coord(pc)], **kw)
        count = rng.randint(2, 5)
    else:
        thr = np.array([270, 275, 280, 285, 290] if dist == "norm" else [0.5, 2, 4, 8, 15], np.float32)
        p = np.mean(raw[None] > thr.reshape((-1,) + (1,) * raw.ndim), axis=1).astype(np.float32)
        tc = gen.threshold_coord(thr, name, units)
        f = make(p, lead=[tc], **dict(kw, name=gen.prob_name(name, "greater_than"), units="1"))
        count = rng.randint(2, 5)
    method = None
    if rng.chance(0.3):
        from iris.coords import CellMethod

        method = CellMethod("maximum", coords="time", intervals="1 hour")
        f.add_cell_method(method)
    moved = rng.chance(0.2) and form == "realizations"
    if moved:
        f.transpose(list(range(1, f.ndim)) + [0])
    if form == "realizations":
        reals = raw.astype(float)
    else:
        from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
            ConvertProbabilitiesToPercentiles, RebadgePercentilesAsRealizations, ResamplePercentiles)

        conv = (ConvertProbabilitiesToPercentiles if form == "probabilities" else ResamplePercentiles)(ecc_bounds_warning=True)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rc = RebadgePercentilesAsRealizations()(conv(f.copy(), no_of_percentiles=count))
        rd = [c.name() for c in rc.coords(dim_coords=True)].index("realization")
        reals = np.moveaxis(np.asarray(rc.data, float), rd, 0)
    var = reals.var(axis=0, ddof=1)
    preds = reals.mean(axis=0)[None] if predictor == "mean" else reals
    if extra is not None:
        preds = np.concatenate([preds, extra[None]])
    shp = (-1,) + (sp if pbp else (1,) * len(sp))
    cb = co.reshape(shp)
    beta = cb[1:-2] ** 2 if predictor == "realizations" else cb[1:-2]
    mu = cb[0] + np.sum(beta * preds, axis=0)
    sg = np.sqrt(cb[-2] ** 2 + cb[-1] ** 2 * var)
    if dist == "truncnorm" and np.min(mu / sg) < -3:
        return  # scipy's truncated normal is not accurate there
    land = None
    if not spot and rng.chance(0.35):
        land = rng.np.rand(*sp) < 0.6
        lm = cube(land.astype(np.int8), name="land_binary_mask", units="1")
        for kk in ("time", "forecast_reference_time", "forecast_period"):
            lm.remove_coord(kk)
    lsm = None if land is None else lm
    moved = moved and land is None
    if form == "realizations":
        plugin = CalibratedForecastDistributionParameters(predictor=predictor)
        snap = (content(f), content(coeffs), content(fields))
        loc, scale = plugin(f, coeffs, additional_fields=fields, landsea_mask=lsm)
        mon.equal(snap_diff(snap, (content(f), content(coeffs), content(fields))), None, "input changed")
        m = np.zeros(sp, bool) if land is None else ~land
        mon.close(loc.data, mu if land is None else np.ma.masked_array(mu, m), "location", rtol=2e-5, atol=1e-3)
        mon.close(scale.data, sg if land is None else np.ma.masked_array(sg, m), "scale", rtol=1e-3, atol=1e-3)
        mon.equal((loc.name(), scale.name(), str(loc.units), str(scale.units)),
                  ("location_parameter", "scale_parameter", units, units), "names")
        mon.check(not loc.coords("realization"), "realization kept")
        mon.equal((loc.dtype, scale.dtype), (np.dtype(np.float32),) * 2, "type")
    plugin = ApplyEMOS()
    template = None
    target = form
    if form != "probabilities" and land is None and rng.chance(0.3):
        thr = np.array([270, 280, 290] if dist == "norm" else [1, 5, 10], np.float32)
        spp = rng.choice(["greater_than", "less_than"])
        template = make(np.zeros((3,) + sp, np.float32), lead=[gen.threshold_coord(thr, name, units, spp)],
                        **dict(kw, name=gen.prob_name(name, spp), units="1"))
        target = "probabilities"
    asked = None
    if target == "percentiles" and land is None and rng.chance(0.5):
        asked = sorted(rng.sample([5, 25, 50, 75, 95], rng.randint(1, 3)))
        plugin = ApplyEMOS(percentiles=asked)
    seed = rng.randint(0, 1000)
    args = dict(additional_fields=fields, land_sea_mask=lsm, prob_template=template, realizations_count=count,
                predictor=predictor, random_seed=seed)
    snap = (content(f), content(coeffs), content(fields), content(template), content(lsm))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = plugin(f, coeffs, **args)
    mon.equal(snap_diff(snap, (content(f), content(coeffs), content(fields), content(template), content(lsm))), None, "input changed (apply)")
    lead = {"realizations": "realization", "percentiles": "percentile", "probabilities": name}[target]
    names = [c.name() for c in out.coords(dim_coords=True)]
    got = np.ma.asanyarray(out.data)
    got = got[None] if lead not in names else np.ma.moveaxis(got, names.index(lead), 0) if hasattr(np.ma, "moveaxis") else \
        np.ma.masked_array(np.moveaxis(np.ma.getdata(got), names.index(lead), 0),
                           np.moveaxis(np.ma.getmaskarray(got), names.index(lead), 0))
    ref = raw if form == "realizations" else np.asarray(f.data)
    if target == "probabilities":
        tcoord = (template if template is not None else f).coord(name)
        spp = tcoord.attributes["spp__relative_to_threshold"]
        th = np.asarray(tcoord.points, float).reshape((-1,) + (1,) * len(sp))
        cdf = ndtr((th - mu) / sg)
        if dist == "truncnorm":
            p0 = ndtr(-mu / sg)
            cdf = np.clip((cdf - p0) / (1 - p0), 0, 1)
        exp = 1 - cdf if spp.startswith("greater") else cdf
        tol = dict(rtol=1e-3, atol=2e-3)
    else:
        q = np.arange(1, nr + 1) / (nr + 1.0) if target == "realizations" else np.asarray(
            asked if asked is not None else f.coord("percentile").points, float) / 100
        exp = quantile(dist, mu, sg, q.reshape((-1,) + (1,) * len(sp)))
        tol = dict(rtol=3e-5, atol=4e-3)
        if target == "realizations":
            flat, e = np.ma.getdata(got).copy(), np.empty(got.shape)
            for pt in np.ndindex(*sp):
                r = raw[(slice(None),) + pt]
                o = flat[(slice(None),) + pt]
                # order of the raw members is kept
                for i in range(nr):
                    for j in range(nr):
                        if r[i] < r[j] and (land is None or land[pt]):
                            mon.check(o[i] <= o[j] + 1e-5, "order of members", raw=r.tolist(), out=o.tolist())
                # sorted comparison of values
                e[(slice(None),) + pt] = exp[(slice(None),) + pt][np.argsort(np.argsort(o, kind="stable"), kind="stable")]
            exp = e
    if land is not None:
        exp = np.where(land, exp, ref)
    mon.check(not np.ma.is_masked(got), "masked output")
    mon.close(np.ma.getdata(got), exp, "calibrated forecast", form=form, target=target, dist=dist, predictor=predictor, **tol)
    mon.equal(standard_faults(out), [], "standards")
    mon.equal(out.name(), gen.prob_name(name, (template.coord(name).attributes["spp__relative_to_threshold"])) if template is not None else f.name(), "name")
    mon.equal(int(out.coord("time").points[0]), gen.seconds(now), "time")
    if template is None:
        mon.equal([str(x) for x in out.cell_methods if x.method == "maximum"], [str(method)] if method else [], "cell methods", form=form, target=target, land=land is not None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mon.close(plugin(f, coeffs, **args).data, out.data, "second use", rtol=0, atol=0)
        # refusals
        bad = CubeList([c.copy() for c in coeffs])
        for c in bad:
            c.attributes["diagnostic_standard_name"] = rng.choice(["relative_humidity", name + "_x"])
        mon.raises(ValueError, plugin, f, bad, label="other diagnostic accepted", **args)
        late = f.copy()
        for kk, step in (("time", 3600), ("forecast_period", 3600)):
            late.coord(kk).points = late.coord(kk).points + step
        mon.raises(ValueError, plugin, late, coeffs, label="other forecast period accepted", **args)
        late = f.copy()
        for kk in ("time", "forecast_reference_time"):
            late.coord(kk).points = late.coord(kk).points + 3600
        mon.raises(ValueError, plugin, late, coeffs, label="other hour accepted", **args)
        plugin(late, coeffs, tolerate_time_mismatch=True, **args)
        bad = CubeList([c.copy() for c in coeffs])
        odd = rng.randrange(len(bad))
        bad[odd].coord("forecast_period").points = bad[odd].coord("forecast_period").points + 3600
        mon.raises(ValueError, plugin, f, bad, label="one coefficient for another forecast period accepted", **args)
        bad = CubeList([c.copy() for c in coeffs])
        del bad[odd].attributes["distribution"]
        mon.raises(AttributeError, plugin, f, bad, label="distribution missing from one coefficient", **args)
        bad = CubeList([c.copy() for c in coeffs])
        bad[2].attributes["distribution"] = "gamma"
        mon.raises(Exception, plugin, f, bad, label="inconsistent distribution accepted", **args)
        if form != "realizations":
            mon.raises(ValueError, plugin, f, coeffs, label="no number of realizations", **dict(args, realizations_count=None))
        if not spot:
            far = f.copy()
            ax = rng.choice("xy")
            far.coord(axis=ax).points = far.coord(axis=ax).points + np.float32(100000)
            far.coord(axis=ax).bounds = far.coord(axis=ax).bounds + np.float32(100000)
            mon.raises(ValueError, plugin, far, coeffs, label="other domain accepted", **args)
        if extra is not None:
            mon.raises(ValueError, plugin, f, coeffs, label="missing predictor accepted", **dict(args, additional_fields=None))
            if spot:
                other = fields[0].copy()
                ids = other.coord("wmo_id").points.copy()
                ids[rng.randrange(len(ids))] = "99999"
                other.coord("wmo_id").points = ids
                mon.raises(ValueError, plugin, f, coeffs, label="predictor at other sites accepted", **dict(args, additional_fields=CubeList([other])))
                both = [fields[0], other]
                rng.shuffle(both)
                mon.raises(ValueError, plugin, f, coeffs, label="one predictor at other sites accepted", **dict(args, additional_fields=CubeList(both)))
        if land is not None and form != "probabilities":
            t = make(np.zeros((2,) + sp, np.float32), lead=[gen.threshold_coord([280.0, 290.0], name, units)],
                     **dict(kw, name=gen.prob_name(name, "greater_than"), units="1"))
            mon.raises(ValueError, plugin, f, coeffs, label="mask with another output form", **dict(args, prob_template=t))
        if target == "realizations":
            # random order: the same values at every point, reproducibly
            one = plugin(f, coeffs, **dict(args, randomise=True))
            two = plugin(f, coeffs, **dict(args, randomise=True))
            d = [c.name() for c in one.coords(dim_coords=True)].index("realization") if one.coords("realization", dim_coords=True) else None
            if d is not None and land is None:
                a, b = (np.sort(np.moveaxis(np.asarray(x.data), [c.name() for c in x.coords(dim_coords=True)].index("realization"), 0), axis=0)
                        for x in (one, out))
                mon.close(a, b, "values in random order", rtol=0, atol=0)
            mon.close(one.data, two.data, "same seed", rtol=0, atol=0)
    mon.seen(dist, predictor, spot, pbp, form, target, land is not None, extra is not None, bool(asked))
