"""C50: probabilities between thresholds, inverted, expected values, visibility with cloud, consistency with a reference."""
import warnings

import numpy as np
from iris.coords import AuxCoord, CellMethod
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube
from checks.manipulation import by_name, mdata, names, same

dt = gen.dt
H = dt.timedelta(hours=1)
ma = np.ma
INV = {"greater_than": "less_than_or_equal_to", "greater_than_or_equal_to": "less_than", "less_than": "greater_than_or_equal_to",
       "less_than_or_equal_to": "greater_than"}
DIAG = ["air_temperature", "lwe_precipitation_rate", "height_above_orography", "cloud_below_base", "lwe_precipitation_rate_in_vicinity"]


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def ladder(rng, shape, above, exact=True):
    """Probabilities that fall (or rise) along the first axis."""
    p = np.sort(rng.np.rand(*shape), axis=0)
    if rng.chance(0.5):
        p = np.round(p, 1)
    if rng.chance(0.3):
        p[..., 0] = 0
        p[..., -1] = 1
    p = p.astype(np.float32)
    return p[::-1].copy() if above else p


def probability(rng, diag=None, spp=None, ths=None, units="K", masked=0.3, whole=False, order=True, nr=None):
    diag = diag or rng.choice(DIAG)
    spp = spp or rng.choice(list(INV))
    above = spp.startswith("greater")
    ths = ths or sorted(rng.sample([-5.0, -1.0, 0.0, 0.5, 1.0, 2.0, 10.0, 25.0], rng.randint(1, 6)))
    nr = rng.choice([0, 0, 2]) if nr is None else nr
    d = ladder(rng, (len(ths),) + ((nr,) if nr else ()) + (2, 3), above)
    if rng.chance(masked):
        if whole:
            m = np.broadcast_to(gen.random_mask(rng, d.shape[1:]), d.shape)
        else:
            m = gen.random_mask(rng, d.shape)
        d = np.where(m, np.float32(rng.choice([0, 1, 9])), d)
        d = ma.masked_array(d, m)
    base = diag.replace("_in_vicinity", "")
    lead = [gen.threshold_coord(ths, base, units, spp)] + ([gen.realization_coord(nr)] if nr else [])
    c = cube(d, gen.prob_name(diag, spp), "1", lead=lead)
    if order and rng.chance(0.5):
        o = list(range(c.ndim))
        rng.shuffle(o)
        c.transpose(o)
    return c, base, spp, above, ths


# ---------------------------------------------------------- inversion
@scenario("C50", quick=60, thorough=2000)
def inverting(rng, mon):
    from improver.utilities.probability_manipulation import comparison_operator_dict, invert_probabilities, to_threshold_inequality

    c, base, spp, above, ths = probability(rng)
    name = c.name()
    before = content(c)
    out = invert_probabilities(c)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    same(mon, out.data, 1.0 - ma.asanyarray(c.data).astype(float), "inverted")
    mon.equal(out.data.dtype, np.dtype(np.float32), "type")
    mon.equal(out.name(), name.replace("_above_threshold" if above else "_below_threshold", "_below_threshold" if above else "_above_threshold"), "name")
    k = out.coord(base)
    mon.equal([k.attributes["spp__relative_to_threshold"], k.var_name], [INV[spp], "threshold"], "comparison")
    mon.array_equal(k.points, c.coord(base).points, "thresholds")
    back = invert_probabilities(out)
    same(mon, back.data, ma.asanyarray(c.data), "inverted twice", rtol=1e-6, atol=2e-7)
    mon.equal([back.name(), back.coord(base) == c.coord(base)], [name, True], "metadata inverted twice")
    for want in (True, False):
        got = to_threshold_inequality(c, above=want)
        mon.equal(got.coord(base).attributes["spp__relative_to_threshold"], spp if want == above else INV[spp], "comparison asked for")
        same(mon, got.data, ma.asanyarray(c.data if want == above else out.data), "probabilities of the comparison asked for", rtol=0, atol=0)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    bare = cube(np.ones((2, 3), np.float32))
    mon.raises(ValueError, invert_probabilities, bare, label="no thresholds")
    mon.raises(ValueError, to_threshold_inequality, bare, label="no thresholds")
    table = comparison_operator_dict()
    a, b = rng.uniform(-1, 1), rng.choice([0.0, rng.uniform(-1, 1)])
    for word, entry in table.items():
        mon.equal(bool(entry.function(a, b)), not table[entry.inverse].function(a, b), "an operator and its inverse are opposites")
        mon.equal(INV[entry.spp_string], table[entry.inverse].spp_string, "names of inverse")
        mon.equal(bool(entry.function(a, a)), entry.spp_string.endswith("equal_to"), "equality")
        mon.equal(bool(entry.function(2, 1)), entry.spp_string.startswith("greater"), "direction")
    mon.event("inverted")
    mon.seen("case", f"{name} {spp} {len(ths)} {ma.is_masked(c.data)}")


# ---------------------------------------------------- between thresholds
@scenario("C50", quick=80, thorough=2500)
def between(rng, mon):
    from improver.between_thresholds import OccurrenceBetweenThresholds

    n = rng.randint(2, 6)
    ths = sorted(rng.sample([-5.0, -1.0, 0.0, 0.5, 1.0, 2.0, 10.0, 25.0], n))
    units, use = rng.choice([("K", "K"), ("K", "celsius"), ("mm h-1", "mm h-1"), ("m", "km")])
    diag = {"K": "air_temperature", "mm h-1": "lwe_precipitation_rate", "m": "visibility_in_air"}[units]
    if units == "m":
        ths = sorted(rng.sample([50.0, 100.0, 500.0, 1000.0, 5000.0, 10000.0], n))
    c, base, spp, above, ths = probability(rng, diag, ths=ths, units=units)
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    rng.shuffle(pairs)
    chosen, tops = [], set()
    for a, b in pairs[: rng.randint(1, 3)]:
        # ranges inside one another would not make a dimension
        if b not in tops and all((a - x) * (b - y) > 0 for x, y in chosen):
            chosen.append((a, b))
            tops.add(b)

    def conv(v):
        return float(v) if units == use else (v - 273.15 if use == "celsius" else v / 1000)
    kind = rng.choice([list, list, tuple])
    ranges = [kind([conv(ths[a]), conv(ths[b])]) for a, b in chosen]
    missing = rng.chance(0.15)
    if missing:
        ranges.append([conv(max(ths)) + 1.0, conv(max(ths)) + 3.0])
    copy = [list(r) for r in ranges]
    before = content(c)
    plugin = OccurrenceBetweenThresholds(ranges, use)
    if missing:
        mon.raises(ValueError, plugin, c, label="threshold not available")
        mon.equal(snap_diff(before, content(c)), [], "input changed")
        mon.seen("case", "missing")
        return
    out = plugin(c)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    mon.equal([list(r) for r in ranges], copy, "ranges unchanged")
    again = plugin(c)
    mon.equal(snap_diff(content(out), content(again)), [], "the same again")
    chosen.sort(key=lambda p: p[1])
    rest = [k for k in names(c) if k != base]
    p = by_name(c, [base] + rest)
    p = ma.masked_array(ma.getdata(p).astype(float), ma.getmaskarray(p))
    got = by_name(out, [base] + rest) if out.coord_dims(base) else by_name(out, rest)[None]
    want = ma.stack([(p[a] - p[b]) * (1 if above else -1) for a, b in chosen])
    same(mon, got, want, "probability between", rtol=1e-5, atol=2e-7)
    if not ma.is_masked(c.data):
        mon.check(bool(np.all(ma.getdata(out.data) >= 0) and np.all(ma.getdata(out.data) <= 1)), "a probability")
    mon.equal(out.data.dtype, np.dtype(np.float32), "type")
    k = out.coord(base)
    mon.close(k.bounds.astype(float), np.array([[ths[a], ths[b]] for a, b in chosen]), "bounds are the range", rtol=1e-5, atol=1e-4)
    mon.close(k.points.astype(float), np.array([ths[b] for a, b in chosen]), "points are the tops", rtol=1e-5, atol=1e-4)
    mon.equal([str(k.units), k.attributes["spp__relative_to_threshold"], k.var_name], [str(c.coord(base).units), "between_thresholds", "threshold"], "threshold metadata")
    mon.equal(out.name(), f"probability_of_{base}_between_thresholds", "name")
    mon.equal(k.points.dtype, np.dtype(np.float32), "threshold type")
    mon.raises(ValueError, OccurrenceBetweenThresholds, [[1.0, 1.000001]], use, label="thresholds too close")
    mon.raises(ValueError, OccurrenceBetweenThresholds, [[2.0, 1.0]], use, label="thresholds in the wrong order")
    mon.raises(ValueError, plugin, cube(np.ones((2, 3), np.float32)), label="not probabilities")
    if len(chosen) > 1:
        mon.raises(ValueError, plugin, out, label="already between thresholds")
    mon.event("ranges", len(chosen))
    mon.seen("case", f"{units} {use} {spp} {n} {chosen} {kind.__name__}")


# ------------------------------------------------------- expected value
@scenario("C50", quick=80, thorough=2500)
def expected(rng, mon):
    from improver.expected_value import ExpectedValue

    kind = rng.choice(["threshold", "threshold", "percentile", "realization"])
    plugin = ExpectedValue()
    if kind == "threshold":
        small = rng.chance(0.4)
        ths = sorted(rng.sample([0.0, 0.03, 0.1, 0.5, 1.0, 4.0, 16.0], rng.randint(1, 6))) if small else None
        c, base, spp, above, ths = probability(rng, "lwe_precipitation_rate" if small else "air_temperature", ths=ths, units="mm h-1" if small else "K", whole=rng.chance(0.5))
        if small:
            c.coord(base).convert_units("m s-1")
        before = content(c)
        out = plugin(c)
        mon.equal(snap_diff(before, content(c)), [], "input changed")
        rest = [k for k in names(c) if k != base]
        p = by_name(c, [base] + rest)
        m = ma.getmaskarray(p).any(axis=0)
        cdf = ma.getdata(p).astype(float)
        cdf = 1 - cdf if above else cdf
        t = c.coord(base).points.astype(float)
        mid = np.concatenate([t[:1], (t[1:] + t[:-1]) / 2, t[-1:]])
        pdf = np.diff(np.concatenate([np.zeros((1,) + cdf.shape[1:]), cdf, np.ones((1,) + cdf.shape[1:])]), axis=0)
        want = ma.masked_array((pdf * mid.reshape((-1,) + (1,) * (pdf.ndim - 1))).sum(axis=0), m)
        scale = max(abs(t).max(), 1e-12)
        mon.equal(names(out), rest, "dimensions")
        same(mon, out.data, want, "expected value", rtol=1e-5, atol=2e-6 * scale)
        ok = ~ma.getmaskarray(out.data)
        g = ma.getdata(out.data)[ok].astype(float)
        mon.check(bool(np.all(g >= t[0] - 1e-5 * scale) and np.all(g <= t[-1] + 1e-5 * scale)), "within the thresholds", f"{g.min() if g.size else 0} {t[0]}")
        mon.equal([out.name(), str(out.units)], [base, str(c.coord(base).units)], "name and units")
        mon.check(not out.coords(base), "no thresholds")
        if len(ths) > 1:
            bad = c.copy()
            x = bad.coord(base)
            pts = x.points[::-1].copy()
            x.points = pts
            mon.raises(ValueError, plugin, bad, label="falling thresholds")
            if not m.any():
                wrong = c.copy()
                d = by_name(wrong, [base] + rest)
                d[0], d[-1] = (0.0, 1.0) if above else (1.0, 0.0)
                mon.raises(ValueError, plugin, wrong, label="probabilities that are not cumulative")
        methods = list(c.cell_methods)
    else:
        n = rng.randint(1, 5)
        lead = [gen.realization_coord(n) if kind == "realization" else gen.percentile_coord([float(v) for v in np.linspace(0, 100, n + 2)[1:-1]])]
        c = cube(mdata(rng, (n, 2, 3), 0.4), "wind_speed", "m s-1", lead=lead, cell_methods=[CellMethod("maximum", "time")] if rng.chance(0.4) else [])
        if rng.chance(0.5):
            c.transpose([1, 0, 2])
        before = content(c)
        if kind == "percentile" and n == 1:
            return
        out = plugin(c)
        mon.equal(snap_diff(before, content(c)), [], "input changed")
        d = by_name(c, [lead[0].name()] + [k for k in names(c) if k != lead[0].name()])
        want = ma.masked_array(ma.getdata(d).astype(float), ma.getmaskarray(d)).mean(axis=0)
        same(mon, out.data, ma.asanyarray(want), "mean", rtol=1e-6)
        mon.check(not out.coords("realization") and not out.coords("percentile"), "coordinate removed")
        mon.equal([out.name(), str(out.units)], ["wind_speed", "m s-1"], "name and units")
        methods = list(c.cell_methods)
    mon.equal(list(out.cell_methods), methods + [CellMethod("mean", coords="realization")], "cell methods")
    mon.equal(out.data.dtype, np.dtype(np.float32), "type")
    mon.equal(gen.standard_faults(out), [], "standards")
    mon.equal(snap_diff(content(out), content(plugin(c))), [], "the same again")
    mon.event(kind)
    mon.seen("case", f"{kind} {c.shape} {ma.is_masked(c.data)} {names(c)}")


# ------------------------------------------------ visibility and cloud
@scenario("C50", quick=60, thorough=1500)
def visibility(rng, mon):
    from improver.visibility.visibility_combine_cloud_base import VisibilityCombineCloudBase

    first = rng.choice([1000.0, 5000.0, 200.0])
    initial = rng.choice([0.0, 0.3, 0.6, 1.0])
    ths = sorted(rng.sample([0.0, 50.0, 200.0, 1000.0, 2000.0, 5000.0, 10000.0], rng.randint(1, 6)))
    spp = rng.choice(list(INV))
    above = spp.startswith("greater")
    v = cube(ladder(rng, (len(ths), 2, 3), above), gen.prob_name("visibility_in_air", spp), "1", lead=[gen.threshold_coord(ths, "visibility_in_air", "m", spp)])
    cb = cube(rng.np.rand(2, 3).astype(np.float32), "probability_of_cloud_base_height_below_threshold", "1",
              scalars=[AuxCoord(np.float32(0), long_name="cloud_base_height", var_name="threshold", units="m", attributes={"spp__relative_to_threshold": "less_than"})])
    if rng.chance(0.3):
        m = gen.random_mask(rng, (2, 3))
        v.data = ma.masked_array(v.data, np.broadcast_to(m, v.shape))
        cb.data = ma.masked_array(cb.data, m)
    before = [content(v), content(cb)]
    plugin = VisibilityCombineCloudBase(initial_scaling_value=initial, first_unscaled_threshold=first)
    cubes = CubeList([v, cb] if rng.chance(0.5) else [cb, v])
    out = plugin(cubes)
    mon.equal(snap_diff(before, [content(v), content(cb)]), [], "input changed")
    s = np.array([1.0 if t >= first else 1 - (1 - initial) * ((first - t) / first) ** 4 for t in ths])
    mon.check(bool(np.all(np.diff(s) >= -1e-9)), "scaling does not fall")
    mon.close(plugin.get_scaling_factors(np.array(ths, np.float32)).astype(float), s, "scaling", rtol=1e-5, atol=1e-6)
    below = 1 - ma.asanyarray(v.data).astype(float) if above else ma.asanyarray(v.data).astype(float)
    want = ma.maximum(below, ma.asanyarray(cb.data).astype(float)[None] * s[:, None, None])
    want = ma.masked_array(ma.getdata(want), ma.getmaskarray(below))
    got = out.data if out.coord_dims("visibility_in_air") else out.data[None]
    same(mon, got, 1 - want if above else want, "visibility combined", rtol=1e-5, atol=1e-6)
    mon.equal(out.name(), v.name(), "name")
    k = out.coord("visibility_in_air")
    mon.equal([k.attributes["spp__relative_to_threshold"], str(k.units), [float(x) for x in k.points]], [spp, "m", ths], "thresholds")
    mon.equal(out.data.dtype, np.dtype(np.float32), "type")
    mon.equal(gen.standard_faults(out), [], "standards")
    d = ma.getdata(out.data)[~ma.getmaskarray(out.data)]
    mon.check(bool(np.all(d >= -1e-6) and np.all(d <= 1 + 1e-6)), "a probability")
    if not ma.is_masked(v.data):
        diff = (ma.getdata(got) - ma.getdata(v.data)) * (-1 if above else 1)
        mon.check(bool(np.all(diff >= -1e-6)), "low visibility is never made less likely")
    mon.raises(ValueError, plugin, CubeList([v, cb, cb]), label="three cubes")
    mon.raises(ValueError, plugin, CubeList([v, v]), label="two of the same")
    mon.raises(ValueError, plugin, CubeList([v, cube(np.ones((2, 3), np.float32), "cloud_base_altitude", "m")]), label="not probabilities")
    mon.event("thresholds", len(ths))
    mon.seen("case", f"{first} {initial} {spp} {len(ths)} {ma.is_masked(v.data)}")


# --------------------------------------------------------- consistency
@scenario("C50", quick=80, thorough=2500)
def consistency(rng, mon):
    from improver.utilities.forecast_reference_enforcement import EnforceConsistentForecasts

    prob = rng.chance(0.3)
    nr = rng.choice([0, 2, 3])
    shape = ((nr,) if nr else ()) + (2, 3)
    lead = [gen.realization_coord(nr)] if nr else []
    m = gen.random_mask(rng, shape) if rng.chance(0.3) else None
    hi = 1.0 if prob else 30.0

    def mk(nm, un):
        d = rng.np.uniform(0, hi, shape).astype(np.float32)
        if m is not None:
            d = ma.masked_array(np.where(m, np.float32(rng.choice([-999, 0, 999])), d), m)
        return cube(d, nm, un, lead=lead)
    if prob:
        f, r = (mk("probability_of_wind_speed_of_gust_above_threshold", "1"), mk("probability_of_wind_speed_above_threshold", "1"))
        for k in (f, r):
            k.add_aux_coord(AuxCoord(np.float32(5), long_name=k.name()[15:-16], var_name="threshold", units="m s-1", attributes={"spp__relative_to_threshold": "greater_than"}))
    else:
        f = mk("wind_speed_of_gust", "m s-1")
        r = mk("wind_speed", "m s-1")
    alt = not prob and rng.chance(0.3)
    rv = ma.asanyarray(r.data).astype(float)
    if alt:
        r.convert_units("km h-1")
    pair = not prob and rng.chance(0.4)
    warn = rng.choice([None, 0.0, 5.0, 100.0])
    if pair:
        add, mul = [rng.uniform(-3, 0), rng.uniform(0, 4)], [rng.uniform(0.5, 1.0), rng.uniform(1.0, 1.5)]
        op = [">=", "<="]
        lo, up = rv * mul[0] + add[0], rv * mul[1] + add[1]
        if rng.chance(0.5):
            add, mul, op = add[::-1], mul[::-1], op[::-1]
    else:
        add, mul = (0.0, 1.0) if prob else (rng.choice([0.0, 2.0, -1.5]), rng.choice([1.0, 1.1, 0.5]))
        op = rng.choice([">=", "<="])
        b = rv * mul + add
        lo, up = (b, None) if op == ">=" else (None, b)
    before = content(f)
    fv = ma.asanyarray(f.data).astype(float)
    want = ma.getdata(fv).copy()
    if lo is not None:
        want = np.maximum(want, ma.getdata(lo))
    if up is not None:
        want = np.minimum(want, ma.getdata(up))
    mask = ma.getmaskarray(fv)
    want = ma.masked_array(want, mask)
    plugin = EnforceConsistentForecasts(additive_amount=add, multiplicative_amount=mul, comparison_operator=op, diff_for_warning=warn)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out = plugin(f, r)
    mon.equal(snap_diff(before, content(f)), [], "input changed")
    same(mon, out.data, want, "forecast within its bounds", rtol=1e-5, atol=1e-5)
    mon.equal(out.data.dtype, np.dtype(np.float32), "type")
    kept = ma.getdata(abs(want - fv) < 1e-9) & ~mask
    mon.array_equal(ma.getdata(out.data)[kept], ma.getdata(f.data)[kept], "consistent values are kept")
    o = out.copy(data=f.data)
    mon.equal(o.attributes.get("title"), "Post-Processed " + f.attributes["title"], "title")
    o.attributes["title"] = f.attributes["title"]
    mon.equal(snap_diff(before, content(o)), [], "metadata kept")
    told = [w for w in caught if "Inconsistency" in str(w.message)]
    change = ma.abs(want - fv).max() if not mask.all() else 0
    if warn is not None and abs(change - warn) > 1e-3:
        mon.equal(bool(told), bool(change > warn), "warning of large changes")
        if told:
            mon.check("wind_speed_of_gust" in str(told[0].message), "the warning names the forecast", str(told[0].message)[:100])
    elif warn is None:
        mon.equal(len(told), 0, "no warning")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        twice = plugin(out, r)
    same(mon, twice.data, ma.asanyarray(out.data), "nothing to do a second time", rtol=1e-6, atol=1e-6)
    # refusals
    if prob:
        mon.raises(ValueError, EnforceConsistentForecasts(additive_amount=0.1), f, r, label="probabilities shifted")
        mon.raises(ValueError, EnforceConsistentForecasts(multiplicative_amount=1.1), f, r, label="probabilities scaled")
    else:
        mon.raises(ValueError, EnforceConsistentForecasts(comparison_operator=rng.choice([">", "==", "<"])), f, r, label="operator")
        mon.raises(ValueError, EnforceConsistentForecasts([0.0, 0.0], [1.0, 1.0], [">=", ">="]), f, r, label="operators")
        mon.raises(ValueError, EnforceConsistentForecasts([0.0, 0.0], 1.0, ">="), f, r, label="lists and numbers")
        if not mask.all():
            mon.raises(ValueError, EnforceConsistentForecasts([5.0, -5.0], [1.0, 1.0], [">=", "<="]), f, r, label="contradictory bounds")
        k = r.copy()
        k.units = "K"
        mon.raises(ValueError, plugin, f, k, label="units")
    mon.event("values moved", int((~kept & ~mask).sum()))
    mon.seen("case", f"{prob} {nr} {pair} {op} {alt} {warn} {m is not None}")


@scenario("C50", quick=60, thorough=2000)
def normalising(rng, mon):
    from improver.utilities.forecast_reference_enforcement import normalise_to_reference, split_cubes_by_name

    n = rng.randint(2, 4)
    nr = rng.choice([0, 2])
    shape = ((nr,) if nr else ()) + (2, 3)
    lead = [gen.realization_coord(nr)] if nr else []
    m = gen.random_mask(rng, shape) if rng.chance(0.3) else None
    dry = gen.random_mask(rng, shape) if rng.chance(0.5) else np.zeros(shape, bool)

    def mk(nm, zero):
        d = rng.np.uniform(0, 5, shape).astype(np.float32)
        d[zero] = 0
        if m is not None:
            d = ma.masked_array(d, m)
        return cube(d, nm, "mm h-1", lead=lead)
    kinds = ["rainfall_rate", "lwe_snowfall_rate", "lwe_sleetfall_rate", "hail_rate"][:n]
    cs = [mk(k, dry | (gen.random_mask(rng, shape) if rng.chance(0.5) and i else np.zeros(shape, bool))) for i, k in enumerate(kinds)]
    wet = rng.chance(0.4)
    ref = mk("lwe_precipitation_rate", np.zeros(shape, bool) if wet else dry)
    hidden = np.zeros(shape, bool) if m is None else m
    total = sum(ma.getdata(c.data).astype(float) for c in cs)
    clash = ((total == 0) & (ma.getdata(ref.data) != 0) & ~hidden).any()
    before = [content(c) for c in cs + [ref]]
    ignore = rng.chance(0.5)
    if clash and not ignore:
        mon.raises(ValueError, normalise_to_reference, CubeList(cs), ref, ignore_zero_total=False, label="nothing to share out")
    else:
        out = normalise_to_reference(CubeList(cs), ref, ignore_zero_total=ignore)
        rv = ma.getdata(ref.data).astype(float)
        share = np.where(total == 0, 1.0, total)
        for c, o in zip(cs, out):
            want = ma.masked_array(rv * ma.getdata(c.data).astype(float) / share, hidden)
            same(mon, o.data, want, "share of the reference", rtol=1e-5, atol=1e-6)
            mon.equal(o.data.dtype, np.dtype(np.float32), "type")
            q = o.copy(data=c.data)
            mon.equal(snap_diff(content(c), content(q)), [], "metadata kept")
        s = sum(ma.getdata(o.data).astype(float) for o in out)
        ok = (total > 0) & ~hidden
        mon.close(s[ok], rv[ok], "shares add up to the reference", rtol=1e-5, atol=1e-5)
        mon.check(bool((s[(total == 0) & ~hidden] == 0).all()), "nothing stays nothing")
    mon.equal(snap_diff(before, [content(c) for c in cs + [ref]]), [], "input changed")
    mon.raises(ValueError, normalise_to_reference, CubeList(cs[:1]), ref, label="one cube")
    x = cs[1].copy()
    x.coord(axis="x").points = x.coord(axis="x").points + np.float32(3)
    mon.raises(ValueError, normalise_to_reference, CubeList([cs[0], x]), ref, label="grids that differ")
    if nr:
        mon.raises(ValueError, normalise_to_reference, CubeList([cs[0], cs[1][0]]), ref, label="numbers of dimensions")
    pool = cs + [ref]
    rng.shuffle(pool)
    pick = rng.choice([None, "rainfall_rate", kinds[:2], ["absent"]])
    a, b = split_cubes_by_name(CubeList(pool), pick)
    names_ = [c.name() for c in pool]
    chosen = names_ if pick is None else [k for k in names_ if k == pick or (isinstance(pick, list) and k in pick)]
    mon.equal([[c.name() for c in a], [c.name() for c in b]], [chosen, [] if pick is None else [k for k in names_ if k not in chosen]], "split by name")
    mon.event("cubes", n)
    mon.seen("case", f"{n} {nr} {m is not None} {clash} {ignore} {pick}")
