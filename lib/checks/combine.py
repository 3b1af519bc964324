"""C49: combining cubes, and maxima in a time window."""
import numpy as np
from iris.coords import AuxCoord, CellMethod
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube
from checks.manipulation import by_name, mdata, names, same

dt = gen.dt
H = dt.timedelta(hours=1)
ma = np.ma


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def combined(op, arrays):
    """Left to right in double precision; a point is masked where any input is, except that masked_add is masked where all are."""
    masks = [ma.getmaskarray(a) for a in arrays]
    vals = [ma.getdata(a).astype(float) for a in arrays]
    if op == "masked_add":
        mask = np.logical_and.reduce(masks)
        out = sum(np.where(m, 0, v) for m, v in zip(masks, vals))
        return ma.masked_array(out, mask)
    mask = np.logical_or.reduce(masks)
    out = vals[0]
    for v in vals[1:]:
        out = {"+": np.add, "add": np.add, "-": np.subtract, "subtract": np.subtract, "*": np.multiply, "multiply": np.multiply,
               "max": np.maximum, "min": np.minimum, "mean": np.add}[op](out, v)
    if op == "mean":
        out = out / len(vals)
    return ma.masked_array(out, mask)


OPS = ["+", "add", "-", "subtract", "*", "multiply", "max", "min", "mean", "masked_add"]


@scenario("C49", quick=120, thorough=4000)
def combining(rng, mon):
    from improver.cube_combiner import Combine, CubeCombiner

    op = rng.choice(OPS)
    n = rng.randint(2, 4)
    nr = rng.choice([0, 0, 1, 2, 3])
    prob = rng.chance(0.4)
    base = gen.random_time(rng)
    period = rng.chance(0.6)
    ints = rng.chance(0.1) and op not in ("mean",)
    method = rng.choice([None, None, "time"])
    expand = rng.chance(0.8)
    newname = rng.choice([None, "rainfall_rate", "snowfall_rate"])
    lead, shape = [], []
    if nr:
        lead.append(gen.realization_coord(nr))
        shape.append(nr)
    if prob:
        lead.append(gen.threshold_coord([1.0, 2.0, 5.0][:rng.randint(1, 3)], "lwe_precipitation_rate", "mm h-1"))
        shape.append(lead[-1].shape[0])
    name = gen.prob_name("lwe_precipitation_rate", "greater_than") if prob else "lwe_precipitation_rate"
    order = list(range(len(shape) + 2))
    rng.shuffle(order)
    keep = rng.chance(0.6)
    cs = []
    for i in range(n):
        t = base + rng.choice([1, 2, 3, 6]) * H
        d = mdata(rng, tuple(shape) + (2, 3), 0.3, -5, 5)
        c = cube(d, name, "1" if prob else "mm h-1", time=t, frt=base, bounds=(t - H, t) if period else None, lead=[k.copy() for k in lead],
                 attributes={"title": f"t{i}", "source": "s"}, cell_methods=[CellMethod("mean", "area")] if rng.chance(0.3) else [])
        if ints:
            c.data = c.data.astype(np.int32)
        if rng.chance(0.5):
            c.add_aux_coord(AuxCoord(np.float32(rng.choice([2.0, 10.0])), "height", units="m"))
        if not keep:
            c.transpose(order)
        cs.append(c)
    before = [content(c) for c in cs]
    plugin = Combine(op, new_name=newname, cell_method_coordinate=method, expand_bound=expand)
    if method and op not in ("max", "min", "mean", "*", "multiply"):
        mon.raises(ValueError, plugin, *cs, label="cell method of another operation")
        mon.equal(snap_diff(before, [content(c) for c in cs]), [], "input changed")
        return
    out = plugin(CubeList(cs)) if rng.chance(0.5) else plugin(*cs)
    mon.equal(snap_diff(before, [content(c) for c in cs]), [], "input changed")
    want = combined(op, [c.data for c in cs])
    renamed = {"lwe_precipitation_rate": newname} if op in ("*", "multiply") and prob and newname else {}
    mon.equal(names(out), [renamed.get(k, k) for k in names(cs[0])], "dimensions")
    same(mon, out.data, want, "combined data", rtol=1e-5, atol=1e-4)
    mon.equal(out.data.dtype, np.dtype(np.int32 if ints else np.float32), "type")
    mon.equal(str(out.units), str(cs[0].units), "units")
    mon.equal(dict(out.attributes), dict(cs[0].attributes), "attributes of the first cube")
    target = newname or cs[0].name()
    if op in ("*", "multiply") and prob:
        # the name of a product of probabilities is that of the diagnostic given
        real = newname or "lwe_precipitation_rate"
        mon.equal(out.name(), gen.prob_name(real, "greater_than"), "name")
        mon.equal([k.name() for k in out.coords(var_name="threshold")], [real], "threshold coordinate")
    else:
        mon.equal(out.name(), target, "name")
    methods = list(cs[0].cell_methods)
    if method and op in ("max", "min", "mean"):
        methods.append(CellMethod({"max": "maximum", "min": "minimum", "mean": "mean"}[op], coords="time"))
    mon.equal(list(out.cell_methods), methods, "cell methods")
    for k in cs[0].coords():
        label = k.name()
        g = out.coord(label if not (op in ("*", "multiply") and prob and newname and k.var_name == "threshold") else newname)
        mon.equal(out.coord_dims(g), cs[0].coord_dims(k), "dimensions of " + label)
        others = [c.coord(label) if c.coords(label) else None for c in cs]
        spread = None not in others and any(o != others[0] for o in others)
        if op in ("*", "multiply") or not expand or not spread:
            if g.name() == label:
                mon.check(g == k, "coordinate " + label)
            continue
        pts = [float(o.points[0]) for o in others]
        bnds = pts if not (period and label in ("time", "forecast_period")) else [float(b) for o in others for b in o.bounds[0]]
        mon.equal([float(v) for v in g.bounds[0]] + [float(g.points[0])], [min(bnds), max(bnds), max(bnds)], "expanded " + label)
        mon.equal([g.points.dtype, g.bounds.dtype], [k.points.dtype] * 2, "type of " + label)
    mon.equal(gen.standard_faults(out), [], "standards") if not ints else None
    # the plugin can be used again, for something else
    second = [cube(mdata(rng, (2, 3), 0, 0, 5), "wind_speed", "m s-1", time=base + H, frt=base) for _ in range(2)]
    res = plugin(*second)
    mon.equal(res.name(), newname or "wind_speed", "name on a second use")
    same(mon, res.data, combined(op, [c.data for c in second]), "second use", rtol=1e-5, atol=1e-4)
    mon.raises(ValueError, plugin, cs[0], label="one cube")
    mon.raises(ValueError, Combine, "divide", label="operation")
    other = cs[0].copy()
    x = other.coord(axis="x")
    x.points = x.points + np.float32(7)
    mon.raises(ValueError, CubeCombiner(op), [cs[0], other], "new", label="grids that differ")
    mon.event("cubes combined", n)
    mon.seen("case", f"{op} {n} {nr} {prob} {period} {method} {expand} {newname} {keep}")


@scenario("C49", quick=60, thorough=2000)
def members_in_common(rng, mon):
    """minimum_realizations: only members at every time are combined."""
    from improver.cube_combiner import Combine

    op = rng.choice(["+", "-", "max", "min", "mean", "masked_add"])
    nt = rng.randint(2, 4)
    base = gen.random_time(rng)
    sets = [sorted(rng.sample(range(6), rng.randint(2, 6))) for _ in range(nt)]
    keep = sorted(set.intersection(*map(set, sets)))
    hours = rng.sample(range(1, 12), nt)
    cs = []
    for h, mem in zip(hours, sets):
        cs.append(cube(mdata(rng, (len(mem), 2, 3), 0.2), "lwe_thickness_of_precipitation_amount", "mm", time=base + h * H, frt=base,
                       bounds=(base + (h - 1) * H, base + h * H), lead=[gen.realization_coord(mem)]))
    before = [content(c) for c in cs]
    m = rng.choice([0, 1, 1, 2, 3, "2"])
    plugin = Combine(op, minimum_realizations=m)
    if int(m) < 1 or len(keep) < int(m):
        mon.raises(ValueError, plugin, CubeList(cs), label="too few members")
        mon.equal(snap_diff(before, [content(c) for c in cs]), [], "input changed")
        mon.seen("case", f"refused {op} {nt} {m}")
        return
    out = plugin(CubeList(cs))
    mon.equal(snap_diff(before, [content(c) for c in cs]), [], "input changed")
    mon.equal([int(v) for v in out.coord("realization").points], keep, "members")
    arrays = [ma.stack([ma.asanyarray(c.data[mem.index(r)]) for r in keep]) for c, mem in zip(cs, sets)]
    got = out.data if out.coord_dims("realization") else out.data[None]
    same(mon, got, combined(op, arrays), "combined in the order given", rtol=1e-5, atol=1e-4)
    k = out.coord("time")
    mon.equal([int(k.points[0]), *map(int, k.bounds[0])], [gen.seconds(base + max(hours) * H), gen.seconds(base + (min(hours) - 1) * H), gen.seconds(base + max(hours) * H)], "time")
    mon.event("members in common", len(keep))
    mon.seen("case", f"{op} {nt} {len(keep)} {m} {hours == sorted(hours)}")
    mon.raises(ValueError, Combine, op, minimum_realizations="many", label="minimum") if rng.chance(0.1) else None


@scenario("C49", quick=80, thorough=2500)
def broadcasting(rng, mon):
    from improver.cube_combiner import Combine, CubeCombiner

    kind = rng.choice(["threshold", "threshold", "realization", "percentile"])
    op = rng.choice(["+", "-", "*", "max", "min"])
    nl = rng.randint(2, 4)

    def first(diag):
        if kind == "threshold":
            lead = [gen.threshold_coord([1.0, 2.0, 5.0, 9.0][:nl], diag, "mm h-1")]
            nm, un = gen.prob_name(diag, "greater_than"), "1"
        else:
            lead = [gen.realization_coord(nl) if kind == "realization" else gen.percentile_coord([10.0, 50.0, 70.0, 90.0][:nl])]
            nm, un = diag, "mm h-1"
        extra = rng.chance(0.4) and kind != "realization"
        if extra:
            lead = [gen.realization_coord(2)] + lead
        c = cube(mdata(rng, tuple(k.shape[0] for k in lead) + (2, 3), 0.3), nm, un, lead=lead)
        small = cube(mdata(rng, ((2,) if extra else ()) + (2, 3), 0.3), "probability_of_rain" if kind == "threshold" else diag, un,
                     lead=lead[:1] if extra else [])
        return c, small

    plugin = CubeCombiner(op, broadcast=kind)
    for diag in rng.sample(["lwe_precipitation_rate", "rainfall_rate", "lwe_snowfall_rate"], rng.randint(1, 2)):
        c, small = first(diag)
        same_dims = rng.chance(0.3)
        cs = [c, small]
        if same_dims:
            third = c.copy(data=mdata(rng, c.shape, 0.3))
            cs.append(third)
        before = [content(x) for x in cs]
        out = plugin(CubeList(cs), "new_rate")
        mon.equal(snap_diff(before, [content(x) for x in cs]), [], "input changed")
        axis = c.ndim - 3
        arrays = [ma.asanyarray(c.data), ma.concatenate([ma.expand_dims(ma.asanyarray(small.data), axis)] * nl, axis=axis)]
        if same_dims:
            arrays.append(ma.asanyarray(cs[2].data))
        want = combined(op, arrays)
        mon.equal(out.ndim, c.ndim, "dimensions")
        mon.equal([k for k in names(out) if k != "new_rate"], [k for k in names(c) if not (op == "*" and k == diag)], "dimension names")
        same(mon, out.data, want, "broadcast data", rtol=1e-5, atol=1e-4)
        if op == "*" and kind == "threshold":
            mon.equal(out.name(), gen.prob_name("new_rate", "greater_than"), "name")
            mon.close(out.coord("new_rate").points, c.coord(diag).points, "thresholds")
        else:
            mon.equal(out.name(), "new_rate", "name")
    # refusals
    bare = cube(np.ones((2, 3), np.float32))
    from iris.exceptions import CoordinateNotFoundError
    mon.raises(CoordinateNotFoundError, CubeCombiner(op, broadcast=kind), [bare, bare.copy()], "x", label="no such coordinate")
    fixed = c[..., 0, :, :] if c.ndim == 3 else None
    if fixed is not None and kind != "threshold":
        mon.raises(TypeError, CubeCombiner(op, broadcast=kind), [c, c[0]], "x", label="scalar coordinate")
    mon.event("broadcast")
    mon.seen("case", f"{kind} {op} {nl} {same_dims} {c.ndim}")


@scenario("C49", quick=70, thorough=2000)
def windows(rng, mon):
    from improver.cube_combiner import MaxInTimeWindow

    n = rng.randint(2, 4)
    nr = rng.choice([0, 2, 3])
    base = gen.random_time(rng) + rng.randint(0, 5) * dt.timedelta(minutes=10)
    length = rng.choice([H, 3 * H, 24 * H])
    prob = rng.chance(0.4)
    starts = rng.sample(range(0, 8), n)
    cs = []
    diag = "lwe_thickness_of_precipitation_amount"
    for s in starts:
        lead, shape = [], []
        if nr:
            lead.append(gen.realization_coord(nr))
            shape.append(nr)
        if prob:
            lead.append(gen.threshold_coord([1.0, 5.0], diag, "mm"))
            shape.append(2)
        a = base + s * length
        cms = [CellMethod("sum", "time")] + ([CellMethod("mean", "area")] if rng.chance(0.0) else [])
        cs.append(cube(mdata(rng, tuple(shape) + (2, 3), 0.2), gen.prob_name(diag, "greater_than") if prob else diag, "1" if prob else "mm",
                       time=a + length, frt=base, bounds=(a, a + length), lead=lead, cell_methods=cms))
    before = [content(c) for c in cs]
    minimum = rng.choice([None, 1, 2]) if nr and not prob else None
    plugin = MaxInTimeWindow(minimum_realizations=minimum)
    out = plugin(CubeList(cs))
    mon.equal(snap_diff(before, [content(c) for c in cs]), [], "input changed")
    same(mon, out.data, combined("max", [c.data for c in cs]), "maximum", rtol=1e-6)
    k = out.coord("time")
    lo, hi = base + min(starts) * length, base + (max(starts) + 1) * length
    mon.equal([int(k.points[0]), *map(int, k.bounds[0])], [gen.seconds(hi), gen.seconds(lo), gen.seconds(hi)], "window")
    hrs = int(length / H)
    mon.equal([(m.method, tuple(m.coord_names), tuple(m.comments)) for m in out.cell_methods],
              [("sum", ("time",), (f"of {diag} over {hrs} {'hour' if hrs == 1 else 'hours'} within time window",)), ("maximum", ("time",), (f"of {diag}",))],
              "cell methods")
    mon.equal(out.name(), cs[0].name(), "name")
    # refusals
    odd = [c.copy() for c in cs]
    kind = rng.choice(["length", "some", "none"])
    if kind == "length":
        b = odd[-1].coord("time").bounds.copy()
        b[0, 0] -= 1800
        odd[-1].coord("time").bounds = b
    else:
        for c in odd[1 if kind == "some" else 0:]:
            c.coord("time").bounds = None
            c.coord("forecast_period").bounds = None
    ob = [content(c) for c in odd]
    mon.raises(ValueError, plugin, CubeList(odd), label="periods: " + kind)
    mon.equal(snap_diff(ob, [content(c) for c in odd]), [], "input changed")
    mon.event("cubes in window", n)
    mon.seen("case", f"{n} {nr} {prob} {hrs} {minimum} {kind} {base.minute}")
