"""C48: merging, collapsing, ordering, extracting and searching cubes."""
import math
import warnings

import numpy as np
from iris.coords import AuxCoord, CellMethod, DimCoord
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube

dt = gen.dt
H = dt.timedelta(hours=1)
ma = np.ma
METHODS = [CellMethod("maximum", "time"), CellMethod("mean", "area"), CellMethod("sum", "time", comments="of rain"), CellMethod("minimum", "realization")]


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def mdata(rng, shape, masked=0.5, lo=0.0, hi=10.0, ints=False):
    d = (rng.np.randint(int(lo), int(hi), shape) if ints else rng.np.uniform(lo, hi, shape)).astype(np.float32)
    if rng.chance(masked):
        d = ma.masked_array(d, gen.random_mask(rng, shape))
    return d


def same(mon, got, want, label, rtol=1e-6, atol=1e-6):
    """Masks and unmasked values agree (no mask and an empty mask are the same)."""
    mon.equal(tuple(got.shape), tuple(want.shape), label + " shape")
    if tuple(got.shape) != tuple(want.shape):
        return
    mon.array_equal(ma.getmaskarray(got), ma.getmaskarray(want), label + " mask")
    ok = ~ma.getmaskarray(want)
    mon.close(ma.getdata(got)[ok].astype(float), ma.getdata(want)[ok].astype(float), label, rtol=rtol, atol=atol)


def shuffled(rng, c):
    order = list(range(c.ndim))
    rng.shuffle(order)
    c.transpose(order)
    return c


def names(c):
    return [k.name() for k in c.coords(dim_coords=True)]


def by_name(c, wanted):
    """The data of a cube with its dimensions in the named order."""
    have = names(c)
    return c.data.transpose([have.index(n) for n in wanted])


# -------------------------------------------------------------- merging
@scenario("C48", quick=70, thorough=2000)
def merging(rng, mon):
    from improver.utilities.cube_manipulation import MergeCubes

    n = rng.randint(1, 4)
    nr = rng.choice([0, 0, 2, 3])
    base = gen.random_time(rng)
    period = rng.chance(0.5)
    hours = sorted(rng.sample(range(1, 30), n))
    cs = []
    lengths = []
    for i, h in enumerate(hours):
        t = base + h * H
        length = 2 if nr else rng.choice([1, 1, 1, 3])
        lengths.append(length)
        at = {"title": rng.choice(["a", "b"]), "history": str(i), "source": "s", "extra": rng.choice([1, 1, 2])}
        if rng.chance(0.2):
            at.pop("source")
        reals = [gen.realization_coord([10 * i + k for k in range(nr)])] if nr else []
        cm = rng.sample(METHODS, rng.randint(0, 4)) if rng.chance(0.5) else METHODS[:3]
        c = cube(mdata(rng, ((nr,) if nr else ()) + (2, 3)), time=t if not nr else base + H, frt=base,
                 bounds=((t if not nr else base + H) - length * H, t if not nr else base + H) if period else None,
                 lead=reals, attributes=at, cell_methods=cm)
        if rng.chance(0.5):
            c.var_name = rng.choice(["a", "b"])
            c.coord(axis="x").var_name = rng.choice(["x", "xx"])
        cs.append(c)
    rng.shuffle(cs)
    before = [content(c) for c in cs]
    plugin = MergeCubes()
    checkb = rng.chance(0.5)
    args = dict(check_time_bounds_ranges=checkb, slice_over_realization=bool(nr))
    if n == 1:
        mon.check(plugin(cs[0]) is cs[0] and plugin(CubeList(cs), **args) is cs[0], "a single cube is returned")
        return
    if checkb and period and not nr and len(set(lengths)) > 1:
        mon.raises(ValueError, plugin, CubeList(cs), **args, label="periods of different lengths")
        mon.equal(snap_diff(before, [content(c) for c in cs]), [], "input changed")
        return
    out = plugin(CubeList(cs) if rng.chance(0.7) else list(cs), **args)
    mon.equal(snap_diff(before, [content(c) for c in cs]), [], "input changed")
    if nr:
        rows = sorted(((int(r), c.data[i]) for c in cs for i, r in enumerate(c.coord("realization").points)), key=lambda p: p[0])
        mon.equal([int(v) for v in out.coord("realization").points], [r for r, _ in rows], "realizations")
    else:
        rows = sorted(((int(c.coord("time").points[0]), c.data) for c in cs), key=lambda p: p[0])
        mon.equal([int(v) for v in out.coord("time").points], [r for r, _ in rows], "times")
        if period:
            want = sorted(tuple(int(v) for v in c.coord("time").bounds[0]) for c in cs)
            mon.equal(sorted(tuple(int(v) for v in b) for b in out.coord("time").bounds), want, "bounds")
    same(mon, out.data, ma.stack([ma.asanyarray(r[1]) for r in rows]), "merged data")
    mon.equal(out.data.dtype, np.dtype(np.float32), "type")
    first = cs[0].attributes
    mon.equal(dict(out.attributes), {k: v for k, v in first.items() if all(c.attributes.get(k) == v for c in cs)}, "attributes")
    mon.equal(list(out.cell_methods), [m for m in cs[0].cell_methods if all(m in c.cell_methods for c in cs)], "cell methods")
    mon.check(out.var_name is None and all(k.var_name is None for k in out.coords()), "no variable names")
    mon.event("cubes merged", n)
    mon.seen("case", f"{n} {nr} {period} {checkb} {len(set(lengths))}")


# ----------------------------------------------------------- collapsing
@scenario("C48", quick=70, thorough=2000)
def collapsing(rng, mon):
    import iris
    from improver.utilities.cube_manipulation import collapse_realizations, collapsed

    nr, ny, nx = rng.choice([1, 2, 3, 5]), rng.randint(1, 4), rng.randint(2, 4)
    c = cube(mdata(rng, (nr, ny, nx)), lead=[gen.realization_coord(nr)], cell_methods=METHODS[:rng.randint(0, 3)])
    c.coord("realization").attributes["k"] = "v"
    if rng.chance(0.5):
        shuffled(rng, c)
    want = by_name(c, ["realization"] + [k for k in names(c) if k != "realization"])
    method = rng.choice(["sum", "mean", "median", "std_dev", "min", "max"])
    before = content(c)
    out = collapse_realizations(c, method)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    f64 = ma.masked_array(ma.getdata(want).astype(float), ma.getmaskarray(want))
    if method == "std_dev":
        count = f64.count(axis=0)
        exp = ma.std(f64, axis=0, ddof=1)
        exp = ma.masked_array(ma.getdata(exp), count < 2)
        mon.array_equal(ma.getmaskarray(out.data), count < 2, "no spread from fewer than two members")
        if nr == 1:
            mon.check(np.isnan(ma.getdata(out.data)).all(), "spread of a single member hides nan")
    else:
        exp = {"sum": ma.sum, "mean": ma.mean, "median": ma.median, "min": ma.min, "max": ma.max}[method](f64, axis=0)
        mon.array_equal(ma.getmaskarray(out.data), f64.count(axis=0) == 0, "masked only where every member is")
    ok = ~ma.getmaskarray(exp)
    mon.close(ma.getdata(out.data)[ok].astype(float), ma.getdata(exp)[ok], method, rtol=2e-6, atol=3e-6)
    mon.check(not out.coords("realization"), "realization removed")
    mon.equal(out.data.dtype, np.dtype(np.float32), "type")
    mon.equal(tuple(out.cell_methods), tuple(c.cell_methods), "cell methods")
    mon.equal([out.name(), str(out.units), dict(out.attributes)], [c.name(), str(c.units), dict(c.attributes)], "metadata")
    mon.raises(ValueError, collapse_realizations, c, "mode", label="method")

    which = rng.choice(["realization", ["realization"], [c.coord(axis="y").name(), c.coord(axis="x").name()]])
    got = collapsed(c, which, iris.analysis.MEAN)
    axes = tuple(names(c).index(k) for k in ([which] if isinstance(which, str) else which))
    g64 = ma.masked_array(ma.getdata(c.data).astype(float), ma.getmaskarray(c.data))
    exp = g64.mean(axis=axes)
    if ma.asanyarray(exp).shape:
        same(mon, got.data, ma.asanyarray(exp), "collapsed", rtol=2e-6)
    for k in [which] if isinstance(which, str) else which:
        if c.coord(k).points.dtype.kind == "f":
            mon.equal(got.coord(k).points.dtype, np.dtype(np.float32), "coordinate type")
            mon.equal(got.coord(k).bounds.dtype, np.dtype(np.float32), "coordinate bounds type")
    mon.equal(tuple(got.cell_methods), tuple(c.cell_methods), "cell methods")
    mon.equal(got.data.dtype, np.dtype(np.float32), "type")
    mon.event("members", nr)
    mon.seen("case", f"{method} {nr} {ma.is_masked(c.data)} {which}")


# ------------------------------------------------------------- ordering
@scenario("C48", quick=80, thorough=2500)
def ordering(rng, mon):
    from improver.utilities.cube_manipulation import clip_cube_data, enforce_coordinate_ordering, sort_coord_in_cube

    prob = rng.chance(0.4)
    lead, shape = [], []
    if rng.chance(0.6):
        n = rng.randint(1, 3)
        lead.append(gen.realization_coord(rng.sample(range(9), n) if n < 3 else n))
        if n < 3:
            lead[-1] = gen.realization_coord(sorted(int(v) for v in lead[-1].points))
        shape.append(n)
    if prob:
        th = sorted(rng.sample([0.1, 0.5, 1.0, 2.5, 4.0], rng.randint(1, 3)))
        lead.append(gen.threshold_coord(th, "lwe_precipitation_rate", "mm h-1"))
        shape.append(len(th))
    elif rng.chance(0.5):
        hs = sorted(rng.sample([10.0, 50.0, 100.0, 300.0], rng.randint(1, 3)))
        if rng.chance(0.5):
            hs = hs[::-1]
        lead.append(gen.level_coord(hs))
        shape.append(len(hs))
    c = cube(mdata(rng, tuple(shape) + (rng.randint(1, 3), rng.randint(1, 4)), lo=-2, hi=3), lead=lead, cell_methods=METHODS[:rng.randint(0, 2)])
    long = [k.name() for k in lead if k.shape[0] > 1]
    if long and rng.chance(0.5):
        k = rng.choice(long)
        c.add_aux_coord(AuxCoord(np.arange(c.coord(k).shape[0], dtype=np.int32), long_name="lettered"), c.coord_dims(k))
    shuffled(rng, c)
    dims = names(c)
    before = content(c)

    # enforce the order
    pool = dims + ["absent"] + (["threshold"] if prob else [])
    if prob:
        pool.remove("lwe_precipitation_rate")
    wanted = rng.sample(pool, rng.randint(1, len(pool)))
    anchor = rng.chance(0.6)
    o = c.copy()
    arg = wanted[0] if len(wanted) == 1 and rng.chance(0.5) else wanted
    enforce_coordinate_ordering(o, arg, anchor_start=anchor)
    real = [("lwe_precipitation_rate" if w == "threshold" else w) for w in wanted if w != "absent"]
    rest = [d for d in dims if d not in real]
    mon.equal(names(o), real + rest if anchor else rest + real, "order of the dimensions")
    mon.equal(snap_diff(before, content(o)), [], "only the order of the dimensions changes")
    same(mon, by_name(o, dims), c.data, "data follow their dimensions")

    # sort
    k = rng.choice(dims)
    descending = rng.chance(0.5)
    messy = c.copy()
    axis = dims.index(k)
    perm = list(range(c.shape[axis]))
    rng.shuffle(perm)
    index = [slice(None)] * c.ndim
    if len(perm) > 1:
        index[axis] = tuple(perm)
        messy = c[tuple(index)]
    mb = content(messy)
    s = sort_coord_in_cube(messy, k, descending=descending)
    mon.equal(snap_diff(mb, content(messy)), [], "input changed")
    pts = [float(v) for v in messy.coord(k).points]
    at = sorted(range(len(pts)), key=lambda i: pts[i], reverse=descending)
    mon.equal([float(v) for v in s.coord(k).points], [pts[i] for i in at], "sorted points")
    index[axis] = np.array(at)
    same(mon, s.data, messy.data[tuple(index)], "data follow their points")
    if messy.coord(k).bounds is not None:
        mon.array_equal(s.coord(k).bounds, messy.coord(k).bounds[at], "bounds follow their points")

    # clip
    lo, hi = sorted([rng.uniform(-2, 3), rng.uniform(-2, 3)])
    ascending = c
    for d in dims:
        if d not in [c.coord(axis="y").name(), c.coord(axis="x").name()]:
            ascending = sort_coord_in_cube(ascending, d)
    ascending = ascending.copy()
    ab = content(ascending)
    clipped = clip_cube_data(ascending, lo, hi)
    mon.equal(snap_diff(ab, content(ascending)), [], "input changed")
    mon.equal(names(clipped), dims, "dimensions")
    d = ascending.data
    mon.array_equal(ma.getmaskarray(clipped.data), ma.getmaskarray(d), "mask kept")
    ok = ~ma.getmaskarray(d)
    mon.close(ma.getdata(clipped.data)[ok], np.minimum(np.maximum(ma.getdata(d)[ok], lo), hi), "clipped", rtol=1e-6, atol=1e-6)
    mon.equal(clipped.data.dtype, np.dtype(np.float32), "type")
    mon.equal([tuple(clipped.cell_methods), dict(clipped.attributes), clipped.name()], [tuple(c.cell_methods), dict(c.attributes), c.name()], "metadata")
    for x in ascending.coords():
        y = clipped.coord(x.name())
        mon.check((y == x or x.name() == "lettered" and np.array_equal(x.points, y.points)) and clipped.coord_dims(x.name()) == ascending.coord_dims(x), "coordinate " + x.name())
    mon.event("dimensions", c.ndim)
    mon.seen("case", f"{dims} {wanted} {anchor}")


# ----------------------------------------------------------- comparing
@scenario("C48", quick=60, thorough=1500)
def comparing(rng, mon):
    from improver.utilities.cube_manipulation import (
        compare_attributes, compare_coords, expand_bounds, filter_realizations, get_coord_names, get_dim_coord_names, get_filtered_attributes, strip_var_names)

    n = rng.randint(1, 4)
    base = gen.random_time(rng)
    cs = []
    for i in range(n):
        at = {k: rng.choice([1, 1, 1, 2]) for k in ("mosg__a", "mosg__b", "title", "unmosg__") if rng.chance(0.85)}
        if rng.chance(0.3):
            at["mosg__list"] = np.array(rng.choice([[1, 2], [1, 3]]))
        c = cube(np.zeros((2, 3), np.float32), attributes=at, time=base + rng.choice([1, 1, 2]) * H, frt=base,
                 bounds=None, lead=())
        if rng.chance(0.4):
            c.add_aux_coord(AuxCoord(np.float32(rng.choice([2, 2, 10])), "height", units="m"))
        if rng.chance(0.3):
            c.add_aux_coord(AuxCoord(np.arange(2, dtype=np.int32), long_name="row"), 0)
        cs.append(c)
    cl = CubeList(cs)
    before = [content(c) for c in cs]
    filt = rng.choice([None, "mosg__", "title", "none"])
    picked = [{k: v for k, v in c.attributes.items() if filt is None or filt in k} for c in cs]
    for c, p in zip(cs, picked):
        mon.equal(sorted(get_filtered_attributes(c, filt)), sorted(p), "filtered attributes")
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        diff = compare_attributes(cl, filt)
        cdiff = compare_coords(cl, ignored_coords=["height"] if filt else None)
    if n == 1:
        mon.equal([diff, cdiff, len([w for w in caught if "single cube" in str(w.message)])], [[], [], 2], "a single cube")
    else:
        def key(v):
            return tuple(np.asarray(v).ravel().tolist())
        common = {k for k in picked[0] if all(k in p and key(p[k]) == key(picked[0][k]) for p in picked)}
        mon.equal([{k: key(v) for k, v in d.items()} for d in diff], [{k: key(v) for k, v in p.items() if k not in common} for p in picked], "attributes that differ")
        for i, (c, d) in enumerate(zip(cs, cdiff)):
            want = {}
            for k in c.coords():
                shared = all(any(k == o for o in x.coords()) for x in cs)
                if shared or (filt and k.name() == "height"):
                    continue
                dim = c.coord_dims(k)
                isdim = any(k is q or k == q for q in c.coords(dim_coords=True))
                want[k.name()] = [dim[0] if isdim else None, dim[0] if dim and not isdim else None]
            mon.equal({k: [v["data_dims"], v["aux_dims"]] for k, v in d.items()}, want, "coordinates that differ")
            for k, v in d.items():
                mon.check(v["coord"] == c.coord(k), "the coordinate itself")
    for c, b in zip(cs, before):
        mon.equal(snap_diff(b, content(c)), [], "input changed")
        mon.equal(get_coord_names(c), [k.name() for k in c.coords()], "names")
        mon.equal(get_dim_coord_names(c), [k.name() for k in c.coords(dim_coords=True)], "dimension names")

    p = gen.probabilities(np.zeros((2, 2, 3), np.float32), [1.0, 2.0])
    p.var_name = "v"
    p.coord(axis="x").var_name = "x"
    kept = p.coord("air_temperature").var_name
    res = strip_var_names(p if rng.chance(0.5) else CubeList([p]))
    mon.check(isinstance(res, CubeList) and res[0] is p, "a list of the same cubes")
    mon.equal([p.var_name, p.coord(axis="x").var_name, p.coord("air_temperature").var_name], [None, None, kept], "variable names")
    mon.equal(kept, "threshold", "variable name of thresholds")

    # bounds that cover several periods
    m = rng.randint(1, 4)
    bounded = rng.chance(0.7)
    ts = [base + rng.randint(3, 30) * H for _ in range(m)]
    ls = [rng.randint(1, 3) for _ in ts]
    parts = [cube(np.zeros((2, 2), np.float32), time=t, frt=base, bounds=(t - l * H, t) if bounded else None) for t, l in zip(ts, ls)]
    pb = [content(x) for x in parts]
    target = parts[0].copy()
    got = expand_bounds(target, CubeList(parts), ["time", "forecast_period"])
    mon.check(got is target, "modified in place")
    low = min(t - (l if bounded else 0) * H for t, l in zip(ts, ls))
    high = max(ts)
    for name, off in (("time", 0), ("forecast_period", gen.seconds(base))):
        k = got.coord(name)
        mon.equal([int(k.points[0]) + off, int(k.bounds[0][0]) + off, int(k.bounds[0][1]) + off], [gen.seconds(high), gen.seconds(low), gen.seconds(high)], "expanded " + name)
        mon.equal([k.points.dtype, k.bounds.dtype], [parts[0].coord(name).points.dtype] * 2, "type of " + name)
    mon.equal(snap_diff(pb, [content(x) for x in parts]), [], "input changed")
    if m > 1 and bounded:
        parts[-1].coord("time").bounds = None
        mon.raises(ValueError, expand_bounds, parts[0].copy(), CubeList(parts), ["time"], label="mixed bounds")
    two = CubeList([cube(np.zeros((2, 2), np.float32), time=base + h * H, frt=base) for h in (1, 2)]).merge_cube()
    mon.raises(ValueError, expand_bounds, two, CubeList([two]), ["time"], label="several points")

    # members that are there at every time
    nt = rng.randint(1, 4)
    sets = [sorted({0} | set(rng.sample(range(1, 14), rng.randint(1, 10)))) for _ in range(nt)]
    if rng.chance(0.3):
        sets = [sets[0]] * nt
    cubes = CubeList()
    data = {}
    for i, mem in enumerate(sets):
        if len(mem) < 2:
            mem = mem + [20]
            sets[i] = mem
        d = mdata(rng, (len(mem), 2, 3), 0.2)
        for r, v in zip(mem, d):
            data[i, r] = v
        cubes.append(cube(d, time=base + (i + 1) * H, frt=base, lead=[gen.realization_coord(mem)]))
    fb = [content(x) for x in cubes]
    keep = sorted(set.intersection(*map(set, sets)))
    got = filter_realizations(cubes)
    mon.equal(snap_diff(fb, [content(x) for x in cubes]), [], "input changed")
    mon.equal([int(v) for v in got.coord("realization").points], keep, "members kept")
    mon.equal([int(v) for v in got.coord("time").points], [gen.seconds(base + (i + 1) * H) for i in range(nt)], "times kept")
    for j, r in enumerate(keep):
        for i in range(nt):
            part = got
            if got.coord_dims("realization"):
                part = list(got.slices_over("realization"))[j]
            if part.coord_dims("time"):
                part = list(part.slices_over("time"))[i]
            same(mon, part.data, ma.asanyarray(data[i, r]), "member and time")
    mon.event("cubes compared", n + m + nt)
    mon.seen("case", f"{n} {filt} {m} {bounded} {nt} {len(keep)}")


# --------------------------------------------------------- new dimension
@scenario("C48", quick=50, thorough=1500)
def new_dimension(rng, mon):
    from improver.utilities.cube_manipulation import add_coordinate_to_cube

    ny, nx, nl = rng.randint(1, 3), rng.randint(1, 4), rng.choice([0, 0, 2, 3])
    lead = [gen.level_coord([10.0, 20.0, 50.0][:nl])] if nl else []
    c = cube(mdata(rng, ((nl,) if nl else ()) + (ny, nx)), lead=lead, cell_methods=METHODS[:1])
    if rng.chance(0.5):
        c.data = c.data.astype(np.int32)
    c.add_aux_coord(AuxCoord(np.arange(nx, dtype=np.float32), long_name="column"), c.ndim - 1)
    n = rng.randint(1, 4)
    new = rng.choice([gen.realization_coord(n), gen.percentile_coord([10.0, 30.0, 50.0, 90.0][:n])])
    where = rng.randint(0, c.ndim)
    meta = rng.chance(0.7)
    before, nb = content(c), gen.coord_state(new)
    out = add_coordinate_to_cube(c, new, new_dim_location=where, copy_metadata=meta)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    dims = names(c)
    mon.equal(names(out), dims[:where] + [new.name()] + dims[where:], "dimensions")
    mon.equal(out.data.dtype, c.data.dtype, "type")
    for i in range(n):
        index = [slice(None)] * out.ndim
        index[where] = i
        same(mon, out.data[tuple(index)], ma.asanyarray(c.data), "the same data at each point")
    mon.check(out.coord(new.name()) == new, "new coordinate")
    for k in c.coords():
        want = tuple(d + (d >= where) for d in c.coord_dims(k))
        mon.check(out.coord(k.name()) == k and out.coord_dims(k.name()) == want, "coordinate " + k.name())
    if meta:
        mon.equal([out.name(), str(out.units), dict(out.attributes), tuple(out.cell_methods)], [c.name(), str(c.units), dict(c.attributes), tuple(c.cell_methods)], "metadata")
    # the result is a copy
    d = out.data
    d[...] = d + 1
    index = [slice(None)] * out.ndim
    index[where] = 0
    if n > 1:
        index2 = list(index)
        index2[where] = 1
        one = ma.getdata(d)[tuple(index)].copy()
        ma.getdata(d)[tuple(index2)] += 5
        mon.array_equal(ma.getdata(d)[tuple(index)], one, "points of the new dimension are independent")
    for k in out.coords():
        k.points = k.points + np.array(1, k.points.dtype)
    out.attributes["new"] = 1
    mon.equal(snap_diff(before, content(c)), [], "input changed through the result")
    mon.equal(gen.coord_state(new), nb, "coordinate changed through the result")
    mon.raises(ValueError, add_coordinate_to_cube, c, new, new_dim_location=c.ndim + 1, label="location")
    mon.raises(ValueError, add_coordinate_to_cube, c, new, new_dim_location=-1, label="location")
    mon.event("points", n)
    mon.seen("case", f"{nl} {n} {where} {ma.isMaskedArray(c.data)}")


# ------------------------------------------------------------- heights
@scenario("C48", quick=80, thorough=2500)
def heights(rng, mon):
    from improver.utilities.cube_manipulation import height_of_maximum, maximum_in_height

    nh, nr = rng.randint(1, 4), rng.choice([0, 0, 1, 2, 3])
    hs = sorted(rng.sample([0.0, 5.0, 75.0, 100.0, 300.0, 500.0], nh))
    if rng.chance(0.3):
        hs = hs[::-1]
    lead = ([gen.realization_coord(nr)] if nr else []) + [gen.level_coord(hs)]
    c = cube(mdata(rng, ((nr,) if nr else ()) + (nh, 2, 3), 0.3, -3, 4, ints=rng.chance(0.6)), "upward_air_velocity", "m s-1", lead=lead)
    if rng.chance(0.4):
        shuffled(rng, c)
    if nh == 1 and rng.chance(0.5):
        c = next(c.slices_over("height"))
    lo = rng.choice([None, None, -1.0, 5.0, 60.0, 100.0, 301.0])
    hi = rng.choice([None, None, 5.0, 75.0, 90.0, 300.0, 1000.0])
    name = rng.choice([None, "maximum_vertical_velocity"])
    before = content(c)
    inside = [i for i, h in enumerate(hs) if (lo is None or h >= lo) and (hi is None or h <= hi)]
    if not inside:
        mon.raises(ValueError, maximum_in_height, c, lower_height_bound=lo, upper_height_bound=hi, label="no levels")
        mon.equal(snap_diff(before, content(c)), [], "input changed")
        return
    out = maximum_in_height(c, lower_height_bound=lo, upper_height_bound=hi, new_name=name)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    rest = [k for k in names(c) if k != "height"]
    if "height" in names(c):
        cols = by_name(c, ["height"] + rest)
    else:
        cols = c.data[None]
    best = ma.masked_array(ma.getdata(cols), ma.getmaskarray(cols))[inside].max(axis=0)
    got = out.data
    if "height" in names(out):
        mon.equal(len(inside), 1, "height only kept when there is one level")
        got = by_name(out, ["height"] + rest)[0]
    same(mon, got, ma.asanyarray(best), "maximum over the heights in range")
    mon.equal([out.name(), str(out.units)], [name or c.name(), "m s-1"], "name and units")
    if len(inside) > 1:
        mon.equal([float(v) for v in out.coord("height").bounds[0]], [min(hs[i] for i in inside), max(hs[i] for i in inside)], "range of heights")
    mon.event("levels in range", len(inside))
    mon.seen("case", f"{nh} {nr} {len(inside)} {lo} {hi} {ma.is_masked(c.data)}")
    if "height" not in names(c):
        mon.raises(ValueError, height_of_maximum, c, out, label="single level")
        return
    if nh == 1:
        mon.raises(ValueError, height_of_maximum, c, c, label="single level")
        return
    full = maximum_in_height(c)
    fb = content(full)
    low = rng.chance(0.5)
    res = height_of_maximum(c, full, find_lowest=low, new_name=name)
    other = height_of_maximum(c, full, find_lowest=not low)
    mon.equal(snap_diff([before, fb], [content(c), content(full)]), [], "input changed")
    mon.equal([res.name(), str(res.units)], [name or full.name(), "m"], "name and units")
    mon.equal(names(res), rest, "dimensions")
    cells = ma.getmaskarray(cols)
    vals = ma.getdata(cols)
    none = cells.all(axis=0)
    mon.array_equal(ma.getmaskarray(res.data), none, "no height where there is no maximum")
    for idx in np.ndindex(*res.shape):
        if none[idx]:
            continue
        col = [(vals[(k,) + idx], h) for k, h in enumerate(hs) if not cells[(k,) + idx]]
        top = max(v for v, _ in col)
        at = [h for v, h in col if v == top]
        g = float(ma.getdata(res.data)[idx])
        mon.check(g in at, "height of a maximum", f"{g} not in {at}")
        if len(at) > 1:
            # the levels are searched in the order they are given
            mon.event("ties")
            both = sorted([g, float(ma.getdata(other.data)[idx])])
            mon.equal(both, sorted([at[0], at[-1]]), "the first and the last of equal maxima")
            if hs[0] < hs[-1]:
                mon.check(g == (at[0] if low else at[-1]), "find_lowest finds the highest", f"find_lowest={low} gave {g} of {at}")
    return


# ---------------------------------------------------------- extraction
def make_levels(rng):
    kind = rng.choice(["threshold", "percentile", "height", "realization", "celsius"])
    if kind == "threshold":
        vals = sorted(rng.sample([0.03, 0.1, 0.5, 1.0, 2.0, 4.0], rng.randint(1, 5)))
        c = gen.threshold_coord(vals, "lwe_precipitation_rate", "mm h-1")
        c.convert_units("m s-1")
        return kind, c, vals, "mm h-1"
    if kind == "celsius":
        vals = sorted(rng.sample([-20.0, -10.0, -5.5, -1.0, 0.0, 3.0, 12.5], rng.randint(1, 6)))
        c = gen.threshold_coord(vals, "air_temperature", "Celsius")
        if rng.chance(0.5):
            return kind, c, vals, None
        c.convert_units("K")
        return kind, c, vals, "Celsius"
    if kind == "percentile":
        vals = sorted(rng.sample([5, 10, 20, 30, 50, 75, 90], rng.randint(1, 6)))
        return kind, gen.percentile_coord([float(v) for v in vals]), vals, None
    if kind == "height":
        vals = sorted(rng.sample([2.0, 10.0, 50.0, 100.0, 250.0], rng.randint(1, 4)))
        return kind, gen.level_coord(vals), vals, None
    vals = sorted(rng.sample(range(12), rng.randint(1, 6)))
    return kind, gen.realization_coord(vals), vals, None


@scenario("C48", quick=120, thorough=4000)
def extraction(rng, mon):
    from improver.utilities.cube_extraction import ExtractSubCube, extract_subcube

    kind, coord, vals, unit = make_levels(rng)
    ny, nx = rng.randint(2, 5), rng.randint(2, 6)
    ll = rng.chance(0.4)
    c = cube(mdata(rng, (len(vals), ny, nx), 0.3), lead=[coord], grid="latlon" if ll else "equalarea",
             scalars=[AuxCoord(rng.choice(["03002", "north sea", "abc", "5"]), long_name="label", units="no_unit")])
    if rng.chance(0.3):
        c.data = c.data.astype(np.float32)
    name = coord.name()
    key = name
    cons, units, rows, step = [], [], list(range(len(vals))), None
    form = rng.choice(["one", "list", "range", "range", "step", "none"])
    other = rng.choice([0.2, 77.0, -3.0])
    if kind == "celsius" and unit and form in ("one", "list") and 0.0 in vals:
        form = "none"
    if form == "one":
        v = rng.choice(vals + [other])
        cons.append(f"{key}={v}")
        rows = [i for i in rows if vals[i] == v]
    elif form == "list":
        pick = rng.sample(vals + [other], rng.randint(1, len(vals)))
        cons.append(f"{key}={pick}")
        rows = [i for i in rows if vals[i] in pick]
    elif form in ("range", "step"):
        a, b = rng.choice(vals + [other]), rng.choice(vals + [other])
        step = rng.choice([1, 2, 3]) if form == "step" else None
        if kind == "celsius" and unit:
            # single precision kelvin are not exactly the degrees asked for
            a, b = min(a, b) - 0.25, max(a, b) + 0.25
            if rng.chance(0.5):
                a, b = b, a
        cons.append(f"{key}=[{a}:{b}{':%d' % step if step else ''}]")
        rows = [i for i in rows if min(a, b) <= vals[i] <= max(a, b)][:: step or 1]
    if cons:
        if rng.chance(0.3):
            cons = [cons[0].replace("=", " = ")]
        units.append(unit if unit else rng.choice([None, "None"]))
    # a longitude range or a range of the projection
    cols, colstep = list(range(nx)), None
    xname = c.coord(axis="x").name()
    xs = [float(v) for v in c.coord(axis="x").points]
    horizontal = rng.choice([None, None, "in", "step", "out"])
    if horizontal and not (horizontal == "out" and len(xs) < 2):
        gap = abs(xs[1] - xs[0])
        i, j = sorted(rng.sample(range(nx), 2))
        a, b = min(xs[i], xs[j]) - gap * 0.25, max(xs[i], xs[j]) + gap * 0.25
        if horizontal == "out":
            a, b = max(xs) + gap, max(xs) + 3 * gap
        colstep = rng.choice([2, 3]) if horizontal == "step" else None
        cons.append(f"{xname}=[{a:.6f}:{b:.6f}{':%d' % colstep if colstep else ''}]")
        units.append(None)
        cols = [k for k in cols if a <= xs[k] <= b][:: colstep or 1]
    label = str(c.coord("label").points[0])
    found = True
    if rng.chance(0.4):
        want = rng.choice([label, label, "other place", "0300"])
        if want != "5":
            cons.append(f"label={want}")
            units.append(None)
            found = want == label
            if label == "5":
                found = want == label
    if not cons:
        return
    order = list(range(len(cons)))
    rng.shuffle(order)
    cons, units = [cons[i] for i in order], [units[i] for i in order]
    use_units = None if all(u in (None, "None") for u in units) and rng.chance(0.7) else units
    if unit and use_units is None and any(k.startswith(key) for k in cons):
        use_units = units
    if not found:
        rows = []
    before = content(c)
    original = rng.chance(0.7)
    if rng.chance(0.1):
        mon.raises(ValueError, extract_subcube, c, cons, units=(units + [None]), label="number of units")
    probe = c.copy() if not original else c
    if not rows or not cols:
        mon.event("nothing matched")
        mon.check(extract_subcube(probe, cons, units=use_units, use_original_units=original) is None, "nothing matched", str(cons))
        probe = c.copy() if not original else c
        mon.raises(ValueError, ExtractSubCube(cons, units=use_units, use_original_units=original), probe, label="nothing matched")
        probe = c.copy() if not original else c
        mon.check(ExtractSubCube(cons, units=use_units, use_original_units=original, ignore_failure=True)(probe) is probe, "the cube itself when failures are ignored")
    else:
        plugin = ExtractSubCube(cons, units=use_units, use_original_units=original)
        out = plugin(probe)
        # the order of points along longitude follows the range
        xo = [float(v) for v in np.atleast_1d(out.coord(axis="x").points)]
        wx = [xs[k] for k in cols]
        if ll and horizontal:
            mon.close(sorted(xo), sorted(wx), "longitudes", rtol=0, atol=1e-4)
        else:
            mon.equal(xo, wx, "x points")
        want = c.data[np.array(rows)][:, :, np.array(cols)]
        got = out.data
        if not out.coord_dims(name):
            got = got[None]
        if not out.coord_dims(xname):
            got = got[..., None]
        same(mon, got, want, "extracted data")
        gc = out.coord(name).copy()
        if unit and use_units is not None and not original and any(k.startswith(key) for k in cons):
            mon.equal(str(gc.units), unit, "units asked for")
        elif original:
            mon.equal(str(gc.units), str(coord.units), "units kept")
        mon.equal(str(gc.dtype), str(coord.dtype), "type of the coordinate")
        ref = coord.copy()
        gc.convert_units(ref.units)
        mon.close(np.atleast_1d(gc.points).astype(float), coord.points[np.array(rows)].astype(float), "points", rtol=1e-5, atol=1e-9)
        mon.equal([out.name(), dict(out.attributes)], [c.name(), dict(c.attributes)], "metadata")
        again = plugin(c.copy())
        mon.equal(snap_diff(content(out), content(again)), [], "the same again")
    if original:
        after = content(c)
        if use_units is None or not unit:
            mon.equal(snap_diff(before, after), [], "input changed")
    mon.event("constraints", len(cons))
    mon.seen("case", f"{kind} {form} {step} {horizontal} {ll} {len(rows)} {bool(use_units)}")


# ------------------------------------------------------------- levels
@scenario("C48", quick=60, thorough=1500)
def level_of_value(rng, mon):
    from improver.utilities.cube_extraction import ExtractLevel

    nl, nr = rng.randint(2, 6), rng.choice([0, 0, 1, 2])
    kind = rng.choice(["pressure", "height"])
    lev = np.cumsum(rng.np.uniform(100, 3000, nl)).astype(np.float32)
    lev = (100000 - lev).astype(np.float32) if kind == "pressure" else lev
    shape = ((nr,) if nr else ()) + (nl, 2, 3)
    drops = rng.np.uniform(0.5, 8, shape)
    ax = 1 if nr else 0
    v = (300 - np.cumsum(drops, axis=ax)).astype(np.float32)
    value = float(np.float32(rng.uniform(v.min() - 5, v.max() + 5)))
    bad = np.zeros(shape, bool)
    if rng.chance(0.5):
        for idx in np.ndindex(*[s for k, s in enumerate(shape) if k != ax]):
            k = rng.randint(0, nl - 1)
            col = np.zeros(nl, bool)
            if rng.chance(0.5):
                col[:k] = True
            else:
                col[nl - k:] = True
            full = list(idx)
            full.insert(ax, slice(None))
            bad[tuple(full)] = col
    how = rng.choice(["mask", "nan"])
    d = v.copy()
    if bad.any():
        if how == "mask":
            d[bad] = rng.choice([0, 9999])
            d = ma.masked_array(d, bad)
        else:
            d[bad] = np.nan
    c = cube(d, "air_temperature_on_levels", "K", lead=([gen.realization_coord(nr)] if nr else []) + [gen.level_coord(lev, kind)])
    if rng.chance(0.3):
        c.attributes["least_significant_digit"] = 2
    before = content(c)
    plugin = ExtractLevel(positive_correlation=kind == "pressure", value_of_level=value)
    if kind == "height":
        plugin = ExtractLevel(positive_correlation=False, value_of_level=value)
    out = plugin(c)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    mon.equal(snap_diff(content(out), content(plugin(c))), [], "the same again")
    mon.equal(str(out.units), str(c.coord(kind).units), "units")
    word = {"pressure": "pressure_of_atmosphere_at_", "height": "height_at_"}[kind]
    mon.equal(out.name(), f"{word}{value}K", "name")
    mon.equal(out.data.dtype, np.dtype(np.float32), "type")
    mon.check(not out.coords(kind), "no level coordinate")
    mon.equal(names(out), [k for k in names(c) if k != kind], "dimensions")
    mon.equal(out.shape, tuple(s for k, s in enumerate(shape) if k != ax), "shape")
    for idx in np.ndindex(*out.shape):
        full = list(idx)
        full.insert(ax, slice(None))
        col, miss = v[tuple(full)].astype(float), bad[tuple(full)]
        good = [k for k in range(nl) if not miss[k]]
        cg, lg = [col[k] for k in good], [float(lev[k]) for k in good]
        g = float(ma.getdata(out.data)[idx])
        mon.check(math.isfinite(g), "a level is found")
        mon.check(min(lev) - 1e-2 <= g <= max(lev) + 1e-2, "within the levels", f"{g}")
        slack = 0.011 * nl
        if cg[-1] <= value <= cg[0]:
            k = max(i for i in range(len(cg)) if cg[i] >= value)
            if k == len(cg) - 1:
                want = lg[k]
            else:
                w = (cg[k] - value) / (cg[k] - cg[k + 1])
                want = lg[k] + w * (lg[k + 1] - lg[k])
            if min(abs(value - cg[0]), abs(value - cg[-1])) > slack or not miss.any():
                mon.close(g, want, "level of the value", rtol=1e-4, atol=1.0)
                mon.event("interpolated")
        elif value > cg[0] + slack:
            mon.close(g, float(lev[0]), "above every value: the first level", rtol=1e-6)
        elif value < cg[-1] - slack:
            mon.close(g, float(lev[-1]), "below every value: the last level", rtol=1e-6)
    both = c.copy()
    both.add_aux_coord(AuxCoord(np.float32(2), long_name="height" if kind == "pressure" else "pressure", units="m" if kind == "pressure" else "Pa"))
    mon.raises(NotImplementedError, plugin, both, label="two level coordinates")
    mon.event("columns", int(np.prod(out.shape)))
    mon.seen("case", f"{kind} {nl} {nr} {bad.any()} {how}")
