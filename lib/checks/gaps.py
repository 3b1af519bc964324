"""C53: filling gaps, masking, tables, textures, feels-like temperature and the UV index."""
import math

import numpy as np
from iris.coords import AuxCoord
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube
from checks.manipulation import by_name, mdata, names, same

dt = gen.dt
H = dt.timedelta(hours=1)
ma = np.ma
T = dt.datetime(2021, 6, 3, 9)
YX = ["projection_y_coordinate", "projection_x_coordinate"]


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def nearest_ok(j, i, got, known, values):
    d2 = [((y - j) ** 2 + (x - i) ** 2, values[y, x]) for y, x in np.argwhere(known)]
    near = min(d2)[0]
    return any(abs(got - v) <= 1e-4 for d, v in d2 if d == near)


# ------------------------------------------------------------- plain gaps
@scenario("C53", quick=60, thorough=2000)
def gaps(rng, mon):
    from improver.utilities.interpolation import interpolate_missing_data

    shape = (rng.randint(2, 6), rng.randint(2, 6))
    method = rng.choice(["linear", "linear", "nearest"])
    a, b, c = (rng.uniform(-3, 3) for _ in range(3))
    jj, ii = np.mgrid[0:shape[0], 0:shape[1]]
    plane = rng.chance(0.5)
    full = (a * jj + b * ii + c) if plane else rng.np.uniform(-5, 5, shape)
    full = full.astype(rng.choice([np.float32, np.float64]))
    hole = gen.random_mask(rng, shape)
    if rng.chance(0.1):
        hole[:] = True
    data = full.copy()
    data[hole] = np.nan
    kws = {}
    usable = ~hole
    if rng.chance(0.4):
        vp = rng.np.rand(*shape) > 0.3
        kws["valid_points"] = vp
        usable = usable & vp
    limit = None
    if rng.chance(0.4):
        limit = rng.np.uniform(-4, 4, shape)
        kws.update(limit=limit, limit_as_maximum=rng.chance(0.5))
    if method != "linear" or rng.chance(0.5):
        kws["method"] = method
    given = data.copy()
    out = interpolate_missing_data(data, **kws)
    mon.array_equal(np.asarray(out)[~hole], full[~hole], "known values kept")
    filled = hole & ~np.isnan(out)
    lo, hi = (full[usable].min(), full[usable].max()) if usable.any() else (0, 0)
    if not usable.any():
        mon.check(not filled.any(), "nothing to fill from")
    up = kws.get("limit_as_maximum", True)
    for j, i in np.argwhere(filled):
        v = float(out[j, i])
        if limit is not None:
            mon.check(v <= limit[j, i] + 1e-5 if up else v >= limit[j, i] - 1e-5, "limit")
            if abs(v - limit[j, i]) < 1e-5:
                mon.event("limited")
                continue
        mon.check(lo - 1e-4 <= v <= hi + 1e-4, "within the values around")
        if method == "nearest":
            mon.check(nearest_ok(j, i, v, usable, full), "nearest value")
        elif plane:
            mon.close(v, float(full[j, i]), "on the plane", rtol=1e-4, atol=1e-4)
        mon.event("filled")
    if method == "nearest" and usable.any():
        mon.check(bool(filled[hole].all()), "every gap filled")
    if method == "linear" and usable.any():
        # strictly between two usable points of a row or column
        for j, i in np.argwhere(hole):
            row, col = usable[j], usable[:, i]
            inside = (row[:i].any() and row[i + 1:].any() and usable.any(axis=1).sum() > 1) or (col[:j].any() and col[j + 1:].any() and usable.any(axis=0).sum() > 1)
            if inside:
                mon.check(bool(filled[j, i]), "gaps between points filled")
    mon.seen("case", f"{method} {plane} {sorted(kws)} {usable.any()}")


# --------------------------------------------- gaps by way of a reference
@scenario("C53", quick=60, thorough=2000)
def differences(rng, mon):
    from improver.utilities.interpolation import InterpolateUsingDifference

    nr = rng.choice([0, 0, 1, 2, 3])
    shape = (rng.randint(2, 6), rng.randint(2, 6))
    full = ((nr,) if nr else ()) + shape
    lead = [gen.realization_coord(nr)] if nr else []
    ref = rng.np.uniform(0, 1000, full).astype(np.float32)
    offset = rng.chance(0.5)
    diff = np.full(full, rng.uniform(-50, 50)) if offset else rng.np.uniform(-50, 50, full)
    d = (ref - diff).astype(np.float32)
    mask = np.stack([gen.random_mask(rng, shape) for _ in range(max(nr, 1))]).reshape(full)
    for m in mask.reshape((-1,) + shape):
        if m.all():
            m[rng.randrange(shape[0]), rng.randrange(shape[1])] = False
    unmasked = not mask.any()
    d = ma.masked_array(np.where(mask, np.float32(rng.choice([0, 9999, np.nan])), d), mask)
    C = cube(d, "altitude_of_snow_falling_level", "m", lead=lead, time=T)
    R = cube(ref, "altitude_of_rain_falling_level", "m", lead=lead, time=T)
    order = list(range(C.ndim))
    if nr and rng.chance(0.2):
        order = rng.choice([[1, 2, 0], [1, 0, 2]])
        C.transpose(order)
        R.transpose(order)
    L, limit, up = None, None, True
    if rng.chance(0.5):
        limit = rng.np.uniform(0, 1000, shape).astype(np.float32)
        L = cube(limit, "surface_altitude", "m", time=T)
        up = rng.chance(0.5)
    plugin = InterpolateUsingDifference(**({} if up and rng.chance(0.5) else dict(limit_as_maximum=up)))
    bad = rng.choice([None] * 8 + ["nan", "units"])
    if bad and not unmasked:
        if bad == "nan":
            R.data = R.data.copy()
            R.data.flat[0] = np.nan
        else:
            R.units = "K"
        mon.raises(ValueError, plugin, C, R, limit=L, label=f"{bad} refused")
        mon.seen("case", "refused " + bad)
        return
    before = content([C, R] + ([L] if L else []))
    out = plugin(C, R, limit=L)
    mon.equal(snap_diff(before, content([C, R] + ([L] if L else []))), [], "inputs changed")
    if unmasked:
        mon.equal(snap_diff(content(C), content(out)), [], "nothing to fill")
        mon.event("unchanged")
        mon.seen("case", "unmasked")
        return
    mon.equal([out.name(), str(out.units), names(out), out.data.dtype], [C.name(), "m", names(C), np.dtype(np.float32)], "metadata")
    if names(out) != names(C):
        return
    mon.check(not ma.is_masked(out.data), "gaps left")
    want_order = (["realization"] if nr else []) + YX
    got = np.asarray(ma.getdata(by_name(out, want_order))).reshape((-1,) + shape)
    flat = lambda x: np.asarray(x, float).reshape((-1,) + shape)
    for g, m, r, v, df in zip(got, mask.reshape((-1,) + shape), flat(ref), ma.getdata(d).astype(float).reshape((-1,) + shape), flat(diff)):
        mon.array_equal(g[~m], v.astype(np.float32)[~m], "known values kept")
        lo, hi = df[~m].min(), df[~m].max()
        for j, i in np.argwhere(m):
            a, b = r[j, i] - hi, r[j, i] - lo
            if limit is not None:
                q = float(limit[j, i])
                a, b = (min(a, q), min(b, q)) if up else (max(a, q), max(b, q))
            mon.check(a - 1e-2 <= g[j, i] <= b + 1e-2, "within the differences around", f"{a} {g[j, i]} {b}")
            mon.event("filled")
        mon.check(bool(np.isfinite(g).all()), "finite")
    if rng.chance(0.4):
        R2 = R.copy()
        R2.convert_units("km")
        L2 = L.copy() if L is not None else None
        if L2 is not None:
            L2.convert_units("ft")
        again = plugin(C, R2, limit=L2)
        mon.close(np.asarray(ma.getdata(again.data)), np.asarray(ma.getdata(out.data)), "reference in other units", rtol=1e-4, atol=1e-1)
    mon.seen("case", f"{nr} {offset} {order} {limit is not None} {up}")


# ----------------------------------------------------------------- masks
@scenario("C53", quick=50, thorough=1500)
def masks(rng, mon):
    from improver.utilities.mask import apply_mask

    nr = rng.choice([0, 0, 1, 2])
    shape = (rng.randint(1, 4), rng.randint(1, 4))
    full = ((nr,) if nr else ()) + shape
    lead = [gen.realization_coord(nr)] if nr else []
    d = mdata(rng, full, masked=0.3)
    m = (rng.np.rand(*full) < 0.4).astype(rng.choice([np.float32, np.int32, bool]))
    C = cube(d, "wind_speed", "m s-1", lead=lead, time=T)
    K = cube(np.asarray(m, np.float32), "land_binary_mask", "1", lead=lead, time=T)
    K.data = m
    if rng.chance(0.4) and K.ndim > 1:
        o = list(range(K.ndim))
        rng.shuffle(o)
        K.transpose(o)
    invert = rng.chance(0.5)
    bad = rng.choice([None] * 8 + ["one", "three", "dims", "shape"])
    cubes = [C, K]
    if bad == "one":
        cubes = [K]
    elif bad == "three":
        cubes.append(C.copy())
    elif bad == "dims":
        cubes = [C, cube(np.zeros((2,) + full, np.float32), "land_binary_mask", "1", lead=[gen.percentile_coord([10, 90])] + lead, time=T)]
    elif bad == "shape":
        other = (shape[1], shape[0]) if shape[0] != shape[1] else (shape[0] + 1, shape[1])
        cubes = [C, cube(np.zeros(full[:-2] + other, np.float32), "land_binary_mask", "1", lead=lead, time=T)]
    rng.shuffle(cubes)

    def call():
        return apply_mask(*cubes, mask_name="land_binary_mask", invert_mask=invert) if rng.chance(0.5) else apply_mask(CubeList(cubes), mask_name="land_binary_mask", invert_mask=invert)
    if bad:
        mon.raises(Exception if bad == "shape" else ValueError, call, label=f"{bad} refused")
        mon.seen("case", "refused " + bad)
        return
    expect = ma.getmaskarray(d) | (~m.astype(bool) if invert else m.astype(bool))
    keep = ma.getdata(d).copy()
    n = len(cubes)
    out = call()
    mon.equal(len(cubes), n, "list unchanged")
    mon.equal([out.name(), str(out.units), names(out)], ["wind_speed", "m s-1", names(C)], "metadata")
    mon.array_equal(ma.getmaskarray(out.data), expect, "mask")
    mon.array_equal(ma.getdata(out.data)[~expect], keep[~expect], "values")
    mon.equal(ma.isMaskedArray(out.data), True, "masked array")
    mon.event("masked", int(expect.sum()))
    mon.seen("case", f"{nr} {invert} {m.dtype} {ma.isMaskedArray(d)}")


# ---------------------------------------------------------------- tables
@scenario("C53", quick=60, thorough=2000)
def tables(rng, mon):
    from improver.utilities.extract_from_table import ExtractValueFromTable

    step = rng.choice([1.0, 0.1, 0.5])
    rows = sorted(rng.sample([round(k * step, 3) for k in range(10)], rng.randint(1, 5)))
    cols = sorted(rng.sample([float(k) for k in range(-5, 15)], rng.randint(1, 5)))
    whole = rng.chance(0.3)
    values = {(r, c): (rng.randint(0, 50) if whole else round(rng.uniform(0, 50), 2)) for r in rows for c in cols}
    rr, cc = list(rows), list(cols)
    rng.shuffle(rr)
    rng.shuffle(cc)
    key = (lambda v: str(v)) if rng.chance(0.7) else (lambda v: v)
    # every column lists its rows in the same order, as a table does
    table = {"data": {key(c): {key(r): values[r, c] for r in rr} for c in cc}, "metadata": {"units": "m s-1", "title": "gusts"}}
    shape = (rng.randint(1, 3), rng.randint(2, 4))
    nr = rng.choice([0, 0, 2])
    full = ((nr,) if nr else ()) + shape
    lead = [gen.realization_coord(nr)] if nr else []

    def field(labels):
        d = rng.np.uniform(min(labels) - 2, max(labels) + 2, full).astype(np.float32)
        on = rng.np.rand(*full) < 0.4
        d = np.where(on, rng.np.choice(np.array(labels, np.float32), size=full), d).astype(np.float32)
        if rng.chance(0.2):
            d = np.where(rng.np.rand(*full) < 0.2, np.float32(np.nan), d)
        if rng.chance(0.25):
            d = ma.masked_array(d, gen.random_mask(rng, full))
        return d
    rd, cd = field(rows), field(cols)
    R = cube(rd, "altitude", "m", lead=lead, time=T)
    C = cube(cd, "air_temperature", "K", lead=lead, time=T)
    turned = rng.chance(0.3)
    if turned:
        o = list(range(R.ndim))
        rng.shuffle(o)
        R.transpose(o)
    new = rng.choice([None, "wind_gust"])
    plugin = ExtractValueFromTable(row_name="altitude", new_name=new)
    cubes = [R, C]
    bad = rng.choice([None] * 8 + ["one", "three", "shape"])
    if bad == "one":
        cubes = [R]
    elif bad == "three":
        cubes.append(C.copy())
    elif bad == "shape":
        cubes = [R, C[..., :-1]]
    rng.shuffle(cubes)
    if bad:
        mon.raises(ValueError, plugin, *cubes, table=table, label=f"{bad} refused")
        mon.seen("case", "refused " + bad)
        return
    before = content(C)
    src = content(R) if not turned else None
    tb = repr(table)
    out = plugin(*cubes, table=table) if rng.chance(0.5) else plugin(CubeList(cubes), table=table)
    mon.equal(snap_diff(before, content(C)), [], "input changed")
    mon.equal(repr(table), tb, "table changed")
    if src:
        mon.equal(snap_diff(src, content(R)), [], "input changed")
    mon.equal([out.name(), str(out.units), names(out)], [new or "altitude", "m s-1", names(C)], "metadata")

    def pick(labels, v):
        best = [l for l in labels if l <= v + 1e-5]
        return best[-1] if best else labels[0]
    got = out.data
    hidden = ma.getmaskarray(rd) | ma.getmaskarray(cd)
    mon.array_equal(ma.getmaskarray(got), hidden, "mask")
    got = ma.getdata(got)
    for k in np.ndindex(*full):
        if hidden[k]:
            continue
        r, c = float(ma.getdata(rd)[k]), float(ma.getdata(cd)[k])
        if math.isnan(r) or math.isnan(c):
            mon.check(bool(np.isnan(got[k])), "missing values stay missing")
            mon.event("missing")
            continue
        mon.close(float(got[k]), values[pick(rows, r), pick(cols, c)], "value of the nearest labels below", rtol=1e-6)
        mon.event("looked up")
    mon.check(out.data.dtype in (np.dtype(np.float32), np.dtype(np.int64), np.dtype(np.int32)), "type", str(out.data.dtype))
    mon.seen("case", f"{len(rows)} {len(cols)} {whole} {nr} {turned} {hidden.any()}")


# --------------------------------------------------------------- texture
@scenario("C53", quick=50, thorough=1500)
def texture(rng, mon):
    from improver.utilities.textural import FieldTexture

    nr = rng.choice([0, 1, 2, 3])
    shape = (rng.randint(4, 8), rng.randint(4, 8))
    ths = sorted(rng.sample([0.1, 0.265, 0.5, 0.8], rng.randint(1, 3)))
    radius_cells = rng.randint(1, 2)
    tt = rng.choice([0.05, 0.13, 0.3, 0.45])
    dth = rng.choice(ths)
    absent = rng.chance(0.1)
    full = (len(ths),) + ((nr,) if nr else ()) + shape
    kind = rng.choice(["noise", "blob", "full", "empty"])
    d = (rng.np.rand(*full) < 0.5).astype(np.float32)
    if kind == "blob":
        d = np.broadcast_to((np.hypot(*(np.mgrid[0:shape[0], 0:shape[1]] - np.array(shape).reshape(2, 1, 1) // 2)) < min(shape) / 2.5), full).astype(np.float32)
    elif kind == "full":
        d[:] = 1
    elif kind == "empty":
        d[:] = 0
    c = cube(d, gen.prob_name("cloud_area_fraction", "greater_than"), "1", lead=[gen.threshold_coord(ths, "cloud_area_fraction", "1", "greater_than")] + ([gen.realization_coord(nr)] if nr else []),
             time=T, frt=T - H, spacing=2000.0, attributes={"source": "a", "title": "x", "institution": "b", "mosg__model_configuration": "uk_ens"})
    model = rng.choice([None, "mosg__model_configuration"])
    plugin = FieldTexture(nbhood_radius=2000.0 * radius_cells, textural_threshold=tt, diagnostic_threshold=0.99 if absent else dth, model_id_attr=model)
    if rng.chance(0.1):
        c.data = c.data.copy()
        c.data.flat[-1] = rng.choice([0.5, 2, -1])
        mon.raises(ValueError, plugin, c, label="not binary")
        mon.seen("case", "not binary")
        return
    if absent:
        mon.raises(ValueError, plugin, c, label="threshold absent")
        mon.seen("case", "absent")
        return
    before = content(c)
    out = plugin(c)
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    sel = d[ths.index(dth)].reshape((-1,) + shape).astype(int)
    total = np.zeros(shape)
    near = np.zeros(shape, bool)
    for f in sel:
        p = np.pad(f, 1, mode="edge")
        edges = sum(np.abs(p[1:-1, 1:-1] - q) for q in (p[:-2, 1:-1], p[2:, 1:-1], p[1:-1, :-2], p[1:-1, 2:]))
        edges = np.where(f > 0, edges, 0)
        for j in range(shape[0]):
            for i in range(shape[1]):
                w = np.s_[max(0, j - radius_cells): j + radius_cells + 1, max(0, i - radius_cells): i + radius_cells + 1]
                ratio = edges[w].sum() / (4 * f[w].sum()) if f[j, i] else 1.0
                near[j, i] |= abs(ratio - tt) < 1e-6
                total[j, i] += ratio > tt
    want = total / len(sel)
    mon.equal(tuple(out.shape), shape, "shape")
    if tuple(out.shape) == shape:
        mon.close(np.asarray(out.data)[~near], want[~near], "rough or smooth", atol=1e-5)
    mon.equal([out.name(), str(out.units), out.data.dtype, names(out)], ["probability_of_texture_of_cloud_area_fraction_above_threshold", "1", np.dtype(np.float32), YX], "metadata")
    mon.equal(out.coords("realization"), [], "members gone")
    mon.close(float(out.coord(var_name="threshold").points[0]), tt, "threshold")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_ens" if model else None, "model attribute")
    mon.event("texture")
    mon.seen("case", f"{nr} {len(ths)} {radius_cells} {tt} {kind}")


# ------------------------------------------------------------- feels like
def svp(t):
    """Saturation vapour pressure (hPa -> Pa) of the Goff-Gratch formulae."""
    if t > 273.15:
        z = 10.79574 * (1 - 273.16 / t) - 5.028 * math.log10(t / 273.16) + 1.50475e-4 * (1 - 10 ** (-8.2969 * (t / 273.16 - 1))) \
            + 0.42873e-3 * (10 ** (4.76955 * (1 - 273.16 / t)) - 1) + 0.78614
    else:
        z = 9.09685 * (273.16 / t - 1) * -1 - 3.56654 * math.log10(273.16 / t) + 0.87682 * (1 - t / 273.16) + 0.78614
    return 10 ** z * 100


@scenario("C53", quick=50, thorough=1500)
def feels_like(rng, mon):
    from improver.feels_like_temperature import calculate_feels_like_temperature

    nr = rng.choice([0, 0, 1, 2])
    shape = ((nr,) if nr else ()) + (rng.randint(1, 3), rng.randint(2, 4))
    lead = [gen.realization_coord(nr)] if nr else []
    t = rng.np.uniform(-30, 45, shape)
    t = np.where(rng.np.rand(*shape) < 0.4, rng.np.uniform(8, 22, shape), t)
    if rng.chance(0.4):
        t = np.where(rng.np.rand(*shape) < 0.4, rng.np.choice([10.0, 20.0], size=shape), t)
    t = t.astype(np.float32)
    w = np.where(rng.np.rand(*shape) < 0.3, rng.np.uniform(0, 1.4, shape), rng.np.uniform(0, 40, shape)).astype(np.float32)
    rh = rng.np.uniform(0, 1.0, shape).astype(np.float32)
    p = rng.np.uniform(6e4, 1.05e5, shape).astype(np.float32)
    mask = gen.random_mask(rng, shape) if rng.chance(0.3) else None
    kw = dict(lead=lead, time=T, frt=T - H, attributes={"source": "a", "title": "x", "institution": "b", "mosg__model_configuration": "uk_ens"})
    tt = ma.masked_array(t, mask) if mask is not None else t
    C = [cube(tt, "air_temperature", "celsius", **kw), cube(w, "wind_speed", "m s-1", **kw), cube(rh, "relative_humidity", "1", **kw), cube(p, "surface_air_pressure", "Pa", **kw)]
    tu = rng.choice(["celsius", "K", "fahrenheit"])
    C[0].convert_units(tu)
    for c, us in zip(C[1:], (["m s-1", "knots", "km h-1"], ["1", "%"], ["Pa", "hPa"])):
        c.convert_units(rng.choice(us))
    for c in C:
        c.data = c.data.astype(np.float32)
    model = rng.choice([None, "mosg__model_configuration"])
    before = content(C)
    out = calculate_feels_like_temperature(*C, model_id_attr=model)
    mon.equal(snap_diff(before, content(C)), [], "inputs changed")
    mon.equal([out.name(), str(out.units), names(out), out.data.dtype], ["feels_like_temperature", str(C[0].units), names(C[0]), np.dtype(np.float32)], "metadata")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_ens" if model else None, "model attribute")
    got = out.copy()
    got.convert_units("celsius")
    mon.array_equal(ma.getmaskarray(got.data), mask if mask is not None else np.zeros(shape, bool), "mask")
    g = ma.getdata(got.data)
    for k in np.ndindex(*shape):
        if mask is not None and mask[k]:
            continue
        x, v, r, pr = float(t[k]), float(w[k]), float(rh[k]), float(p[k])
        e = max(v * 3.6, 4.824) ** 0.16
        chill = 13.12 + 0.6215 * x - 11.37 * e + 0.3965 * x * e
        corr = 1.0 + 1.0e-8 * pr * (4.5 + 6.0e-4 * x * x)
        at = -2.7 + 1.04 * x + 2.0 * 0.001 * svp(x + 273.15) * corr * r - 0.65 * v
        a = min(max((x - 10) / 10, 0), 1)
        mon.close(float(g[k]), a * at + (1 - a) * chill, "feels like", rtol=1e-3, atol=0.05)
        mon.event("cold" if a == 0 else "warm" if a == 1 else "between")
    mon.seen("case", f"{nr} {tu} {mask is not None}")


@scenario("C53", quick=30, thorough=800)
def ultraviolet(rng, mon):
    from improver.uv_index import calculate_uv_index

    nr = rng.choice([0, 1, 2])
    shape = ((nr,) if nr else ()) + (2, 3)
    lead = [gen.realization_coord(nr)] if nr else []
    d = mdata(rng, shape, masked=0.3, lo=0, hi=3)
    d[..., 0] = 0
    bad = rng.choice([None] * 5 + ["negative", "nan", "name"])
    c = cube(d, "surface_downwelling_ultraviolet_flux_in_air", "W m-2", lead=lead, time=T, frt=T - H, attributes={"source": "a", "title": "x", "institution": "b", "mosg__model_configuration": "uk_ens"})
    if bad in ("negative", "nan"):
        c.data[..., -1] = -0.01 if bad == "negative" else np.nan
    elif bad:
        c.rename("surface_downwelling_shortwave_flux_in_air")
    if bad:
        mon.raises(ValueError, calculate_uv_index, c, label=f"{bad} refused")
        mon.seen("case", "refused " + bad)
        return
    f = rng.choice([None, 2.0, 1.0])
    model = rng.choice([None, "mosg__model_configuration"])
    before = content(c)
    out = calculate_uv_index(c, model_id_attr=model, **({} if f is None else dict(scale_factor=f)))
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    same(mon, out.data, ma.asanyarray(d).astype(float) * (f or 3.6), "index", rtol=1e-5)
    mon.equal([out.name(), str(out.units), names(out), out.data.dtype], ["ultraviolet_index", "1", names(c), np.dtype(np.float32)], "metadata")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_ens" if model else None, "model attribute")
    k = c.copy()
    k.convert_units("kW m-2")
    k.data = k.data.astype(np.float32)
    same(mon, calculate_uv_index(k, **({} if f is None else dict(scale_factor=f))).data, ma.asanyarray(out.data), "in other units", rtol=1e-4)
    mon.event("index")
    mon.seen("case", f"{nr} {f} {ma.isMaskedArray(d)}")
