"""C40: wind components, direction and gusts.  C41: wind downscaling."""
import numpy as np
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, standard_faults


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def shuffle_dims(rng, c):
    order = list(range(c.ndim))
    rng.shuffle(order)
    c.transpose(order)
    return c


def lead_coords(rng, limit=2, realizations=True):
    lead, times = [], None
    if realizations and rng.chance(0.5):
        lead.append(gen.realization_coord(rng.randint(1, 4)))
    if rng.chance(0.4):
        lead.append(gen.level_coord(sorted(rng.sample([10, 20, 50, 100, 300], rng.randint(1, 3))), "height"))
    return lead[:limit]


def over_times(fields, name, units, frt, times, **kw):
    """fields: (time, lead..., y, x)."""
    from iris.util import new_axis
    cs = CubeList([cube(f, name, units, time=t, frt=frt, **kw) for f, t in zip(fields, times)])
    return cs.merge_cube() if len(cs) > 1 else new_axis(cs[0], "time")


def circ(a, b):
    """Angular difference, degrees."""
    return np.abs((np.asarray(a, float) - np.asarray(b, float) + 180) % 360 - 180)


# ------------------------------------------------------------ C40
@scenario("C40", quick=80, thorough=2000)
def components(rng, mon):
    from improver.wind_calculations.wind_components import ResolveWindComponents

    ny, nx = rng.randint(1, 5), rng.randint(2, 6)
    lead = lead_coords(rng)
    shape = tuple(c.shape[0] for c in lead) + (ny, nx)
    speed = rng.np.uniform(0, 40, shape).astype(np.float32)
    ang = rng.np.uniform(0, 360, shape).astype(np.float32)
    for _ in range(rng.randint(0, 4)):
        ang.flat[rng.randint(0, ang.size - 1)] = rng.choice([0, 90, 180, 270, 360])
    frm = rng.chance(0.7)
    m = rng.chance(0.3) and gen.random_mask(rng, shape)
    if m is not False and m is not None:
        speed = np.ma.masked_array(np.where(m, -9999, speed).astype(np.float32), m)
        if rng.chance(0.5):
            ang = np.ma.masked_array(ang, m)
    grid = rng.choice(["equalarea", "latlon"])
    s = cube(speed, "wind_speed", rng.choice(["m s-1", "knots"]), grid=grid, lead=lead)
    d = cube(ang, "wind_from_direction" if frm else "wind_to_direction", "degrees", grid=grid, lead=lead)
    if rng.chance(0.3):
        d.convert_units("radians")
        d.data = d.data.astype(np.float32)
    if rng.chance(0.3):
        order = list(range(s.ndim))
        k = rng.randint(0, 1) if s.ndim > 2 else 0
        if k:
            order = order[:-2][::-1] + order[-2:]
        s.transpose(order)
        d.transpose(order)
    adj = (rng.np.uniform(-0.4, 0.4, (ny, nx)) if rng.chance(0.7) else np.zeros((ny, nx))).astype(np.float32)
    plugin = ResolveWindComponents()
    calls = []

    def offset(ref):
        calls.append(ref.shape)
        return adj.copy()
    plugin.calc_true_north_offset = offset
    a, b = content(s), content(d)
    times = rng.choice([1, 1, 2])
    for _ in range(times):
        u, v = plugin(s, d)
        mon.event("components", u.data.size)
    # the oracle works from the values recorded before the call
    theta = np.asarray(np.ma.getdata(ang), float)
    theta = cube(np.radians(theta), "x", "1", grid=grid, lead=lead)
    theta.transpose([theta.coord_dims(s.coord(dimensions=i, dim_coords=True))[0] for i in range(s.ndim)])
    th = theta.data + adj + (np.pi if frm else 0)
    sp = np.asarray(np.ma.getdata(s.data), float)
    keep = ~np.ma.getmaskarray(s.data)
    mon.equal(calls[0], (ny, nx), "offset asked for one slice")
    for got, want, name in [(u, sp * np.sin(th), "grid_eastward_wind"), (v, sp * np.cos(th), "grid_northward_wind")]:
        mon.close(np.ma.getdata(got.data)[keep], want[keep], name, atol=2e-4)
        mon.array_equal(np.ma.getmaskarray(got.data), ~keep, name + " mask")
        mon.equal(got.name(), name, "name")
        mon.equal(got.units, s.units, name + " units")
        mon.equal(got.dtype, np.dtype(np.float32), name + " dtype")
        mon.equal([c.name() for c in got.coords()], [c.name() for c in s.coords()], name + " coordinates")
    mon.equal(snap_diff(a, content(s)), [], "speed changed")
    mon.equal(snap_diff(b, content(d)), [], "direction changed")
    mon.seen("case", f"{frm} {shape} {times}")


@scenario("C40", quick=12, thorough=100)
def components_refused(rng, mon):
    from improver.wind_calculations.wind_components import ResolveWindComponents

    x = rng.np.uniform(0, 40, (3, 4)).astype(np.float32)
    s, d = cube(x, "wind_speed", "m s-1"), cube(x, "wind_from_direction", "degrees")
    bad = rng.choice(["names", "direction", "grid", "time"])
    if bad == "names":
        s.rename("air_temperature")
    elif bad == "direction":
        d.rename(rng.choice(["wind_speed", "sea_surface_direction"]))
    elif bad == "grid":
        d.coord(axis="x").points = d.coord(axis="x").points + np.float32(2000)
        d.coord(axis="x").bounds = None
    else:
        d.coord("time").points = d.coord("time").points + 3600
    plugin = ResolveWindComponents()
    plugin.calc_true_north_offset = lambda ref: np.zeros(ref.shape, np.float32)
    mon.raises(ValueError, plugin, s, d, label=bad)
    mon.event("refusals")
    mon.seen("bad", bad)


@scenario("C40", quick=80, thorough=2000)
def mean_direction(rng, mon):
    from improver.wind_calculations.wind_direction import WindDirection

    nr, ny, nx = rng.randint(1, 5), rng.randint(6, 8), rng.randint(6, 8)
    nt = rng.choice([0, 0, 1, 2, 3])
    base = rng.np.uniform(0, 360, (ny, nx))
    data = (base + rng.np.normal(0, rng.choice([5, 40, 120]), (max(nt, 1), nr, ny, nx))) % 360
    low = np.zeros((max(nt, 1), ny, nx), bool)
    if nr % 2 == 0 and rng.chance(0.6):
        for _ in range(rng.randint(1, 5)):
            k, i, j = rng.randint(0, max(nt, 1) - 1), rng.randint(0, ny - 1), rng.randint(0, nx - 1)
            first = data[k, :nr // 2, i, j]
            data[k, nr // 2:, i, j] = (first + 180) % 360
            low[k, i, j] = True
    data = data.astype(np.float32)
    method = rng.choice(["neighbourhood", "first_realization"])
    reals = list(range(nr))
    spacing = rng.choice([2000.0, 2000.0, 4000.0])
    grid_kw = dict(grid="equalarea", spacing=spacing)
    base_t = gen.dt.datetime(2017, 11, 10, 4)
    frt = gen.dt.datetime(2017, 11, 10, 0)
    times = [base_t + gen.dt.timedelta(hours=i) for i in range(nt)]
    if nt:
        c = over_times(data, "wind_from_direction", "degrees", frt, times, lead=[gen.realization_coord(reals)], **grid_kw)
    else:
        c = cube(data[0], "wind_from_direction", "degrees", lead=[gen.realization_coord(reals)], time=base_t, frt=frt, **grid_kw)
    if rng.chance(0.4):
        yd, xd = c.coord_dims(c.coord(axis="y"))[0], c.coord_dims(c.coord(axis="x"))[0]
        rest = [i for i in range(c.ndim) if i not in (yd, xd)]
        rng.shuffle(rest)
        at = rng.randint(0, len(rest))
        c.transpose(rest[:at] + [yd, xd] + rest[at:])
    before = content(c)
    out = WindDirection(backup_method=method)(c)
    z = np.exp(1j * np.radians(data.astype(float)))          # t, r, y, x
    mean = z.mean(axis=1)
    want = np.degrees(np.angle(mean)) % 360
    r = np.abs(mean)
    rad = int(6000.0 / spacing)
    judged = np.abs(r - 0.01) > 2e-3
    for k, i, j in np.argwhere(r < 0.01):
        if method == "first_realization":
            want[k, i, j] = data[k, 0, i, j]
        else:
            box = mean[k, max(0, i - rad):i + rad + 1, max(0, j - rad):j + rad + 1].mean()
            want[k, i, j] = np.degrees(np.angle(box)) % 360
            if abs(box) < 0.01:
                judged[k, i, j] = False
    judged &= (r >= 0.01) | (r < 0.008)
    dims = ["time"] if nt else []
    got = out.copy()
    if nt and not got.coord_dims("time"):
        mon.check(False, "time dimension lost")
        return
    order = [got.coord_dims("time")[0]] if nt else []
    order += [got.coord_dims(got.coord(axis="y"))[0], got.coord_dims(got.coord(axis="x"))[0]]
    arr = np.ma.getdata(got.data).transpose(order)
    arr = arr if nt else arr[None]
    diff = circ(arr, want)
    mon.check(bool((diff[judged] < 0.02 / np.maximum(np.where(r < 0.01, 0.02, r), 0.01)[judged]).all()),
              "mean direction", got=float(diff[judged].max(initial=0)))
    mon.check(bool(((arr >= 0) & (arr <= 360)).all()), "direction within the circle")
    mon.equal([x.name() for x in out.coords() if x.name() == "realization"], [], "realization removed")
    mon.equal([out.coord(dimensions=i, dim_coords=True).name() for i in range(out.ndim)],
              [x.name() for x in [c.coord(dimensions=i, dim_coords=True) for i in range(c.ndim)] if x.name() != "realization"],
              "dimension order")
    mon.equal([str(m) for m in out.cell_methods], ["mean: realization"], "cell method")
    mon.equal(standard_faults(out), [], "standards")
    mon.equal(snap_diff(before, content(c)), [], "input changed")
    mon.event("directions", arr.size)
    mon.event("backup", int((r < 0.01).sum()))
    mon.seen("case", f"{method} {nr} {nt} {bool(low.any())}")


@scenario("C40", quick=60, thorough=1500)
def gust(rng, mon):
    from improver.wind_calculations.wind_gust_diagnostic import WindGustDiagnostic

    ny, nx = rng.randint(1, 4), rng.randint(2, 5)
    pg = sorted(rng.sample([0, 20, 50, 80, 95, 100], rng.randint(1, 4)))
    pw = sorted(rng.sample([0, 20, 50, 80, 95, 100], rng.randint(1, 4)))
    sg, sw = rng.choice(pg), rng.choice(pw)
    if rng.chance(0.4):
        pg, pw, sg, sw = [50, 95], [95, 100], *rng.choice([(50, 95), (95, 100), (95, 95)])
    nt = rng.choice([0, 0, 1, 2, 3])
    shift = rng.choice([0, 0, -1800, -3600, 600, -4000])     # wind speed against gust, seconds
    bounded = rng.chance(0.6)
    base = gen.dt.datetime(2017, 11, 10, 4)
    frt = gen.dt.datetime(2017, 11, 10, 0)

    def make(name, percs, off, bnds):
        n = max(nt, 1)
        data = rng.np.uniform(0, 40, (len(percs), n, ny, nx)).astype(np.float32)
        data.sort(axis=0)
        cs = []
        for k in range(n):
            t = base + gen.dt.timedelta(seconds=3600 * k + off)
            c = cube(data[:, k], name, "m s-1", lead=[gen.percentile_coord(percs)], time=t, frt=frt,
                     bounds=(t - gen.dt.timedelta(seconds=3600), t) if bnds else None)
            cs.append(c)
        if nt == 0:
            return cs[0], data[:, 0]
        import iris.util
        cl = CubeList(cs).merge_cube() if nt > 1 else iris.util.new_axis(cs[0], "time")
        cl.transpose([cl.coord_dims("percentile")[0]] + [i for i in range(cl.ndim) if i != cl.coord_dims("percentile")[0]])
        return cl, data

    g, gd = make("wind_speed_of_gust", pg, 0, bounded)
    w, wd = make("wind_speed", pw, shift, False)
    m = rng.chance(0.2) and gen.random_mask(rng, gd.shape)
    if m is not False and m is not None and m.shape == gd.shape:
        gd = np.ma.masked_array(np.where(m, 1e3, gd).astype(np.float32), m)
        g.data = gd
    if rng.chance(0.3):
        g = g[pg.index(sg)]                  # only the percentile needed
        gd = gd[[pg.index(sg)]]
        pg = [sg]
    a, b = content(g), content(w)
    plugin = WindGustDiagnostic(sg, sw)
    ok = shift == 0 or (bounded and -3600 <= shift <= 0)
    if not ok:
        mon.raises(ValueError, plugin, g, w, label="times")
        mon.event("refusals")
        mon.equal(snap_diff(a, content(g)), [], "gust changed")
        return
    out = plugin(g, w)
    gg, ww = gd[pg.index(sg)], wd[pw.index(sw)]
    want = np.maximum(np.ma.getdata(gg), ww)
    mk = np.ma.getmaskarray(gg)
    mon.equal(out.shape, want.shape, "shape")
    mon.array_equal(np.ma.getdata(out.data)[~mk], want[~mk], "gust diagnostic")
    mon.array_equal(np.ma.getmaskarray(out.data), mk, "gust mask")
    mon.equal(out.name(), "wind_speed_of_gust", "name")
    txt = {(50, 95): "Typical gusts", (95, 100): "Extreme gusts"}.get((sg, sw), str(plugin))
    mon.equal(out.attributes.get("wind_gust_diagnostic"), txt, "description")
    mon.equal(out.coords("percentile"), [], "percentile removed")
    mon.equal(out.coord("time"), g.coord("time"), "time of the gust")
    mon.equal(standard_faults(out), [], "standards")
    mon.equal(snap_diff(a, content(g)), [], "gust changed")
    mon.equal(snap_diff(b, content(w)), [], "wind speed changed")
    # refusals
    miss = [p for p in (5, 37) if p not in pg]
    mon.raises(ValueError, WindGustDiagnostic(rng.choice(miss), sw), g, w, label="missing percentile")
    mon.raises(ValueError, WindGustDiagnostic(sg, rng.choice([5, 37])), g, w, label="missing wind percentile")
    if nt > 1:
        t0 = w.coord_dims("time")[0]
        key = [slice(None)] * w.ndim
        key[t0] = 0
        mon.raises(ValueError, plugin, g, w[tuple(key)], label="times missing")
    mon.event("gusts", want.size)
    mon.seen("case", f"{sg} {sw} {nt} {shift} {bounded}")


@scenario("C40", quick=60, thorough=1500)
def updraught(rng, mon):
    from improver.wind_calculations.vertical_updraught import VerticalUpdraught

    ny, nx = rng.randint(1, 4), rng.randint(2, 5)
    lead = [gen.realization_coord(rng.randint(1, 3))] if rng.chance(0.5) else []
    shape = tuple(x.shape[0] for x in lead) + (ny, nx)
    cape = rng.np.choice([0, 5, 9.99, 10, 11, 500, 3000], shape).astype(np.float32)
    pr = rng.np.choice([0, 1, 4.99, 5.01, 10, 28.7, 120], shape).astype(np.float32)
    t0, t1 = gen.dt.datetime(2017, 11, 10, 4), gen.dt.datetime(2017, 11, 10, 5)
    frt = gen.dt.datetime(2017, 11, 10, 0)
    mc = mp = np.zeros(shape, bool)
    if rng.chance(0.35):
        mc = gen.random_mask(rng, shape)
        mc = np.zeros(shape, bool) if mc is None else mc
    if rng.chance(0.25):
        mp = gen.random_mask(rng, shape)
        mp = np.zeros(shape, bool) if mp is None else mp
    cd = np.ma.masked_array(cape, mc) if mc.any() else cape
    pd_ = np.ma.masked_array(pr, mp) if mp.any() else pr
    at = {"mosg__model_configuration": "uk_ens", "title": "T", "source": "S", "institution": "I"}
    c = cube(cd, "atmosphere_convective_available_potential_energy", "J kg-1", lead=lead, time=t0, frt=frt, attributes=dict(at))
    p = cube(pd_, "lwe_precipitation_rate_max", "mm h-1", lead=lead, time=t1, frt=frt, bounds=(t0, t1), attributes=dict(at))
    si = rng.chance(0.4)
    if si:
        p.convert_units("m s-1")
        p.data = p.data.astype(np.float32)
    model = rng.choice([None, "mosg__model_configuration"])
    ins = [c, p]
    rng.shuffle(ins)
    bad = rng.choice([None] * 4 + ["cape bounds", "precip instantaneous", "frt", "cape at the end", "grid", "extra", "missing", "model"])
    plugin = VerticalUpdraught(model_id_attr=model)
    if bad:
        if bad == "cape bounds":
            c.coord("time").bounds = np.array([c.coord("time").points[0] - 3600, c.coord("time").points[0]])
        elif bad == "precip instantaneous":
            p.coord("time").bounds = None
        elif bad == "frt":
            p.coord("forecast_reference_time").points = p.coord("forecast_reference_time").points + 3600
        elif bad == "cape at the end":
            c.coord("time").points = p.coord("time").points
        elif bad == "grid":
            c.coord(axis="x").points = c.coord(axis="x").points + np.float32(500)
        elif bad == "extra":
            x = c.copy()
            x.rename("air_temperature")
            ins.append(x)
        elif bad == "missing":
            ins = [rng.choice(ins)]
        else:
            plugin = VerticalUpdraught(model_id_attr="mosg__model_configuration")
            c.attributes["mosg__model_configuration"] = "uk_det"
        mon.raises(ValueError, plugin, CubeList(ins), label=bad)
        mon.event("refusals")
        mon.seen("bad", bad)
        return
    a, b = content(c), content(p)
    out = plugin(*ins) if rng.chance(0.5) else plugin(CubeList(ins))
    mk = mc | mp
    want = np.where(cape < 10, 0, 0.25 * np.sqrt(2 * cape.astype(float))) + np.where(pr < 5, 0, 7.33 * (pr.astype(float) / 28.7) ** 0.22)
    mon.array_equal(np.ma.getmaskarray(out.data), mk, "updraught mask")
    mon.close(np.ma.getdata(out.data)[~mk], want[~mk], "updraught", rtol=1e-4)
    mon.equal(out.name(), "maximum_vertical_updraught", "name")
    mon.equal(str(out.units), "m s-1", "units")
    mon.equal(out.coord("time"), p.coord("time"), "time of the precipitation")
    mon.equal(out.attributes.get("mosg__model_configuration"), "uk_ens" if model else None, "model")
    mon.equal(standard_faults(out), [], "standards")
    if not si:
        mon.equal(snap_diff(a, content(c)), [], "cape changed")
        mon.equal(snap_diff(b, content(p)), [], "precipitation changed")
    mon.event("updraughts", want.size)
    mon.seen("case", f"{model} {bool(mk.any())} {si}")


# ------------------------------------------------------------ C41
RMDI = -32767.0


def downscale_column(u, h, aos, sig, z0, pp, mod, ppres, modres):
    """One column of winds, float64.  Returns None where a choice is too close to judge."""
    u, h = np.asarray(u, float), np.asarray(h, float)
    land = sig > 0 and aos > 0
    if not land:
        return u.copy()
    hover2 = sig * np.sqrt(2)
    k = min(aos * np.pi / hover2, np.pi / (ppres / 2))
    k = max(k, np.pi / (3 * modres))
    alpha = -np.log(0.04)
    par = min(max(alpha + np.log(k * hover2), 0.0), 1.0)
    href = max(par / k, 1.0)
    href = max(min(href, 2 * hover2), 1.0)

    def at(x):
        return np.interp(x, np.concatenate([[0.0], h]), np.concatenate([[0.0], u]))
    new = u.copy()
    if z0 is not None and z0 > 0:
        us = at(href)
        below = h < href
        if np.any(np.abs(h - href) < 1e-3 * href):
            return None
        new[below] = us * np.log(h[below] / z0) / np.log(href / z0)
    if not (np.isnan(pp) or np.isnan(mod)):
        uo = at(1 / k)
        if uo > 0:
            new = new + np.exp(-h * k) * uo * (pp - mod) * k
    return np.maximum(new, 0)


@scenario("C41", quick=80, thorough=2000)
def downscaling(rng, mon):
    from improver.wind_calculations.wind_downscaling import RoughnessCorrection

    ny, nx = rng.randint(2, 5), rng.randint(2, 5)
    nz = rng.randint(2, 8)
    modres = rng.choice([500.0, 1500.0, 2000.0])
    heights = np.array(sorted(rng.sample([2, 5, 10, 15, 25, 40, 60, 100, 200, 400, 800, 1500], nz - 1)) + [7000.0], np.float32)
    nt = rng.choice([0, 0, 1, 2, 3])
    base, frt = gen.dt.datetime(2017, 11, 10, 4), gen.dt.datetime(2017, 11, 10, 0)
    times = [base + gen.dt.timedelta(hours=i) for i in range(nt)]
    n = max(nt, 1)
    u = np.sort(rng.np.uniform(0, 40, (n, nz, ny, nx)), axis=1) if rng.chance(0.7) else rng.np.uniform(0, 40, (n, nz, ny, nx))
    if rng.chance(0.2):
        u[:, :, 0, 0] = 0
    u = u.astype(np.float32)
    spacing = rng.choice([2000.0, 1500.0, 4000.0])
    sig = rng.np.uniform(5, 150, (ny, nx)).astype(np.float32)
    aos = rng.np.uniform(0.01, 0.6, (ny, nx)).astype(np.float32)
    sea = rng.np.uniform(0, 1, (ny, nx)) < 0.25
    sig[sea] = 0
    aos[sea] = 0
    if rng.chance(0.2):
        aos[rng.randint(0, ny - 1), rng.randint(0, nx - 1)] = np.nan if rng.chance(0.5) else 0
    z0 = rng.np.choice([0.05, 0.3, 1.0, 0.0, -1.0], (ny, nx)).astype(np.float32) if rng.chance(0.8) else None
    if z0 is not None and rng.chance(0.2):
        z0[rng.randint(0, ny - 1), rng.randint(0, nx - 1)] = np.nan
    mod = rng.np.uniform(0, 600, (ny, nx)).astype(np.float32)
    pp = (mod + rng.np.uniform(-300, 300, (ny, nx))).astype(np.float32)
    if rng.chance(0.2):
        rng.choice([mod, pp])[rng.randint(0, ny - 1), rng.randint(0, nx - 1)] = np.nan if rng.chance(0.5) else RMDI
    kw = dict(grid="equalarea", spacing=spacing)

    def anc(d, name, units):
        c = cube(d.copy(), name, units, **kw)
        for x in ("time", "forecast_period", "forecast_reference_time"):
            c.remove_coord(x)
        if rng.chance(0.3):
            c.transpose()
        return c
    acs = [anc(aos, "silhouette_roughness", "1"), anc(sig, "standard_deviation_of_height_in_grid_cell", "m"),
           anc(pp, "surface_altitude", "m"), anc(mod, "surface_altitude", "m")]
    zc = anc(z0, "vegetative_roughness_length", "m") if z0 is not None else None
    if nt:
        w = over_times(u, "wind_speed", "m s-1", frt, times, lead=[gen.level_coord(list(heights), "height")], **kw)
    else:
        w = cube(u[0], "wind_speed", "m s-1", lead=[gen.level_coord(list(heights), "height")], time=base, frt=frt, **kw)
    # orders the plugin accepts: y immediately before x
    yd, xd = w.coord_dims(w.coord(axis="y"))[0], w.coord_dims(w.coord(axis="x"))[0]
    rest = [i for i in range(w.ndim) if i not in (yd, xd)]
    rng.shuffle(rest)
    pos = rng.randint(0, len(rest))
    w.transpose(rest[:pos] + [yd, xd] + rest[pos:])
    names = [w.coord(dimensions=i, dim_coords=True).name() for i in range(w.ndim)]
    h3 = np.broadcast_to(heights[:, None, None], (nz, ny, nx)).astype(np.float32)
    hc = None
    kind = rng.choice(["coord", "coord", "1d", "3d"])
    if kind == "3d":
        h3 = (h3 * rng.np.uniform(0.9, 1.1, (1, ny, nx))).astype(np.float32)
        hc = cube(h3, "height", "m", lead=[gen.level_coord(list(heights), "height")], **kw)
        for x in ("time", "forecast_period", "forecast_reference_time"):
            hc.remove_coord(x)
        hc.rename("height_levels")
        if rng.chance(0.5):
            hc.transpose([1, 2, 0])
    elif kind == "1d":
        hc = w.copy()
        key = tuple(slice(None) if nm == "height" else 0 for nm in names)
        hc = hc[key]
        hc.data = heights.copy()
        hc.rename("height_levels")
    ancils = [x for x in acs + [zc, hc] if x is not None]
    before = [content(x) for x in ancils + [w]]
    plugin = RoughnessCorrection(acs[0], acs[1], acs[2], acs[3], modres, z0_cube=zc, height_levels_cube=hc)
    got = plugin(w)
    if rng.chance(0.5):
        got = plugin(w)
        mon.event("second use")
    mon.equal([got.coord(dimensions=i, dim_coords=True).name() for i in range(got.ndim)], names, "dimension order")
    mon.equal([w.coord(dimensions=i, dim_coords=True).name() for i in range(w.ndim)], names, "dimension order of the input")
    mon.equal(got.shape, w.shape, "shape")
    arr = got.data.transpose([names.index(x) for x in ["time"] * bool(nt)] + [names.index("height"), names.index("projection_y_coordinate"), names.index("projection_x_coordinate")])
    arr = arr if nt else arr[None]
    judged = 0
    for t in range(n):
        for i in range(ny):
            for j in range(nx):
                p, m = float(pp[i, j]), float(mod[i, j])
                p, m = (np.nan if p == RMDI else p), (np.nan if m == RMDI else m)
                z = None if z0 is None or np.isnan(z0[i, j]) else float(z0[i, j])
                want = downscale_column(u[t, :, i, j], h3[:, i, j], 0 if np.isnan(aos[i, j]) else float(aos[i, j]), float(sig[i, j]), z,
                                        p, m, spacing, modres)
                if want is None:
                    continue
                judged += 1
                mon.close(arr[t, :, i, j], want, "downscaled wind", rtol=2e-3, atol=5e-3)
    mon.check(bool((arr >= 0).all()), "wind speeds are not negative")
    for x, bf in zip(ancils + [w], before):
        mon.equal(snap_diff(bf, content(x)), [], f"{x.name()} changed")
    mon.equal(standard_faults(got), [], "standards")
    mon.equal(got.units, w.units, "units")
    mon.event("columns", judged)
    mon.seen("case", f"{kind} {nt} {z0 is None} {names}")


@scenario("C41", quick=15, thorough=150)
def downscaling_refused(rng, mon):
    from improver.wind_calculations.wind_downscaling import RoughnessCorrection

    kw = dict(grid="equalarea", spacing=2000.0)
    ny, nx, nz = 3, 4, 3

    def anc(name, units):
        return cube(rng.np.uniform(0.1, 1, (ny, nx)).astype(np.float32), name, units, **kw)
    acs = [anc("a", "1"), anc("s", "m"), anc("p", "m"), anc("m", "m")]
    z0 = anc("z", "m")
    w = cube(rng.np.uniform(0, 30, (nz, ny, nx)).astype(np.float32), "wind_speed", "m s-1",
             lead=[gen.level_coord([10, 100, 1000], "height")], **kw)
    bad = rng.choice(["units", "z0 units", "grid", "nan", "negative", "order", "type", "latlon"])
    if bad == "units":
        acs[rng.randint(0, 3)].units = "km"
    elif bad == "z0 units":
        z0.units = "km"
    elif bad == "grid":
        x = rng.choice(acs + [z0]).coord(axis=rng.choice("xy"))
        x.points = x.points + np.float32(100)
    elif bad == "nan":
        w.data[1, 1, 1] = np.nan
    elif bad == "negative":
        w.data[1, 1, 1] = -1
    elif bad == "order":
        w.transpose(rng.choice([[0, 2, 1], [1, 0, 2], [2, 1, 0]]))
    elif bad == "latlon":
        kw = dict(grid="latlon")
        acs = [anc("a", "1"), anc("s", "m"), anc("p", "m"), anc("m", "m")]
        z0 = None

    def run():
        RoughnessCorrection(*acs, 1500.0, z0_cube=z0)("wind" if bad == "type" else w)
    mon.raises(TypeError if bad == "type" else ValueError, run, label=bad)
    mon.event("refusals")
    mon.seen("bad", bad)
