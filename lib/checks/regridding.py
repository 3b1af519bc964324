"""C35: regridding with and without land and sea.  C36: land-sea adjustment, cutouts, padding."""
import datetime as dt
import warnings

import iris
import numpy as np
from iris.coords import AuxCoord, CellMethod, DimCoord
from iris.cube import Cube, CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, standard_faults


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


def ecef(lat, lon):
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    p, l = np.radians(lat), np.radians(lon)
    n = a / np.sqrt(1 - e2 * np.sin(p) ** 2)
    return np.stack([n * np.cos(p) * np.cos(l), n * np.cos(p) * np.sin(l), n * (1 - e2) * np.sin(p)], axis=-1)


def latlon_pts(rng, ny, nx, lat0, lon0, dlat, dlon):
    return ((lat0 + dlat * np.arange(ny)).astype(np.float32), (lon0 + dlon * np.arange(nx)).astype(np.float32))


def spatial(y, x, names=("latitude", "longitude"), units="degrees", cs=None):
    cs = gen.ELLIPSOID if cs is None else cs
    return (DimCoord(y, names[0], units=units, coord_system=cs), DimCoord(x, names[1], units=units, coord_system=cs))


def make(data, y, x, name, units, lead=(), scalars=(), attributes=None, cell_methods=(), order=None):
    dims = [(c, i) for i, c in enumerate(lead)] + [(y, len(lead)), (x, len(lead) + 1)]
    aux = [(c, None) for c in scalars]
    c = Cube(data, units=units, dim_coords_and_dims=dims, aux_coords_and_dims=aux, attributes=dict(attributes or {}),
             cell_methods=cell_methods)
    c.rename(name)
    if order:
        c.transpose(order)
    return c


class Source:
    """Source grid, values, land and the exact answer per target point."""

    def __init__(self, rng, sy, sx):
        self.sy, self.sx = sy.astype(float), sx.astype(float)
        self.ny, self.nx = len(sy), len(sx)
        self.dy, self.dx = self.sy[1] - self.sy[0], self.sx[1] - self.sx[0]
        yy, xx = np.meshgrid(self.sy, self.sx, indexing="ij")
        self.lat, self.lon = yy.ravel(), xx.ravel()
        self.xyz = ecef(self.lat, self.lon)
        self.box = None

    def corners(self, la, lo):
        fy = (la - self.sy[0]) / self.dy
        fx = (lo - self.sx[0]) / self.dx
        j = min(max(int(np.floor(fy)), 0), self.ny - 2)
        i = min(max(int(np.floor(fx)), 0), self.nx - 2)
        idx = [j * self.nx + i, (j + 1) * self.nx + i, (j + 1) * self.nx + i + 1, j * self.nx + i + 1]
        return idx, fy - j, fx - i, j, i

    def plain(self, mode, la, lo):
        """{index: weight}, ambiguous."""
        idx, ty, tx, _, _ = self.corners(la, lo)
        if mode == "bilinear":
            w = [(1 - ty) * (1 - tx), ty * (1 - tx), ty * tx, (1 - ty) * tx]
            return dict(zip(idx, w)), False
        d = [(self.lat[k] - la) ** 2 + (self.lon[k] - lo) ** 2 for k in idx]
        o = np.argsort(d)
        return {idx[o[0]]: 1.0}, d[o[1]] - d[o[0]] < 1e-4 * max(d[o[1]], 1e-6) + 1e-9

    def nearest_k(self, la, lo, k):
        d = np.sqrt(((self.xyz - ecef(la, lo)) ** 2).sum(axis=-1))
        o = np.argsort(d, kind="stable")
        tie = len(o) > k and abs(d[o[k]] - d[o[k - 1]]) < 1e-4 * d[o[k]] + 1.0
        # the code looks no further than two grid lengths around the target domain
        if self.box is not None:
            la0, la1, lo0, lo1 = self.box
            m = o[:k]
            tie = tie or bool(np.any((self.lat[m] < la0 - 1.99 * self.dy) | (self.lat[m] > la1 + 1.99 * self.dy)
                                     | (self.lon[m] < lo0 - 1.99 * self.dx) | (self.lon[m] > lo1 + 1.99 * self.dx)))
        return o[:k], d[o[:k]], tie

    def masked(self, mode, la, lo, type_, land, vicinity):
        """Weights with land and sea awareness; ambiguous."""
        idx, ty, tx, _, _ = self.corners(la, lo)
        on_line = min(abs(ty - round(ty)), abs(tx - round(tx))) < 1e-4
        same = [land[k] == type_ for k in idx]
        if all(same):
            return self.plain(mode, la, lo)
        if mode == "bilinear" and sum(same) == 3:
            if on_line:
                return None, True
            miss = same.index(False)
            w = {0: [0, 1 - tx, None, 1 - ty], 1: [1 - tx, 0, ty, None],
                 2: [None, ty, 0, tx], 3: [1 - ty, None, tx, 0]}[miss]
            rest = 1 - sum(k for k in w if k is not None)
            w = [rest if k is None else k for k in w]
            if abs(min(w[k] for k in range(4) if k != miss)) < 1e-4:
                return None, True
            if min(w) > 0 or all(v >= 0 for v in w):
                return dict(zip(idx, w)), False
        near, dist, tie = self.nearest_k(la, lo, 4)
        ok = [land[k] == type_ for k in near]
        if tie or on_line:
            return None, True
        if any(ok):
            if mode == "bilinear" and sum(same) == 0:
                pass  # four mismatched corners: the eight nearest decide
            else:
                use = [(k, d) for k, d, s in zip(near, dist, ok) if s]
                return self.combine(mode, use)
        near, dist, tie = self.nearest_k(la, lo, 8)
        if tie or np.any(np.abs(dist - vicinity) < 1e-3 * vicinity):
            return None, True
        use = [(k, d) for k, d in zip(near, dist) if land[k] == type_ and d <= vicinity]
        if use:
            if mode == "bilinear" and len(use) > 4 and use[4][1] - use[3][1] < 1e-4 * use[4][1] + 1:
                return None, True
            return self.combine(mode, use[:4])
        if mode == "nearest":
            return self.combine(mode, list(zip(near, dist)))
        return self.plain(mode, la, lo)

    @staticmethod
    def combine(mode, use):
        if mode == "nearest":
            tie = len(use) > 1 and use[1][1] - use[0][1] < 1e-4 * use[1][1] + 1
            return {use[0][0]: 1.0}, tie
        w = np.array([(d + 1e-7) ** -1.8 for _, d in use])
        w /= w.sum()
        return {k: v for (k, _), v in zip(use, w)}, False


def regrid_case(rng, with_mask):
    """Source and target cubes and their description."""
    ny, nx = rng.randint(5, 9), rng.randint(5, 9)
    dlat = rng.choice([1.0, 0.5, 2.0, 0.2, 0.3, 0.7])
    dlon = rng.choice([1.0, 0.5, 2.0, 0.2, 0.3, 0.7])
    lat0, lon0 = rng.choice([-30.0, 45.0, 0.0]), rng.choice([-10.0, 20.0, 100.0])
    if abs(lon0) > 50 and dlon < 0.5:
        lon0 = 20.0
    sy, sx = latlon_pts(rng, ny, nx, lat0, lon0, dlat, dlon)
    kind = rng.choice(["inside", "same", "outside", "subset", "laea"])
    if kind == "same":
        ty, tx = sy.copy(), sx.copy()
    elif kind == "subset":
        a, b = rng.randint(0, 2), rng.randint(0, 2)
        ty, tx = sy[a:a + rng.randint(2, 4)], sx[b:b + rng.randint(2, 4)]
    else:
        my, mx = rng.randint(2, 6), rng.randint(2, 6)
        lo_y, hi_y = float(sy[0]), float(sy[-1])
        lo_x, hi_x = float(sx[0]), float(sx[-1])
        if kind == "outside":
            lo_y, hi_y = lo_y - 0.9 * dlat * rng.randint(0, 1), hi_y + 1.3 * dlat * rng.randint(0, 1)
            lo_x, hi_x = lo_x - 1.6 * dlon * rng.randint(0, 1), hi_x + 0.7 * dlon * rng.randint(0, 1)
        if rng.chance(0.4):
            # on the points of the source's last row or column
            pass
        else:
            lo_y, hi_y = lo_y + 0.37 * dlat, hi_y - 0.21 * dlat
            lo_x, hi_x = lo_x + 0.13 * dlon, hi_x - 0.44 * dlon
        ty, tx = np.linspace(lo_y, hi_y, my).astype(np.float32), np.linspace(lo_x, hi_x, mx).astype(np.float32)
    src = Source(rng, sy, sx)
    if kind == "laea":
        from iris.coord_systems import LambertAzimuthalEqualArea
        clat, clon = float(sy[len(sy) // 2]), float(sx[len(sx) // 2])
        cs = LambertAzimuthalEqualArea(clat, clon, 0.0, 0.0, gen.ELLIPSOID)
        m = rng.randint(3, 6)
        sp = 111000.0 * min(dlat, dlon) * rng.choice([0.4, 0.8])
        py = ((np.arange(m) - m / 2.0 + 0.3) * sp).astype(np.float32)
        px = ((np.arange(m + 1) - m / 2.0 + 0.2) * sp).astype(np.float32)
        y_t, x_t = spatial(py, px, ("projection_y_coordinate", "projection_x_coordinate"), "m", cs)
        import cartopy.crs as ccrs
        xx, yy = np.meshgrid(px, py)
        # positions as the code computes them: longitude, latitude on a sphere-independent geodetic system
        pts = ccrs.PlateCarree().transform_points(cs.as_cartopy_crs(), xx, yy)
        t_lat, t_lon = pts[..., 1].astype(float), pts[..., 0].astype(float)
    else:
        y_t, x_t = spatial(ty, tx)
        t_lat, t_lon = np.meshgrid(ty.astype(float), tx.astype(float), indexing="ij")
    return src, spatial(sy, sx), (y_t, x_t), t_lat, t_lon, kind


@scenario("C35", quick=240, thorough=6000)
def regrid_values(rng, mon):
    """Nearest and bilinear regridding, with and without land and sea, point by point."""
    from improver.regrid.landsea import RegridLandSea
    from improver.regrid.landsea2 import RegridWithLandSeaMask

    with_mask = rng.chance(0.6)
    mode = rng.choice(["nearest", "bilinear"])
    src, (y_s, x_s), (y_t, x_t), t_lat, t_lon, kind = regrid_case(rng, with_mask)
    if not np.any((t_lat >= src.sy[0]) & (t_lat <= src.sy[-1]) & (t_lon >= src.sx[0]) & (t_lon <= src.sx[-1])):
        return
    src.box = t_lat.min(), t_lat.max(), t_lon.min(), t_lon.max()
    lead = []
    if rng.chance(0.4):
        lead.append(gen.realization_coord(rng.randint(1, 3)))
    if rng.chance(0.25):
        lead.append(gen.percentile_coord(sorted(rng.sample([5.0, 25.0, 50.0, 75.0, 95.0], rng.randint(1, 3)))))
    lshape = tuple(len(c.points) for c in lead)
    land = (rng.np.rand(src.ny, src.nx) < rng.choice([0.5, 0.8, 0.2])).astype(np.int8)
    t_land = (rng.np.rand(*t_lat.shape) < 0.5).astype(np.int8)
    vals = np.where(land, rng.np.rand(*(lshape + (src.ny, src.nx))), 100 + rng.np.rand(*(lshape + (src.ny, src.nx)))).astype(np.float32)
    dm = None
    if rng.chance(0.3):
        dm = gen.random_mask(rng, vals.shape, 0.15)
        data = np.ma.MaskedArray(np.where(dm, 9e9, vals).astype(np.float32), mask=dm)
    else:
        data = vals
    times = gen.time_coords(dt.datetime(2019, 3, 9, 12), dt.datetime(2019, 3, 9, 6))
    cm = (CellMethod("mean", coords="time"),) if rng.chance(0.3) else ()
    att = dict(gen.ATTRS)
    if rng.chance(0.4):
        att["mosg__grid_type"] = "standard"
        att["mosg__grid_domain"] = "global"
    cin = make(data, y_s, x_s, "air_temperature", "K", lead, times, att, cm)
    lin = make(land, y_s, x_s, "land_binary_mask", "1")
    tatt = {"mosg__grid_type": "uk"} if rng.chance(0.5) else {}
    tout = make(t_land, y_t, x_t, "land_binary_mask", "1", attributes=tatt)
    flips = []
    # descending source axes
    for name, c in (("latitude", 0), ("longitude", 1)):
        if rng.chance(0.15):
            flips.append(name)
    for c in (cin, lin):
        for name in flips:
            d = c.coord_dims(name)[0]
            k = c.coord(name)
            pts = k.points[::-1].copy()
            c.data = np.flip(c.data, d).copy()
            c.remove_coord(k)
            c.add_dim_coord(DimCoord(pts, name, units="degrees", coord_system=gen.ELLIPSOID), d)
    order = None
    if len(lead) == 2 and rng.chance(0.3):
        order = [1, 0, 2, 3]
        cin.transpose(order)
    vicinity = rng.choice([25000.0, 100000.0, 250000.0, 400000.0])
    full = mode + ("-with-mask-2" if with_mask else "-2")
    snap = content(cin), content(lin), content(tout)
    title = rng.choice([None, "Regridded"])
    plugin = RegridLandSea(regrid_mode=full, landmask=lin if with_mask else None, landmask_vicinity=vicinity)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = plugin(cin, tout, regridded_title=title)
    for a, b in zip(snap, (cin, lin, tout)):
        mon.equal(snap_diff(a, content(b)), [], "input changed")
    # expected dimensions: leading ones in their order, then y, x
    names = [c.name() for c in out.coords(dim_coords=True)]
    want_lead = [c.name() for c in cin.coords(dim_coords=True) if c.name() in [k.name() for k in lead]]
    mon.equal(sorted(names), sorted(want_lead + [y_t.name(), x_t.name()]), "dimensions")
    back = [names.index(c.name()) for c in lead] + [names.index(y_t.name()), names.index(x_t.name())]
    got = out.data.transpose(back)
    gm = np.ma.getmaskarray(got) | ~np.isfinite(np.ma.getdata(got))
    gv = np.ma.getdata(got)
    flat = vals.reshape(lshape + (-1,)).astype(float)
    fm = np.zeros(flat.shape, bool) if dm is None else dm.reshape(lshape + (-1,))
    eps = 1e-5 * max(abs(src.sx[-1]), abs(src.sy[-1]), 1.0)
    judged = mism = outside = 0
    for p in np.ndindex(*t_lat.shape):
        la, lo = t_lat[p], t_lon[p]
        edge = min(abs(la - src.sy[0]), abs(la - src.sy[-1]), abs(lo - src.sx[0]), abs(lo - src.sx[-1]))
        inside = src.sy[0] <= la <= src.sy[-1] and src.sx[0] <= lo <= src.sx[-1]
        if edge < eps and kind in ("laea",):
            continue
        if not inside:
            if edge < eps:
                continue
            outside += 1
            mon.check(bool(gm[(Ellipsis,) + p].all()), "outside the source domain is missing")
            continue
        if with_mask:
            w, amb = src.masked(mode, la, lo, t_land[p], land.ravel(), vicinity)
            idx, _, _, _, _ = src.corners(la, lo)
            if not all(land.ravel()[k] == t_land[p] for k in idx):
                mism += 1
        else:
            w, amb = src.plain(mode, la, lo)
        if amb:
            continue
        judged += 1
        ks = list(w)
        heavy = [k for k in ks if w[k] > 1e-3]
        light = [k for k in ks if k not in heavy]
        v = sum(w[k] * flat[..., k] for k in ks)
        hm = np.any(fm[..., heavy], axis=-1)
        lm = np.any(fm[..., light], axis=-1) if light else np.zeros(lshape, bool)
        # neighbours of no weight: rounding may choose the next cell
        if dm is not None and mode == "bilinear":
            _, fy, fx, j, i = src.corners(la, lo)
            if min(abs(fy - round(fy)), abs(fx - round(fx))) < 1e-3:
                m3 = fm.reshape(lshape + (src.ny, src.nx))[..., max(j - 1, 0):j + 3, max(i - 1, 0):i + 3]
                lm = lm | m3.any(axis=(-1, -2))
        g, m = gv[(Ellipsis,) + p], gm[(Ellipsis,) + p]
        sure = ~(lm & ~hm)
        mon.array_equal(np.asarray(m)[sure], np.asarray(hm)[sure], "missing where the sources are")
        ok = ~hm & sure
        mon.close(np.asarray(g)[ok], np.asarray(v)[ok], "regridded value", rtol=1e-3, atol=2e-2)
    mon.event("points judged", judged)
    mon.event("points of mixed surroundings", mism)
    mon.event("points outside", outside)
    mon.equal(standard_faults(out), [], "standards")
    mon.check(out.coord(axis="y") == y_t and out.coord(axis="x") == x_t, "target grid")
    mon.equal((out.name(), str(out.units)), ("air_temperature", "K"), "name and units")
    mon.equal([str(k) for k in out.cell_methods], [str(k) for k in cin.cell_methods], "cell methods")
    for n in ("time", "forecast_period", "forecast_reference_time"):
        mon.check(out.coord(n) == cin.coord(n), "coordinate " + n)
    for c in lead:
        mon.check(out.coord(c.name()) == cin.coord(c.name()), "coordinate " + c.name())
    want = {k: v for k, v in att.items() if not k.startswith("mosg__") and k != "title"}
    if "mosg__grid_type" in att and "mosg__grid_type" in tatt:
        want["mosg__grid_type"] = "uk"
    mon.equal({k: v for k, v in out.attributes.items() if k != "title"}, want, "attributes")
    mon.check((title or "unknown") in out.attributes["title"], "title")
    mon.seen("case", (full, kind, len(lead), bool(flips), order is not None, dm is not None))


@scenario("C35", quick=60, thorough=800)
def regrid_iris(rng, mon):
    """The modes without land and sea agree with plain interpolation, whatever the leading dimensions."""
    from improver.regrid.landsea import RegridLandSea

    src, (y_s, x_s), (y_t, x_t), t_lat, t_lon, kind = regrid_case(rng, False)
    if kind == "laea":
        return
    mode = rng.choice(["nearest", "bilinear"])
    lead = [gen.realization_coord(rng.randint(1, 3))] if rng.chance(0.5) else []
    vals = rng.np.rand(*(tuple(len(c.points) for c in lead) + (src.ny, src.nx))).astype(np.float32)
    att = dict(gen.ATTRS, mosg__grid_type="standard", mosg__grid_version="1.2.0", mosg__model_configuration="gl_det")
    cin = make(vals, y_s, x_s, "air_temperature", "K", lead, gen.time_coords(dt.datetime(2019, 3, 9, 12)), att)
    tatt = {"mosg__grid_version": "1.3.0", "title": "target"}
    tout = make(np.zeros(t_lat.shape, np.float32), y_t, x_t, "surface_altitude", "m", attributes=tatt)
    snap = content(cin), content(tout)
    out = RegridLandSea(regrid_mode=mode, extrapolation_mode="nanmask")(cin, tout, regridded_title="New title")
    mon.equal(snap_diff(snap[0], content(cin)) + snap_diff(snap[1], content(tout)), [], "input changed")
    gm = np.ma.getmaskarray(out.data) | ~np.isfinite(np.ma.getdata(out.data))
    for p in np.ndindex(*t_lat.shape):
        la, lo = t_lat[p], t_lon[p]
        edge = min(abs(la - src.sy[0]), abs(la - src.sy[-1]), abs(lo - src.sx[0]), abs(lo - src.sx[-1]))
        if edge < 1e-3:
            continue
        if not (src.sy[0] <= la <= src.sy[-1] and src.sx[0] <= lo <= src.sx[-1]):
            mon.check(bool(gm[(Ellipsis,) + p].all()), "outside the source domain is missing")
            continue
        w, amb = src.plain(mode, la, lo)
        _, fy, fx, _, _ = src.corners(la, lo)
        if amb or (mode == "nearest" and min(abs(fy - 0.5), abs(fx - 0.5)) < 1e-3):
            continue
        v = sum(w[k] * vals.reshape(vals.shape[:-2] + (-1,))[..., k].astype(float) for k in w)
        mon.close(out.data[(Ellipsis,) + p], v, "regridded value", rtol=1e-4, atol=1e-4)
    mon.equal(out.attributes.get("mosg__grid_version"), "1.3.0", "grid attributes of the target")
    mon.check("mosg__grid_type" not in out.attributes, "grid attributes that the target lacks are removed")
    mon.equal(out.attributes.get("mosg__model_configuration"), "gl_det", "other attributes")
    mon.check("New title" in out.attributes["title"], "title")
    mon.seen("case", (mode, kind, len(lead)))


@scenario("C35", quick=60, thorough=600)
def regrid_refusals(rng, mon):
    from improver.regrid.landsea import RegridLandSea

    src, (y_s, x_s), (y_t, x_t), t_lat, t_lon, kind = regrid_case(rng, True)
    vals = rng.np.rand(src.ny, src.nx).astype(np.float32)
    cin = make(vals, y_s, x_s, "air_temperature", "K", attributes=gen.ATTRS)
    land = make((rng.np.rand(src.ny, src.nx) > 0.5).astype(np.int8), y_s, x_s, "land_binary_mask", "1")
    tout = make(np.zeros(t_lat.shape, np.int8), y_t, x_t, "land_binary_mask", "1")
    k = rng.randint(0, 4)
    if k == 0:
        mon.raises(ValueError, RegridLandSea, regrid_mode=rng.choice(["cubic", "nearest-3", "linear"]), label="unknown mode")
    elif k == 1:
        mon.raises(ValueError, RegridLandSea, regrid_mode=rng.choice(["nearest-with-mask", "nearest-with-mask-2", "bilinear-with-mask-2"]),
                   label="no land mask")
    elif k == 2:
        bad = land.copy()
        bad.coord("longitude").points = bad.coord("longitude").points + np.float32(0.25)
        mon.raises(ValueError, RegridLandSea(rng.choice(["nearest-with-mask", "nearest-with-mask-2", "bilinear-with-mask-2"]), landmask=bad),
                   cin, tout, label="land mask of another grid")
    elif k == 3:
        # projected sources
        c = cube(np.ones((5, 6), np.float32))
        mon.raises(ValueError, RegridLandSea(rng.choice(["nearest-2", "bilinear-2"])), c, tout, label="projected source")
    else:
        pts = y_s.points.copy()
        pts[-1] += np.float32(0.3)
        c = make(vals, y_s.copy(points=pts), x_s, "air_temperature", "K", attributes=gen.ATTRS)
        mon.raises(ValueError, RegridLandSea(rng.choice(["nearest-2", "bilinear-2"])), c, tout, label="uneven source")


# ----------------------------------------------------------- C36
@scenario("C36", quick=120, thorough=3000)
def adjust(rng, mon):
    """Nearest regridding corrected for land and sea in the vicinity."""
    from improver.regrid.landsea import AdjustLandSeaPoints, RegridLandSea

    ny, nx = rng.randint(4, 8), rng.randint(4, 8)
    sp = 2000.0
    y_s, x_s = gen.yx(ny, nx, spacing=sp, bounds=False)
    f = rng.choice([1.0, 0.5, 0.75])
    lo = 0.0
    ty = np.arange(y_s.points[0] + lo * sp + 0.1 * sp, y_s.points[-1] - lo * sp, sp * f).astype(np.float32)
    tx = np.arange(x_s.points[0] + lo * sp + 0.2 * sp, x_s.points[-1] - lo * sp, sp * f).astype(np.float32)
    y_t, x_t = spatial(ty, tx, ("projection_y_coordinate", "projection_x_coordinate"), "m", gen.LAEA)
    land = (rng.np.rand(ny, nx) < rng.choice([0.3, 0.6, 0.9])).astype(np.int8)
    if rng.chance(0.1):
        land[...] = rng.randint(0, 1)
    t_land = (rng.np.rand(len(ty), len(tx)) < 0.5).astype(np.int8)
    lead = [gen.realization_coord(rng.randint(2, 3))] if rng.chance(0.4) else []
    vals = np.round(rng.np.rand(*(tuple(len(c.points) for c in lead) + (ny, nx))) * 100).astype(np.float32)
    cin = make(vals, y_s, x_s, "air_temperature", "K", lead, attributes=gen.ATTRS)
    lin = make(land, y_s, x_s, "land_binary_mask", "1")
    big = lin
    if rng.chance(0.3):
        # the mask covers a larger domain
        yb, xb = gen.yx(ny + 3, nx + 2, spacing=sp, bounds=False, corner=(float(y_s.points[0]) - sp, float(x_s.points[0]) - sp))
        lb = (rng.np.rand(ny + 3, nx + 2) < 0.5).astype(np.int8)
        lb[1:1 + ny, 1:1 + nx] = land
        big = make(lb, yb, xb, "land_binary_mask", "1")
    tout = make(t_land, y_t, x_t, "land_binary_mask", "1")
    vicinity = rng.choice([1.0, 1.6, 3.3, 6.2]) * sp * f
    mode = "nanmask"
    snap = content(cin), content(big), content(tout)
    plugin = RegridLandSea(regrid_mode="nearest-with-mask", extrapolation_mode=mode, landmask=big, landmask_vicinity=vicinity)
    for turn in range(2):
        out = plugin(cin, tout)
        for a, b in zip(snap, (cin, big, tout)):
            mon.equal(snap_diff(a, content(b)), [], "input changed")
    # nearest source index per axis
    src_l = big.data
    def near(points, t, half):
        i = int(np.argmin(np.abs(points.astype(float) - t)))
        inside = points[0] - 1e-3 <= t <= points[-1] + 1e-3
        return i, inside, abs(abs(points[i] - t) - half) < 1.0
    iy = [near(y_s.points, t, sp / 2) for t in ty]
    ix = [near(x_s.points, t, sp / 2) for t in tx]
    by = [near(big.coord(axis="y").points, t, sp / 2) for t in ty]
    bx = [near(big.coord(axis="x").points, t, sp / 2) for t in tx]
    if any(k[2] for k in iy + ix):
        return
    shape = t_land.shape
    base_ok = np.array([[a[1] and b[1] for b in ix] for a in iy]) | (mode == "nearest")
    l_ok = np.array([[a[1] and b[1] for b in bx] for a in by]) | (mode == "nearest")
    lr = np.array([[src_l[a[0], b[0]] for b in bx] for a in by])
    base = vals[..., [a[0] for a in iy], :][..., [b[0] for b in ix]]
    gm = np.ma.getmaskarray(out.data)
    pts = list(np.ndindex(*shape))
    # replacement points must not be missing themselves
    for p in pts:
        if not l_ok[p]:
            mon.check(bool(gm[(Ellipsis,) + p].all()), "outside the source domain is missing")
            continue
        got = out.data[(Ellipsis,) + p]
        if lr[p] == t_land[p]:
            if base_ok[p]:
                mon.array_equal(np.asarray(got), base[(Ellipsis,) + p], "matching points keep the nearest value")
            continue
        same = [q for q in pts if l_ok[q] and lr[q] == t_land[p]]
        d = [np.hypot(q[0] - p[0], q[1] - p[1]) for q in same]
        r = int(vicinity / (sp * f))
        square = any(max(abs(q[0] - p[0]), abs(q[1] - p[1])) <= r for q in same)
        if not square:
            if base_ok[p]:
                mon.array_equal(np.asarray(got), base[(Ellipsis,) + p], "points without a match nearby keep the nearest value")
            continue
        best = min(d)
        cand = [q for q, k in zip(same, d) if abs(k - best) < 1e-9]
        if not all(base_ok[q] for q in cand):
            continue
        vals_ok = np.array([base[(Ellipsis,) + q] for q in cand])
        g = np.asarray(got)
        mon.check(bool(any(np.array_equal(g, v) for v in vals_ok)), "mismatched points take the nearest point of their kind")
        mon.event("points corrected")
    mon.event("points", len(pts))
    mon.equal(standard_faults(out), [], "standards")
    mon.check(out.coord(axis="y") == y_t and out.coord(axis="x") == x_t, "target grid")
    mon.seen("case", (f, lo, mode, bool(lead), big is not lin, vicinity))


@scenario("C36", quick=120, thorough=2500)
def cutout(rng, mon):
    """A cutout is recognised exactly when it is a contiguous part of the grid."""
    from improver.regrid.landsea import grid_contains_cutout

    grid = rng.choice(["equalarea", "latlon"])
    ny, nx = rng.randint(3, 8), rng.randint(3, 8)
    g = cube(np.zeros((ny, nx), np.float32), grid=grid, coord_bounds=False)
    a, b = rng.randint(0, ny - 2), rng.randint(0, nx - 2)
    c, d = rng.randint(a + 2, ny), rng.randint(b + 2, nx)
    part = g[a:c, b:d]
    k = rng.randint(0, 6)
    want = True
    if k == 1:
        cc = part.coord(axis=rng.choice(["x", "y"]))
        cc.points = cc.points + np.float32(0.5) * (cc.points[1] - cc.points[0])
        want = False
    elif k == 2:
        cc = part.coord(axis=rng.choice(["x", "y"]))
        cc.points = cc.points + (cc.points[1] - cc.points[0]) * np.float32(20)
        want = False
    elif k == 3:
        cc = part.coord(axis=rng.choice(["x", "y"]))
        cc.coord_system = gen.ELLIPSOID if grid != "latlon" else iris.coord_systems.GeogCS(6000000.0)
        want = False
    elif k == 4 and ny >= 4:
        part = g[::2, b:d]
        want = False
    elif k == 5:
        big = cube(np.zeros((ny + 1, nx), np.float32), grid=grid, coord_bounds=False,
                   corner=(float(g.coord(axis="y").points[0]), float(g.coord(axis="x").points[0])))
        part = big
        want = False
    elif k == 6:
        part = g.copy()
    snap = content(g), content(part)
    mon.equal(grid_contains_cutout(g, part), want, "cutout (%d)" % k)
    mon.equal(snap_diff(snap[0], content(g)) + snap_diff(snap[1], content(part)), [], "input changed")
    mon.seen("case", (k, grid))
