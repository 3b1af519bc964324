"""C26: grid point neighbours of sites.  C27: spot extraction and manipulation.
C28: vertical adjustment of spot forecasts.  C29: gridded lapse rates."""
import datetime as dt
import warnings

import cartopy.crs as ccrs
import iris
import numpy as np
from iris.coords import AuxCoord, CellMethod, DimCoord
from iris.cube import Cube, CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube, standard_faults


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


LAPSE_STD = -0.0065
LAPSE_DRY = -0.0098
METHODS = ["nearest", "nearest_land", "nearest_minimum_dz", "nearest_land_minimum_dz"]


def geocentric(lat, lon, a=6371229.0):
    p, l = np.radians(lat), np.radians(lon)
    return np.stack([a * np.cos(p) * np.cos(l), a * np.cos(p) * np.sin(l), a * np.sin(p)], axis=-1)


def world(rng, glob):
    """Orography and land mask cubes (data y, x) on a regional or a global grid."""
    if glob:
        ny, nx = rng.randint(5, 9), rng.randint(6, 12)
        dx = 360.0 / nx
        x0 = rng.choice([0.0, -180.0, dx / 2, -180.0 + dx / 2])
        lat = np.linspace(-80, 80, ny).astype(np.float32)
        if rng.chance(0.3):
            lat = lat[::-1].copy()
        lon = (x0 + dx * np.arange(nx)).astype(np.float32)
        y = DimCoord(lat, "latitude", units="degrees", coord_system=gen.ELLIPSOID)
        x = DimCoord(lon, "longitude", units="degrees", coord_system=gen.ELLIPSOID, circular=True)
        y.guess_bounds()
        x.guess_bounds()
    else:
        ny, nx = rng.randint(3, 9), rng.randint(3, 9)
        y, x = gen.yx(ny, nx, spacing=rng.choice([2000.0, 1000.0, 5000.0]))
        if rng.chance(0.2):
            y = y.copy(points=y.points[::-1].copy(), bounds=y.bounds[::-1, ::-1].copy())
    orog = np.round(rng.np.rand(ny, nx) * 300, 1).astype(np.float32)
    if rng.chance(0.3):
        orog = np.round(orog / 100).astype(np.float32) * 100
    land = (rng.np.rand(ny, nx) < rng.choice([0.3, 0.6, 0.9])).astype(np.int8)
    if not land.any():
        land[rng.randrange(ny), rng.randrange(nx)] = 1
    oc = Cube(orog, "surface_altitude", units="m", dim_coords_and_dims=[(y, 0), (x, 1)])
    lc = Cube(land, "land_binary_mask", units="1", dim_coords_and_dims=[(y, 0), (x, 1)])
    return oc, lc


def site_list(rng, oc, glob, n, native):
    """Sites inside (mostly) the domain; returns dictionaries and their grid coordinates."""
    x, y = oc.coord(axis="x"), oc.coord(axis="y")
    sites, xy = [], []
    proj = None if glob else oc.coord_system().as_cartopy_crs()
    for i in range(n):
        if glob:
            lat = rng.uniform(-89, 89) if rng.chance(0.2) else rng.uniform(-80, 80)
            lon = rng.uniform(-180, 180)
            px, py = lon, lat
            s = {"latitude": lat, "longitude": lon}
        else:
            w, h = np.ptp(x.bounds), np.ptp(y.bounds)
            out = 0.15 if rng.chance(0.2) else -0.01
            px = x.bounds.min() - out * w + rng.random() * (1 + 2 * out) * w
            py = y.bounds.min() - out * h + rng.random() * (1 + 2 * out) * h
            if native:
                s = {"projection_x_coordinate": px, "projection_y_coordinate": py}
            else:
                lon, lat = ccrs.PlateCarree().transform_point(px, py, proj)
                s = {"latitude": lat, "longitude": lon}
        k = rng.randint(0, 5)
        if k == 0:
            s["altitude"] = None
        elif k == 1:
            s["altitude"] = np.nan
        elif k > 2:
            s["altitude"] = round(rng.uniform(0, 400), 1)
        if rng.chance(0.8):
            s["wmo_id"] = rng.randint(1, 99999)
        s["site_id"] = 1000 + 7 * i
        sites.append(s)
        xy.append((px, py))
    return sites, np.array(xy)


@scenario("C26", quick=200, thorough=6000)
def neighbours(rng, mon):
    """Neighbours under each constraint, by exhaustive search over the grid."""
    from improver.spotdata.neighbour_finding import NeighbourSelection

    glob = rng.chance(0.3)
    oc, lc = world(rng, glob)
    native = not glob and rng.chance(0.3)
    n = rng.randint(1, 8)
    sites, xy = site_list(rng, oc, glob, n, native)
    if rng.chance(0.04):
        lc.data[...] = 0
    land_c, dz_c = rng.chance(0.5), rng.chance(0.5)
    step = 2.0e6 if glob else float(abs(np.diff(oc.coord(axis="x").points[:2])[0]))
    radius = rng.choice([0.4, 1.1, 2.5, 6.0, 50.0]) * step
    limit = rng.choice([36, 36, 2, 5, 9, 1])
    kw = dict(land_constraint=land_c, minimum_dz=dz_c, search_radius=radius, node_limit=limit)
    if native:
        kw.update(site_coordinate_system=oc.coord_system().as_cartopy_crs(),
                  site_x_coordinate="projection_x_coordinate", site_y_coordinate="projection_y_coordinate")
    uid = rng.chance(0.5)
    if uid:
        kw["unique_site_id_key"] = "site_id"
    orog, land = oc.data.astype(float), lc.data.astype(bool)
    gx, gy = oc.coord(axis="x").points.astype(float), oc.coord(axis="y").points.astype(float)
    xb, yb = oc.coord(axis="x").bounds, oc.coord(axis="y").bounds
    o_in, l_in = oc.copy(), lc.copy()
    if rng.chance(0.3):
        o_in.transpose()
    if rng.chance(0.3):
        l_in.transpose()
    same_order = o_in.dim_coords == l_in.dim_coords
    if not same_order:
        # documented: not recognised as the same grid
        l_in.transpose()
    snap = (content(o_in), content(l_in), [dict(s) for s in sites])
    plugin = NeighbourSelection(**kw)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out = plugin(sites, o_in, l_in)
    mon.equal(repr([dict(s) for s in sites]), repr(snap[2]), "site list changed")
    for a, b in zip(snap, (o_in, l_in)):
        mon.equal(snap_diff(a, content(b)), [], "input changed")
    eps = 1e-9 if glob else 1e-6
    if glob:
        inside = (xy[:, 1] >= yb.min()) & (xy[:, 1] <= yb.max())
    else:
        inside = ((xy[:, 0] >= xb.min() + eps) & (xy[:, 0] <= xb.max() - eps)
                  & (xy[:, 1] >= yb.min() + eps) & (xy[:, 1] <= yb.max() - eps))
    keep = [i for i in range(n) if inside[i]]
    msgs = [str(w.message) for w in caught if "fall outside the grid domain" in str(w.message)]
    mon.equal(len(msgs), 1 if len(keep) < n else 0, "warning about sites outside")
    if msgs:
        mon.check(msgs[0].startswith("%d spot sites" % (n - len(keep))), "number of sites outside", msg=msgs[0][:50])
    mon.equal(out.shape, (1, 3, len(keep)), "shape of the neighbour cube")
    mon.equal(out.name(), "grid_neighbours", "name")
    name = "nearest" + ("_land" if land_c else "") + ("_minimum_dz" if dz_c else "")
    mon.equal(list(out.coord("neighbour_selection_method_name").points), [name], "method name")
    mon.equal(list(out.coord("grid_attributes_key").points), ["x_index", "y_index", "vertical_displacement"], "attribute names")
    YY, XX = np.meshgrid(gy, gx, indexing="ij")
    for k, i in enumerate(keep):
        px, py = xy[i]
        s = sites[i]
        cand = out.data[0, :, k]
        ix, iy = int(cand[0]), int(cand[1])
        if glob:
            d = np.linalg.norm(geocentric(YY, XX) - geocentric(py, px), axis=-1)
            ddx = np.abs((gx - px + 180) % 360 - 180)
        else:
            d = np.hypot(XX - px, YY - py)
            ddx = np.abs(gx - px)
        ddy = np.abs(gy - py)
        near = {(a, b) for a in np.where(ddx <= ddx.min() + 1e-4)[0] for b in np.where(ddy <= ddy.min() + 1e-4)[0]}
        if len(near) > 1:
            continue  # a tie
        ((nx0, ny0),) = near
        alt = s.get("altitude")
        alt = orog[ny0, nx0] if alt is None or np.isnan(alt) else alt
        ok = land if land_c else np.ones_like(land)
        within = d < radius
        tol = 1e-6 * radius + 1e-3
        mon.event("site")
        if np.any(np.abs(d - radius) < tol):
            continue
        if dz_c:
            cells = [(d[q], q) for q in zip(*np.where(ok & within))]
            cells.sort(key=lambda t: t[0])
            if len(cells) > limit and abs(cells[limit][0] - cells[limit - 1][0]) < tol:
                continue
            cells = cells[:limit]
            if not cells:
                want = {(nx0, ny0)}
            else:
                dz = [abs(float(np.float32(orog[q])) - alt) for _, q in cells]
                best = min(dz)
                dist = min(c[0] for c, z in zip(cells, dz) if z <= best + 1e-9)
                want = {(q[1], q[0]) for (c, q), z in zip(cells, dz) if z <= best + 1e-4 and c <= dist + tol}
                want |= {(q[1], q[0]) for (c, q), z in zip(cells, dz) if best + 1e-9 < z <= best + 1e-4}
        elif land_c:
            cells = [(d[q], q) for q in zip(*np.where(ok & within))]
            if cells:
                m = min(c[0] for c in cells)
                want = {(q[1], q[0]) for c, q in cells if c <= m + tol}
            else:
                want = {(nx0, ny0)}
        else:
            want = {(nx0, ny0)}
        mon.check((ix, iy) in want, "neighbour", got=(ix, iy), want=sorted(want), nearest=(nx0, ny0), site=s, **kw)
        mon.close(np.array(cand[2]), np.array(alt - orog[iy, ix]), "vertical displacement", atol=1e-3)
        mon.close(np.array(out.coord("altitude").points[k]), np.array(alt), "altitude", atol=1e-3)
        if not native:
            mon.close(np.array([out.coord("latitude").points[k], out.coord("longitude").points[k]]),
                      np.array([s["latitude"], s["longitude"]]), "position", atol=1e-4)
        else:
            lon, lat = ccrs.PlateCarree().transform_point(px, py, oc.coord_system().as_cartopy_crs())
            mon.close(np.array([out.coord("latitude").points[k], out.coord("longitude").points[k]]),
                      np.array([lat, lon]), "position", atol=1e-4)
        mon.equal(out.coord("wmo_id").points[k], "%05d" % s["wmo_id"] if s.get("wmo_id") else "None", "WMO identifier")
        if uid:
            mon.equal(out.coord("site_id").points[k], "%08d" % s["site_id"], "unique identifier")
    if keep:
        mon.equal(standard_faults(out), [], "standards")
    if rng.chance(0.3):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.close(plugin(sites, o_in, l_in).data, out.data, "second use", rtol=0, atol=0)
    mon.seen(glob, land_c, dz_c, native, limit, radius > 2 * step, len(keep) < n)


@scenario("C26", quick=30, thorough=500)
def neighbour_refusals(rng, mon):
    """Unusable grids and site lists are refused."""
    from improver.spotdata.neighbour_finding import NeighbourSelection

    oc, lc = world(rng, False)
    sites, _ = site_list(rng, oc, False, 3, False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        y, x = gen.yx(oc.shape[0], oc.shape[1], grid="latlon", spacing=0.1)
        o2 = Cube(oc.data, "surface_altitude", units="m", dim_coords_and_dims=[(y, 0), (x, 1)])
        l2 = Cube(lc.data, "land_binary_mask", units="1", dim_coords_and_dims=[(y, 0), (x, 1)])
        mon.raises(ValueError, NeighbourSelection(), sites, o2, l2, label="regional grid in degrees accepted")
        other = lc.copy()
        c = other.coord(axis="x")
        c.points = c.points + np.float32(500)
        c.bounds = c.bounds + np.float32(500)
        mon.raises(ValueError, NeighbourSelection(), sites, oc.copy(), other, label="different grids accepted")
        inside = [dict(s) for s in sites]
        for s in inside:
            lon, lat = ccrs.PlateCarree().transform_point(0.0, 0.0, oc.coord_system().as_cartopy_crs())
            s.update(longitude=lon, latitude=lat)
        p = NeighbourSelection(unique_site_id_key="site_id")
        bad = [dict(s) for s in inside]
        bad[1].pop("site_id")
        mon.raises(KeyError, p, bad, oc.copy(), lc.copy(), label="missing identifier accepted")
        bad = [dict(s) for s in inside]
        bad[2]["site_id"] = bad[0]["site_id"]
        mon.raises(ValueError, p, bad, oc.copy(), lc.copy(), label="repeated identifier accepted")
        bad = [dict(s) for s in inside]
        bad[2]["site_id"] = 123456789
        mon.raises(ValueError, p, bad, oc.copy(), lc.copy(), label="long identifier accepted")
    mon.seen("refusals")


# --------------------------------------------------------------------- C27
def neighbour_cube(rng, grid, n, methods, uid=False, alts=None):
    """Neighbour cube with random indices for each method on the grid of a cube."""
    from improver.metadata.utilities import create_coordinate_hash

    nx, ny = grid.coord(axis="x").shape[0], grid.coord(axis="y").shape[0]
    ix = rng.np.randint(0, nx, size=(len(methods), n))
    iy = rng.np.randint(0, ny, size=(len(methods), n))
    dz = (rng.np.rand(len(methods), n) * rng.choice([60, 200, 800]) - 100).astype(np.float32).round(1)
    data = np.stack([ix, iy, dz], axis=1).astype(np.float32)
    wmo = ["%05d" % k if rng.chance(0.8) else "None" for k in rng.sample(range(3000, 3999), n)]
    si = DimCoord(np.arange(n, dtype=np.int32), long_name="spot_index", units="1")
    mi = DimCoord(np.arange(len(methods), dtype=np.int32), long_name="neighbour_selection_method", units="1")
    gi = DimCoord(np.arange(3, dtype=np.int32), long_name="grid_attributes", units="1")
    alts = (rng.np.rand(n) * 500).astype(np.float32) if alts is None else alts
    aux = [(AuxCoord(np.array(methods), long_name="neighbour_selection_method_name", units="no_unit"), 0),
           (AuxCoord(np.array(["x_index", "y_index", "vertical_displacement"]), long_name="grid_attributes_key", units="no_unit"), 1),
           (AuxCoord(alts, "altitude", units="m"), 2),
           (AuxCoord((50 + 9 * rng.np.rand(n)).astype(np.float32), "latitude", units="degrees"), 2),
           (AuxCoord((-6 + 7 * rng.np.rand(n)).astype(np.float32), "longitude", units="degrees"), 2),
           (AuxCoord(np.array(wmo), long_name="wmo_id", units="no_unit"), 2)]
    if uid:
        aux.append((AuxCoord(np.array(["%08d" % (50 + 3 * k) for k in range(n)]), long_name="met_office_site_id",
                             units="no_unit", attributes={"unique_site_identifier": "true"}), 2))
    c = Cube(data, long_name="grid_neighbours", units="1", dim_coords_and_dims=[(mi, 0), (gi, 1), (si, 2)],
             aux_coords_and_dims=aux, attributes={"model_grid_hash": create_coordinate_hash(grid)})
    return c, ix, iy, dz


def order_to(c, names):
    """Data of c with its named dimensions in the given order."""
    have = [k.name() for k in c.coords(dim_coords=True)]
    return np.ma.transpose(c.data, [have.index(k) for k in names]) if np.ma.isMA(c.data) else c.data.transpose(
        [have.index(k) for k in names])


@scenario("C27", quick=160, thorough=4000)
def extract(rng, mon):
    """Every value, mask and coordinate comes from the grid point of the site."""
    from improver.spotdata.spot_extraction import SpotExtraction

    ny, nx = rng.randint(2, 6), rng.randint(2, 6)
    if rng.chance(0.4):
        nx = ny
    kind = rng.choice(["plain", "realization", "percentile", "threshold", "time", "two"])
    lead = []
    kw = {}
    vt = gen.random_time(rng)
    frt = vt - rng.randint(1, 12) * dt.timedelta(hours=1)
    aux_time = None
    if kind in ("realization", "two"):
        lead.append(gen.realization_coord(rng.randint(1, 3)))
    if kind == "percentile":
        lead.append(gen.percentile_coord(sorted(rng.sample(range(5, 100, 5), rng.randint(1, 4)))))
    if kind == "threshold":
        lead.append(gen.threshold_coord(sorted(rng.sample(range(270, 300), rng.randint(1, 3)))))
    if kind in ("time", "two"):
        nt = rng.choice([1, 2, 2, 3])
        tp = np.array([gen.seconds(vt) + 3600 * k for k in range(nt)], np.int64)
        lead.append(DimCoord(tp, "time", units=gen.TIME_UNIT))
        aux_time = AuxCoord((tp - gen.seconds(frt)).astype(np.int32), "forecast_period", units="seconds")
    shape = tuple(len(k.points) for k in lead) + (ny, nx)
    data = (rng.np.rand(*shape) * 30 + 270).astype(np.float32)
    if rng.chance(0.15):
        data = rng.np.randint(0, 30, size=shape).astype(np.int32)
    if rng.chance(0.4):
        data = np.ma.masked_array(data, rng.np.rand(*shape) < 0.3)
    name = gen.prob_name("air_temperature", "greater_than") if kind == "threshold" else "air_temperature"
    attrs = dict(gen.ATTRS, mosg__grid_domain="uk_extended", mosg__grid_type="standard", mosg__grid_version="1.3.0",
                 mosg__model_configuration="uk_ens")
    cms = (CellMethod("maximum", coords="time", intervals="1 hour"),) if rng.chance(0.3) else ()
    scalars = [DimCoord(np.float32([1.5]), "height", units="m")] if rng.chance(0.5) else []
    local = kind in ("plain", "realization", "percentile") and rng.chance(0.4)
    c = cube(data, name=name, units="1" if kind == "threshold" else "K", lead=lead, attributes=attrs, scalars=scalars,
             times=aux_time is None, time=vt, frt=frt, cell_methods=cms,
             bounds=(vt - dt.timedelta(hours=1), vt) if rng.chance(0.4) else None)
    nlead = len(lead)
    if aux_time is not None:
        c.add_aux_coord(aux_time, nlead - 1)
        c.add_aux_coord(gen.time_coords(vt, frt)[1])
    lt = lb = None
    if local:
        c.remove_coord("time")
        c.remove_coord("forecast_period")
        lt = np.array([[gen.seconds(vt) + 3600 * rng.randint(-5, 5) for _ in range(nx)] for _ in range(ny)], np.int64)
        lb = np.stack([lt - 3600, lt], axis=-1) if rng.chance(0.5) else None
        if rng.chance(0.6):
            c.add_aux_coord(AuxCoord(lt, "time", units=gen.TIME_UNIT, bounds=lb), (nlead, nlead + 1))
        else:  # stored with x before y
            c.add_aux_coord(AuxCoord(lt.T.copy(), "time", units=gen.TIME_UNIT,
                                     bounds=None if lb is None else lb.transpose(1, 0, 2).copy()), (nlead + 1, nlead))
    n = rng.randint(1, 7)
    methods = rng.some(METHODS)
    rng.shuffle(methods)
    uid = rng.chance(0.4)
    nb, ix, iy, dz = neighbour_cube(rng, c, n, methods, uid)
    m = rng.randrange(len(methods))
    din = c.copy()
    if rng.chance(0.5):
        perm = list(range(c.ndim))
        rng.shuffle(perm)
        din.transpose(perm)
    title = rng.choice([None, "Spot title"])
    lead_names = [k.name() for k in din.coords(dim_coords=True) if k.name() not in ("projection_y_coordinate", "projection_x_coordinate")]
    snap = (content(nb), content(din))
    plugin = SpotExtraction(neighbour_selection_method=methods[m])
    out = plugin(nb, din, new_title=title) if title else plugin(nb, din)
    mon.equal(snap_diff(snap[0], content(nb)), [], "neighbour cube changed")
    mon.equal(snap_diff(snap[1], content(din)), [], "diagnostic changed")
    names = lead_names + ["spot_index"]
    mon.equal([k.name() for k in out.coords(dim_coords=True)], names, "dimensions")
    exp = data[..., iy[m], ix[m]]
    got = order_to(out, [k.name() for k in lead] + ["spot_index"])
    mon.close(got, exp, "extracted values", rtol=0, atol=0, method=methods[m])
    mon.equal(np.ma.getmaskarray(got).tolist(), np.ma.getmaskarray(exp).tolist(), "extracted mask")
    mon.equal(out.dtype, c.dtype, "dtype")
    mon.equal((out.name(), str(out.units)), (c.name(), str(c.units)), "name and units")
    for k in ["altitude", "latitude", "longitude", "wmo_id"] + (["met_office_site_id"] if uid else []):
        mon.equal(out.coord(k).points.tolist(), nb.coord(k).points.tolist(), "site " + k)
    if lt is not None:
        mon.equal(out.coord("time").points.tolist(), lt[iy[m], ix[m]].tolist(), "local time")
        mon.equal(out.coord("time").has_bounds(), lb is not None, "bounds of local time")
        if lb is not None:
            mon.equal(out.coord("time").bounds.tolist(), lb[iy[m], ix[m]].tolist(), "bounds of local time")
    for k in c.coords():
        if k.name() in ("projection_y_coordinate", "projection_x_coordinate") or (lt is not None and k.name() == "time"):
            continue
        mon.check(out.coords(k.name()), "coordinate lost", name=k.name())
        q = out.coord(k.name())
        mon.equal((q.points.tolist(), None if not q.has_bounds() else q.bounds.tolist(), str(q.units)),
                  (k.points.tolist(), None if not k.has_bounds() else k.bounds.tolist(), str(k.units)), "coordinate " + k.name())
    mon.equal(out.cell_methods, c.cell_methods, "cell methods")
    mon.check(not [k for k in out.attributes if k.startswith("mosg__grid")], "grid attributes kept")
    mon.equal(out.attributes["mosg__model_configuration"], "uk_ens", "attributes lost")
    mon.equal(out.attributes["title"], title or "unknown", "title")
    mon.equal(out.attributes["model_grid_hash"], nb.attributes["model_grid_hash"], "grid hash")
    mon.equal(standard_faults(out, data=False), [], "standards")
    if rng.chance(0.3):
        # a value changed in the output does not reach the input
        before = content(din)
        out.data[...] = 0
        out.attributes["x"] = 1
        mon.equal(snap_diff(before, content(din)), [], "output shares state with the input")
    other = [k for k in METHODS if k not in methods]
    if other:
        mon.raises(ValueError, SpotExtraction(neighbour_selection_method=other[0]), nb, din, label="unknown method accepted")
    far = c.copy()
    far.coord(axis="x").points = far.coord(axis="x").points + np.float32(rng.choice([1, 2000]))
    mon.raises(ValueError, plugin, nb, far, label="other grid accepted")
    mon.seen(kind, nlead, local, uid, len(methods), np.ma.isMA(data))


@scenario("C27", quick=120, thorough=3000)
def manipulate(rng, mon):
    """Percentiles, collapsing realizations and subsetting sites after extraction."""
    from improver.spotdata.spot_manipulation import SpotManipulation

    ny, nx = rng.randint(2, 5), rng.randint(2, 5)
    kind = rng.choice(["plain", "realization", "percentile", "threshold", "threshold_realization"])
    lead = []
    if "realization" in kind:
        lead.append(gen.realization_coord(rng.randint(2, 6)))
    pts = sorted(rng.sample([5, 10, 20, 25, 33.3, 50, 60, 75, 90, 95], rng.randint(2, 6)))
    if kind == "percentile":
        lead.append(gen.percentile_coord(pts))
    if kind.startswith("threshold"):
        thr = sorted(rng.sample(range(250, 310), rng.randint(2, 5)))
        lead.append(gen.threshold_coord(thr))
    shape = tuple(len(k.points) for k in lead) + (ny, nx)
    data = (rng.np.rand(*shape) * 30 + 270).astype(np.float32)
    if kind == "percentile":
        data = np.sort(data, axis=0)
    if kind.startswith("threshold"):
        data = -np.sort(-rng.np.rand(*shape), axis=-3).astype(np.float32)
    c = cube(data, name=gen.prob_name("air_temperature", "greater_than") if kind.startswith("threshold") else "air_temperature",
             units="1" if kind.startswith("threshold") else "K", lead=lead,
             scalars=[DimCoord(np.float32([1.5]), "height", units="m")])
    n = rng.randint(2, 6)
    land, dzc = rng.chance(0.5), rng.chance(0.5)
    name = "nearest" + ("_land" if land else "") + ("_minimum_dz" if dzc else "")
    methods = rng.some(METHODS)
    if name not in methods:
        methods.append(name)
    nb, ix, iy, dz = neighbour_cube(rng, c, n, methods)
    m = methods.index(name)
    exp = data[..., iy[m], ix[m]].astype(float)
    collapse = "realization" in kind and (kind == "threshold_realization" or rng.chance(0.3))
    k = 0
    if collapse:
        exp = exp.mean(axis=0)
    want = None
    single = False
    if rng.chance(0.7):
        pool = [float(p) for p in pts] if rng.chance(0.5) else [10, 20, 40, 50, 70, 90]
        want = rng.sample(pool, rng.randint(1, min(3, len(pool))))
        if kind == "percentile" and not set(want) <= set(pts):
            want = sorted(want)
        if not (kind == "percentile" and set(want) <= set(pts)):
            want = sorted(want)
        single = len(want) == 1 and rng.chance(0.3)
    lapse = None
    cubes = [c.copy(), nb.copy()]
    args = dict(land_constraint=land, similar_altitude=dzc, realization_collapse=collapse, suppress_warnings=True)
    if want is not None:
        args["extract_percentiles"] = want[0] if single else list(want)
    fixed = None
    prob_out = kind.startswith("threshold") and want is None
    if not prob_out and rng.chance(0.5):
        args["apply_lapse_rate_correction"] = True
        if rng.chance(0.5):
            fixed = rng.choice([-0.0098, 0.01, 0.0, -0.0065])
            args["fixed_lapse_rate"] = fixed
        elif rng.chance(0.8):
            lr = (rng.np.rand(ny, nx) * 0.03 - 0.01).astype(np.float32)
            lapse = cube(lr, name="air_temperature_lapse_rate", units="K m-1", scalars=[DimCoord(np.float32([1.5]), "height", units="m")])
            cubes.insert(1, lapse.copy())
    labels = None
    if want is not None:
        if kind == "percentile":
            cols = []
            labels = sorted(want) if set(want) <= set(pts) else want
            for p in labels:
                if set(want) <= set(pts):
                    cols.append(exp[pts.index(p)])
                else:
                    cols.append(None)
            exp = None if cols[0] is None else np.array(cols)
        elif kind == "realization" and not collapse:
            labels = want
            exp = np.percentile(exp, want, axis=0)
        elif kind.startswith("threshold"):
            labels = want
            exp = None
    args["ignore_ecc_bounds_exceedance"] = True
    snap = [content(q) for q in cubes]
    plugin = SpotManipulation(**args)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = plugin(CubeList(cubes))
    mon.equal([snap_diff(a, content(b)) for a, b in zip(snap, cubes)], [[] for _ in cubes], "input changed")
    mon.check("model_grid_hash" not in out.attributes, "internal attribute kept")
    adj = np.zeros(n)
    if args.get("apply_lapse_rate_correction") and (fixed is not None or lapse is not None):
        rate = np.full(n, fixed) if fixed is not None else lr[iy[m], ix[m]].astype(float)
        adj = adjustment(rate, dz[m].astype(float))
    if labels is not None:
        mon.check(out.coords("percentile"), "no percentiles")
        mon.close(out.coord("percentile").points, np.array(labels, np.float32), "percentiles")
    if exp is not None:
        mon.close(np.squeeze(out.data), np.squeeze(exp + adj), "manipulated values", rtol=1e-5, atol=2e-3, kind=kind, want=want)
    elif labels is not None:
        got = out.data.reshape(len(labels), n) - adj
        mon.check(np.all(np.diff(got, axis=0) >= -1e-3), "percentiles decrease")
        if kind == "percentile":
            src = data[..., iy[m], ix[m]]
            for a, p in enumerate(labels):
                for j in range(n):
                    if pts[0] <= p <= pts[-1]:
                        mon.close(np.array(got[a, j]), np.array(np.interp(p, pts, src[:, j].astype(float))), "resampled percentile", atol=3e-3)
        else:
            src = data[..., iy[m], ix[m]].astype(float)
            src = src.mean(axis=0) if kind == "threshold_realization" else src
            for a, p in enumerate(labels):
                for j in range(n):
                    cdf = 1 - src[:, j]
                    if cdf[0] < p / 100 < cdf[-1] and np.all(np.diff(cdf) > 1e-4):
                        mon.close(np.array(got[a, j]), np.array(np.interp(p / 100.0, cdf, thr)), "percentile of probabilities", atol=1e-2)
    mon.equal(out.dtype, np.float32, "dtype")
    mon.seen(kind, collapse, want is not None and len(want), fixed is not None, lapse is not None)


def adjustment(rate, dz, limit=50.0):
    inner = np.clip(dz, -limit, limit)
    return inner * rate + (dz - inner) * LAPSE_STD


@scenario("C27", quick=60, thorough=1200)
def subset(rng, mon):
    """Spot forecasts are subset by site identifier and otherwise passed through."""
    from improver.spotdata.spot_manipulation import SpotManipulation

    n = rng.randint(2, 8)
    lead = [gen.realization_coord(3)] if rng.chance(0.5) else []
    data = (rng.np.rand(*([len(k.points) for k in lead] + [n])) * 20 + 270).astype(np.float32)
    wmo = ["%05d" % k for k in rng.sample(range(3000, 3100), n)]
    if rng.chance(0.4):
        wmo[0] = "None"
    c = gen.spot(data, lead=lead, wmo=wmo)
    g = cube(np.zeros((3, 3), np.float32))
    nb, _, _, _ = neighbour_cube(rng, g, rng.randint(1, 5), ["nearest"])
    ids = nb.coord("wmo_id").points.copy().astype("<U8")
    for i in range(len(ids)):
        if rng.chance(0.6):
            ids[i] = rng.choice(wmo)
    if len(ids) > 1:
        ids[-1] = "None"
    nb.coord("wmo_id").points = ids
    keep = [i for i in range(n) if wmo[i] in ids and wmo[i] != "None"]
    snap = (content(c), content(nb))
    coord = rng.choice(["wmo_id", "wmo_id", None])
    plugin = SpotManipulation(subset_coord=coord)
    if coord is None:
        mon.close(plugin(CubeList([c, nb])).data, data, "passed through", rtol=0, atol=0)
    elif not keep:
        mon.raises(ValueError, plugin, CubeList([c, nb]), label="no sites left")
    else:
        out = plugin(CubeList([c, nb]))
        mon.close(np.squeeze(out.data), np.squeeze(data[..., keep]), "subset of sites", rtol=0, atol=0)
        mon.equal(out.coord("wmo_id").points.tolist(), [wmo[i] for i in keep], "sites kept")
    mon.equal([snap_diff(snap[0], content(c)), snap_diff(snap[1], content(nb))], [[], []], "input changed")
    mon.raises(ValueError, SpotManipulation(subset_coord="kitten"), CubeList([c, nb]), label="unknown identifier accepted")
    mon.raises(NotImplementedError, SpotManipulation(apply_lapse_rate_correction=True), CubeList([c, nb]), label="lapse rate of spot data")
    mon.seen(coord, bool(keep), len(keep) == n, bool(lead))


# --------------------------------------------------------------------- C28
@scenario("C28", quick=150, thorough=4000)
def lapse_at_sites(rng, mon):
    """Temperatures at sites change by the lapse rate over the displacement."""
    from improver.spotdata.apply_lapse_rate import SpotLapseRateAdjust

    ny, nx = rng.randint(2, 5), rng.randint(2, 5)
    n = rng.randint(1, 7)
    lead = []
    if rng.chance(0.4):
        lead.append(gen.realization_coord(rng.randint(1, 3)))
    if rng.chance(0.4):
        lead.append(gen.percentile_coord(sorted(rng.sample(range(5, 100, 5), rng.randint(1, 3)))))
    shape = tuple(len(k.points) for k in lead) + (n,)
    data = (rng.np.rand(*shape) * 30 + 270).astype(np.float32)
    if rng.chance(0.3):
        data = np.ma.masked_array(data, rng.np.rand(*shape) < 0.3)
    h = DimCoord(np.float32([1.5]), "height", units="m")
    grid = cube((rng.np.rand(ny, nx) * 0.04 - 0.01).astype(np.float32), name="air_temperature_lapse_rate", units="K m-1", scalars=[h])
    methods = rng.some(METHODS)
    nb, ix, iy, dz = neighbour_cube(rng, grid, n, methods)
    if rng.chance(0.3):
        dz = rng.np.choice([50, -50, 0, 50.1, -50.1, 49.9, 700], size=dz.shape).astype(np.float32)
        nb.data[:, 2] = dz
    m = rng.randrange(len(methods))
    name = rng.choice(["air_temperature", "feels_like_temperature"])
    s = gen.spot(data, name=name, lead=lead, scalars=[h])
    s.attributes["model_grid_hash"] = nb.attributes["model_grid_hash"]
    fixed = rng.choice([None, None, -0.0098, 0.02, 0.0])
    rate = grid.data[iy[m], ix[m]].astype(float) if fixed is None else np.full(n, fixed)
    exp = data + adjustment(rate, dz[m].astype(float))
    plugin = SpotLapseRateAdjust(neighbour_selection_method=methods[m], fixed_lapse_rate=fixed)
    args = (s, nb) + (() if fixed is not None else (grid,))
    snap = [content(a) for a in args]
    out = plugin(*args)
    mon.equal([snap_diff(a, content(b)) for a, b in zip(snap, args)], [[] for _ in args], "input changed")
    mon.close(out.data, exp, "adjusted temperature", rtol=0, atol=1e-3)
    mon.equal(np.ma.getmaskarray(out.data).tolist(), np.ma.getmaskarray(data).tolist(), "mask")
    mon.equal(out.dtype, np.float32, "dtype")
    ref = s.copy(data=out.data)
    ref.attributes["title"] = out.attributes["title"]
    mon.equal(snap_diff(content(ref), content(out)), [], "metadata changed")
    mon.close(plugin(*args).data, out.data, "second use", rtol=0, atol=0)
    # refusals
    bad = s.copy()
    bad.rename("wind_speed")
    mon.raises(ValueError, plugin, bad, *args[1:], label="other diagnostic accepted")
    bad = s.copy()
    bad.attributes["model_grid_hash"] = "x"
    mon.raises(ValueError, plugin, bad, *args[1:], label="other grid accepted")
    if fixed is None:
        mon.raises(ValueError, plugin, s, nb, label="no lapse rate")
        bad = grid.copy()
        bad.coord("height").points = np.float32([10.0])
        mon.raises(ValueError, plugin, s, nb, bad, label="other height accepted")
        bad = grid.copy()
        bad.rename("kitten")
        mon.raises(ValueError, plugin, s, nb, bad, label="not a lapse rate")
        bad = grid.copy()
        bad.remove_coord("height")
        mon.raises(Exception, plugin, s, nb, bad, label="no height")
    else:
        mon.raises(ValueError, plugin, s, nb, grid, label="two lapse rates accepted")
    if not lead:
        p = gen.spot(np.ma.getdata(data)[None] / 400, name=gen.prob_name(name, "greater_than"), units="1",
                     lead=[gen.threshold_coord([280], name=name)], scalars=[h])
        p.attributes["model_grid_hash"] = nb.attributes["model_grid_hash"]
        mon.raises(ValueError, plugin, p, *args[1:], label="probabilities accepted")
    mon.seen(name, fixed is None, len(lead), np.ma.isMA(data), len(methods))


@scenario("C28", quick=150, thorough=4000)
def height_adjust(rng, mon):
    """Heights above ground at sites shift by the displacement."""
    from improver.spotdata.height_adjustment import SpotHeightAdjustment

    n = rng.choice([1, 2, 3, 5, 8])
    grid = cube(np.zeros((4, 4), np.float32))
    methods = rng.some(METHODS)
    nb, _, _, dz = neighbour_cube(rng, grid, n, methods)
    m = rng.randrange(len(methods))
    units = rng.choice(["m", "m", "km", "ft"])
    per = {"m": 1.0, "km": 1000.0, "ft": 0.3048}[units]
    prob = rng.chance(0.6)
    if prob:
        thr = np.array(sorted(rng.sample([30, 61, 152, 305, 457, 762, 1524, 3000, 6000], rng.randint(2, 6))), float)
        spp = rng.choice(["less_than", "less_than_or_equal_to", "greater_than", "greater_than_or_equal_to"])
        tc = gen.threshold_coord((thr / per).astype(np.float32), name="cloud_base_height", units=units, spp=spp)
        lead = [tc]
        nr = rng.choice([0, 0, 2, 3, 1])
        if nr:
            lead = [gen.realization_coord(nr)] + lead
        shape = tuple(len(k.points) for k in lead) + (n,)
        data = np.sort(rng.np.rand(*shape), axis=-2)
        if "greater" in spp:
            data = data[..., ::-1, :]
        data = np.ascontiguousarray(data).astype(np.float32)
        s = gen.spot(data, name=gen.prob_name("cloud_base_height", spp), units="1", lead=lead)
        d = dz[m].astype(float)
        exp = np.empty(shape)
        tm = tc.points.astype(float) * per
        for q in np.ndindex(*shape[:-2]):
            for i in range(n):
                exp[q + (slice(None), i)] = np.interp(tm + d[i], tm, data[q + (slice(None), i)].astype(float))
        tol = 2e-4
    else:
        lead = [gen.percentile_coord([10, 50, 90])] if rng.chance(0.5) else []
        lead += [gen.realization_coord(2)] if rng.chance(0.3) else []
        shape = tuple(len(k.points) for k in lead) + (n,)
        data = (rng.np.rand(*shape) * 3000 / per).astype(np.float32)
        if rng.chance(0.3):
            data = np.ma.masked_array(data, rng.np.rand(*shape) < 0.3)
        s = gen.spot(data, name="cloud_base_height", units=units, lead=lead)
        exp = data + dz[m].astype(float) / per
        tol = 2e-3 / per
    sin = s.copy()
    if prob and rng.chance(0.4):
        perm = list(range(s.ndim))
        rng.shuffle(perm)
        sin.transpose(perm)
    names = [k.name() for k in sin.coords(dim_coords=True)]
    snap = (content(sin), content(nb))
    plugin = SpotHeightAdjustment(neighbour_selection_method=methods[m])
    before = sin.copy()
    out = plugin(sin, nb)
    mon.equal(snap_diff(snap[1], content(nb)), [], "neighbour cube changed")
    mon.equal([k.name() for k in out.coords(dim_coords=True)], [k for k in names if k != "realization" or len(out.coord(k).points) > 1]
              if "realization" in names and len(before.coord("realization").points) == 1 else names, "dimensions")
    got = np.ma.asanyarray(out.data)
    if prob and got.ndim == s.ndim:
        got = order_to(out, [k.name() for k in s.coords(dim_coords=True)])
    elif prob:
        got = order_to(out, [k.name() for k in s.coords(dim_coords=True) if k.name() != "realization"])[None]
    mon.close(got, exp, "adjusted heights", rtol=1e-5, atol=tol, dz=dz[m].tolist(), prob=prob)
    mon.equal(out.dtype, np.float32, "dtype")
    mon.equal(str(out.units), str(s.units), "units")
    if prob:
        mon.equal(content(out.coord(var_name="threshold")), content(s.coord(var_name="threshold")), "thresholds changed")
        one = s.extract(iris.Constraint(cloud_base_height=lambda c: c.point == tc.points[0]))
        mon.raises(ValueError, plugin, one, nb, label="single threshold accepted")
    mon.close(plugin(before.copy(), nb).data, out.data, "second use", rtol=0, atol=0)
    mon.seen(prob, units, n == 1, len(lead), np.ma.isMA(data))


# --------------------------------------------------------------------- C29
def orography(rng, ny, nx):
    return (rng.np.rand(ny, nx) * rng.choice([30, 100, 500])).astype(np.float32)


@scenario("C29", quick=120, thorough=2500)
def lapse_rate(rng, mon):
    """Regression of temperature on height over the neighbourhood of each land point."""
    from improver.lapse_rate import LapseRate

    ny, nx = rng.randint(2, 8), rng.randint(2, 8)
    if rng.chance(0.4):
        nx = ny
    nr = rng.choice([0, 0, 1, 3])
    shape = ((nr,) if nr else ()) + (ny, nx)
    orog = orography(rng, ny, nx)
    if rng.chance(0.2):
        orog[...] = 100
    whole = rng.chance(0.3)
    if whole:  # differences that are exactly the greatest allowed
        orog = (np.round(orog / 5) * 5).astype(np.float32)
    land = (rng.np.rand(ny, nx) < rng.choice([0.4, 0.8, 1.1])).astype(np.int32)
    temp = (288 + orog * rng.uniform(-0.012, 0.02) + rng.np.rand(*shape) * rng.choice([0, 0.5, 2])).astype(np.float32)
    radius = rng.choice([1, 2, 3, 7])
    maxdz = rng.choice([35, 10, 200, 0])
    lo, hi = rng.choice([(LAPSE_DRY, -3 * LAPSE_DRY), (-0.02, 0.001)])
    lead = [gen.realization_coord(nr)] if nr else []
    t = cube(temp, lead=lead)
    o = cube(orog, name="surface_altitude", units="m", times=False)
    l = cube(land, name="land_binary_mask", units="1", times=False)
    units = rng.choice(["K", "celsius"])
    ounits = rng.choice(["m", "km"]) if not whole else "m"
    ti, oi, li = t.copy(), o.copy(), l.copy()
    ti.convert_units(units)
    ti.data = ti.data.astype(np.float32)
    oi.convert_units(ounits)
    tt = ti.copy()
    tt.convert_units("K")
    t64 = tt.data.astype(np.float32).astype(float)
    oo = oi.copy()
    oo.convert_units("m")
    o64 = oo.data.astype(float)
    if rng.chance(0.3):
        perm = list(range(ti.ndim))
        rng.shuffle(perm)
        ti.transpose(perm)
    if rng.chance(0.3):
        oi.transpose()
    if rng.chance(0.3):
        li.transpose()
    names = [k.name() for k in ti.coords(dim_coords=True)]
    snap = [content(q) for q in (ti, li)]
    plugin = LapseRate(max_height_diff=maxdz, nbhood_radius=radius, max_lapse_rate=hi, min_lapse_rate=lo)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = plugin(ti, oi, li)
    mon.equal([snap_diff(a, content(b)) for a, b in zip(snap, (ti, li))], [[], []], "input changed")
    mon.equal((out.name(), str(out.units)), ("air_temperature_lapse_rate", "K m-1"), "name and units")
    mon.equal(sorted(k.name() for k in out.coords(dim_coords=True)), sorted(names), "dimensions")
    got = order_to(out, [k.name() for k in t.coords(dim_coords=True)]).reshape((-1, ny, nx))
    for r in range(max(nr, 1)):
        tr = t64.reshape((-1, ny, nx))[r]
        for y in range(ny):
            for x in range(nx):
                g = got[r, y, x]
                if not land[y, x]:
                    mon.close(np.array(g), np.array(np.clip(LAPSE_DRY, lo, hi)), "lapse rate at sea", atol=1e-6)
                    continue
                ys = slice(max(0, y - radius), y + radius + 1)
                xs = slice(max(0, x - radius), x + radius + 1)
                near = np.abs(np.float32(o64[ys, xs]) - np.float32(o64[y, x]))
                if np.any(np.abs(near[land[ys, xs] > 0] - maxdz) < 1e-4) and maxdz > 0 and not whole:
                    continue
                ok = (land[ys, xs] > 0) & (near <= maxdz)
                h, v = o64[ys, xs][ok], tr[ys, xs][ok]
                if np.std(h) < 1e-6 or np.std(v) < 1e-6:
                    want = LAPSE_DRY
                elif np.std(h) < 1.0 or np.std(v) < 1e-3:
                    continue  # ill-conditioned in single precision
                else:
                    want = np.cov(h, v, bias=True)[0, 1] / np.var(h)
                # error of single precision sums
                err = 300.0 * 3e-6 / np.std(h) * np.sqrt(len(h)) if want != LAPSE_DRY else 1e-6
                mon.close(np.array(g), np.array(np.clip(want, lo, hi)), "lapse rate", rtol=2e-3, atol=1e-6 + err, at=(r, y, x))
                mon.event("gradient")
    mon.equal(standard_faults(out), [], "standards")
    mon.seen(nr, radius, maxdz, units, ounits)


@scenario("C29", quick=100, thorough=2500)
def apply_lapse(rng, mon):
    """Gridded temperatures move to another orography."""
    from improver.lapse_rate import ApplyGriddedLapseRate, LapseRate

    ny, nx = rng.randint(2, 6), rng.randint(2, 6)
    if rng.chance(0.4):
        nx = ny
    nr = rng.choice([0, 0, 2, 3])
    shape = ((nr,) if nr else ()) + (ny, nx)
    temp = (rng.np.rand(*shape) * 30 + 270).astype(np.float32)
    lr = (rng.np.rand(*shape) * 0.04 - 0.01).astype(np.float32)
    so, do = orography(rng, ny, nx), orography(rng, ny, nx)
    if rng.chance(0.2):
        do = so + rng.np.choice([50, -50, 0, 51, -60], size=so.shape).astype(np.float32)
    if rng.chance(0.3):
        temp = np.ma.masked_array(temp, rng.np.rand(*shape) < 0.3)
    lead = [gen.realization_coord(nr)] if nr else []
    t = cube(temp, lead=lead)
    l = cube(lr, name="air_temperature_lapse_rate", units="K m-1", lead=lead)
    s = cube(so, name="surface_altitude", units="m", times=False)
    d = cube(do, name="surface_altitude", units="m", times=False)
    exp = temp + adjustment(lr.astype(float), np.broadcast_to(do.astype(float) - so.astype(float), shape))
    ins = [q.copy() for q in (t, l, s, d)]
    if rng.chance(0.3):
        ins[0].convert_units("celsius")
        ins[0].data = ins[0].data.astype(np.float32)
    if rng.chance(0.3):
        ins[1].convert_units("K km-1")
    for k in (2, 3):
        if rng.chance(0.3):
            ins[k].convert_units("km")
    for q in ins:
        if rng.chance(0.15):
            perm = list(range(q.ndim))
            rng.shuffle(perm)
            q.transpose(perm)
    snap = content(ins[0])
    plugin = ApplyGriddedLapseRate()
    out = plugin(*ins)
    mon.equal(snap_diff(snap, content(ins[0])), [], "temperature changed")
    got = order_to(out, [k.name() for k in t.coords(dim_coords=True)])
    mon.close(got, exp, "adjusted temperature", rtol=0, atol=2e-3)
    mon.equal(np.ma.getmaskarray(got).tolist(), np.ma.getmaskarray(temp).tolist(), "mask")
    mon.equal((out.name(), str(out.units), out.dtype), (t.name(), "K", np.dtype(np.float32)), "name, units and dtype")
    mon.equal(sorted(k.name() for k in out.coords()), sorted(k.name() for k in t.coords()), "coordinates")
    bad = [q.copy() for q in ins]
    k = rng.choice([1, 2, 3])
    c = bad[k].coord(axis=rng.choice("xy"))
    c.points = c.points + np.float32(100)
    mon.raises(ValueError, plugin, *bad, label="other grid accepted")
    mon.raises(ValueError, LapseRate, max_lapse_rate=-1, min_lapse_rate=1, label="limits reversed")
    mon.raises(ValueError, LapseRate, nbhood_radius=-1, label="negative radius")
    mon.raises(ValueError, LapseRate, max_height_diff=-1, label="negative height difference")
    mon.seen(nr, np.ma.isMA(temp), [str(q.units) for q in ins])
