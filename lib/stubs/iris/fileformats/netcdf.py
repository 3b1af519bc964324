"""CF netCDF save/load for the iris API stand-in, on the real netCDF4 library."""
import re

import cf_units
import numpy as np
import numpy.ma as ma

import iris.coord_systems as cs
import iris.coords
from iris import _lazy_data as _lazy

CF_CONVENTIONS_VERSION = "CF-1.7"

_SKIP = {
    "standard_name",
    "long_name",
    "units",
    "calendar",
    "bounds",
    "coordinates",
    "grid_mapping",
    "cell_methods",
    "cell_measures",
    "climatology",
    "axis",
    "_FillValue",
    "missing_value",
    "ancillary_variables",
    "flag_masks_internal",
}


def _cf_name(obj):
    name = obj.var_name
    if name is None:
        name = obj.standard_name or obj.long_name
        if name is None:
            name = "unknown"
        name = "_".join(name.lower().split() if not obj.standard_name else name.split())
        name = re.sub(r"[^a-zA-Z0-9]", "_", name)
        if re.match(r"^[0-9]", name):
            name = "var_" + name
    return str(name)


class _Saver:
    def __init__(self, ds):
        self.ds = ds
        self.coord_vars = []  # (coord, name, dims)
        self.grid_vars = []
        self.dim_for = {}

    def unique(self, name):
        out, i = name, 0
        while out in self.ds.variables or out in self.ds.dimensions:
            out = "%s_%d" % (name, i)
            i += 1
        return out

    def unique_var(self, name, own_dim=None):
        out, i = name, 0
        while out in self.ds.variables or (out in self.ds.dimensions and out != own_dim):
            out = "%s_%d" % (name, i)
            i += 1
        return out

    def set_attrs(self, var, obj, keys=None):
        if obj.units != "unknown":
            var.units = str(obj.units)
            if obj.units.is_time_reference():
                var.calendar = obj.units.calendar
        if obj.standard_name:
            var.standard_name = obj.standard_name
        if obj.long_name:
            var.long_name = obj.long_name
        for k in sorted(obj.attributes):
            if keys is not None and k not in keys:
                continue
            v = obj.attributes[k]
            if v is None:
                continue
            if isinstance(v, str):
                v = v.encode("ascii") if False else v
            var.setncattr(k, v)

    def add_dim(self, base, length):
        name = self.unique(base)
        self.ds.createDimension(name, length)
        return name

    def write(self, name, dtype, dims, values, **kw):
        var = self.ds.createVariable(name, dtype, dims, **kw)
        var[:] = values
        return var

    def save_coord(self, coord, dims):
        """dims: tuple of netCDF dimension names; returns the variable name."""
        for c, name, d in self.coord_vars:
            if d == dims and c == coord and type(c) is type(coord):
                return name
        base = _cf_name(coord)
        own = dims[0] if len(dims) == 1 else None
        name = self.unique_var(base, own)
        if coord.dtype.kind in "SU":
            n = max(len(str(x)) for x in coord.points.flat)
            sdim = "string%d" % max(n, 1)
            if sdim not in self.ds.dimensions:
                self.ds.createDimension(sdim, max(n, 1))
            var = self.ds.createVariable(name, "S1", dims + (sdim,))
            arr = np.array([str(x) for x in coord.points.flat], dtype="S%d" % max(n, 1))
            arr = arr.reshape(coord.points.shape if dims else ())
            chars = np.frombuffer(np.ascontiguousarray(arr).tobytes(), dtype="S1").reshape(
                (coord.points.shape if dims else ()) + (max(n, 1),)
            )
            var[:] = chars
        else:
            pts = coord.points if dims else coord.points.reshape(())
            var = self.write(name, coord.dtype.newbyteorder("="), dims, pts)
            if coord.has_bounds():
                nb = coord.nbounds
                bdim = "bnds"
                if bdim in self.ds.dimensions and len(self.ds.dimensions[bdim]) != nb:
                    bdim = "bnds_%d" % nb
                if bdim not in self.ds.dimensions:
                    self.ds.createDimension(bdim, nb)
                bname = self.unique_var(name + "_bnds")
                b = coord.bounds if dims else coord.bounds.reshape((nb,))
                self.write(bname, coord.bounds.dtype.newbyteorder("="), dims + (bdim,), b)
                var.setncattr("climatology" if coord.climatological else "bounds", bname)
            import iris.util

            axis = iris.util.guess_coord_axis(coord)
            if axis is not None and isinstance(coord, iris.coords.DimCoord) and dims:
                var.axis = axis
        self.set_attrs(var, coord)
        self.coord_vars.append((coord, name, dims))
        return name

    def save_grid_mapping(self, system):
        for s, name in self.grid_vars:
            if s == system:
                return name
        name = self.unique_var(system.grid_mapping_name)
        var = self.ds.createVariable(name, np.int32)
        var.grid_mapping_name = system.grid_mapping_name

        def ell(e):
            if e is not None:
                var.longitude_of_prime_meridian = e.longitude_of_prime_meridian
                if e.semi_major_axis == e.semi_minor_axis:
                    var.earth_radius = e.semi_major_axis
                else:
                    var.semi_major_axis = e.semi_major_axis
                    var.semi_minor_axis = e.semi_minor_axis

        if isinstance(system, cs.GeogCS):
            ell(system)
        else:
            ell(system.ellipsoid)
            for k, v in system.__dict__.items():
                if k != "ellipsoid" and v is not None:
                    key = k
                    var.setncattr(key, v)
        self.grid_vars.append((system, name))
        return name

    def save_cube(self, cube, local_keys, zlib, complevel, shuffle, chunksizes, lsd, fill_value=None):
        ds = self.ds
        # dimensions
        dim_names = []
        for d in range(cube.ndim):
            dc = cube.coords(dimensions=d, dim_coords=True)
            found = None
            if dc:
                for c, name, dims in self.coord_vars:
                    if dims == (self.dim_for.get(name),) and c == dc[0]:
                        found = dims[0]
                        break
                if found is None:
                    base = _cf_name(dc[0])
                    found = self.add_dim(base, cube.shape[d])
                    # coordinate variable has the name of the dimension
                    self._save_dim_coord(dc[0], found)
            else:
                base = "dim%d" % d
                i = 0
                while True:
                    nm = base if i == 0 else "%s_%d" % (base, i - 1)
                    if nm not in ds.dimensions:
                        ds.createDimension(nm, cube.shape[d])
                        found = nm
                        break
                    if len(ds.dimensions[nm]) == cube.shape[d] and nm not in ds.variables and nm not in dim_names:
                        found = nm
                        break
                    i += 1
            dim_names.append(found)
        coord_names = []
        for coord in cube.aux_coords:
            dims = tuple(dim_names[d] for d in cube.coord_dims(coord))
            coord_names.append(self.save_coord(coord, dims))
        name = self.unique_var(_cf_name(cube))
        data = cube.data
        kw = {}
        if ma.isMaskedArray(data) and ma.is_masked(data) is not None and ma.isMaskedArray(data):
            if ma.is_masked(data) and data.dtype.kind in "fiu":
                import netCDF4

                kw["fill_value"] = netCDF4.default_fillvals[data.dtype.str[1:]]
        if chunksizes is not None and cube.ndim == len(chunksizes) and cube.ndim:
            kw["chunksizes"] = chunksizes
        if lsd is not None:
            kw["least_significant_digit"] = lsd
        var = ds.createVariable(
            name,
            data.dtype.newbyteorder("="),
            tuple(dim_names),
            zlib=zlib,
            complevel=complevel,
            shuffle=shuffle,
            **kw
        )
        var[:] = data
        self.set_attrs(var, cube, keys=local_keys)
        systems = [c.coord_system for c in cube.coords() if c.coord_system is not None]
        if systems:
            var.grid_mapping = self.save_grid_mapping(systems[0])
        if coord_names:
            var.coordinates = " ".join(sorted(coord_names))
        if cube.cell_methods:
            out = []
            for cm in cube.cell_methods:
                s = " ".join("%s:" % self._cm_name(cube, n) for n in cm.coord_names) + " " + cm.method
                extra = ["interval: %s" % i for i in cm.intervals] + [
                    "comment: %s" % c for c in cm.comments
                ]
                if extra:
                    s += " (" + " ".join(extra) + ")"
                out.append(s.strip())
            var.cell_methods = " ".join(out)
        avs = []
        for av, dims in cube._ancillary_variables_and_dims:
            an = self.unique_var(_cf_name(av))
            v = self.write(an, av.data.dtype, tuple(dim_names[d] for d in dims), av.data)
            self.set_attrs(v, av)
            avs.append(an)
        if avs:
            var.ancillary_variables = " ".join(avs)
        return name

    def _cm_name(self, cube, n):
        for c, name, dims in self.coord_vars:
            if c.name() == n and cube.coords(n):
                return name
        return n

    def _save_dim_coord(self, coord, dim):
        var = self.write(dim, coord.dtype.newbyteorder("="), (dim,), coord.points)
        import iris.util

        axis = iris.util.guess_coord_axis(coord)
        if axis is not None:
            var.axis = axis
        if coord.has_bounds():
            nb = coord.nbounds
            bdim = "bnds" if nb == 2 else "bnds_%d" % nb
            if bdim not in self.ds.dimensions:
                self.ds.createDimension(bdim, nb)
            bname = self.unique_var(dim + "_bnds")
            self.write(bname, coord.bounds.dtype.newbyteorder("="), (dim, bdim), coord.bounds)
            var.bounds = bname
        self.set_attrs(var, coord)
        self.coord_vars.append((coord, dim, (dim,)))
        self.dim_for[dim] = dim


def save(
    cube,
    filename,
    netcdf_format="NETCDF4",
    local_keys=None,
    unlimited_dimensions=None,
    zlib=False,
    complevel=4,
    shuffle=True,
    fletcher32=False,
    contiguous=False,
    chunksizes=None,
    endian="native",
    least_significant_digit=None,
    packing=None,
    fill_value=None,
):
    import netCDF4

    from iris.cube import Cube, CubeList

    cubes = CubeList([cube]) if isinstance(cube, Cube) else cube
    local_keys = set(local_keys or [])
    # attributes that are not the same on every cube are local
    attr_keys = set()
    for c in cubes:
        attr_keys.update(c.attributes)
    for k in list(attr_keys):
        vals = [c.attributes[k] if k in c.attributes else None for c in cubes]
        for c in cubes:
            if k not in c.attributes:
                local_keys.add(k)
                break
            if not np.array_equal(c.attributes[k], cubes[0].attributes[k]):
                local_keys.add(k)
                break
    if least_significant_digit is not None:
        pass
    with netCDF4.Dataset(str(filename), mode="w", format=netcdf_format) as ds:
        saver = _Saver(ds)
        for c in cubes:
            saver.save_cube(
                c, local_keys, zlib, complevel, shuffle, chunksizes, least_significant_digit
            )
        c0 = cubes[0]
        for k in sorted(attr_keys):
            if k in local_keys or k == "Conventions":
                continue
            ds.setncattr(k, c0.attributes[k])
        ds.setncattr("Conventions", CF_CONVENTIONS_VERSION)


# ------------------------------------------------------------------- load
def _attr(var, key, default=None):
    return var.getncattr(key) if key in var.ncattrs() else default


def _values(var, keep_masked=False):
    if var.dtype is str or (hasattr(var.dtype, "kind") and var.dtype.kind == "S"):
        raw = var[:]
        raw = np.asarray(raw.filled(b"") if ma.isMaskedArray(raw) else raw)
        if raw.dtype.kind == "S" and raw.dtype.itemsize == 1:
            flat = raw.reshape((-1, raw.shape[-1]))
            out = np.array([b"".join(r).decode("utf-8").strip() for r in flat])
            return out.reshape(raw.shape[:-1])
        return raw.astype(str)
    data = var[:]
    if ma.isMaskedArray(data) and not ma.is_masked(data) and not keep_masked:
        data = np.asarray(data.data)
    return data


def _units(var):
    u = _attr(var, "units", None)
    if u is None:
        if _values_kind(var) == "S":
            return cf_units.Unit("no_unit")
        return cf_units.Unit("unknown") if True else cf_units.Unit("1")
    cal = _attr(var, "calendar", None)
    try:
        unit = cf_units.Unit(u, calendar=cal if cal else None)
        if unit.is_time_reference() and not cal:
            unit = cf_units.Unit(u, calendar="standard")
    except ValueError:
        unit = cf_units.Unit("unknown")
    return unit


def _values_kind(var):
    return "S" if var.dtype is str or getattr(var.dtype, "kind", "") == "S" else "n"


def _names(var):
    from iris.std_names import get_valid_standard_name

    sn = _attr(var, "standard_name", None)
    ln = _attr(var, "long_name", None)
    try:
        sn = get_valid_standard_name(sn)
    except ValueError:
        ln = ln or sn
        sn = None
    return sn, ln


def _extra_attrs(var, skip=()):
    out = {}
    for k in var.ncattrs():
        if k in _SKIP or k in skip:
            continue
        v = var.getncattr(k)
        out[k] = v
    return out


def _system(ds, name):
    var = ds.variables[name]
    gm = _attr(var, "grid_mapping_name")
    ell = None
    if "earth_radius" in var.ncattrs():
        ell = cs.GeogCS(float(var.earth_radius))
    elif "semi_major_axis" in var.ncattrs():
        kw = {"semi_major_axis": float(var.semi_major_axis)}
        if "semi_minor_axis" in var.ncattrs():
            kw["semi_minor_axis"] = float(var.semi_minor_axis)
        elif "inverse_flattening" in var.ncattrs():
            kw["inverse_flattening"] = float(var.inverse_flattening)
        ell = cs.GeogCS(**kw)
    g = lambda k, d=None: float(_attr(var, k)) if _attr(var, k) is not None else d
    if gm == "latitude_longitude":
        return ell
    if gm == "rotated_latitude_longitude":
        return cs.RotatedGeogCS(
            g("grid_north_pole_latitude"),
            g("grid_north_pole_longitude"),
            g("north_pole_grid_longitude"),
            ell,
        )
    if gm == "lambert_azimuthal_equal_area":
        return cs.LambertAzimuthalEqualArea(
            g("latitude_of_projection_origin"),
            g("longitude_of_projection_origin"),
            g("false_easting"),
            g("false_northing"),
            ell,
        )
    if gm == "transverse_mercator":
        return cs.TransverseMercator(
            g("latitude_of_projection_origin"),
            g("longitude_of_central_meridian"),
            g("false_easting"),
            g("false_northing"),
            g("scale_factor_at_central_meridian"),
            ell,
        )
    return None


def _make_coord(ds, name, dims_of_cube, system, as_dim):
    var = ds.variables[name]
    sn, ln = _names(var)
    vals = _values(var)
    bname = _attr(var, "bounds", None) or _attr(var, "climatology", None)
    bounds = None
    if bname and bname in ds.variables:
        bounds = _values(ds.variables[bname])
    units = _units(var)
    cname = sn or ln or name
    use_sys = None
    if system is not None:
        if isinstance(system, cs.GeogCS):
            if sn in ("latitude", "longitude"):
                use_sys = system
        elif isinstance(system, cs.RotatedGeogCS):
            if sn in ("grid_latitude", "grid_longitude"):
                use_sys = system
        elif sn in ("projection_x_coordinate", "projection_y_coordinate"):
            use_sys = system
    kwargs = dict(
        standard_name=sn,
        long_name=ln,
        var_name=name,
        units=units,
        attributes=_extra_attrs(var),
        coord_system=use_sys,
    )
    if vals.ndim == 0:
        vals = np.atleast_1d(vals)
        if bounds is not None:
            bounds = np.atleast_2d(bounds)
    clim = "climatology" in var.ncattrs()
    if as_dim or (vals.ndim == 1 and vals.dtype.kind in "iuf" and len(vals) == 1):
        try:
            circular = False
            if as_dim and sn == "longitude" and units.modulus:
                circular = _is_circular(vals, units.modulus, bounds)
            return iris.coords.DimCoord(vals, bounds=bounds, circular=circular, climatological=clim, **kwargs)
        except (ValueError, TypeError):
            pass
    return iris.coords.AuxCoord(vals, bounds=bounds, climatological=clim, **kwargs)


def _is_circular(points, modulus, bounds=None):
    if len(points) < 2:
        return False
    if bounds is not None:
        return bool(abs(abs(bounds[-1].max() - bounds[0].min()) - modulus) < 1e-4 * modulus) or bool(
            abs(abs(bounds.max() - bounds.min()) - modulus) < 1e-4
        )
    diffs = np.diff(points)
    step = diffs.mean()
    if not np.allclose(diffs, step, rtol=1e-3):
        return False
    return bool(abs(abs(points[-1] + step - points[0]) - modulus) < 1e-4 * modulus)


def _parse_cell_methods(text):
    out = []
    pattern = re.compile(r"((?:[\w]+:\s+)+)([\w\-]+(?:\s(?:where|over|within)\s\w+)*)\s*(\([^)]*\))?")
    for m in pattern.finditer(text):
        names = [n.strip() for n in m.group(1).split(":") if n.strip()]
        method = m.group(2)
        intervals, comments = [], []
        if m.group(3):
            inner = m.group(3)[1:-1]
            parts = re.split(r"(interval:|comment:)", inner)
            key = None
            for p in parts:
                p = p.strip()
                if p in ("interval:", "comment:"):
                    key = p
                elif p:
                    (intervals if key == "interval:" else comments).append(p)
        out.append(
            iris.coords.CellMethod(method, names, intervals=intervals or None, comments=comments or None)
        )
    return out


def load_cubes(filenames, callback=None):
    import netCDF4

    from iris.cube import Cube

    if isinstance(filenames, str):
        filenames = [filenames]
    for filename in filenames:
        with netCDF4.Dataset(filename) as ds:
            used = set()
            for vn, var in ds.variables.items():
                for key in ("bounds", "climatology", "grid_mapping"):
                    v = _attr(var, key, None)
                    if v:
                        used.add(v)
                for v in (_attr(var, "coordinates", "") or "").split():
                    used.add(v)
                for v in (_attr(var, "ancillary_variables", "") or "").split():
                    used.add(v)
                if vn in ds.dimensions:
                    used.add(vn)
            global_attrs = {k: ds.getncattr(k) for k in ds.ncattrs()}
            cubes = []
            for vn, var in ds.variables.items():
                if vn in used or "grid_mapping_name" in var.ncattrs():
                    continue
                data = _values(var, keep_masked=True)
                lazy = _lazy.as_lazy_data(data) if data.ndim and data.dtype.kind in "iuf" else data
                sn, ln = _names(var)
                attrs = dict(global_attrs)
                attrs.update(_extra_attrs(var))
                cube = Cube(
                    lazy,
                    standard_name=sn,
                    long_name=ln,
                    var_name=vn,
                    units=_units(var) if _values_kind(var) != "S" else "no_unit",
                    attributes={k: v for k, v in attrs.items()},
                )
                gm = _attr(var, "grid_mapping", None)
                system = _system(ds, gm) if gm else None
                vdims = var.dimensions
                if _values_kind(var) == "S":
                    vdims = vdims[:-1]
                for d, dn in enumerate(vdims):
                    if dn in ds.variables:
                        c = _make_coord(ds, dn, None, system, True)
                        if isinstance(c, iris.coords.DimCoord):
                            cube.add_dim_coord(c, d)
                        else:
                            cube.add_aux_coord(c, d)
                for name in (_attr(var, "coordinates", "") or "").split():
                    if name not in ds.variables:
                        continue
                    cvar = ds.variables[name]
                    cdims = cvar.dimensions
                    if _values_kind(cvar) == "S":
                        cdims = cdims[:-1]
                    if not set(cdims) <= set(vdims):
                        continue
                    c = _make_coord(ds, name, None, system, False)
                    cube.add_aux_coord(c, [vdims.index(x) for x in cdims])
                cm = _attr(var, "cell_methods", None)
                if cm:
                    methods = _parse_cell_methods(cm)
                    fixed = []
                    for m in methods:
                        names = []
                        for n in m.coord_names:
                            cc = [c for c in cube.coords() if c.var_name == n]
                            names.append(cc[0].name() if cc else n)
                        fixed.append(
                            iris.coords.CellMethod(m.method, names, m.intervals or None, m.comments or None)
                        )
                    cube.cell_methods = fixed
                for name in (_attr(var, "ancillary_variables", "") or "").split():
                    if name in ds.variables:
                        av = ds.variables[name]
                        asn, aln = _names(av)
                        cube.add_ancillary_variable(
                            iris.coords.AncillaryVariable(
                                _values(av), asn, aln, name, _units(av), _extra_attrs(av)
                            ),
                            [vdims.index(x) for x in av.dimensions],
                        )
                cubes.append(cube)
        for cube in cubes:
            if callback is not None:
                callback(cube, None, filename)
            yield cube
