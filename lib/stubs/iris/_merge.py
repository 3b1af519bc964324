"""Cube merging for the iris API stand-in."""
import itertools

import numpy as np
import numpy.ma as ma

import iris.coords
import iris.exceptions
import iris.util
from iris import _lazy_data as _lazy

_HINTS = ["time", "forecast_reference_time", "forecast_period", "model_level_number"]
_AXIS = {"T": 0, "Z": 1, "Y": 2, "X": 3}


def _coord_key(coord):
    return (
        not np.issubdtype(coord.dtype, np.number),
        not isinstance(coord, iris.coords.DimCoord),
        _HINTS.index(coord.name()) if coord.name() in _HINTS else len(_HINTS) + 1,
        _AXIS.get(iris.util.guess_coord_axis(coord), len(_AXIS) + 1),
        coord.metadata._sort_key(),
    )


def _is_scalar(cube, c):
    return not cube.coord_dims(c) and c.shape == (1,)


class _Proto:
    def __init__(self, cube):
        self.template = cube
        self.cubes = []
        self.scalars = []  # list of list of coords, per cube
        coords = sorted(cube.coords(), key=_coord_key)
        self.scalar_coords = [c for c in coords if _is_scalar(cube, c)]
        self.add(cube)

    def _find_scalars(self, cube):
        """Match cube's scalar coords to the template's, else None."""
        mine = [c for c in cube.coords() if _is_scalar(cube, c)]
        if len(mine) != len(self.scalar_coords):
            return None
        out = []
        for t in self.scalar_coords:
            m = [
                c
                for c in mine
                if _mergeable_defn(c, t)
            ]
            if len(m) != 1:
                return None
            out.append(m[0])
        return out

    def differences(self, cube):
        msgs = []
        t = self.template
        for f in ("standard_name", "long_name", "var_name"):
            a, b = getattr(t, f), getattr(cube, f)
            if a != b:
                msgs.append("cube.%s differs: %r != %r" % (f, a, b))
        if t.units != cube.units:
            msgs.append("cube.units differs: %r != %r" % (t.units, cube.units))
        if not iris.util.attrs_equal(t.attributes, cube.attributes):
            ka, kb = set(t.attributes), set(cube.attributes)
            if ka != kb:
                msgs.append(
                    "cube.attributes keys differ: %s"
                    % ", ".join(repr(k) for k in sorted(ka ^ kb))
                )
            else:
                diff = [
                    k for k in sorted(ka) if not np.all(t.attributes[k] == cube.attributes[k])
                ]
                msgs.append(
                    "cube.attributes values differ for keys: %s" % ", ".join(repr(k) for k in diff)
                )
        if t.cell_methods != cube.cell_methods:
            msgs.append("cube.cell_methods differ")
        if t.shape != cube.shape:
            msgs.append("cube.shape differs: %s != %s" % (t.shape, cube.shape))
        if t.dtype != cube.dtype:
            msgs.append("cube data dtype differs: %s != %s" % (t.dtype, cube.dtype))
        if not msgs:
            sc = self._find_scalars(cube)
            if sc is None:
                a = {c.name() for c in self.scalar_coords}
                b = {c.name() for c in cube.coords() if _is_scalar(cube, c)}
                if a != b:
                    msgs.append(
                        "Coordinates in cube.aux_coords (scalar) differ: %s."
                        % ", ".join(sorted(a ^ b))
                    )
                else:
                    msgs.append("Coordinates in cube.aux_coords (scalar) differ by metadata.")
            va = [(c, t.coord_dims(c)) for c in t.coords() if not _is_scalar(t, c)]
            vb = [(c, cube.coord_dims(c)) for c in cube.coords() if not _is_scalar(cube, c)]
            if len(va) != len(vb):
                msgs.append("Coordinates in cube.dim_coords / aux_coords (non-scalar) differ.")
            else:
                for c, d in va:
                    if not any(c == c2 and d == d2 for c2, d2 in vb):
                        kind = "dim_coords" if any(c is x for x in t.dim_coords) else "aux_coords (non-scalar)"
                        msgs.append("Coordinates in cube.%s differ: %s." % (kind, c.name()))
        return msgs

    def add(self, cube):
        self.cubes.append(cube)
        self.scalars.append(self._find_scalars(cube))

    # ------------------------------------------------------------------
    def merge(self, unique=True):
        n = len(self.cubes)
        ncoord = len(self.scalar_coords)
        keys = []
        for row in self.scalars:
            keys.append(tuple(_value(c) for c in row))
        if unique:
            seen = set()
            for k in keys:
                if k in seen:
                    raise iris.exceptions.DuplicateDataError(
                        "failed to merge into a single cube.\n  Duplicate {!r} cube, with scalar coordinates {}".format(
                            self.template.name(),
                            ", ".join("%s" % c.name() for c in self.scalar_coords),
                        )
                    )
                seen.add(k)
            return [self._build(list(range(n)), keys)]
        # non unique: spread duplicates over several groups
        groups = []
        for i, k in enumerate(keys):
            for g in groups:
                if k not in g[1]:
                    g[0].append(i)
                    g[1].add(k)
                    break
            else:
                groups.append(([i], {k}))
        return [self._build(g[0], keys) for g in groups]

    def _build(self, idx, keys):
        n = len(idx)
        ncoord = len(self.scalar_coords)
        vals = [[keys[i][j] for i in idx] for j in range(ncoord)]
        varying = [j for j in range(ncoord) if len(set(vals[j])) > 1]
        constant = [j for j in range(ncoord) if j not in varying]
        if n == 1:
            dims = []
        else:
            dims = self._find_dims(vals, varying, n)
        template = self.template
        if n == 1:
            return self.cubes[idx[0]].copy()
        first_scalars = self.scalars[idx[0]]
        if dims is None:
            # anonymous dimension, ordered as given by the coord values
            order = sorted(range(n), key=lambda i: tuple(vals[j][i] for j in varying))
            shape = (n,)
            grid = {(p,): order[p] for p in range(n)}
            dims = []
            anonymous = True
        else:
            anonymous = False
            levels = [sorted(set(vals[j])) for j in dims]
            shape = tuple(len(l) for l in levels)
            grid = {}
            for i in range(n):
                pos = tuple(levels[a].index(vals[j][i]) for a, j in enumerate(dims))
                grid[pos] = i
        nd = len(shape)
        # stack the data
        arrays = [self.cubes[idx[grid[pos]]]._data for pos in np.ndindex(*shape)]
        if any(_lazy.is_lazy_data(a) for a in arrays):
            arrays = [_lazy.as_concrete_data(a) for a in arrays]
        if any(ma.isMaskedArray(a) for a in arrays):
            data = ma.stack([ma.asanyarray(a) for a in arrays]).reshape(shape + template.shape)
            if not any(ma.is_masked(a) for a in arrays) and ma.getmask(data) is ma.nomask:
                pass
        else:
            data = np.stack([np.asarray(a) for a in arrays]).reshape(shape + template.shape)
        from iris.cube import Cube

        cube = Cube(data)
        cube.metadata = self.cubes[idx[0]].metadata
        # vector coords of the template
        for c, d in template._dim_coords_and_dims:
            cube.add_dim_coord(c.copy(), d + nd)
        for c, ds in template._aux_coords_and_dims:
            if not _is_scalar(template, c):
                cube.add_aux_coord(c.copy(), tuple(d + nd for d in ds))
        for av, ds in template._ancillary_variables_and_dims:
            cube.add_ancillary_variable(av.copy(), [d + nd for d in ds])
        # scalar coords
        for j in range(ncoord):
            if j in constant:
                cube.add_aux_coord(self.scalars[idx[0]][j].copy())
                continue
            # which merged dims does it depend on
            axes = self._depends(vals[j], shape, grid) if not anonymous else (0,)
            if axes is None:
                axes = tuple(range(nd))
            sub_shape = tuple(shape[a] for a in axes)
            pts, bnds = [], []
            for sub in np.ndindex(*sub_shape):
                pos = [0] * nd
                for a, s in zip(axes, sub):
                    pos[a] = s
                coord = self.scalars[idx[grid[tuple(pos)]]][j]
                pts.append(coord.points[0])
                bnds.append(None if coord.bounds is None else coord.bounds[0])
            proto = self.scalars[idx[0]][j]
            points = np.array(pts, dtype=None if proto.dtype.kind in "SU" else proto.dtype).reshape(sub_shape)
            bounds = None
            if all(b is not None for b in bnds):
                bounds = np.array(bnds).astype(proto.bounds_dtype or float).reshape(sub_shape + (-1,))
            kwargs = dict(
                standard_name=proto.standard_name,
                long_name=proto.long_name,
                var_name=proto.var_name,
                units=proto.units,
                bounds=bounds,
                attributes=proto.attributes,
                coord_system=proto.coord_system,
            )
            as_dim = len(axes) == 1 and not anonymous and dims[axes[0]] == j
            done = False
            if as_dim:
                try:
                    cube.add_dim_coord(iris.coords.DimCoord(points, **kwargs), axes[0])
                    done = True
                except ValueError:
                    done = False
            if not done:
                made = None
                if len(axes) == 1:
                    try:
                        made = iris.coords.DimCoord(points, **kwargs)
                    except ValueError:
                        made = None
                if made is None:
                    made = iris.coords.AuxCoord(points, **kwargs)
                cube.add_aux_coord(made, axes)
        return cube

    def _find_dims(self, vals, varying, n):
        if not varying:
            return None
        # equivalence classes of coords in one-to-one relation
        classes = []
        for j in varying:
            for cl in classes:
                k = cl[0]
                pairs = set(zip(vals[j], vals[k]))
                if len(pairs) == len(set(vals[j])) == len(set(vals[k])):
                    cl.append(j)
                    break
            else:
                classes.append([j])
        # the coordinate naming the dimension: the first numeric one (hint order)
        reps = []
        for cl in classes:
            numeric = [j for j in cl if np.issubdtype(self.scalar_coords[j].dtype, np.number)]
            reps.append((numeric or cl)[0])
        for r in range(len(reps), 0, -1):
            for combo in itertools.combinations(reps, r):
                size = 1
                for j in combo:
                    size *= len(set(vals[j]))
                if size != n:
                    continue
                if len(set(zip(*[vals[j] for j in combo]))) == n:
                    # dimensions without an axis lead, then T, Z, Y, X
                    return sorted(
                        combo,
                        key=lambda j: (_AXIS.get(iris.util.guess_coord_axis(self.scalar_coords[j]), -1), j),
                    )
        return None

    def _depends(self, values, shape, grid):
        nd = len(shape)
        for r in range(1, nd + 1):
            for axes in itertools.combinations(range(nd), r):
                mapping = {}
                ok = True
                for pos in np.ndindex(*shape):
                    key = tuple(pos[a] for a in axes)
                    v = values[grid[pos]]
                    if mapping.setdefault(key, v) != v:
                        ok = False
                        break
                if ok:
                    return axes
        return None


def _mergeable_defn(a, b):
    from iris.cube import _defn

    if not _defn(a) == _defn(b):
        return False
    if (a.dtype.kind in "SU") != (b.dtype.kind in "SU"):
        return False
    return a.has_bounds() == b.has_bounds()


def _value(coord):
    p = coord.points[0]
    b = None if coord.bounds is None else tuple(coord.bounds[0].tolist())
    p = p.item() if hasattr(p, "item") else p
    return (p, b) if b is not None else (p,)


def _register(cubes):
    if not all(hasattr(c, "coords") for c in cubes):
        raise TypeError("not cubes")
    protos = []
    for cube in cubes:
        for p in protos:
            if not p.differences(cube):
                p.add(cube)
                break
        else:
            protos.append(_Proto(cube))
    return protos


def merge_cube(cubelist):
    if not cubelist:
        raise ValueError("can't merge an empty CubeList")
    proto = _Proto(cubelist[0])
    for cube in cubelist[1:]:
        msgs = proto.differences(cube)
        if msgs:
            raise iris.exceptions.MergeError(msgs)
        proto.add(cube)
    merged = proto.merge(unique=True)
    return merged[0]


def merge(cubelist, unique=True):
    from iris.cube import CubeList

    out = CubeList()
    by_name = {}
    for cube in cubelist:
        by_name.setdefault(cube.name() + str(cube.units), []).append(cube)
    for name in sorted(by_name):
        for proto in _register(by_name[name]):
            out.extend(proto.merge(unique=unique))
    return out
