"""Stand-in for the parts of the iris 3.0 API that improver uses.

iris cannot be installed in this sandbox; this package lets the real improver
code run. It holds no improver logic."""
import warnings

import iris._constraints
import iris.exceptions
from iris._constraints import AttributeConstraint, Constraint, NameConstraint

__version__ = "3.0.3-standin"


class Future:
    def __getattr__(self, name):
        return None

    def context(self, **kwargs):
        import contextlib

        return contextlib.nullcontext()


FUTURE = Future()

import iris.coords  # noqa: E402
import iris.coord_systems  # noqa: E402
import iris.time  # noqa: E402
import iris.util  # noqa: E402
import iris.std_names  # noqa: E402
import iris.cube  # noqa: E402
import iris.analysis  # noqa: E402
import iris.analysis.cartography  # noqa: E402
import iris.analysis.maths  # noqa: E402
import iris.fileformats  # noqa: E402
import iris.fileformats.netcdf  # noqa: E402


def _generate_cubes(uris, callback=None):
    import glob
    import pathlib

    if isinstance(uris, (str, pathlib.PurePath)):
        uris = [uris]
    for uri in uris:
        uri = str(uri)
        paths = sorted(glob.glob(uri)) or ([uri] if __import__("os").path.exists(uri) else [])
        if not paths:
            raise IOError(
                "One or more of the files specified did not exist:\n    * {!r} didn't match any files".format(uri)
            )
        for path in paths:
            for cube in iris.fileformats.netcdf.load_cubes(path, callback):
                yield cube


def load_raw(uris, constraints=None, callback=None):
    cubes = iris.cube.CubeList(_generate_cubes(uris, callback))
    cs = iris._constraints.list_of_constraints(constraints)
    out = iris.cube.CubeList()
    for c in cs:
        for cube in cubes:
            r = c.extract(cube)
            if r is not None:
                out.append(r)
    return out


def load(uris, constraints=None, callback=None):
    return load_raw(uris, constraints, callback).merge(unique=False)


def load_cube(uris, constraint=None, callback=None):
    cubes = load(uris, constraint, callback)
    if len(cubes) != 1:
        raise iris.exceptions.ConstraintMismatchError(
            "failed to merge into a single cube." if cubes else "no cubes found"
        )
    return cubes[0]


def load_cubes(uris, constraints=None, callback=None):
    out = iris.cube.CubeList()
    for c in iris._constraints.list_of_constraints(constraints):
        cubes = load(uris, c, callback)
        if len(cubes) != 1:
            raise iris.exceptions.ConstraintMismatchError("expecting 1 cube for %r" % (c,))
        out.append(cubes[0])
    return out


def save(source, target, **kwargs):
    iris.fileformats.netcdf.save(source, str(target), **kwargs)
