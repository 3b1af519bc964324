"""C03: commands, pipelines and argument conversion.  C05: saving and loading."""
import datetime as dt
import json
import os
import sys

import numpy as np

from harness import gen
from harness.core import scenario
from harness.gen import cube, ensemble, snapshot, snap_diff


# ------------------------------------------------------------- C03 parsing
def random_tree(rng, depth=0):
    out = []
    for _ in range(rng.randint(0, 4)):
        if depth < 4 and rng.chance(0.35):
            out.append(random_tree(rng, depth + 1))
        else:
            out.append(rng.choice(["foo", "-o", "--x=1", "a b", "", "[x]", "]]", "-", "z"]))
    return out


def tokens(tree):
    out = []
    for t in tree:
        if isinstance(t, list):
            out += ["["] + tokens(t) + ["]"]
        else:
            out.append(t)
    return out


@scenario("C03", quick=150, thorough=4000)
def brackets(rng, mon):
    from improver.cli import unbracket

    tree = random_tree(rng)
    flat = tokens(tree)
    before = list(flat)
    mon.equal(unbracket(flat), tree, "nested arguments")
    mon.equal(flat, before, "arguments changed")
    mon.seen(str(flat.count("[")), len(flat))
    if "[" in flat:
        i = rng.choice([k for k, t in enumerate(flat) if t in "[]" and t])
        mon.raises(ValueError, unbracket, flat[:i] + flat[i + 1:], label="mismatched brackets accepted")
    mon.raises(ValueError, unbracket, flat + ["]"], label="mismatched brackets accepted")
    mon.raises(ValueError, unbracket, ["["] + flat, label="mismatched brackets accepted")


class Box:
    """An arbitrary object handed from one command to the next."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Box(%s)" % self.name


def recording_dispatcher(log):
    from improver import cli

    def make(name):
        def process(*items: cli.inputcube, tag: cli.comma_separated_list = None, fail=False):
            """Record one call.

            Args:
                items (object): inputs
                tag (list): tags
                fail (bool): raise
            """
            log.append((name, items, tag))
            if fail:
                raise RuntimeError("told to fail")
            return Box("%s(%s)" % (name, ",".join(i.name for i in items)))

        process.__name__ = name
        return cli.clizefy(process)

    from collections import OrderedDict

    table = OrderedDict((n, make(n)) for n in ("alpha", "beta", "gamma"))
    return cli.clizefy(table, description="test")


def random_call(rng, depth=0):
    """[command, args...] with nested calls; returns (argv tree, expected name)."""
    name = rng.choice(["alpha", "beta", "gamma"])
    args, parts = [name], []
    for _ in range(rng.randint(0 if depth else 1, 3)):
        if depth < 3 and rng.chance(0.5):
            a, n, calls = random_call(rng, depth + 1)
            args.append(a)
            parts.append((n, calls))
        else:
            b = Box("b%d" % rng.randint(0, 99))
            args.append(b)
            parts.append((b.name, []))
    tag = None
    if rng.chance(0.4):
        tag = ["t%d" % i for i in range(rng.randint(1, 3))]
        args.append("--tag=" + ",".join(tag))
    full = "%s(%s)" % (name, ",".join(n for n, _ in parts))
    order = [c for _, calls in parts for c in calls] + [(full, tag)]
    return args, full, order


@scenario("C03", quick=150, thorough=3000)
def pipelines(rng, mon):
    """Nested commands run innermost first, left to right, once each, objects handed over unchanged."""
    from improver.cli import execute_command

    log = []
    dispatcher = recording_dispatcher(log)
    argv, full, order = random_call(rng)
    mon.note(argv=argv)
    execute_command(dispatcher, "improver", *argv, dry_run=True)
    mon.equal(log, [], "dry run executed a command")
    result = execute_command(dispatcher, "improver", *argv)
    got = [("%s(%s)" % (n, ",".join(i.name for i in items)), tag) for n, items, tag in log]
    mon.equal(got, order, "order and arguments of commands")
    mon.equal(result.name, full, "pipeline result")

    direct = [a for a in argv[1:] if isinstance(a, Box)]
    passed = [i for i in log[-1][1] if i in direct]
    mon.check(len(passed) == len(direct) and all(any(p is d for p in passed) for d in direct),
              "object replaced on its way to a command")
    mon.event("commands run", len(log))
    mon.seen(len(log), order[-1][1] is None, max(full.count("("), 0))
    if rng.chance(0.3):
        del log[:]
        bad = list(argv)
        inner = ["beta", Box("x"), "--fail"]
        bad.insert(1, inner)
        mon.raises(RuntimeError, execute_command, dispatcher, "improver", *bad, label="failure of an inner command lost")
        mon.equal([n for n, _, _ in log], ["beta"], "commands run after an inner failure")


@scenario("C03", quick=30, thorough=300)
def main_entry(rng, mon):
    """The top level command feeds bracketed commands into each other."""
    from unittest.mock import patch

    from improver import cli

    log = []
    dispatcher = recording_dispatcher(log)
    depth = rng.randint(0, 3)
    argv, name = [], None
    with patch("improver.cli.SUBCOMMANDS_DISPATCHER", dispatcher):
        inner = []
        for k in range(depth):
            inner = ["[", "beta"] + inner + ["]"]
        with patch("improver.utilities.load.load_cube", side_effect=lambda p: Box(p)):
            out = cli.main("improver", "alpha", *inner, "file.nc") if False else cli.main.cli(
                "improver", "alpha", *inner, "file.nc")
    mon.equal([n for n, _, _ in log], ["beta"] * depth + ["alpha"], "commands run")
    mon.equal(out.name.count("beta"), depth, "nesting of results")
    mon.check(out.name.endswith("file.nc)"), "file argument loaded", name=out.name)
    mon.seen(depth)


@scenario("C03", quick=80, thorough=1500)
def converters(rng, mon):
    """Text is converted, anything else is handed through untouched."""
    from improver import cli

    obj = Box("o")
    for conv in (cli.inputcube, cli.inputcube_nolazy, cli.inputcubelist, cli.inputjson, cli.comma_separated_list,
                 cli.comma_separated_list_of_float, cli.inputpath, cli.inputdatetime):
        mon.check(conv(obj) is obj, "object not passed through", conv=conv)
        mon.check(conv(cli.ObjectAsStr(obj)) is obj, "wrapped object not unwrapped", conv=conv)
        mon.check(conv(cli.ObjectAsStr(obj, "some,name")) is obj, "named wrapped object not unwrapped", conv=conv)
    w = cli.ObjectAsStr(obj)
    mon.check(cli.ObjectAsStr(w) is w, "double wrapping")
    mon.check(isinstance(w, str) and len(str(w)) > 0, "wrapper is text")
    mon.check(isinstance(hash(w), int), "wrapper hash")
    names = ["n%d" % rng.randint(0, 99) for _ in range(rng.randint(1, 5))]
    mon.equal(cli.comma_separated_list(",".join(names)), names, "comma separated list")
    nums = [round(rng.uniform(-100, 100), 3) for _ in range(rng.randint(1, 5))]
    mon.equal(cli.comma_separated_list_of_float(",".join(map(str, nums))), nums, "comma separated numbers")
    data = {"a": nums, "b": {"c": names}, "d": None}
    with open("d.json", "w") as f:
        json.dump(data, f)
    mon.equal(cli.inputjson("d.json"), data, "json file")
    mon.equal(cli.inputjson(data), data, "json object")
    from improver.utilities.cli_utilities import load_json_or_none

    for nothing in (None, ""):
        mon.check(load_json_or_none(nothing) is None, "json absent")
    mon.raises(FileNotFoundError, load_json_or_none, "missing.json", label="missing json accepted")
    with open("bad.json", "w") as f:
        f.write('{"a": ')
    mon.raises(ValueError, load_json_or_none, "bad.json", label="broken json accepted")
    p = cli.inputpath("x/y.nc")
    mon.equal(str(p), os.path.join("x", "y.nc"), "path")
    t = gen.random_time(rng) + dt.timedelta(minutes=rng.randint(0, 59))
    mon.equal(cli.inputdatetime(t.strftime("%Y%m%dT%H%MZ")), t, "date and time")
    mon.raises(ValueError, cli.inputdatetime, rng.choice(["2017", "20171301T0000Z", "20170101T00"]), label="bad time accepted")
    mon.seen(len(names), len(nums))


@scenario("C03", quick=60, thorough=1000)
def constrained_lists(rng, mon):
    """Each constraint picks exactly one cube, in the order of the constraints."""
    from iris.cube import CubeList
    from iris.exceptions import ConstraintMismatchError

    from improver.cli import create_constrained_inputcubelist_converter as create

    names = rng.sample(["wind_speed", "air_temperature", "air_pressure", "relative_humidity", "surface_altitude"], 4)
    cubes = [cube(rng.np.rand(3, 3).astype(np.float32), name=n, units="1") for n in names]
    given = CubeList(rng.sample(cubes, 4))
    want = rng.sample(names, rng.randint(1, 3))
    cons = [(lambda c, n=n: c.name() in (n, "other")) if rng.chance(0.5) else n for n in want]
    out = create(*cons)(given)
    mon.equal([c.name() for c in out], want, "constrained order")
    mon.check(all(any(o is c for c in cubes) for o in out) or [c.data.tolist() for c in out] ==
              [next(c for c in cubes if c.name() == n).data.tolist() for n in want], "cube contents")
    mon.raises(ConstraintMismatchError, create(*cons, "no_such_name"), given, label="unmatched constraint accepted")
    mon.raises(ConstraintMismatchError, create(lambda c: c.name() in names[:2]), given, label="ambiguous constraint accepted")
    mon.seen(len(want), [callable(c) for c in cons])


@scenario("C03", quick=60, thorough=1000)
def radii(rng, mon):
    from improver.nbhood import radius_by_lead_time

    n = rng.randint(1, 5)
    radii = [str(rng.choice([2000, 1500.5, 20000, "1e4"])) for _ in range(n)]
    leads = [str(rng.randint(0, 120)) for _ in range(n)]
    r, l = radius_by_lead_time(list(radii), list(leads))
    mon.equal((r, l), ([float(x) for x in radii], [int(x) for x in leads]), "radii with lead times")
    mon.check(all(type(x) is float for x in r) and all(type(x) is int for x in l), "types of radii and lead times")
    if n == 1:
        one = radius_by_lead_time(list(radii), None)
        mon.equal(one, (float(radii[0]), None), "single radius")
        mon.check(type(one[0]) is float, "single radius type")
    else:
        mon.raises(ValueError, radius_by_lead_time, radii, None, label="radii without lead times accepted")
        mon.raises(ValueError, radius_by_lead_time, radii, leads[:-1], label="unequal lists accepted")
        mon.raises(ValueError, radius_by_lead_time, radii[:1], leads, label="unequal lists accepted")
    mon.seen(n)


@scenario("C03", quick=80, thorough=1500)
def input_lists(rng, mon):
    """Any nesting of cubes flattens in order; anything else is refused."""
    from iris.cube import Cube, CubeList

    from improver.utilities.common_input_handle import as_cube, as_cubelist
    from improver.utilities.flatten import flatten

    counter = [0]
    flat = []

    def build(depth):
        items = []
        for _ in range(rng.randint(0 if depth else 1, 3)):
            if depth < 3 and rng.chance(0.4):
                sub = build(depth + 1)
                items.append(rng.choice([list, tuple, CubeList])(sub) if all(isinstance(s, Cube) for s in sub) else sub)
            else:
                c = Cube(np.zeros(1, np.float32), long_name="c%d" % counter[0])
                counter[0] += 1
                flat.append(c)
                items.append(c)
        return items

    args = build(0)
    if not flat:
        mon.raises(ValueError, as_cubelist, *args, label="no cube accepted")
        return mon.seen("none")
    out = as_cubelist(*args)
    mon.check(isinstance(out, CubeList), "type of the list")
    mon.check(len(out) == len(flat) and all(a is b for a, b in zip(out, flat)), "flattened cubes", n=len(flat))
    mon.raises(TypeError, as_cubelist, args, rng.choice(["text", 3, {"a": 1}.keys()]), label="not a cube accepted")
    if len(flat) == 1:
        mon.check(as_cube(*args) is flat[0], "single cube")
    else:
        mon.raises(ValueError, as_cube, *args, label="unmergeable cubes accepted")
    parts = [cube(rng.np.rand(2, 2).astype(np.float32), scalars=[gen.realization_coord([k])]) for k in range(3)]
    merged = as_cube(parts[0], [parts[1], CubeList([parts[2]])])
    mon.array_equal(merged.data, np.stack([p.data for p in parts]), "merged cube")
    tree = [1, "ab", [2, (3, {4}), b"xy", []], iter([5, [6]])]
    mon.equal(list(flatten(tree)), [1, "ab", 2, 3, 4, b"xy", 5, 6], "flattened values")
    mon.equal(list(flatten("abc")), ["abc"], "flattened text")
    mon.equal(list(flatten(7)), [7], "flattened scalar")
    mon.seen(len(flat), len(args))


@scenario("C03", quick=20, thorough=200)
def stdout_redirect(rng, mon):
    """Output is caught inside the block only, whether or not it fails."""
    import io

    from improver.utilities.redirect_stdout import redirect_stdout

    before = sys.stdout
    target = io.StringIO()
    fail = rng.chance(0.5)
    try:
        with redirect_stdout(target):
            print("inside")
            if fail:
                raise KeyError("x")
    except KeyError:
        mon.event("raised")
    finally:
        after = sys.stdout
        sys.stdout = before
    mon.check(after is before, "stdout not restored", fail=fail)
    mon.equal(target.getvalue(), "inside\n", "captured output")
    mon.seen(fail)


@scenario("C03", quick=3, thorough=3)
def catalogue(rng, mon):
    """Everything advertised in the API and the command table exists and is callable."""
    import importlib
    import pkgutil

    import improver.api as api
    import improver.cli as cli
    from improver import BasePlugin

    for name, module in sorted(api.PROCESSING_MODULES.items()):
        try:
            obj = getattr(api, name)
        except ImportError as err:
            if any(m in str(err) for m in ("lightgbm", "treelite", "statsmodels", "sklearn", "timezonefinder", "numba")):
                mon.event("not installed")
                continue
            raise
        mon.check(callable(obj) and obj.__name__ == name, "api entry", name=name)
        mon.check(getattr(importlib.import_module(module.replace(".__init__", "")), name) is obj, "api entry module", name=name)
    files = sorted(m.name for m in pkgutil.iter_modules(cli.__path__) if m.name != "__main__")
    mon.equal(sorted(cli.SUBCOMMANDS_TABLE), sorted(files + ["help"]), "command table")
    for name in files:
        mod = importlib.import_module("improver.cli." + name)
        mon.check(cli.SUBCOMMANDS_TABLE[name] is mod.process, "command entry", name=name)
        mon.check(callable(mod.process.cli), "command callable", name=name)
    mon.raises((AttributeError, KeyError), getattr, api, "NoSuchPlugin", label="unknown plugin")
    mon.seen(len(files))


@scenario("C03", quick=24, thorough=300)
def output_option(rng, mon):
    """--output saves what the command returns; without it the result is returned."""
    from iris.cube import CubeList

    from improver import cli
    from improver.utilities.load import load_cubelist

    c = cube(rng.np.rand(4, 5).astype(np.float32), name="air_temperature")
    kind = rng.choice(["cube", "list", "none"])
    res = {"cube": c, "list": CubeList([c, cube(rng.np.rand(4, 5).astype(np.float32), name="wind_speed", units="m s-1")]),
           "none": None}[kind]

    @cli.clizefy
    @cli.with_output
    def process(name):
        """Doc.

        Args:
            name (str): name
        """
        return res

    mon.check(process.cli("p", "x") is res, "result returned")
    mon.check(not os.path.exists("o.nc"), "file written without being asked")
    digits = rng.choice([None, 1, 2])
    extra = [] if digits is None else ["--least-significant-digit=%d" % digits]
    extra += rng.choice([[], ["--compression-level=0"], ["--compression-level=9"]])
    out = process.cli("p", "x", "--output=o.nc", *extra)
    mon.check(out is None, "result returned although saved")
    if kind == "none":
        mon.check(not os.path.exists("o.nc"), "file written for nothing")
        return mon.seen(kind)
    back = load_cubelist("o.nc")
    want = [c] if kind == "cube" else list(res)
    mon.equal(sorted(b.name() for b in back), sorted(w.name() for w in want), "saved cubes")
    for w in want:
        b = next(b for b in back if b.name() == w.name())
        mon.close(b.data, w.data, "saved data", rtol=0 if digits is None else 1e-6,
                  atol=0 if digits is None else 10.0 ** -digits)
    thru = process.cli("p", "x", "--output=o2.nc", "--pass-through-output")
    mon.check(getattr(thru, "original_object", None) is res and str(thru) == "o2.nc", "passed through output")
    mon.check(os.path.exists("o2.nc"), "passed through output saved")
    mon.equal(sorted(f for f in os.listdir(".") if not f.endswith(".nc")), [], "leftover files")
    mon.seen(kind, digits, tuple(extra))


@scenario("C03", quick=16, thorough=150)
def real_pipeline(rng, mon):
    """A bracketed pipeline of real commands gives what running them one by one gives."""
    from improver import cli
    from improver.cli import generate_percentiles, nbhood, threshold
    from improver.utilities.load import load_cube
    from improver.utilities.save import save_netcdf

    c = ensemble(gen.smooth_field(rng, (3, 6, 7), 270, 290))
    save_netcdf(c.copy(), "in.nc")
    perc = "--percentiles=10,50,90"
    thr = "280,%d" % rng.randint(281, 289)
    if rng.chance(0.5):
        cli.main.cli("improver", "generate-percentiles", "[", "nbhood", "in.nc", "--neighbourhood-output=probabilities",
                     "--neighbourhood-shape=square", "--radii=4000", "]", "--coordinates=realization", perc, "--output=out.nc")
        step = nbhood.process(load_cube("in.nc"), neighbourhood_output="probabilities", neighbourhood_shape="square",
                              radii=["4000"])
        want = generate_percentiles.process(step, coordinates=["realization"], percentiles=["10", "50", "90"])
    else:
        cli.main.cli("improver", "threshold", "[", "nbhood", "in.nc", "--neighbourhood-output=probabilities",
                     "--neighbourhood-shape=circular", "--radii=4000", "]", "--threshold-values=" + thr, "--output=out.nc")
        step = nbhood.process(load_cube("in.nc"), neighbourhood_output="probabilities", neighbourhood_shape="circular",
                              radii=["4000"])
        want = threshold.process(step, threshold_values=thr.split(","))
    got = load_cube("out.nc")
    mon.close(got.data, want.data, "pipeline result", rtol=1e-6)
    mon.equal(got.name(), want.name(), "pipeline result name")
    mon.equal([k.name() for k in got.coords(dim_coords=True)], [k.name() for k in want.coords(dim_coords=True)], "dims")
    mon.seen(thr, want.ndim)


# ------------------------------------------------------------- C05 files
def random_cube(rng):
    kind = rng.choice(["plain", "ensemble", "percentile", "probability", "spot", "level"])
    ny, nx = rng.randint(2, 6), rng.randint(2, 6)
    t = gen.random_time(rng)
    kw = dict(time=t, frt=t - dt.timedelta(hours=rng.randint(0, 100)))
    if rng.chance(0.4):
        kw["bounds"] = (t - dt.timedelta(hours=1), t)
    kw["attributes"] = dict(gen.ATTRS, mosg__model_configuration="uk_ens") if rng.chance(0.5) else dict(gen.ATTRS)
    if rng.chance(0.3):
        kw["attributes"]["local_note"] = "a %d" % rng.randint(0, 9)
    n = rng.randint(2, 4)
    if kind == "spot":
        lead = [gen.realization_coord(n)] if rng.chance(0.5) else []
        shape = ((n,) if lead else ()) + (rng.randint(2, 6),)
        c = gen.spot(gen.smooth_field(rng, shape + (1,), 260, 300)[..., 0], lead=lead, **kw)
        return kind, c
    g = rng.choice(["equalarea", "latlon"])
    data = gen.smooth_field(rng, ((n,) if kind != "plain" else ()) + (ny, nx), 260, 300)
    if rng.chance(0.4):
        data = np.ma.masked_array(data, mask=gen.random_mask(rng, data.shape))
    if kind == "plain":
        c = cube(data, grid=g, **kw)
    elif kind == "ensemble":
        c = ensemble(data, grid=g, realizations=sorted(rng.sample(range(20), n)), **kw)
    elif kind == "percentile":
        c = gen.percentiles(data, sorted(rng.sample(range(1, 99), n)), grid=g, **kw)
    elif kind == "probability":
        spp = rng.choice(["greater_than", "less_than", "greater_than_or_equal_to", "less_than_or_equal_to"])
        c = gen.probabilities((data - 260) / 40, sorted(rng.sample(range(260, 300), n)), spp=spp, grid=g, **kw)
    else:
        c = cube(data, grid=g, lead=[gen.level_coord(sorted(rng.sample(range(10, 5000), n)), rng.choice(["height", "pressure"]))], **kw)
    return kind, c


def described(c):
    out = {"name": c.name(), "units": str(c.units), "shape": c.shape, "dtype": c.dtype.str,
           "attributes": {k: str(v) for k, v in c.attributes.items() if k not in ("Conventions", "least_significant_digit")}}
    out["dims"] = [k.name() for k in c.coords(dim_coords=True)]
    for k in c.coords():
        # iris keeps the units of integer time coordinates; text compares exactly
        out["coord " + k.name()] = (
            str(k.units), k.points.tolist(), None if k.bounds is None else k.bounds.tolist(),
            c.coord_dims(k), k.points.dtype.kind if k.points.dtype.kind != "S" else "U",
            sorted((a, str(b)) for a, b in k.attributes.items()), type(k.coord_system).__name__,
        )
    return out


@scenario("C05", quick=120, thorough=3000)
def save_and_load(rng, mon):
    """A saved cube loads as the same cube."""
    from improver.utilities.load import load_cube
    from improver.utilities.save import save_netcdf

    kind, c = random_cube(rng)
    want, data = described(c), c.data.copy()
    level = rng.choice([0, 1, 5, 9])
    digits = rng.choice([None, None, 1, 3])
    before = snapshot(c)
    save_netcdf(c, "f.nc", level, digits)
    mon.equal(snap_diff(before, snapshot(c)), None, "saving changed the cube", kind=kind)
    mon.equal(os.listdir("."), ["f.nc"], "leftover files")
    lazy = rng.chance(0.5)
    back = load_cube("f.nc", no_lazy_load=not lazy)
    if not lazy:
        mon.check(not back.has_lazy_data(), "data still lazy")
    got = described(back)
    if digits is not None:
        mon.equal(back.attributes.get("least_significant_digit"), digits, "recorded precision")
    for k in sorted(set(want) | set(got)):
        mon.equal(got.get(k), want.get(k), "loaded cube: " + ("coord" if k.startswith("coord") else k), what=k)
    mon.close(back.data, data, "loaded data", rtol=0, atol=0 if digits is None else 0.5001 * 10.0 ** -digits + 4e-5)
    mon.seen(kind, level, digits, np.ma.isMaskedArray(data), c.ndim, bool(c.coord("time").has_bounds()))
    if rng.chance(0.3):
        save_netcdf(back, "g.nc")
        again = load_cube("g.nc")
        mon.equal({k: v for k, v in described(again).items()}, got, "second round trip")


@scenario("C05", quick=80, thorough=1500)
def atomic_save(rng, mon):
    """A save that fails, wherever it fails, leaves the old file as it was."""
    from unittest.mock import patch

    import iris

    from improver.utilities.save import save_netcdf

    _, c = random_cube(rng)
    existed = rng.chance(0.7)
    old = b"the old contents %d" % rng.randint(0, 999)
    if existed:
        with open("f.nc", "wb") as f:
            f.write(old)
    real = iris.fileformats.netcdf.save
    fault = rng.choice(["before", "partial", "after", "enospc", "units", "dtype", "time", "compression"])
    seen = []

    def faulty(cubes, path, **kw):
        seen.append(str(path))
        if fault == "before":
            raise OSError("no space left")
        if fault in ("partial", "enospc"):
            with open(path, "wb") as f:
                f.write(b"CDF partial")
            raise OSError("no space left on device")
        real(cubes, path, **kw)
        raise KeyboardInterrupt()

    level = 1
    if fault == "units":
        c.units = "unknown"
    elif fault == "dtype":
        c.data = c.data.astype(np.float64)
    elif fault == "time":
        c.coord("time").convert_units("hours since 1970-01-01 00:00:00")
    elif fault == "compression":
        level = rng.choice([-1, 10, 2.5, 11])
    try:
        if fault in ("before", "partial", "after", "enospc"):
            with patch("iris.fileformats.netcdf.save", faulty):
                save_netcdf(c, "f.nc", level)
        else:
            save_netcdf(c, "f.nc", level)
    except (OSError, KeyboardInterrupt, ValueError):
        mon.checks += 1
    else:
        mon.fail("faulty save succeeded", fault=fault)
    mon.check("f.nc" not in seen, "the destination itself is written", seen=seen)
    mon.equal(os.path.exists("f.nc"), existed, "destination after a failed save", fault=fault)
    if existed:
        with open("f.nc", "rb") as f:
            mon.equal(f.read(), old, "old file after a failed save", fault=fault)
    mon.event("fault " + fault)
    mon.seen(fault, existed)


@scenario("C05", quick=60, thorough=1000)
def lists_and_constraints(rng, mon):
    """Several cubes and files: everything asked for comes back, nothing else."""
    from iris import Constraint
    from iris.cube import CubeList

    from improver.utilities.load import load_cube, load_cubelist
    from improver.utilities.save import save_netcdf

    names = rng.sample(["wind_speed", "air_temperature", "air_pressure", "relative_humidity"], rng.randint(2, 3))
    ny, nx = rng.randint(2, 5), rng.randint(2, 5)
    cubes = {}
    for n in names:
        c = cube(gen.smooth_field(rng, (ny, nx), 0, 9), name=n, units="1")
        if rng.chance(0.5):
            c.attributes["note_" + n] = n
        cubes[n] = c
    arg = list(cubes.values()) if rng.chance(0.5) else CubeList(cubes.values())
    save_netcdf(arg, "f.nc")
    back = load_cubelist("f.nc")
    mon.equal(sorted(c.name() for c in back), sorted(names), "names in the file")
    for c in back:
        mon.array_equal(c.data, cubes[c.name()].data, "data in the file")
        mon.equal({k for k in c.attributes if k.startswith("note_")},
                  {k for k in cubes[c.name()].attributes if k.startswith("note_")}, "own attributes of a cube")
    pick = rng.choice(names)
    con = pick if rng.chance(0.5) else Constraint(name=pick)
    one = load_cube("f.nc", con)
    mon.equal(one.name(), pick, "constrained load")
    mon.array_equal(one.data, cubes[pick].data, "constrained data")
    mon.raises(ValueError, load_cubelist, "f.nc", "no_such_name", label="nothing found accepted")
    # parts of an ensemble in several files
    data = gen.smooth_field(rng, (3, ny, nx), 0, 9)
    t = gen.random_time(rng)
    order = [0, 1, 2]
    rng.shuffle(order)
    for k in order:
        save_netcdf(cube(data[k], scalars=[gen.realization_coord([k])], time=t, frt=t), "r%d.nc" % k)
    full = load_cube(["r%d.nc" % k for k in order])
    mon.array_equal(full.coord("realization").points, np.arange(3, dtype=np.int32), "merged realizations")
    mon.array_equal(full.data, data, "merged data")
    # a constraint applies to every file of a list
    other = [n for n in ("dew_point", "wet_bulb") + tuple(names)][: rng.randint(1, 2)]
    save_netcdf(CubeList([cube(gen.smooth_field(rng, (ny, nx), 0, 9), name=n, units="1") for n in other]), "g.nc")
    got = load_cubelist(rng.choice([["f.nc", "g.nc"], ["g.nc", "f.nc"], ("f.nc",), ["f.nc"]]), con)
    mon.equal([g.name() for g in got], [pick], "constrained list of files")
    mon.array_equal(got[0].data, cubes[pick].data, "constrained list data")
    both = load_cubelist(["f.nc", "g.nc"])
    mon.equal(sorted(g.name() for g in both), sorted(names + other), "list of files")
    mon.raises(ValueError, load_cubelist, ["f.nc", "g.nc"], "no_such_name", label="nothing found in a list accepted")
    mon.seen(len(names), tuple(order), isinstance(con, str))


@scenario("C05", quick=40, thorough=500)
def layout_on_disk(rng, mon):
    """The file is compressed as asked, in chunks of one horizontal field."""
    import netCDF4

    from improver.utilities.save import save_netcdf

    kind, c = random_cube(rng)
    while c.ndim < 2:
        kind, c = random_cube(rng)
    level = rng.choice([0, 1, 4, 9])
    default = level == 1 and rng.chance(0.5)
    save_netcdf(c, "f.nc", *([] if default else [level]))
    with netCDF4.Dataset("f.nc") as ds:
        (var,) = [v for v in ds.variables.values() if v.shape == c.shape and getattr(v, "standard_name", getattr(v, "long_name", v.name)) == c.name()]
        mon.equal(tuple(var.chunking()), (1,) * (c.ndim - 2) + c.shape[-2:], "chunks", kind=kind)
        f = var.filters()
        mon.equal((bool(f["zlib"]), f["complevel"]), (level > 0, level), "compression")
        mon.equal(var.dtype, c.dtype, "type on disk")
    mon.seen(kind, level, c.ndim)


@scenario("C05", quick=50, thorough=800)
def dimension_order(rng, mon):
    """Probabilistic dimensions load first, y and x last, whatever order was saved."""
    from improver.utilities.load import load_cube
    from improver.utilities.save import save_netcdf
    from itertools import permutations

    kind = rng.choice(["realization", "percentile", "threshold"])
    n, nz, ny, nx = 2, 3, 4, 5
    lead = {"realization": gen.realization_coord(n), "percentile": gen.percentile_coord([20, 60]),
            "threshold": gen.threshold_coord([270, 280])}[kind]
    data = gen.smooth_field(rng, (n, nz, ny, nx), 0, 1)
    c = cube(data, name="air_temperature" if kind != "threshold" else "probability_of_air_temperature_above_threshold",
             units="K" if kind != "threshold" else 1, lead=[lead, gen.level_coord([10, 20, 30])])
    perm = rng.choice(list(permutations(range(4))))
    c.transpose(perm)
    save_netcdf(c, "f.nc")
    back = load_cube("f.nc")
    dims = [k.name() for k in back.coords(dim_coords=True)]
    first = "air_temperature" if kind == "threshold" else kind
    mon.equal(dims, [first, "height", "projection_y_coordinate", "projection_x_coordinate"], "dimension order", perm=perm)
    mon.array_equal(back.data, data, "data follows its dimensions", perm=perm)
    if kind == "threshold":
        mon.equal(back.coord(first).var_name, "threshold", "threshold marker")
    mon.seen(kind, perm)


@scenario("C05", quick=40, thorough=600)
def standards(rng, mon):
    """What is not in the standard types and units is refused, and only that."""
    from improver.metadata.check_datatypes import check_mandatory_standards, enforce_dtype

    kind, c = random_cube(rng)
    check_mandatory_standards(c)
    fault = rng.choice(["data", "coord", "time dtype", "time units", "period dtype", "period units", "bounds", "int ok"])
    t, p = c.coord("time"), c.coord("forecast_period")
    if fault == "data":
        c.data = c.data.astype(np.float64)
    elif fault == "coord":
        k = c.coord("altitude") if kind == "spot" else c.coord(axis=rng.choice("xy"))
        k.points = k.points.astype(np.float64)
    elif fault == "time dtype":
        t.points = t.points.astype(rng.choice([np.int32, np.float64, np.float32]))
    elif fault == "time units":
        t.convert_units(rng.choice(["minutes", "hours", "days"]) + " since 1970-01-01 00:00:00")
        t.points = t.points.astype(np.int64)
        t.bounds = None if t.bounds is None else t.bounds.astype(np.int64)
    elif fault == "period dtype":
        p.points = p.points.astype(rng.choice([np.int64, np.float32]))
    elif fault == "period units":
        p.convert_units("hours")
        p.points = p.points.astype(np.int32)
        p.bounds = None if p.bounds is None else p.bounds.astype(np.int32)
    elif fault == "bounds":
        if not t.has_bounds():
            t.bounds = np.array([[t.points[0] - 3600, t.points[0]]], np.int64)
        t.bounds = t.bounds.astype(np.float64)
    else:
        c.data = c.data.astype(rng.choice([np.int32, np.int16, np.int8]))
        check_mandatory_standards(c)
        return mon.seen(kind, fault)
    mon.raises(ValueError, check_mandatory_standards, c, label="departure from the standard accepted: " + fault)
    mon.seen(kind, fault)
