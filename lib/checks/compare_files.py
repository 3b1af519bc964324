"""C01: the netCDF comparison reports a difference exactly when there is one."""
import os

import numpy as np
from netCDF4 import Dataset

from harness.core import scenario

VTYPES = ["f4", "f8", "i4", "i8", "i1", "u1", "S1", "str"]


def random_attr(rng):
    k = rng.randint(0, 4)
    if k == 0:
        return "text %d" % rng.randint(0, 99)
    if k == 1:
        return np.float32(rng.uniform(-5, 5))
    if k == 2:
        return np.int32(rng.randint(-5, 5))
    if k == 3:
        return np.array([rng.uniform(-5, 5) for _ in range(rng.randint(2, 4))])
    return np.float64(rng.uniform(-1e6, 1e6))


def random_group(rng, depth=0):
    dims = {"d%d" % i: rng.randint(1, 5) for i in range(rng.randint(1, 3))}
    g = {"attrs": {"a%d" % i: random_attr(rng) for i in range(rng.randint(0, 3))},
         "dims": dims, "vars": {}, "groups": {}}
    if rng.chance(0.5):
        g["attrs"]["history"] = "made %d" % rng.randint(0, 99)
    names = list(dims)
    for d in names:
        if rng.chance(0.6):
            g["vars"][d] = {"type": rng.choice(["f4", "f8", "i4", "i8"]), "dims": (d,), "attrs": {}, "fill": None}
    for i in range(rng.randint(1, 4)):
        vd = tuple(rng.sample(names, rng.randint(0, len(names))))
        g["vars"]["v%d" % i] = {"type": rng.choice(VTYPES), "dims": vd,
                                "attrs": {"b%d" % j: random_attr(rng) for j in range(rng.randint(0, 2))},
                                "fill": None}
    for v in g["vars"].values():
        shape = tuple(dims[d] for d in v["dims"])
        if v["type"] == "str":
            v["data"] = np.array(["s%d" % rng.randint(0, 50) for _ in range(int(np.prod(shape)))], dtype=object).reshape(shape)
        elif v["type"] == "S1":
            v["data"] = np.array([chr(97 + rng.randint(0, 25)).encode() for _ in range(int(np.prod(shape)))], dtype="S1").reshape(shape)
        elif v["type"][0] in "iu":
            v["data"] = rng.np.randint(1, 100, size=shape).astype(v["type"])
        else:
            v["data"] = (rng.np.uniform(0.5, 1.0, size=shape) * rng.choice([1e-3, 1.0, 300.0, 1e5])).astype(v["type"])
            if v["data"].size > 1 and len(v["dims"]) > 1 and rng.chance(0.3):
                v["data"][tuple(0 for _ in shape)] = np.nan
            if rng.chance(0.3):
                v["fill"] = -9999.0
    if depth == 0 and rng.chance(0.4):
        g["groups"]["grp"] = random_group(rng, 1)
    return g


def write(ds, g):
    for k, v in g["attrs"].items():
        ds.setncattr(k, v)
    for k, n in g["dims"].items():
        ds.createDimension(k, n)
    for k, v in g["vars"].items():
        var = ds.createVariable(k, str if v["type"] == "str" else v["type"], v["dims"], fill_value=v["fill"])
        for a, b in v["attrs"].items():
            var.setncattr(a, b)
        if v["type"] == "str":
            for i in np.ndindex(*v["data"].shape):
                var[i if i else 0] = v["data"][i]
        else:
            var[...] = v["data"]
    for k, sub in g["groups"].items():
        write(ds.createGroup(k), sub)


def clone(g):
    out = {"attrs": dict(g["attrs"]), "dims": dict(g["dims"]), "vars": {}, "groups": {}}
    for k, v in g["vars"].items():
        out["vars"][k] = dict(v, data=v["data"].copy(), attrs=dict(v["attrs"]))
    for k, s in g["groups"].items():
        out["groups"][k] = clone(s)
    return out


def save(path, g):
    ds = Dataset(path, "w")
    write(ds, g)
    ds.close()


def change_attr(rng, attrs):
    keys = [k for k in attrs if k != "history"]
    if not keys:
        attrs["extra"] = "x"
        return "attribute added"
    k = rng.choice(keys)
    op = rng.randint(0, 2)
    if op == 0:
        del attrs[k]
        return "attribute removed"
    if op == 1:
        attrs["extra"] = random_attr(rng)
        return "attribute added"
    v = attrs[k]
    if isinstance(v, str):
        attrs[k] = v + "!"
    elif isinstance(v, np.ndarray):
        w = v.copy()
        w[rng.randint(0, len(w) - 1)] += 1.0
        attrs[k] = w
    else:
        attrs[k] = type(v)(v + 1)
    return "attribute value"


def big_vars(g):
    return [k for k, v in g["vars"].items() if v["type"] in ("f4", "f8") and v["dims"]]


def mutate(rng, g, rtol, atol):
    """Return (kind, detectable, names) after changing g in place."""
    target = g
    where = "root"
    if g["groups"] and rng.chance(0.5):
        target, where = g["groups"]["grp"], "group"
    coords = set(d for v in target["vars"].values() for d in v["dims"]) & set(target["vars"])
    while True:
        op = rng.randint(0, 9)
        names = sorted(target["vars"])
        name = rng.choice(names)
        v = target["vars"][name]
        if op == 0:
            return where + " " + change_attr(rng, target["attrs"]), True, None
        if op == 1:
            return where + " variable " + change_attr(rng, v["attrs"]), True, name
        if op == 2:
            del target["vars"][name]
            return where + " variable removed", True, name
        if op == 3:
            target["vars"]["extra"] = {"type": "f4", "dims": (), "attrs": {}, "fill": None,
                                       "data": np.array(1.0, np.float32)}
            return where + " variable added", True, "extra"
        if op == 4:
            target["dims"]["spare"] = 2
            return where + " dimension added", True, "spare"
        if op == 5 and "grp" in g["groups"]:
            del g["groups"]["grp"]
            return "group removed", True, None
        if op == 5:
            g["groups"]["other"] = {"attrs": {}, "dims": {}, "vars": {}, "groups": {}}
            return "group added", True, None
        if op == 6 and v["type"] in ("f4", "f8", "i4", "i8"):
            new = {"f4": "f8", "f8": "f4", "i4": "i8", "i8": "i4"}[v["type"]]
            v["type"] = new
            v["data"] = v["data"].astype(new)
            return where + " type", True, name
        if op in (7, 8) and not isinstance(v["data"], np.ndarray):
            v["data"] = np.array(v["data"])
        if op == 7 and v["data"].size:
            i = tuple(rng.randint(0, n - 1) for n in v["data"].shape)
            if v["type"] == "str":
                v["data"][i] = "other"
            elif v["type"] == "S1":
                v["data"][i] = b"Z"
            elif v["type"][0] in "iu":
                v["data"][i] = v["data"][i] + 1
                if name not in coords and atol >= 1:
                    continue
                if name not in coords and abs(1) <= atol + rtol * abs(float(v["data"][i] - 1)) * 2:
                    return where + " integer in tolerance", None, name
            else:
                if np.isnan(v["data"][i]):
                    v["data"][i] = 1.0
                    return where + " NaN replaced", True, name
                old = float(v["data"][i])
                step = 10 * (atol + rtol * abs(old)) + 1e-4 * abs(old)
                v["data"][i] = old + rng.choice([-1, 1]) * step
            return where + " value", True, name
        if op == 8 and v["type"] == "f8" and v["data"].size:
            # inside the tolerance: quiet for data, reported for coordinates
            i = tuple(rng.randint(0, n - 1) for n in v["data"].shape)
            old = float(v["data"][i])
            tol = atol + rtol * abs(old)
            if np.isnan(old) or tol < 1e-9 * abs(old):
                continue
            v["data"][i] = old + rng.choice([-0.4, 0.4]) * tol
            return where + (" coordinate" if name in coords else " value") + " in tolerance", name in coords, name
        if op == 9 and target["dims"]:
            d = rng.choice(sorted(target["dims"]))
            target["dims"][d] += 1
            for w in target["vars"].values():
                for ax, dn in enumerate(w["dims"]):
                    if dn == d:
                        w["data"] = np.concatenate([w["data"], w["data"].take([-1], axis=ax)], axis=ax)
            return where + " dimension size", True, d


def run(compare_netcdfs, a, b, rtol, atol, **kw):
    msgs = []
    compare_netcdfs(a, b, rtol=rtol, atol=atol, reporter=msgs.append, **kw)
    return msgs


@scenario("C01", quick=240, thorough=6000)
def one_difference(rng, mon):
    """A file agrees with its copy, and with one change it does not."""
    from improver.utilities.compare import compare_netcdfs

    rtol, atol = rng.choice([(1e-2, 1e-2), (1e-4, 1e-4), (0.0, 1e-3), (1e-3, 0.0), (0.0, 0.0)])
    g = random_group(rng)
    a, b, c = "a.nc", "b.nc", "c.nc"
    save(a, g)
    save(b, clone(g))
    h = clone(g)
    kind, expect, name = mutate(rng, h, rtol, atol)
    if expect is not None and atol == 0 and rtol == 0 and "in tolerance" in kind:
        expect = True
    save(c, h)
    mon.note(kind=kind, rtol=rtol, atol=atol, name=name)
    ign = rng.choice([None, ["history"]])
    mon.equal(run(compare_netcdfs, a, b, rtol, atol, ignored_attributes=ign), [], "copy reported as different")
    compare_netcdfs(a, b, rtol=rtol, atol=atol, ignored_attributes=ign)
    first, second = (a, c) if rng.chance(0.5) else (c, a)
    msgs = run(compare_netcdfs, first, second, rtol, atol, ignored_attributes=ign)
    if expect is None:
        return
    mon.event("difference" if expect else "no difference")
    mon.seen(kind, expect, name in (None,))
    if expect:
        mon.check(len(msgs) > 0, "difference not reported", kind=kind)
        mon.raises(ValueError, compare_netcdfs, first, second, rtol=rtol, atol=atol, ignored_attributes=ign,
                   label="difference not raised")
        if name is not None and "in tolerance" not in kind:
            mon.check(any(name in m for m in msgs), "difference not located", kind=kind, name=name, msgs=msgs)
    else:
        mon.equal(msgs, [], "difference within the tolerance reported")
    # an excluded variable hides differences of that variable alone
    if expect and name is not None and name.startswith("v") and ("value" in kind or "type" in kind or "variable" in kind):
        hidden = run(compare_netcdfs, first, second, rtol, atol, ignored_attributes=ign, exclude_vars=[name])
        mon.equal(hidden, [], "excluded variable reported", kind=kind, name=name)
        other = [v for v in ("v0", "v1", "v2", "v3", "zz") if v != name]
        seen = run(compare_netcdfs, first, second, rtol, atol, ignored_attributes=ign, exclude_vars=other[:1])
        if other[0] == "zz" or True:
            mon.check(len(seen) > 0, "excluding one variable hid another", kind=kind, name=name, excluded=other[0])


@scenario("C01", quick=60, thorough=1000)
def ignored_attributes(rng, mon):
    """Only the attributes listed are ignored, at every level."""
    from improver.utilities.compare import compare_netcdfs

    g = random_group(rng)
    v = rng.choice(sorted(g["vars"]))
    places = {"root": g["attrs"], "var": g["vars"][v]["attrs"]}
    if g["groups"]:
        places["group"] = g["groups"]["grp"]["attrs"]
    for p in places.values():
        p["history"] = "one"
        p["other"] = "one"
    h = clone(g)
    places_h = {"root": h["attrs"], "var": h["vars"][v]["attrs"]}
    if g["groups"]:
        places_h["group"] = h["groups"]["grp"]["attrs"]
    where = rng.choice(sorted(places))
    which = rng.choice(["history", "other"])
    how = rng.choice(["value", "removed", "type"])
    if how == "value":
        places_h[where][which] = "two"
    elif how == "removed":
        del places_h[where][which]
    else:
        places_h[where][which] = np.int32(3)
    save("a.nc", g)
    save("b.nc", h)
    mon.note(where=where, which=which, how=how)
    mon.seen(where, which, how)
    mon.check(len(run(compare_netcdfs, "a.nc", "b.nc", 1e-2, 1e-2)) > 0, "attribute difference not reported")
    mon.equal(run(compare_netcdfs, "a.nc", "b.nc", 1e-2, 1e-2, ignored_attributes=[which]), [],
              "ignored attribute reported")
    other = "other" if which == "history" else "history"
    mon.check(len(run(compare_netcdfs, "a.nc", "b.nc", 1e-2, 1e-2, ignored_attributes=[other])) > 0,
              "ignoring one attribute hid another")


@scenario("C01", quick=80, thorough=1500)
def tolerance_boundary(rng, mon):
    """|actual - desired| <= atol + rtol*|desired| decides, elementwise."""
    from improver.utilities.compare import compare_netcdfs

    rtol, atol = rng.choice([(1e-2, 0.0), (0.0, 1e-2), (1e-3, 1e-3), (1e-1, 1.0), (1e-5, 1e-8)])
    shape = (rng.randint(1, 4), rng.randint(1, 4))
    desired = rng.np.uniform(-1, 1, shape) * rng.choice([1e-6, 1.0, 1e4])
    if rng.chance(0.3):
        desired[0, 0] = 0.0
    tol = atol + rtol * np.abs(desired)
    factor = rng.choice([0.5, 0.9, 1.1, 3.0])
    i = (rng.randint(0, shape[0] - 1), rng.randint(0, shape[1] - 1))
    actual = desired + 0.5 * tol * rng.np.uniform(-1, 1, shape)
    actual[i] = desired[i] + rng.choice([-1, 1]) * factor * tol[i]
    kind = "plain"
    if tol[i] == 0.0:
        actual[i] = desired[i] if factor < 1 else 1e-6
    if rng.chance(0.2):
        j = (rng.randint(0, shape[0] - 1), rng.randint(0, shape[1] - 1))
        if j != i:
            desired[j] = np.nan
            if rng.chance(0.5):
                actual[j], kind = np.nan, "nan both"
            else:
                actual[j], kind = 1.0, "nan one"
    base = {"attrs": {}, "dims": {"y": shape[0], "x": shape[1]}, "groups": {}}
    var = {"type": "f8", "dims": ("y", "x"), "attrs": {}, "fill": None}
    save("a.nc", dict(base, vars={"t": dict(var, data=actual)}))
    save("d.nc", dict(base, vars={"t": dict(var, data=desired)}))
    msgs = run(compare_netcdfs, "a.nc", "d.nc", rtol, atol)
    expect = factor > 1 or kind == "nan one"
    mon.seen(rtol, atol, factor, kind)
    mon.equal(bool(msgs), expect, "tolerance rule", rtol=rtol, atol=atol, factor=factor, kind=kind)


@scenario("C01", quick=24, thorough=200)
def unreadable(rng, mon):
    """A missing or damaged file is a difference, never agreement."""
    from improver.utilities.compare import compare_netcdfs

    save("good.nc", random_group(rng))
    bad = rng.choice(["missing.nc", "junk.nc", "cut.nc"])
    if bad == "junk.nc":
        open(bad, "wb").write(b"not netcdf" * rng.randint(1, 30))
    elif bad == "cut.nc":
        blob = open("good.nc", "rb").read()
        open(bad, "wb").write(blob[: rng.randint(0, 40)])
    for pair in (("good.nc", bad), (bad, "good.nc")):
        mon.check(len(run(compare_netcdfs, pair[0], pair[1], 1e-2, 1e-2)) > 0, "unreadable file not reported", bad=bad)
        mon.raises(ValueError, compare_netcdfs, pair[0], pair[1], label="unreadable file not raised")
    mon.seen(bad)
    if os.path.exists(bad):
        os.remove(bad)


@scenario("C01", quick=80, thorough=800)
def special_attributes(rng, mon):
    """NaN attributes agree with themselves; any type change is reported, not fatal."""
    from improver.utilities.compare import compare_netcdfs

    pool = [np.float32(np.nan), np.float64(np.nan), np.array([1.0, np.nan]), "nan", np.array([1.0, 2.0]),
            np.array([4, 5, 6], np.int32), "a b", np.float32(1.0), np.int64(7), np.array([1.0, 2.0, 3.0])]
    i, j = rng.randint(0, len(pool) - 1), rng.randint(0, len(pool) - 1)
    if rng.chance(0.3):
        i, j = rng.choice([(0, 7), (7, 0), (1, 1), (0, 0), (2, 2), (3, 3)])  # NaN against a number, and NaN against itself
    base = {"attrs": {}, "dims": {"x": 2}, "groups": {}}
    var = {"type": "f4", "dims": ("x",), "fill": None, "data": np.array([1.0, 2.0], np.float32)}
    place = rng.choice(["root", "var"])
    for path, k in (("a.nc", i), ("b.nc", j)):
        v = dict(var, attrs={"q": pool[k]} if place == "var" else {})
        save(path, dict(base, vars={"t": v}, attrs={"q": pool[k]} if place == "root" else {}))
    mon.note(a=pool[i], b=pool[j])
    mon.seen(i == j, type(pool[i]).__name__, type(pool[j]).__name__)
    msgs = run(compare_netcdfs, "a.nc", "b.nc", 1e-2, 1e-2)
    if i == j:
        mon.equal(msgs, [], "identical attribute reported")
    else:
        mon.check(len(msgs) > 0, "different attribute not reported", a=pool[i], b=pool[j])
    mon.equal(run(compare_netcdfs, "a.nc", "b.nc", 1e-2, 1e-2, ignored_attributes=["q"]), [], "ignored attribute reported")


@scenario("C01", quick=40, thorough=500)
def shape_or_type(rng, mon):
    """A variable on other dimensions, or of another kind of type, is a difference."""
    from improver.utilities.compare import compare_netcdfs

    n = rng.randint(1, 3)
    base = {"attrs": {}, "dims": {"x": n, "y": n}, "groups": {}}
    val = rng.uniform(1, 2)
    options = [
        ("scalar", "f4", (), np.array(val, np.float32)),
        ("x", "f4", ("x",), np.full((n,), val, np.float32)),
        ("y", "f4", ("y",), np.full((n,), val, np.float32)),
        ("yx", "f4", ("y", "x"), np.full((n, n), val, np.float32)),
        ("xy", "f4", ("x", "y"), np.full((n, n), val, np.float32)),
        ("text", "str", ("x",), np.array(["1.5"] * n, dtype=object)),
        ("char", "S1", ("x",), np.array([b"1"] * n, dtype="S1")),
    ]
    i, j = rng.sample(range(len(options)), 2)
    for path, k in (("a.nc", i), ("b.nc", j)):
        _, typ, dims, data = options[k]
        save(path, dict(base, vars={"t": {"type": typ, "dims": dims, "attrs": {}, "fill": None, "data": data}}))
    mon.note(a=options[i][0], b=options[j][0], n=n)
    mon.seen(options[i][0], options[j][0])
    mon.check(len(run(compare_netcdfs, "a.nc", "b.nc", 1e-2, 1e-2)) > 0, "different variable not reported",
              a=options[i][0], b=options[j][0], n=n)


@scenario("C01", quick=80, thorough=1000)
def missing_and_packed(rng, mon):
    """A value that is missing on one side only is a difference, and packed values are compared as stored."""
    from improver.utilities.compare import compare_netcdfs

    kind = rng.choice(["f4", "f8", "i2", "i4"])
    n, m = rng.randint(1, 3), rng.randint(2, 4)
    fill = rng.choice([-9999, 0, 5]) if kind[0] == "i" else rng.choice([-9999.0, np.nan, 9.96e36, 0.0])
    packed = kind[0] == "i" and rng.chance(0.5)
    what = rng.choice(["same", "missing", "present", "other", "fill"])
    raw = rng.np.randint(10, 100, size=(n, m)).astype(kind)
    gone = rng.np.uniform(size=(n, m)) < 0.4
    gone.flat[0], gone.flat[-1] = True, False
    group = rng.chance(0.3)
    for path, second in (("a.nc", False), ("b.nc", True)):
        data = np.where(gone, np.array(fill).astype(kind), raw)
        if second and what == "missing":
            data.flat[-1] = fill
        elif second and what == "present":
            data.flat[0] = 50
        elif second and what == "other":
            data.flat[-1] += 3
        ds = Dataset(path, "w")
        ds.set_auto_maskandscale(False)
        g = ds.createGroup("part") if group else ds
        g.createDimension("y", n)
        g.createDimension("x", m)
        used = fill
        if second and what == "fill":
            used = 7
        v = g.createVariable("t", kind, ("y", "x"), fill_value=used)
        v.set_auto_maskandscale(False)
        if packed:
            v.scale_factor = np.float32(1e-4)
            v.add_offset = np.float32(273.0)
        v[:] = data
        ds.close()
    tol = rng.choice([0.0, 1e-3, 1e-2])
    msgs = run(compare_netcdfs, "a.nc", "b.nc", tol, tol)
    back = run(compare_netcdfs, "b.nc", "a.nc", tol, tol)
    mon.seen(kind, packed, what, group, str(fill))
    for x in (msgs, back):
        if what == "same":
            mon.equal(x, [], "faithful copy reported")
        else:
            mon.check(any("t" in k for k in x), "difference of missing or packed values not reported", what=what, fill=str(fill))


@scenario("C01", quick=60, thorough=800)
def coordinates_exactly(rng, mon):
    """Coordinates have to agree exactly, whichever dimension they belong to and whoever uses it."""
    from improver.utilities.compare import compare_netcdfs

    dims = ["realization", "time", "level", "y", "x"][: rng.randint(1, 5)]
    sizes = {d: rng.randint(1, 3) for d in dims}
    vs = {}
    for d in dims:
        vs[d] = {"type": rng.choice(["f4", "f8"]), "dims": (d,), "attrs": {}, "fill": None}
        vs[d]["data"] = (100.0 + np.arange(sizes[d])).astype(vs[d]["type"])
    if rng.chance(0.8):
        order = rng.sample(dims, len(dims))
        vs["field"] = {"type": "f4", "dims": tuple(order), "attrs": {}, "fill": None,
                       "data": rng.np.uniform(100, 200, size=[sizes[d] for d in order]).astype("f4")}
    vs["scalar"] = {"type": "f4", "dims": (), "attrs": {}, "fill": None, "data": np.array(150.0, "f4")}
    g = {"attrs": {}, "dims": sizes, "vars": vs, "groups": {}}
    part = rng.chance(0.3)
    top = {"attrs": {}, "dims": {}, "vars": {}, "groups": {"part": g}} if part else g
    save("a.nc", top)
    name = rng.choice(sorted(vs))
    i = tuple(rng.randint(0, k - 1) for k in vs[name]["data"].shape)
    vs[name]["data"] = vs[name]["data"].copy()
    vs[name]["data"][i] += 0.01
    save("b.nc", top)
    msgs = run(compare_netcdfs, "a.nc", "b.nc", 1e-3, 1e-3)
    mon.seen(name, len(dims), part, "field" in vs)
    if name in dims:
        mon.check(any(name in k for k in msgs), "coordinate within tolerance not reported", name=name, dims=dims)
    else:
        mon.equal(msgs, [], "value within tolerance reported")
    mon.equal(run(compare_netcdfs, "a.nc", "b.nc", 1e-3, 1e-3, exclude_vars=[name]), [], "excluded variable reported")
