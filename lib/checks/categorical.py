"""C42: decision trees.  C43: modal categories."""
import copy

import numpy as np
from iris.cube import CubeList

from harness import gen
from harness.core import scenario
from harness.gen import content, cube

dt = gen.dt


def snap_diff(a, b):
    return gen.snap_diff(a, b) or []


DIAGS = ["lwe_precipitation_rate", "low_cloud_area_fraction", "visibility_in_air", "wind_speed", "lwe_thickness_of_precipitation_amount"]
UNITS = {"lwe_precipitation_rate": "mm hr-1", "low_cloud_area_fraction": "1", "visibility_in_air": "m", "wind_speed": "m s-1",
         "lwe_thickness_of_precipitation_amount": "mm"}
OTHER = {"mm hr-1": ("m s-1", 3.6e6), "m": ("km", 1e3), "m s-1": ("km h-1", 1 / 3.6), "mm": ("m", 1e3)}
THRESH = {"lwe_precipitation_rate": [0.0, 0.03, 0.1, 1.0], "low_cloud_area_fraction": [0.1, 0.5, 0.8], "visibility_in_air": [50.0, 1000.0, 5000.0],
          "wind_speed": [5.0, 10.0, 20.0], "lwe_thickness_of_precipitation_amount": [0.0, 0.1, 1.0]}
DET = ["cloud_area_fraction", "precipitation_type_index"]
PERIOD = 3 * 3600


def pname(d, spp):
    return f"probability_of_{d}_{spp}_threshold"


def random_tree(rng, nnodes, codes, spps, optional):
    """A tree whose nodes point at later nodes or leaves; thresholds are (name, value in the cube's units)."""
    names = [f"node_{i}" for i in range(nnodes)]
    leaves = [f"leaf_{c}" for c in codes]
    tree = {"meta": {"name": "weather_code"}}
    plan = {}

    def field(d=None):
        d = d or rng.choice(DIAGS)
        t = rng.choice(THRESH[d])
        u = UNITS[d]
        acc = d == "lwe_thickness_of_precipitation_amount"
        if acc and t and rng.chance(0.6):
            spec = [t * 3600 / PERIOD, u, 3600]
        elif u in OTHER and rng.chance(0.3):
            spec = [t * OTHER[u][1] if False else t / 1.0, u]
            v, f = OTHER[u]
            spec = [t / f, v] if v in ("m s-1", "km", "m") else [t * 3.6, v]
        else:
            spec = [t, u]
        return d, t, spec

    for i, n in enumerate(names):
        after = names[i + 1:] or leaves
        options = (names[i + 1:] * 2 + leaves) if names[i + 1:] else leaves
        yes, no = rng.choice(options), rng.choice(options)
        cond = rng.choice([">=", ">", "<", "<="])
        kind = rng.choice(["one", "one", "two", "expr", "expr2", "det", "det2"])
        q = {"if_true": yes, "if_false": no, "threshold_condition": cond}
        if kind.startswith("det"):
            ds = rng.sample(DET, 2 if kind == "det2" else 1)
            comb = rng.choice(["AND", "OR"]) if kind == "det2" else ""
            ths = [rng.choice([0, 1, 2]) for _ in ds]
            q.update(deterministic=True, diagnostic_fields=ds, thresholds=ths, condition_combination=comb)
            plan[n] = (yes, no, cond, comb, [([("det", d)], t) for d, t in zip(ds, ths)])
        else:
            nf = 2 if kind in ("two", "expr2") else 1
            comb = rng.choice(["AND", "OR"]) if nf == 2 else ""
            fields, tspecs, cspecs, pths, terms = [], [], [], [], []
            for _ in range(nf):
                p = rng.choice([0.25, 0.5, 0.75])
                if kind.startswith("expr"):
                    k = rng.randint(2, 4)
                    f, ts, cs, expr = [], [], [], []
                    for m in range(k):
                        if m:
                            op = rng.choice(["+", "-", "*", "-", "+", "/"]) if rng.chance(0.8) else "*"
                            f.append(op)
                            expr.append(op)
                        if m and rng.chance(0.2):
                            v = rng.choice([0.5, 2.0, 2])
                            f.append(v)
                            expr.append(v)
                            continue
                        d, t, spec = field()
                        f.append(pname(d, spps[d]))
                        ts.append(spec)
                        cs.append(spps[d])
                        expr.append(("prob", d, t))
                    fields.append(f)
                    tspecs.append(ts)
                    cspecs.append([c.split("_")[0] if False else c for c in cs])
                    terms.append((expr, p))
                else:
                    d, t, spec = field()
                    fields.append(pname(d, spps[d]))
                    tspecs.append(spec)
                    cspecs.append(spps[d])
                    terms.append(([("prob", d, t)], p))
                pths.append(p)
            q.update(probability_thresholds=pths, condition_combination=comb, diagnostic_fields=fields,
                     diagnostic_thresholds=tspecs, diagnostic_conditions=cspecs)
            plan[n] = (yes, no, cond, comb, terms)
        if optional and rng.chance(0.3):
            q["if_diagnostic_missing"] = rng.choice(["if_true", "if_false"])
        tree[n] = q
    night = {}
    for k, c in enumerate(codes):
        tree[f"leaf_{c}"] = {"leaf": c}
    if len(codes) > 2 and rng.chance(0.5):
        a, b = rng.sample(codes, 2)
        tree[f"leaf_{a}"]["if_night"] = f"leaf_{b}"
        night[a] = b
    return tree, plan, night


def evaluate(expr, values):
    """Usual precedence, left to right."""
    v = [values(e) if isinstance(e, tuple) else e for e in expr]
    while len(v) > 1:
        at = next((i for i in range(1, len(v), 2) if v[i] in ("*", "/")), 1)
        a, op, b = v[at - 1:at + 2]
        with np.errstate(all="ignore"):
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
        v[at - 1:at + 2] = [r]
    return v[0]


def needed(q):
    out = set()
    for f in q["diagnostic_fields"]:
        for x in (f if isinstance(f, list) else [f]):
            if isinstance(x, str) and x not in "+-*/":
                out.add(x)
    return out


@scenario("C42", quick=90, thorough=2500)
def tree_walk(rng, mon):
    """Each point is taken through the tree on its own."""
    from improver.categorical.decision_tree import ApplyDecisionTree
    from improver.utilities.solar import DayNightMask

    ny, nx = rng.randint(1, 5), rng.randint(2, 6)
    codes = rng.sample(range(0, 30), rng.randint(2, 6))
    spps = {d: rng.choice(["above", "below"]) for d in DIAGS}
    optional = rng.chance(0.5)
    tree, plan, night = random_tree(rng, rng.randint(1, 6), codes, spps, optional)
    time = dt.datetime(2017, 6, 10, rng.choice([0, 3, 5, 12, 19, 22]))
    frt = dt.datetime(2017, 6, 10, 0) - dt.timedelta(hours=3)
    period = (time - dt.timedelta(seconds=PERIOD), time)
    cubes, values = {}, {}
    nr = 0 if night else rng.choice([0, 0, 2])
    lead0 = [gen.realization_coord(nr)] if nr else []
    shape = ((nr,) if nr else ()) + (ny, nx)
    masked = np.zeros(shape, bool)
    grid = rng.choice(["latlon", "latlon", "equalarea"])
    levels = [0.0, 0.2, 0.25, 0.4, 0.5, 0.6, 0.75, 1.0]
    shift = rng.chance(0.3)
    old_names = rng.chance(0.15)
    inexact = rng.chance(0.3)
    for d in DIAGS:
        ths = sorted(THRESH[d] + ([7e4] if rng.chance(0.3) else []))
        if rng.chance(0.2):
            ths = ths[::-1]
        data = rng.np.choice(levels, (len(ths),) + shape).astype(np.float32)
        if rng.chance(0.15):
            m = gen.random_mask(rng, shape)
            if m is not None:
                data = np.ma.masked_array(data, np.broadcast_to(m, data.shape))
        acc = d == "lwe_thickness_of_precipitation_amount"
        f = frt - dt.timedelta(hours=rng.choice([0, 1, 6])) if shift else frt
        c = cube(data, pname(d, spps[d]), "1", grid=grid,
                 lead=[gen.threshold_coord(ths, d, UNITS[d], "greater_than" if spps[d] == "above" else "less_than")] + lead0,
                 time=time, frt=f, bounds=period if acc else None, attributes={"title": "T", "source": "S", "institution": "I"})
        if lead0 and rng.chance(0.4):
            c.transpose([1, 0, 2, 3])
        tc = c.coord(d)
        if inexact:
            # thresholds are the same within a hundredth
            tc.points = (tc.points * np.float32(1 + rng.choice([-1, 1]) * rng.uniform(0, 8e-3))).astype(np.float32)
        if old_names:
            tc.rename("threshold")
            tc.var_name = "threshold"
        cubes[pname(d, spps[d])] = c
        for k, t in enumerate(ths):
            values[("prob", d, t)] = data[k].astype(float)
    for d in DET:
        data = rng.np.randint(0, 3, shape).astype(np.float32 if rng.chance(0.5) else np.int32)
        cubes[d] = cube(data, d, "1", grid=grid, lead=lead0, time=time, frt=frt, attributes={"title": "T", "source": "S", "institution": "I"})
        values[("det", d)] = data.astype(float)
    dropped = set()
    if optional:
        for n, q in tree.items():
            if n != "meta" and "leaf" not in q and "if_diagnostic_missing" in q and rng.chance(0.6):
                dropped.add(rng.choice(sorted(needed(q))))
    given = [c for k, c in cubes.items() if k not in dropped]
    rng.shuffle(given)
    title = rng.choice([None, None, "Given title"])
    missing_nodes = {n for n, q in tree.items() if n != "meta" and "leaf" not in q and needed(q) & dropped}
    refused = any("if_diagnostic_missing" not in tree[n] for n in missing_nodes)
    original = copy.deepcopy(tree)
    plugin = ApplyDecisionTree(tree, target_period=PERIOD, title=title)
    if refused:
        mon.raises(IOError, plugin, *given, label="missing input")
        mon.event("refusals")
        return
    if rng.chance(0.2):
        # a threshold further away than a hundredth is not there
        victims = [n for n in plan if n not in missing_nodes and not set(tree[n]) & {"if_diagnostic_missing"}]
        names = [k for k in needed(tree[victims[0]]) if k.startswith("probability")] if victims else []
        if names:
            off = []
            for c in given:
                c = c.copy()
                if c.name() == names[0]:
                    k = c.coord(var_name="threshold")
                    k.points = (k.points * np.float32(rng.choice([0.97, 1.03])) + np.float32(1e-3) * (k.points == 0)).astype(np.float32)
                off.append(c)
            mon.raises(IOError, ApplyDecisionTree(copy.deepcopy(original), target_period=PERIOD), *off, label="threshold that is not there")
            mon.event("thresholds displaced")
    start = "node_0"

    def hop(n):
        while n in missing_nodes:
            n = original[n][original[n]["if_diagnostic_missing"]]
        return n
    if hop(start).startswith("leaf"):
        return
    if rng.chance(0.3):
        plugin(*[c.copy() for c in cubes.values()])       # with every input first
    elif rng.chance(0.3):
        plugin(*[c.copy() for c in given])
        dropped, given, missing_nodes = set(), list(cubes.values()), set()
        mon.event("inputs found again")
    before = [content(c) for c in given]
    start = hop(start)
    out = plugin(*given) if rng.chance(0.5) else plugin(CubeList(given))
    # the oracle
    tests = {}
    close = np.zeros(shape, bool)
    gone = {}
    for n, (yes, no, cond, comb, terms) in plan.items():
        if n in missing_nodes:
            continue
        res, hid, near = None, np.zeros(shape, bool), np.zeros(shape, bool)
        for expr, p in terms:
            v = evaluate(expr, lambda e: np.ma.getdata(values[e]))
            for e in expr:
                if isinstance(e, tuple):
                    hid |= np.ma.getmaskarray(values[e])
            v = np.broadcast_to(v, shape)
            if len(expr) > 1:
                near |= np.abs(v - p) < 1e-5
                hid_nan = ~np.isfinite(v)
                near |= hid_nan
            r = {">=": v >= p, ">": v > p, "<": v < p, "<=": v <= p}[cond]
            res = r if res is None else (res & r if comb == "AND" else res | r)
        tests[n], gone[n] = res, (hid, near)
    want = np.zeros(shape, int)
    wmask = np.zeros(shape, bool)
    for idx in np.ndindex(*shape):
        n = start
        while n.startswith("node"):
            hid, near = gone[n]
            if near[idx]:
                close[idx] = True
            if hid[idx]:
                wmask[idx] = True
                break
            n = hop(plan[n][0] if tests[n][idx] else plan[n][1])
        want[idx] = original[n]["leaf"] if n.startswith("leaf") else 0
    if night:
        ref = out.copy(data=np.zeros(out.shape, np.int32))
        dn = DayNightMask()(ref).data
        dn = np.broadcast_to(dn, shape)
        for a, b in night.items():
            want = np.where((want == a) & (dn == 0), b, want)
    got = out
    if nr and got.coord_dims("realization") != (0,):
        got = got.copy()
        got.transpose([got.coord_dims("realization")[0]] + [i for i in range(3) if i != got.coord_dims("realization")[0]])
    ok = ~close
    mon.array_equal(np.ma.getmaskarray(got.data)[ok], wmask[ok], "points without a category")
    v = ok & ~wmask
    mon.array_equal(np.ma.getdata(got.data)[v], want[v], "category")
    mon.check(bool(np.isin(np.ma.getdata(got.data)[v], codes).all()), "known categories")
    mon.equal(out.name(), "weather_code", "name")
    mon.equal(out.dtype, np.dtype(np.int32), "dtype")
    mon.equal(list(map(int, out.attributes["weather_code"])), sorted(codes), "codes in the attributes")
    mon.equal(out.attributes["weather_code_meaning"], " ".join(f"leaf_{c}" for c in sorted(codes)), "meanings")
    mon.equal(out.attributes.get("title"), title or "T", "title")
    t = out.coord("time")
    mon.equal(int(t.points[0]), gen.seconds(time), "time")
    # period inputs give the period
    kept_acc = pname(DIAGS[4], spps[DIAGS[4]])
    mon.equal(t.has_bounds(), kept_acc not in dropped, "period")
    fp = out.coord("forecast_period").points[0]
    mon.equal(int(t.points[0] - out.coord("forecast_reference_time").points[0]), int(fp), "forecast period")
    used = [c for c in given if any(c.name() in needed(original[n]) for n in plan if n not in missing_nodes)]
    latest = max(int(c.coord("forecast_reference_time").points[0]) for c in used)
    if not missing_nodes:
        mon.equal(int(out.coord("forecast_reference_time").points[0]), latest, "latest reference time")
    mon.equal([c.name() for c in out.coords() if "threshold" in c.name() or c.name() in DIAGS], [], "threshold removed")
    for c, b in zip(given, before):
        mon.equal(snap_diff(b, content(c)), [], f"{c.name()} changed")
    mon.equal(snap_tree(tree), snap_tree(original), "tree changed")
    mon.event("points", want.size)
    for c in np.unique(want[v]):
        mon.event("leaves reached")
    mon.seen("tree", str(sorted((n, p[2], p[3]) for n, p in plan.items())))


def snap_tree(t):
    return {k: {a: (repr(b) if not hasattr(b, "points") else "coord") for a, b in v.items()} for k, v in t.items()}


@scenario("C42", quick=25, thorough=300)
def coincidence(rng, mon):
    """Times, periods and diagnostics that do not belong together are refused."""
    from improver.categorical.decision_tree import ApplyDecisionTree

    t0, frt = dt.datetime(2017, 6, 10, 12), dt.datetime(2017, 6, 10, 6)
    tree = {"meta": {"name": "x"},
            "a": {"if_true": "l1", "if_false": "b", "probability_thresholds": [0.5], "threshold_condition": ">=", "condition_combination": "",
                  "diagnostic_fields": [pname("wind_speed", "above")], "diagnostic_thresholds": [[10, "m s-1"]], "diagnostic_conditions": ["above"]},
            "b": {"if_true": "l1", "if_false": "l2", "probability_thresholds": [0.5], "threshold_condition": ">=", "condition_combination": "",
                  "diagnostic_fields": [pname(DIAGS[4], "above")], "diagnostic_thresholds": [[1, "mm", 3600]], "diagnostic_conditions": ["above"]},
            "l1": {"leaf": 1}, "l2": {"leaf": 2}}
    per = rng.choice([3600, 10800])

    def acc(hours, name=DIAGS[4], t=t0):
        return cube(rng.np.choice([0.0, 1.0], (3, 3, 3)).astype(np.float32), pname(name, "above"), "1",
                    lead=[gen.threshold_coord([1.0, 3.0, 5.0], name, "mm")], time=t, frt=frt, bounds=(t - dt.timedelta(seconds=hours), t))
    w = cube(rng.np.choice([0.0, 1.0], (3, 3)).astype(np.float32)[None], pname("wind_speed", "above"), "1",
             lead=[gen.threshold_coord([10.0], "wind_speed", "m s-1")], time=t0, frt=frt)
    bad = rng.choice([None, "time", "periods", "target", "no period", "threshold", "spp", "untimed"])
    cubes = [w, acc(per)]
    target = per
    exc = ValueError
    if bad == "time":
        cubes[0] = cube(w.data, w.name(), "1", lead=[gen.threshold_coord([10.0], "wind_speed", "m s-1")], time=t0 + dt.timedelta(hours=1), frt=frt)
    elif bad == "periods":
        cubes.append(acc(2 * per, "lwe_thickness_of_snowfall_amount"))
    elif bad == "target":
        target = 2 * per
    elif bad == "no period":
        target = None
    elif bad == "threshold":
        cubes[0].coord(var_name="threshold").points = np.array([11.0], np.float32)
        exc = IOError
    elif bad == "spp":
        c = cubes[0].coord(var_name="threshold")
        c.attributes["spp__relative_to_threshold"] = "less_than"
        exc = IOError
    if rng.chance(0.5):
        cubes = cubes[::-1]
    if bad == "untimed":
        # a tree that names no period takes any
        tree["b"]["diagnostic_thresholds"] = [[1, "mm"]]
        out = ApplyDecisionTree(tree, **rng.choice([{}, {"target_period": None}]))(*cubes)
        a = [c for c in cubes if c.name() == pname(DIAGS[4], "above")][0].data[0]
        mon.array_equal(np.asarray(out.data), np.where((w.data[0] >= 0.5) | (a >= 0.5), 1, 2), "no period asked for")
        return mon.seen("bad", bad)

    def run():
        return ApplyDecisionTree(copy.deepcopy(tree), target_period=target)(*cubes)
    if bad:
        mon.raises(exc, run, label=bad)
        mon.event("refusals")
    else:
        out = run()
        k = [1.0, 3.0].index(per / 3600)
        a = [c for c in cubes if c.name() == pname(DIAGS[4], "above")][0].data[k]
        want = np.where((w.data[0] >= 0.5) | (a >= 0.5), 1, 2)
        mon.array_equal(np.asarray(out.data), want, "scaled threshold")
        mon.event("points", 9)
    mon.seen("bad", str(bad))


BASE_TREE = {
    "meta": {"name": "weather_code"},
    "start": {"if_true": "second", "if_false": "dry", "probability_thresholds": [0.5], "threshold_condition": ">=", "condition_combination": "",
              "diagnostic_fields": ["probability_of_lwe_precipitation_rate_above_threshold"], "diagnostic_thresholds": [[0.1, "mm hr-1"]],
              "diagnostic_conditions": ["above"], "if_diagnostic_missing": "if_false"},
    "second": {"if_true": "rain", "if_false": "snow", "probability_thresholds": [0.5, 0.3], "threshold_condition": "<", "condition_combination": "OR",
               "diagnostic_fields": ["probability_of_lwe_precipitation_rate_above_threshold", "probability_of_wind_speed_above_threshold"],
               "diagnostic_thresholds": [[1.0, "mm hr-1"], [10, "m s-1"]], "diagnostic_conditions": ["above", "above"]},
    "third": {"if_true": "dry", "if_false": "rain", "thresholds": [1], "threshold_condition": ">", "condition_combination": "",
              "diagnostic_fields": ["precipitation_type_index"], "deterministic": True},
    "rain": {"leaf": 10, "group": "wet"}, "snow": {"leaf": 12, "group": "wet"}, "dry": {"leaf": 1, "if_night": "dry_night"},
    "dry_night": {"leaf": 0},
}


@scenario("C42", quick=60, thorough=1200)
def tree_checks(rng, mon):
    """Faults put in a sound tree are all reported, and nothing else."""
    from improver.categorical.utilities import check_tree

    t = copy.deepcopy(BASE_TREE)
    t["second"]["if_true"] = "third"
    faults = rng.sample([
        "no meta", "meta key", "meta extra", "duplicate leaf", "leaf key", "unreachable leaf", "reachable marked", "leaf type", "night target missing",
        "night target node", "night of night", "group of one", "node key", "unreachable node", "missing key", "combination none", "combination extra",
        "threshold condition", "destination", "bare", "diagnostic condition", "nesting", "non-numeric", "count"], rng.choice([0, 0, 1, 1, 2, 3]))
    expect = []
    if "no meta" in faults:
        faults = [f for f in faults if not f.startswith("meta")]
    for f in faults:
        if f == "no meta":
            t.pop("meta", None)
            expect.append("does not contain a mandatory meta key")
        elif f == "meta key":
            if "meta" in t:
                t["meta"].pop("name", None)
                expect.append("Meta node does not contain mandatory keys {'name'}")
        elif f == "meta extra":
            if "meta" in t:
                t["meta"]["kitten"] = 1
                expect.append("Meta node contains unexpected keys {'kitten'}")
        elif f == "duplicate leaf":
            t["snow"]["leaf"] = t["rain"]["leaf"]
            expect.append("These leaf categories are used more than once: [%s]" % t["rain"]["leaf"])
        elif f == "leaf key":
            t["rain"]["kitten"] = 1
            expect.append("Leaf node 'rain' contains unknown key 'kitten'")
        elif f == "unreachable leaf":
            t["hail"] = {"leaf": 20}
            expect.append("Unreachable leaf 'hail'.")
        elif f == "reachable marked":
            t["snow"]["is_unreachable"] = True
            expect.append("Leaf 'snow' has 'is_unreachable' but can be reached.")
        elif f == "leaf type":
            t["dry_night"]["leaf"] = "0"
            expect.append("Leaf 'dry_night' has non-int target: 0")
        elif f == "night target missing":
            t["rain"]["if_night"] = "kitten"
            expect.append("Leaf 'rain' does not point to a valid target (kitten).")
        elif f == "night target node":
            t["rain"]["if_night"] = "second"
            expect.append("Target 'second' of leaf 'rain' is not a leaf.")
            if "night target missing" in faults:
                return
        elif f == "night of night":
            t["snow"]["if_night"] = "dry"
            expect.append("Night target 'dry' of leaf 'snow' also has a night target.")
        elif f == "group of one":
            t["dry"]["group"] = "alone"
            expect.append("Leaf 'dry' is in a group of 1 (alone).")
        elif f == "node key":
            t["second"]["kitten"] = 1
            expect.append("Node second contains unknown key 'kitten'")
        elif f == "unreachable node":
            t["other"] = copy.deepcopy(BASE_TREE["third"])
            expect.append("Unreachable node 'other'")
        elif f == "missing key":
            t["start"]["if_diagnostic_missing"] = "dry"
            expect.append("targets key 'dry' which is neither")
        elif f == "combination none":
            t["second"]["condition_combination"] = ""
            expect.append("utilises 2 diagnostic fields but '' is not a valid combination condition")
        elif f == "combination extra":
            t["third"]["condition_combination"] = "AND"
            expect.append("Node third utilises combination condition 'AND' but does not use 2")
        elif f == "threshold condition":
            t["third"]["threshold_condition"] = "=="
            expect.append("Node third uses invalid threshold condition ==")
        elif f == "destination":
            t["third"]["if_false"] = "kitten"
            expect.append("Node third has an invalid destination of kitten for the if_false condition")
            if "bare" in faults:
                return
        elif f == "bare":
            t["third"]["if_false"] = 3
            expect.append("Node third results in a bare category of 3 for the if_false condition")
        elif f == "diagnostic condition":
            t["start"]["diagnostic_conditions"] = ["over"]
            expect.append("Node start uses invalid diagnostic condition 'over'")
            if "nesting" in faults:
                return
        elif f == "nesting":
            t["start"]["diagnostic_conditions"] = [["above"]]
            expect.append("Node start has inconsistent nesting")
        elif f == "non-numeric":
            t["second"]["probability_thresholds"] = [0.5, "0.3"]
            expect.append("Node second has a non-numeric probability threshold")
            if "count" in faults:
                return
        elif f == "count":
            t["second"]["probability_thresholds"] = [0.5]
            expect.append("Node second has a different number of probability thresholds")
    allowed = ["Unreachable leaf 'rain'"] if {"destination", "bare"} & set(faults) else []
    copied = copy.deepcopy(t)
    got = check_tree(t)
    if not expect:
        mon.check(got.startswith("Decision tree OK"), "sound tree", got=got)
        lines = got.splitlines()[2:]
        mon.equal(lines, ["\u26C5 precipitation_type_index (deterministic)",
                          "\u26C5 probability_of_lwe_precipitation_rate_above_threshold (mm hr-1): 0.1, 1.0",
                          "\u26C5 probability_of_wind_speed_above_threshold (m s-1): 10"], "requirements")
    else:
        lines = got.splitlines()
        for e in expect:
            mon.check(any(e in x for x in lines), "fault reported", fault=e, got=got)
        extra = [x for x in lines if not any(e in x for e in expect + allowed)]
        mon.equal(extra, [], "nothing else reported")
    mon.equal(snap_tree(t), snap_tree(copied), "tree changed")
    mon.raises(ValueError, check_tree, [t], label="not a dictionary")
    mon.event("trees")
    mon.seen("faults", str(sorted(faults)))


# ------------------------------------------------------------ C43
@scenario("C43", quick=90, thorough=2500)
def modal(rng, mon):
    from improver.categorical.modal_code import ModalCategory

    ny, nx = rng.choice([1, 2, 4]), rng.choice([1, 2, 5])
    n = rng.choice([1, 2, 3, 5, 8, 12, 24])
    codes = sorted(rng.sample(range(0, 40), rng.randint(3, 14)))
    tree = {"meta": {"name": "weather_code"}}
    for c in codes:
        tree[f"leaf_{c}"] = {"leaf": c}
    free = codes[:]
    rng.shuffle(free)
    night = {}
    for _ in range(rng.randint(0, 3)):
        if len(free) > 4:
            a, b = free.pop(), free.pop()
            tree[f"leaf_{a}"]["if_night"] = f"leaf_{b}"
            night[a] = b
    days = [c for c in codes if c not in night.values()]
    rng.shuffle(days)
    groups = {}
    pool = days[:]
    for g in range(rng.randint(0, 3)):
        k = rng.randint(2, 4)
        if len(pool) >= k:
            groups[f"g{g}"] = [pool.pop() for _ in range(k)]
            for c in groups[f"g{g}"]:
                tree[f"leaf_{c}"]["group"] = f"g{g}"
    if rng.chance(0.4):
        items = list(tree.items())
        rng.shuffle(items)
        tree = dict(items)
    step = rng.choice([3600, 10800])
    start = dt.datetime(2017, 6, 10, 0)
    times = [start + dt.timedelta(seconds=step * (i + 1)) for i in range(n)]
    spotty = rng.chance(0.25)
    shape = (n, max(ny * nx, 1)) if spotty else (n, ny, nx)
    data = rng.np.choice(codes if rng.chance(0.6) else rng.sample(codes, 2), shape).astype(np.int32)
    nr = 0
    if not spotty and rng.chance(0.25):
        nr = rng.randint(2, 3)
        data = rng.np.choice(codes, (n, nr, ny, nx)).astype(np.int32)
    attrs = {"title": "T", "source": "S", "institution": "I", "mosg__model_configuration": "uk_det uk_ens"}
    model = rng.choice([None, "mosg__model_configuration"])
    record = rng.choice([None, None, "mosg__model_run"]) if model else None
    blended = rng.chance(0.3)
    frts = []
    cs = CubeList()
    drift = rng.choice([0, 0, 3600])  # later times from later runs
    for i, t in enumerate(times):
        frt = start - dt.timedelta(hours=30) + dt.timedelta(seconds=drift * i)
        frts.append(frt)
        at = dict(attrs)
        if i % 2 and rng.chance(0.5):
            at["mosg__model_configuration"] = "nc_det uk_ens"
        if record:
            at[record] = "uk_det:20170609T2100Z:1.000"
        b = (t - dt.timedelta(seconds=step), t)
        if spotty:
            c = gen.spot(data[i], "weather_code", "1", time=t, frt=frt, attributes=at) if False else None
            c = gen.spot(data[i], "weather_code", "1", time=t, frt=frt)
            c.attributes = at
            from iris.coords import DimCoord
            for nm, lo in (("time", b[0]), ("forecast_period", None)):
                co = c.coord(nm)
                p = co.points[0]
                c.coord(nm).bounds = np.array([p - step, p], p.dtype)
        else:
            c = cube(data[i], "weather_code", "1", time=t, frt=frt, bounds=b, attributes=at,
                     lead=[gen.realization_coord(nr)] if nr else [], blend_time=frt if blended else None)
        cs.append(c)
    bad = rng.chance(0.06) and n > 1
    order = list(range(n))
    if rng.chance(0.4):
        rng.shuffle(order)
    ins = CubeList([cs[i] for i in order])
    if bad:
        co = ins[0].coord("time")
        b = co.bounds.copy()
        b[0, 0] -= 1800
        co.bounds = b
        mon.raises(ValueError, ModalCategory(tree), ins, label="periods")
        mon.event("refusals")
        return
    before = [content(c) for c in ins]
    orig = copy.deepcopy(tree)
    plugin = ModalCategory(tree, model_id_attr=model, record_run_attr=record)
    out = plugin(ins)
    if rng.chance(0.3) and not record:
        out = plugin(ins)
    inv = {b: a for a, b in night.items()}
    want = np.zeros(data.shape[1:], int)
    for idx in np.ndindex(*data.shape[1:]):
        v = [inv.get(int(x), int(x)) for x in data[(slice(None),) + idx]]

        def mode(v):
            cnt = {}
            for x in v:
                cnt[x] = cnt.get(x, 0) + 1
            top = max(cnt.values())
            return max(x for x, k in cnt.items() if k == top), top
        m, top = mode(v)
        if n > 1 and top < 0.3 * n:
            mon.event("ungrouped")
            for g in groups.values():
                have = [x for x in v if x in g]
                if have:
                    v = [min(have) if x in g else x for x in v]
            m, top = mode(v)
        want[idx] = m
    mon.array_equal(np.asarray(np.ma.getdata(out.data)), want, "modal category")
    mon.check(np.issubdtype(out.dtype, np.integer), "integer codes", got=str(out.dtype))
    t = out.coord("time")
    mon.equal([int(t.points[0]), [int(x) for x in t.bounds[0]]], [gen.seconds(times[-1]), [gen.seconds(start), gen.seconds(times[-1])]], "period")
    fp = out.coord("forecast_period")
    mon.equal(int(fp.points[0]), gen.seconds(times[-1]) - gen.seconds(frts[-1]), "forecast period")
    mon.equal([int(x) for x in out.coord("forecast_reference_time").points], [gen.seconds(frts[-1])], "latest reference time")
    if blended and not spotty:
        mon.equal([int(x) for x in out.coord("blend_time").points], [gen.seconds(frts[-1])], "latest blend time")
        mon.check(not out.coord("blend_time").has_bounds(), "blend time bounds")
    mon.equal([int(x) for x in fp.bounds[0]], [gen.seconds(start) - gen.seconds(frts[-1]), gen.seconds(times[-1]) - gen.seconds(frts[-1])], "forecast period bounds")
    mon.equal(out.coord("forecast_reference_time").has_bounds(), False, "reference time bounds")
    mon.equal([(m.method, m.intervals) for m in out.cell_methods], [("mode", (f"{step // 3600} hour",))], "cell method")
    if model:
        models = sorted({m for c in cs for m in c.attributes[model].split()})
        mon.equal(out.attributes[model], " ".join(models), "models")
    if record:
        mon.equal(out.attributes.get(record), "uk_det:20170609T2100Z:", "record of runs")
        mon.equal(out.coords("source_realizations") or out.coords("record_run"), [], "record coordinate removed")
    else:
        for c, b in zip(ins, before):
            mon.equal(snap_diff(b, content(c)), [], "input changed")
    mon.equal(snap_tree(tree), snap_tree(orig), "tree changed")
    mon.event("points", want.size)
    mon.seen("case", f"{n} {data.shape} {len(groups)} {len(night)}")
