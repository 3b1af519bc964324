"""C45: small helpers that everything else rests on."""
import math
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import types

import numpy as np

from harness.core import scenario

REPO = os.environ.get("VERIF_REPO", "/repo")

SQ2 = math.sqrt(2.0)


# ------------------------------------------------------------- choose
@scenario("C45", quick=150, thorough=5000)
def choose(rng, mon):
    from improver.utilities.indexing_operations import choose as f

    nd = rng.choice([1, 2, 3, 3, 4])
    shape = tuple(rng.randint(1, 5) for _ in range(nd))
    dtype = rng.choice([np.float32, np.float64, np.int32, np.int64])
    a = (rng.np.uniform(-100, 100, shape)).astype(dtype)
    if dtype in (np.float32, np.float64) and rng.chance(0.3):
        a.flat[rng.randint(0, a.size - 1)] = np.nan
    idx = rng.np.randint(0, shape[0], shape).astype(rng.choice([np.int32, np.int64]))
    if rng.chance(0.3):
        idx[...] = shape[0] - 1
    if rng.chance(0.3):
        a = np.asfortranarray(a)
    keep = a.copy(), idx.copy()
    got = f(idx, a)
    want = np.empty(shape, dtype)
    for p in np.ndindex(*shape):
        want[p] = a[(int(idx[p]),) + p[1:]]
    mon.array_equal(got, want, "the value picked at each place")
    mon.equal([got.shape, str(got.dtype)], [shape, str(a.dtype)], "shape and type")
    mon.check(np.array_equal(idx, keep[1]) and np.array_equal(a, keep[0], equal_nan=dtype in (np.float32, np.float64)), "input changed")
    got[...] = 0
    mon.check(np.array_equal(a, keep[0], equal_nan=dtype in (np.float32, np.float64)), "the result is a copy")
    bad = idx.copy()
    bad.flat[rng.randint(0, bad.size - 1)] = shape[0] + rng.choice([0, 0, 3])
    mon.raises(IndexError, f, bad, a, label="index beyond the end")
    other = np.zeros(tuple(s + (1 if i == nd - 1 else 0) for i, s in enumerate(shape)), int)
    mon.raises(ValueError, f, other, a, label="shapes")
    mon.event("picked", a.size)
    mon.seen("shape", str(shape))


# ----------------------------------------------------------- rounding
@scenario("C45", quick=150, thorough=5000)
def rounding(rng, mon):
    from improver.utilities.round import round_close

    n = rng.randint(1, 6)
    base = rng.np.randint(-40000, 40000, n).astype(np.int64)
    if rng.chance(0.3):
        base = rng.np.randint(0, 2 ** 31 - 1, n).astype(np.int64)
    if rng.chance(0.2):
        base[0] = 0
    noise = rng.np.uniform(-1, 1, n) * rng.choice([0, 1e-9, 5e-8])
    dtype = rng.choice([None, np.int64, np.int32])
    kind = rng.choice(["array", "array", "scalar", "list", "2d", "f32"])
    data = base + noise
    if kind == "scalar":
        data, base = float(data[0]), base[0]
    elif kind == "list":
        data = [float(x) for x in data]
    elif kind == "2d":
        data, base = data.reshape(1, -1), base.reshape(1, -1)
    elif kind == "f32":
        base = base % 16000000
        data = base.astype(np.float32)
    keep = np.array(data, copy=True)
    got = round_close(data) if dtype is None else round_close(data, dtype=dtype)
    mon.equal(np.asarray(got).dtype, np.dtype(dtype or np.int64), "type")
    mon.array_equal(np.asarray(got), np.asarray(base, dtype or np.int64), "nearest whole number")
    mon.check(np.array_equal(keep, np.asarray(data)), "input changed")
    bad = np.array([3.0, 7.0, rng.randint(-900, 900)])
    bad[rng.randint(0, 2)] += rng.choice([0.5, -0.5, 0.1, -0.3, 0.02])
    mon.raises(ValueError, round_close, bad, label="not whole")
    mon.raises(ValueError, round_close, np.array([1.0, np.nan]), label="not a number")
    if dtype == np.int32:
        mon.raises(ValueError, round_close, np.array([1.0, 2.0 ** 40]), dtype=np.int32, label="too large for the type")
    mon.event("rounded", int(np.size(got)))


# --------------------------------------------------- truncated normal
def upper(x):
    return 0.5 * math.erfc(x / SQ2)


def mass(lo, hi):
    """Probability of a standard normal between lo and hi without cancellation."""
    if lo > 0:
        return upper(lo) - upper(hi)
    if hi < 0:
        return upper(-hi) - upper(-lo)
    return 1.0 - upper(-lo) - upper(hi)


@scenario("C45", quick=150, thorough=4000)
def truncated_normal(rng, mon):
    from improver.ensemble_copula_coupling._scipy_continuous_distns import truncnorm

    n = rng.randint(1, 12)
    a = rng.np.uniform(-5, 3.0, n)
    b = a + rng.np.uniform(0.2, 8, n)
    b = np.minimum(b, 7.9)
    for _ in range(rng.randint(0, 3)):
        i = rng.randint(0, n - 1)
        k = rng.choice(["a", "b", "both", "zero"])
        if k in ("a", "both"):
            a[i] = -np.inf
            b[i] = max(b[i], -2.5)
        if k in ("b", "both"):
            b[i] = np.inf
        if k == "zero":
            a[i], b[i] = 0.0, np.inf
    b[(b < -3)] = -2.0
    loc, scale = 0.0, 1.0
    if rng.chance(0.7):
        loc, scale = rng.np.uniform(-20, 300, n), rng.np.uniform(0.05, 20, n)
    z = np.array([mass(x, y) for x, y in zip(a, b)])
    q = rng.np.uniform(0, 1, n)
    for _ in range(rng.randint(0, 2)):
        q[rng.randint(0, n - 1)] = rng.choice([0.001, 0.5, 0.999])
    keep = a.copy(), b.copy(), q.copy()
    x = np.asarray(truncnorm.ppf(q, a, b, loc=loc, scale=scale), float)
    s = (x - loc) / scale
    inside = (s >= a - 1e-7 - 1e-9 * np.abs(loc / scale)) & (s <= b + 1e-7 + 1e-9 * np.abs(loc / scale))
    mon.check(bool(inside.all()), "quantile within the truncation", got=s[~inside][:3], want=(a[~inside][:3], b[~inside][:3]))
    back = np.array([mass(lo, v) / t if v > lo else 0.0 for lo, v, t in zip(a, s, z)])
    mon.close(back, q, "probability of the quantile", atol=2e-6, rtol=0)
    y = rng.np.uniform(-5, 6, n)
    inside = (y > a) & (y < b)
    yx = y * scale + loc
    cdf = np.asarray(truncnorm.cdf(yx, a, b, loc=loc, scale=scale), float)
    want = np.array([0.0 if v <= lo else 1.0 if v >= hi else mass(lo, v) / t for lo, hi, v, t in zip(a, b, y, z)])
    mon.close(cdf, want, "distribution function", atol=2e-6, rtol=0)
    sf = np.asarray(truncnorm.sf(yx, a, b, loc=loc, scale=scale), float)
    mon.close(sf, 1 - want, "survival function", atol=2e-6, rtol=0)
    pdf = np.asarray(truncnorm.pdf(yx, a, b, loc=loc, scale=scale), float)
    wantp = np.where(inside, np.exp(-y * y / 2) / math.sqrt(2 * math.pi) / z / scale, 0.0)
    mon.close(pdf, wantp, "density", rtol=1e-5, atol=1e-9)
    if inside.any():
        sub = lambda v: v[inside] if np.ndim(v) else v
        lp = np.asarray(truncnorm.logpdf(yx[inside], a[inside], b[inside], loc=sub(loc), scale=sub(scale)), float)
        mon.close(lp, np.log(wantp[inside]), "log density", atol=2e-5, rtol=0)
    isf = np.asarray(truncnorm.isf(q, a, b, loc=loc, scale=scale), float)
    sv = (isf - loc) / scale
    back = np.array([mass(lo, v) / t if v > lo else 0.0 for lo, v, t in zip(a, sv, z)])
    mon.close(back, 1 - q, "upper quantile", atol=2e-6, rtol=0)
    ends = truncnorm.ppf(np.array([0.0, 1.0]), a[0], b[0])
    mon.equal([float(v) for v in ends], [float(a[0]), float(b[0])], "end points")
    mon.check(bool(np.isnan(truncnorm.ppf(0.5, 1.0, rng.choice([1.0, 0.5, -3.0])))), "no distribution without a range")
    qs = np.sort(rng.np.uniform(0, 1, 9))
    v = np.asarray(truncnorm.ppf(qs, a[0], b[0]), float)
    mon.check(bool((np.diff(v) >= -1e-9).all()), "quantiles in order", got=v)
    mon.check(np.array_equal(keep[0], a) and np.array_equal(keep[1], b) and np.array_equal(keep[2], q), "input changed")
    mon.event("quantiles", n)
    mon.event("upper tail", int((a > 0).sum()))


# ---------------------------------------------------------- selection
@scenario("C45", quick=40, thorough=300)
def names(rng, mon):
    from improver.spotdata.utilities import get_neighbour_finding_method_name as name
    from improver.synthetic_data.utilities import get_height_levels, get_leading_dimension

    land, dz = rng.chance(0.5), rng.chance(0.5)
    mon.equal(name(land, dz), "nearest" + ("_land" if land else "") + ("_minimum_dz" if dz else ""), "method name")
    keys = {"realizations": "variable", "percentiles": "percentile", "thresholds": "probability"}
    have = [k for k in keys if rng.chance(0.4)]
    rng.shuffle(have)
    data = {k: [rng.randint(0, 90) for _ in range(rng.randint(0, 3))] for k in have}
    if rng.chance(0.5):
        data["heights"] = [1.5, 10.0]
    if rng.chance(0.5):
        data["pressures"] = [100000, 85000]
    if rng.chance(0.3):
        data["x"] = [1]
    keep = {k: list(v) for k, v in data.items()}
    if len(have) > 1:
        mon.raises(ValueError, get_leading_dimension, data, label="two leading dimensions")
    else:
        want = (data[have[0]], keys[have[0]]) if have else (None, "variable")
        mon.equal(tuple(get_leading_dimension(data)), want, "leading dimension")
    want = (data["heights"], False) if "heights" in data else (data["pressures"], True) if "pressures" in data else (None, False)
    mon.equal(tuple(get_height_levels(data)), want, "levels")
    mon.equal(data, keep, "input changed")
    mon.seen("keys", str(sorted(data)))


# ---------------------------------------------------------- profiling
class FakeTrace(types.ModuleType):
    """tracemalloc (absent from this interpreter), recording what is asked of it."""

    def __init__(self):
        super().__init__("tracemalloc")
        self.on, self.taken = 0, 0

    def start(self, *a):
        self.on += 1

    def stop(self):
        self.on -= 1

    def is_tracing(self):
        return self.on > 0

    def take_snapshot(self):
        self.taken += 1
        n = self.taken

        class Snap:
            def dump(self, path):
                with open(path, "w") as f:
                    f.write(f"snapshot {n}\n")
        return Snap()


@scenario("C45", quick=16, thorough=60)
def memory_profile(rng, mon):
    trace = FakeTrace()
    saved = sys.modules.get("tracemalloc")
    sys.modules["tracemalloc"] = trace
    sys.modules.pop("improver.memprofile", None)
    faults = []
    hook = threading.excepthook
    threading.excepthook = lambda a: faults.append(repr(a.exc_value))
    tmp = tempfile.mkdtemp(prefix="vmem")
    try:
        import improver.memprofile as mp

        mp.tracemalloc = trace
        before = {t.ident for t in threading.enumerate()}
        stem = os.path.join(tmp, "prof")
        ends = rng.choice(["returns", "returns", "raises"])
        wait = rng.choice([0.0, 0.0, 0.03, 0.15, 0.25])
        seen = []

        def work(*args, **kw):
            seen.append((args, kw))
            time.sleep(wait)
            if ends == "raises":
                raise KeyError("work failed")
            return ("result", args, kw)
        args = tuple(rng.randint(0, 9) for _ in range(rng.randint(0, 3)))
        kw = {"option": rng.randint(0, 9)} if rng.chance(0.5) else {}
        new = lambda: [t for t in threading.enumerate() if t.ident not in before]
        f = mp.memory_profile_decorator(work, stem)
        if ends == "raises":
            mon.raises(KeyError, f, *args, label="the error of the command", **kw)
        else:
            mon.equal(f(*args, **kw), ("result", args, kw), "result of the command")
        mon.equal(seen, [(args, kw)], "the command runs once with its own arguments")
        left = new()
        mon.equal(len(left), 0, "threads left running (%s after %s s)" % (ends, wait))
        for t in left:  # let a stuck monitor go
            for o in list(getattr(t, "_args", None) or ()):
                if hasattr(o, "put"):
                    o.put("Stop")
            t.join(2)
        mon.equal(faults, [], "errors in the monitor (%s after %s s)" % (ends, wait))
        mon.equal(trace.on, 0, "tracing left on")
        for suffix in ("_MAX_TRACKER", "_SNAPSHOT"):
            mon.check(os.path.exists(stem + suffix), "written: " + suffix)
        if wait >= 0.25 and os.path.exists(stem + "_MAX_TRACKER"):
            with open(stem + "_MAX_TRACKER") as fh:
                lines = fh.read().splitlines()
            mon.check(len(lines) >= 1 and all(" max RSS " in k and k.endswith(" MiB") for k in lines), "a line per new maximum", got=lines[:2])
            vals = [float(k.split(" max RSS ")[1].split()[0]) for k in lines]
            mon.check(all(x < y + 0.011 for x, y in zip(vals, vals[1:])), "maxima rise", got=vals)
        mon.event("profiled")
        mon.seen("case", f"{ends} {wait}")
    finally:
        threading.excepthook = hook
        sys.modules.pop("improver.memprofile", None)
        if saved is not None:
            sys.modules["tracemalloc"] = saved
        else:
            sys.modules.pop("tracemalloc", None)
        shutil.rmtree(tmp, ignore_errors=True)


@scenario("C45", quick=4, thorough=16)
def time_profile(rng, mon):
    """At exit the profile is printed, or written where asked."""
    tmp = tempfile.mkdtemp(prefix="vprof")
    try:
        to_file = rng.chance(0.5)
        dump = os.path.join(tmp, "dump.prof")
        fails = rng.chance(0.3)
        code = ("import sys; sys.path.insert(0, %r)\n"
                "from improver.profile import profile_hook_enable\n"
                "profile_hook_enable(%s)\n"
                "def distinctive_work():\n    return sum(range(1000))\n"
                "print(distinctive_work())\n%s" % (REPO, "dump_filename=%r" % dump if to_file else "", "raise SystemExit(3)\n" if fails else ""))
        r = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120,
                           env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}, cwd=tmp)
        mon.equal([r.returncode, r.stdout], [3 if fails else 0, "499500\n"], "the command itself")
        if to_file:
            import pstats

            mon.check("distinctive_work" not in r.stderr, "nothing printed")
            names = {k[2] for k in pstats.Stats(dump).stats}
            mon.check("distinctive_work" in names, "what ran is in the file", got=sorted(names)[:5])
        else:
            mon.check("distinctive_work" in r.stderr, "what ran is printed", got=r.stderr[-200:])
            mon.check(not os.path.exists(dump), "no file")
        mon.event("profiled")
        mon.seen("case", f"{to_file} {fails}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
