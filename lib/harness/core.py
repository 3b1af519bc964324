"""Monitors, scenario registry and case execution.

A check file registers scenarios for a property.  A scenario is run for many
cases; each case gets its own deterministic random source, drives the real
improver code and reports what it observed to a Monitor, which decides.
"""
import gc
import hashlib
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import traceback

import numpy as np
import numpy.ma as ma


class Violation(Exception):
    def __init__(self, label, message):
        super().__init__("%s: %s" % (label, message))
        self.label = label
        self.message = message


class Inconclusive(Exception):
    """The environment double or the harness could not carry out the case."""


class CaseTimeout(Exception):
    pass


SCENARIOS = {}


def scenario(prop, quick, thorough=None, name=None, min_cases=1):
    """Register a scenario of a property with its number of cases per tier."""

    def deco(fn):
        nm = name or fn.__name__
        lst = SCENARIOS.setdefault(prop, {})
        if nm in lst:
            raise RuntimeError("duplicate scenario %s/%s" % (prop, nm))
        lst[nm] = {
            "fn": fn,
            "quick": quick,
            "thorough": thorough if thorough is not None else quick * 25,
            "min": min_cases,
        }
        return fn

    return deco


def case_seed(prop, name, base, index):
    text = "%s|%s|%s|%s" % (prop, name, base, index)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


class Rng(random.Random):
    """random.Random with numpy conveniences."""

    def __init__(self, seed):
        super().__init__(seed)
        self.np = np.random.RandomState(seed % (2 ** 32))

    def chance(self, p):
        return self.random() < p

    def some(self, seq, lo=1, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        return self.sample(seq, self.randint(min(lo, hi), hi))


class Monitor:
    """Observes one case."""

    def __init__(self, index=0, tier="quick"):
        self.index = index
        self.tier = tier
        self.checks = 0
        self.events = {}
        self.signatures = set()
        self.notes = {}
        self.known = []

    # ------------------------------------------------------------ observing
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def seen(self, *sig):
        """A non-trivial behaviour/state signature observed in this case."""
        self.signatures.add(repr(sig))

    def note(self, **kw):
        self.notes.update({k: _short(v) for k, v in kw.items()})

    # ------------------------------------------------------------- deciding
    def fail(self, label, message="", **detail):
        text = str(message)
        if detail:
            text += " " + ", ".join("%s=%s" % (k, _short(v)) for k, v in detail.items())
        raise Violation(label, text)

    def check(self, cond, label, message="", **detail):
        self.checks += 1
        if not bool(cond):
            self.fail(label, message, **detail)

    def equal(self, actual, expected, label, **detail):
        self.checks += 1
        if isinstance(actual, np.ndarray) or isinstance(expected, np.ndarray):
            self.array_equal(actual, expected, label, **detail)
            return
        if not (actual == expected):
            self.fail(label, "got %s expected %s" % (_short(actual), _short(expected)), **detail)

    def array_equal(self, actual, expected, label, **detail):
        self.close(actual, expected, label, rtol=0.0, atol=0.0, **detail)

    def close(self, actual, expected, label, rtol=1e-5, atol=1e-6, **detail):
        """Equal shape, equal mask, and equal values (NaN = NaN) where unmasked."""
        self.checks += 1
        a_mask, e_mask = ma.getmaskarray(ma.asanyarray(actual)), ma.getmaskarray(ma.asanyarray(expected))
        a, e = ma.getdata(actual), ma.getdata(expected)
        a, e = np.asarray(a), np.asarray(e)
        if a.shape != e.shape:
            self.fail(label, "shape %s expected %s" % (a.shape, e.shape), **detail)
        if a_mask.any() or e_mask.any():
            if not np.array_equal(a_mask, e_mask):
                self.fail(
                    label,
                    "mask differs at %s (got masked=%s)"
                    % (_short(np.argwhere(a_mask != e_mask)[:5].tolist()), a_mask.sum()),
                    **detail
                )
        keep = ~a_mask
        if a.dtype.kind not in "fiubc" or e.dtype.kind not in "fiubc":
            bad = (a != e) & keep
        else:
            av, ev = a.astype(complex if "c" in (a.dtype.kind, e.dtype.kind) else float), e.astype(
                complex if "c" in (a.dtype.kind, e.dtype.kind) else float
            )
            with np.errstate(all="ignore"):
                ok = np.abs(av - ev) <= atol + rtol * np.abs(ev)
                ok |= av == ev
            ok |= np.isnan(av) & np.isnan(ev)
            bad = ~ok & keep
        if bad.any():
            where = tuple(np.argwhere(bad)[0])
            self.fail(
                label,
                "%d/%d values differ; first at %s: got %s expected %s"
                % (bad.sum(), bad.size, where, a[where], e[where]),
                **detail
            )

    def raises(self, exc, fn, *args, **kwargs):
        """fn must refuse; returns the exception."""
        label = kwargs.pop("label", "must refuse")
        self.checks += 1
        try:
            res = fn(*args, **kwargs)
        except exc as err:
            if stub_gap(err):
                raise Inconclusive("stand-in: %r" % err)
            return err
        self.fail(label, "no exception (wanted %s), returned %s" % (exc, _short(res)))


def _short(v, n=300):
    try:
        s = repr(v)
    except Exception as err:  # pragma: no cover
        s = "<unreprable %s>" % type(err)
    return s if len(s) <= n else s[:n] + "..."


_STUB_CLASSES = (
    "Cube|CubeList|DimCoord|AuxCoord|Coord|CellMethod|CellMeasure|AncillaryVariable|Constraint|"
    "AttributeConstraint|NameConstraint|GeogCS|LambertAzimuthalEqualArea|TransverseMercator|"
    "RotatedGeogCS|Cell|PartialDateTime|DataFrame|Index|Aggregator|WeightedAggregator|Linear|Nearest|"
    "PlateCarree|Geodetic|RotatedGeodetic|RotatedPole|CRS|Globe"
)
_GAP = re.compile(
    r"^(type object )?'(%s)' (object )?has no attribute|^module '(iris|cartopy|stratify|pandas|pysteps|numba)[^']*' has no attribute"
    % _STUB_CLASSES
)


def stub_gap(err):
    """Is this exception a hole in the environment double, not a finding?"""
    seen = set()
    while err is not None and id(err) not in seen:
        seen.add(id(err))
        text = str(err)
        if isinstance(err, AttributeError) and _GAP.search(text):
            return True
        if isinstance(err, ImportError) and re.search(
            r"(cannot import name .* from '(iris|cartopy|stratify|pandas|pysteps|numba)"
            r"|No module named '(iris|cartopy|stratify|pandas|pysteps|numba|statsmodels|sklearn|"
            r"lightgbm|treelite|treelite_runtime|timezonefinder|numba)[.\w]*')",
            text,
        ):
            return True
        if isinstance(err, NotImplementedError) and "stand-in" in text:
            return True
        if isinstance(err, TypeError) and "unexpected keyword argument" in text:
            tb = err.__traceback__
            last = None
            while tb is not None:
                last = tb
                tb = tb.tb_next
            # raised at the call into the double
            if last is not None and "/lib/stubs" in last.tb_frame.f_code.co_filename:
                return True
        err = err.__cause__ or err.__context__
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(prop, name, base_seed, index, tier, limit=170):
    """Run one case; returns (status, info, monitor)."""
    spec = SCENARIOS[prop][name]
    seed = case_seed(prop, name, base_seed, index)
    rng = Rng(seed)
    mon = Monitor(index, tier)
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)
    old = signal.signal(signal.SIGALRM, _alarm)
    home = os.getcwd()
    place = tempfile.mkdtemp(prefix="case", dir=home)
    os.chdir(place)
    signal.alarm(limit)
    try:
        with np.errstate(all="ignore"):
            spec["fn"](rng, mon)
        status, info = "ok", None
    except Violation as err:
        status, info = "violation", {"label": err.label, "message": err.message[:2000]}
    except Inconclusive as err:
        status, info = "inconclusive", {"label": "inconclusive", "message": str(err)[:1000]}
    except CaseTimeout:
        status, info = "violation", {"label": "no answer", "message": "case did not end within %s s" % limit}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as err:
        if stub_gap(err) or isinstance(err, MemoryError):
            status = "inconclusive"
        else:
            status = "violation"
        tb = traceback.format_exc()
        where = ""
        for fr in traceback.extract_tb(sys.exc_info()[2]):
            if "/improver/" in fr.filename and "/lib/checks/" not in fr.filename:
                where = "%s:%s" % (fr.filename.rsplit("/improver/", 1)[-1], fr.name)
        info = {
            "label": "exception %s%s" % (type(err).__name__, " in " + where if where else ""),
            "message": tb[-3000:],
        }
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(home)
        if os.listdir(place):
            gc.collect()  # files the case left open
        shutil.rmtree(place, ignore_errors=True)
    if info is not None:
        info.update({"scenario": name, "index": index, "base_seed": base_seed, "notes": mon.notes})
    return status, info, mon
