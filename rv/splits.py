"""Workload for the splitters: time group layouts in several containers, with the plain integers the model uses."""

import numpy as np
import pandas as pd

from rv.gens import coin, pick, size

UNITS = {"D": 86400 * 10**9, "h": 3600 * 10**9, "min": 60 * 10**9, "s": 10**9, "W": 7 * 86400 * 10**9,
         "ms": 10**6, "us": 10**3}


def layout(rng, n, limits=False):
    """Sorted integer time groups: dense, repeated, gapped, clustered, business-day like."""
    k = int(rng.integers(8))
    if k == 0:
        steps = np.ones(n, int)
    elif k == 1:  # repeated groups of random size
        steps = (rng.random(n) < rng.uniform(0.1, 0.9)).astype(int)
    elif k == 2:  # gaps
        steps = 1 + (rng.random(n) < 0.3) * rng.integers(1, 6, n)
    elif k == 3:  # gaps and repetitions
        steps = rng.integers(0, 4, n)
    elif k == 4:  # weekends
        steps = np.where((np.arange(n) + int(rng.integers(5))) % 5 == 0, 3, 1)
    elif k == 5:  # equal sized groups (panel data), possibly spaced
        m = int(rng.integers(2, 6))
        steps = np.where(np.arange(n) % m == 0, int(rng.integers(1, 4)), 0)
    elif k == 6:  # a few very large groups between small ones
        steps = (rng.random(n) < 0.7).astype(int)
        a = int(rng.integers(0, n))
        steps[a : a + int(rng.integers(1, max(2, n // 3)))] = 0
    else:  # huge gaps
        steps = 1 + (rng.random(n) < 0.1) * rng.integers(50, 500, n)
    steps = np.asarray(steps).copy()
    steps[0] = 0
    base = pick(rng, [0, 1, 7, -5, -1000, 10**6])
    g = base + np.cumsum(steps)
    if limits and coin(rng, 0.15):  # up to, or from, the limit of an integer type
        t = np.iinfo(pick(rng, [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32]))
        g += int(t.max) - g[-1] if coin(rng, 0.6) else int(t.min) - g[0]
    return g


def problem(rng, hi=48):
    """(kind, freq, groups as python ints, unit, number of samples)"""
    u = rng.random()
    n = size(rng, 4, hi) if u < 0.9 else int(rng.integers(60, 300)) if u < 0.985 else int(rng.integers(300, 1800))
    kind = pick(rng, ["none", "int", "int", "datetime", "datetime"])
    if kind == "none":
        return kind, None, list(range(n)), 1, n
    g = layout(rng, n, kind == "int")
    if kind == "int":
        return kind, None, [int(v) for v in g], 1, n
    freq = pick(rng, ["D", "D", "h", "min", "s", "W", "ms", "us"])
    origin = pd.Timestamp("2019-12-20 00:00") + pd.Timedelta(int(rng.integers(0, 100000)), unit="min")
    if coin(rng, 0.3):  # close to a clock change
        origin = pd.Timestamp(pick(rng, ["2020-03-08", "2020-03-29", "2020-11-01", "2020-10-25"])) - pd.Timedelta(int(rng.integers(0, 3 * n)), unit="h")
    g = g - g[0]
    if g[-1] > 8000:
        freq = pick(rng, ["h", "min", "s", "ms", "us"])
    sub = coin(rng, 0.25)  # finer than the unit: inclusive limits are hit and missed
    u = UNITS[freq] // 2 if sub else UNITS[freq]
    return kind, freq, [int(origin.value + int(v) * u) for v in g], UNITS[freq], n


def integer_type(rng, groups):
    """A type that the groups fit in, although limits around them may not."""
    fits = [t for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.uint64)
            if np.iinfo(t).min <= min(groups) and max(groups) <= np.iinfo(t).max]
    if fits and coin(rng, 0.4):
        return pick(rng, fits)
    return pick(rng, [np.int64, np.int64, np.int64, float])


def container(rng, kind, groups, which=None):
    if kind == "none":
        return None if which is None or which == "none" else np.array(groups)
    n = len(groups)
    idx = pick(rng, [pd.RangeIndex(n), pd.RangeIndex(100, 100 + n), pd.Index(np.arange(n)[::-1]),
                     pd.Index([f"s{i}" for i in range(n)]), pd.date_range("2000-01-01", periods=n)])
    if kind == "int":
        which = which or pick(rng, ["array", "series"])
        a = np.array(groups, dtype=integer_type(rng, groups))
        return a if which == "array" else pd.Series(a, index=idx, name=pick(rng, [None, "t"]))
    which = which or pick(rng, ["index", "series"])
    d = pd.DatetimeIndex(np.array(groups, dtype="int64").view("M8[ns]"))
    if coin(rng, 0.2):  # dates of another resolution
        res = pick(rng, ["s", "ms", "us"])
        if all(g % {"s": 10**9, "ms": 10**6, "us": 10**3}[res] == 0 for g in groups):
            d = d.as_unit(res)
    if coin(rng, 0.3):  # instants of time, shown with a local clock that is changed twice a year
        d = d.tz_localize("UTC").tz_convert(pick(rng, ["America/New_York", "Europe/Amsterdam", "Australia/Sydney", "UTC"]))
    return d if which == "index" else pd.Series(d, index=idx)


def number(rng, v):
    """A length or count as a plain or a numpy integer."""
    return np.int64(v) if coin(rng, 0.25) else int(v)


def features(rng, n):
    if coin(rng, 0.1):  # other shapes and types that scikit-learn data has
        k = int(rng.integers(4))
        if k == 0:
            return np.arange(n)
        if k == 1:
            return np.zeros((n, 2, 3))
        if k == 2:
            return np.array([["a", None]] * n, dtype=object)
        return pd.DataFrame({"x": list("ab" * n)[:n], "y": np.nan}, index=pd.Index(["same"] * n))
    x = rng.normal(size=(n, int(rng.integers(1, 4))))
    if coin(rng):
        return x
    k = int(rng.integers(4))  # row labels are not time groups, even if they look like it
    idx = [pd.RangeIndex(5, 5 + n), pd.Index(layout(rng, n)), pd.Timestamp("2003-01-01") + pd.to_timedelta(layout(rng, n), unit="h"), pd.Index(np.arange(n)[::-1])][k]
    return pd.DataFrame(x, index=idx)


def target(rng, n):
    k = int(rng.integers(3))
    return None if k == 0 else (rng.normal(size=n) if k == 1 else pd.Series(rng.integers(0, 2, n)))


def as_lists(splits):
    return [([int(v) for v in a], [int(v) for v in b]) for a, b in splits]


def kfold_case(mon, rng, look_forward=None):
    """Draw a feasible K-fold problem; returns None when outside the domain of the properties."""
    from rv import refs

    kind, freq, groups, unit, n = problem(rng)
    folds = int(rng.integers(2, min(n, 9) + 1))
    if coin(rng, 0.12):  # many folds, up to one per sample
        folds = int(rng.integers(2, min(n, 60) + 1)) if coin(rng, 0.8) else min(n, 120)
    lf = coin(rng, 0.35) if look_forward is None else look_forward
    cap = max(0, n - n // folds)
    big = coin(rng, 0.2)
    e = int(rng.integers(0, min(cap, 60 if big else 6) + 1)) if coin(rng, 0.75) else 0
    p = int(rng.integers(0, min(cap - e, 60 if big else 6) + 1)) if coin(rng, 0.75) else 0
    if p + e >= n:
        return None
    want = refs.kfold(groups, folds, e * unit, p * unit, lf)
    if want is None:
        return None
    mon.note(kind=kind, freq=freq, groups=groups, n_folds=folds, n_embargo=e, n_purge=p, look_forward=lf)
    return kind, freq, groups, unit, n, folds, e, p, lf, want
