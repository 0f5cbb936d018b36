"""Workload generators: hostile and realistic inputs for quantfinlib."""

import numpy as np
import pandas as pd


def coin(rng, p=0.5):
    return bool(rng.random() < p)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def size(rng, lo, hi, rare=None):
    """Integers in [lo, hi], with extra weight on the ends; occasionally far beyond, up to `rare`."""
    u = rng.random()
    if rare is not None:
        if u > 0.975:
            return int(np.exp(rng.uniform(np.log(hi), np.log(rare))))
        u /= 0.975
    if u < 0.15:
        return int(lo)
    if u < 0.25:
        return int(min(lo + 1, hi))
    if u < 0.32:
        return int(hi)
    return int(rng.integers(lo, hi + 1))


def datetime_index(rng, n, name=None, unique=True):
    kind = int(rng.integers(6))
    if kind == 3 and n > 8000:  # beyond the calendar
        kind = 5
    start = pd.Timestamp("1995-01-02") + pd.Timedelta(int(rng.integers(0, 9000)), unit="D")
    if kind == 0:
        idx = pd.date_range(start, periods=n, freq="D")
    elif kind == 1:
        idx = pd.date_range(start, periods=n, freq="B")
    elif kind == 2:
        idx = pd.date_range(start, periods=n, freq=pick(rng, ["W", "ME", "QS", "h", "15min"]) if n <= 400 else "h")
    elif kind == 3:  # irregular
        idx = pd.DatetimeIndex(start + pd.to_timedelta(np.cumsum(rng.integers(1, 9, n)), unit="D"))
    elif kind == 4:
        idx = pd.date_range(start, periods=n, freq="D", tz=pick(rng, ["UTC", "Europe/Amsterdam"]))
    else:
        idx = pd.DatetimeIndex(start + pd.to_timedelta(np.cumsum(rng.integers(1, 4000, n)), unit="s"))
    return idx.rename(name)


def any_index(rng, n):
    """An index as users have it: default, dates, shifted integers, strings, reversed, shuffled or repeated labels."""
    k = int(rng.integers(8))
    if k == 7:  # several rows have the same label
        steps = np.cumsum(rng.random(n) < rng.uniform(0.2, 0.9))
        return pd.Index(steps) if coin(rng) else pd.Timestamp("2012-02-27") + pd.to_timedelta(steps, unit="D")
    if k == 0:
        return pd.RangeIndex(n)
    if k in (1, 2):
        return datetime_index(rng, n, name=pick(rng, [None, "date"]))
    if k == 3:
        return pd.RangeIndex(7, 7 + n)
    if k == 4:
        return pd.Index([f"r{i}" for i in range(n)], name="row")
    if k == 5:
        return pd.Index(np.arange(n)[::-1].copy())
    return pd.Index(rng.permutation(n) * 3)


def prices(rng, n):
    """A positive price path: random walk, trending, constant, with flat stretches, ticks, jumps."""
    k = int(rng.integers(8))
    s0 = 10.0 ** rng.uniform(-1, 4)
    r = rng.normal(0, 10 ** rng.uniform(-3, -1), n)
    if k == 1:
        r = np.abs(r)
    elif k == 2:
        r = -np.abs(r)
    elif k == 3:
        r[rng.random(n) < 0.5] = 0.0
    elif k == 4:
        r[rng.random(n) < 0.05] += rng.choice([-0.5, 0.5])
    p = s0 * np.exp(np.cumsum(r))
    if k == 5:  # on a tick grid: many equal values
        tick = s0 / 20
        p = np.maximum(np.round(p / tick), 1) * tick
    elif k == 6 and n > 2:  # flat start or end
        m = int(rng.integers(1, n))
        if coin(rng):
            p[:m] = p[0]
        else:
            p[m:] = p[m]
    return p


def ohlc(rng, n):
    """Consistent open/high/low/close bars, including flat bars and bars with open or close at the extreme."""
    c = prices(rng, n)
    o = np.empty(n)
    o[0] = c[0]
    o[1:] = c[:-1]
    scale = 10 ** rng.uniform(-4, -1.5)
    o = o * np.exp(rng.normal(0, scale, n) * (rng.random(n) < 0.8))
    hi, lo = np.maximum(o, c), np.minimum(o, c)
    hi = hi * np.exp(np.abs(rng.normal(0, scale, n)) * (rng.random(n) < 0.8))
    lo = lo * np.exp(-np.abs(rng.normal(0, scale, n)) * (rng.random(n) < 0.8))
    if coin(rng, 0.15):  # some completely flat bars
        f = rng.random(n) < 0.3
        o[f] = hi[f] = lo[f] = c[f]
    return o, hi, lo, c


def volumes(rng, n):
    v = np.exp(rng.normal(10, 1, n))
    return np.round(v) + 1 if coin(rng) else v


def correlation(rng, d):
    """A well conditioned random correlation matrix."""
    k = int(rng.integers(4))
    if k == 0:
        a = rng.normal(size=(d + 3, d))
        s = a.T @ a
    elif k == 1:  # one factor
        b = rng.uniform(-0.9, 0.9, d)
        s = np.outer(b, b)
        np.fill_diagonal(s, 1.0)
    elif k == 2:
        r = rng.uniform(-0.9 / max(d - 1, 1), 0.95)
        s = np.full((d, d), r)
        np.fill_diagonal(s, 1.0)
    else:
        a = rng.normal(size=(3 * d, d))
        s = a.T @ a
    st = np.sqrt(np.diag(s))
    c = s / np.outer(st, st)
    c = (c + c.T) / 2
    np.fill_diagonal(c, 1.0)
    w, v = np.linalg.eigh(c)
    if w.min() < 1e-3:
        c = 0.9 * c + 0.1 * np.eye(d)
    return c


def returns_matrix(rng, n, d):
    c = correlation(rng, d)
    x = rng.normal(size=(n, d)) @ np.linalg.cholesky(c).T
    k = int(rng.integers(4))
    if k == 1:
        x = np.sign(x) * np.abs(x) ** 1.7
    elif k == 2:
        x = np.cumsum(x, axis=0)
    elif k == 3:
        x = x * 10 ** rng.uniform(-4, 4, d) + rng.normal(0, 5, d)
    return x
