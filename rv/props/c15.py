"""C15: indicators against their definitions."""

import numpy as np
import pandas as pd

from quantfinlib.feature import indicators as I
from rv import features, gens, refs
from rv.gens import coin, pick, size

RULE = "distinct (indicator, window or span, length class, container, price regime) whose values were all recomputed"
REQUIRED = ["rolling_mean", "rolling_std", "rolling_max", "rolling_min", "rolling_mom", "ewm_mean", "ewm_std", "ewm_mom",
            "average_true_range", "macd", "macd_signal", "rsi", "ewm_rsi", "window_longer_than_series", "default_arguments",
            "undefined_rsi", "missing_values", "missing_bars", "long_histories"]
DEFAULTS = dict(window=20, span=20, fast=12, slow=26, signal=9, period=14)


def path(rng):
    n = size(rng, 1, 60) if coin(rng, 0.94) else int(rng.integers(100, 400)) if coin(rng, 0.9) else int(rng.integers(400, 1500))
    x = gens.prices(rng, n)
    if coin(rng, 0.15):
        x = x - x.mean()  # also negative values
    if coin(rng, 0.1):  # very small and very large units
        x = x * 2.0 ** int(rng.integers(-90, 90))
    if coin(rng, 0.1):
        x = np.round(np.clip(x, -1e14, 1e14) * 10).astype(int)
    return n, x


def holes(mon, rng, x):
    """Missing values, as gaps in the data or before a listing."""
    if coin(rng, 0.2) and len(x) > 2:
        x = np.array(x, float)
        if coin(rng, 0.3):
            x[: int(rng.integers(1, len(x)))] = np.nan
        else:
            x[rng.random(len(x)) < rng.choice([0.05, 0.3])] = np.nan
        if np.isnan(x).all():
            x[-1] = 1.0
        mon.seen("missing_values")
    return x


def wrap(rng, *xs):
    if coin(rng):
        return xs
    idx = gens.any_index(rng, len(xs[0]))
    return [pd.Series(x, index=idx) for x in xs]


def arg(rng, mon, key, lo, hi):
    """Either an explicit value or the documented default."""
    if coin(rng, 0.12):
        mon.seen("default_arguments")
        d = 14 if key == "atr_window" else DEFAULTS[key]
        return {}, d
    v = size(rng, lo, hi, 400)
    return {"window" if key == "atr_window" else key: v}, v


def call(mon, rng, fn, args, kw):
    if kw and coin(rng, 0.3):
        return np.asarray(mon.call(fn, *args, *kw.values()), float)
    return np.asarray(mon.call(fn, *args, **kw), float)


def squares(mon, got, want, what, scale):
    """Standard deviations are compared through their squares, whose rounding error is known."""
    mon.check(((got >= 0) | np.isnan(got)).all(), f"{what}: negative standard deviation")
    mon.close(got**2, want**2, what, rtol=1e-8, atol=1e-12 * scale**2)


def rolling(mon, rng):
    n, x = path(rng)
    x = holes(mon, rng, x)
    (xs,) = wrap(rng, x)
    S = float(np.nanmax(np.abs(x))) + 1e-300
    x = np.asarray(x, float)
    name = pick(rng, ["rolling_mean", "rolling_std", "rolling_max", "rolling_min", "rolling_mom"])
    kw, w = arg(rng, mon, "window", 2 if name == "rolling_std" else 1, 25)
    mon.note(indicator=name, args=kw, x=xs)
    got = call(mon, rng, getattr(I, name), [xs], kw)
    if name == "rolling_mean":
        mon.close(got, refs.rolling(x, w, refs.mean), name, rtol=1e-9, atol=1e-12 * S)
    elif name == "rolling_std":
        squares(mon, got, refs.rolling(x, w, refs.std1), name, S)
    elif name == "rolling_max":
        mon.equal(got, refs.rolling(x, w, max), name)
    elif name == "rolling_min":
        mon.equal(got, refs.rolling(x, w, min), name)
    else:
        mon.close(got, refs.diff(x, w) / w, name, rtol=1e-9, atol=1e-13 * S)
    mon.seen(name)
    mon.seen("window_longer_than_series", int(w > n))
    mon.signature(name, w, min(n, 30), isinstance(xs, pd.Series), len(np.unique(x)) < n / 2)


def ewm(mon, rng):
    n, x = path(rng)
    x = holes(mon, rng, x)
    (xs,) = wrap(rng, x)
    S = float(np.nanmax(np.abs(x))) + 1e-300
    x = np.asarray(x, float)
    name = pick(rng, ["ewm_mean", "ewm_std", "ewm_mom", "macd", "macd_signal"])
    mean = lambda v, span, mp=0: refs.ewm_mean(v, refs.span_alpha(span), mp)
    if name in ("macd", "macd_signal"):
        k1, fast = arg(rng, mon, "fast", 1, 10)
        k2, slow = arg(rng, mon, "slow", 1, 30)
        kw = {**k1, **k2}
        want = mean(x, fast) - mean(x, slow)
        sig = 0
        if name == "macd_signal":
            k3, sig = arg(rng, mon, "signal", 1, 12)
            kw.update(k3)
            want = want - mean(want, sig)
        mon.note(indicator=name, args=kw, x=xs)
        got = np.asarray(mon.call(getattr(I, name), xs, **kw), float)
        mon.close(got, want, name, rtol=1e-8, atol=1e-11 * S)
        mon.signature(name, fast, slow, sig, min(n, 20))
        mon.seen(name)
        return
    kw, span = arg(rng, mon, "span", 1, 25)
    mon.note(indicator=name, args=kw, x=xs)
    if name == "ewm_mean":
        mon.close(call(mon, rng, I.ewm_mean, [xs], kw), mean(x, span), name, rtol=1e-9, atol=1e-12 * S)
    elif name == "ewm_std":
        got, want = call(mon, rng, I.ewm_std, [xs], kw), refs.ewm_std(x, refs.span_alpha(span))
        if span == 1:  # all weight on the last value: the deviation is undefined or zero
            return
        # one observation: missing, or zero when the weights are rounded
        single = (np.cumsum(~np.isnan(x)) == 1) & (got == 0)
        mon.check(got.shape == want.shape, f"{name}: shape {got.shape}")
        squares(mon, np.where(single, want, got), want, name, S)
    else:
        mp = size(rng, 0, 6)
        if coin(rng, 0.5):
            kw["min_periods"] = mp
        else:
            mp = 0
        got = np.asarray(mon.call(I.ewm_mom, xs, **kw), float)
        mon.close(got, mean(refs.diff(x), span, mp), name, rtol=1e-8, atol=1e-12 * S)
    mon.seen(name)
    mon.signature(name, span, min(n, 30), isinstance(xs, pd.Series))


def atr(mon, rng):
    n = size(rng, 1, 60) if coin(rng, 0.96) else int(rng.integers(100, 600))
    o, h, l, c = gens.ohlc(rng, n)
    if coin(rng, 0.2):  # missing bars, or only some of their prices
        for v in (h, l, c) if coin(rng) else (pick(rng, [h, l, c]),):
            v[rng.random(n) < rng.choice([0.1, 0.4])] = np.nan
        if coin(rng, 0.3):
            h[0] = l[0] = c[0] = np.nan
        h[-1], l[-1], c[-1] = 3.0, 2.0, 2.5
        mon.seen("missing_bars")
    hs, ls, cs = wrap(rng, h, l, c)
    kw, w = arg(rng, mon, "atr_window", 1, 25)
    mon.note(high=hs, low=ls, close=cs, window=w)
    got = call(mon, rng, I.average_true_range, [hs, ls, cs], kw)
    mon.close(got, refs.ewm_mean(refs.true_range(h, l, c), 1.0 / w), "average true range", rtol=1e-8, atol=1e-12 * np.nanmax(h))
    mon.check(((got >= 0) | np.isnan(got)).all(), "negative average true range")
    mon.seen("average_true_range")
    mon.signature("atr", w, min(n, 30), isinstance(hs, pd.Series))


def rsi(mon, rng):
    n, x = path(rng)
    if coin(rng, 0.2):  # long flat stretches
        x = np.repeat(x, 5)[:n]
    (xs,) = wrap(rng, x)
    x = np.asarray(x, float)
    name = pick(rng, ["rsi", "ewm_rsi"])
    kw, p = arg(rng, mon, "period", 1, 20)
    mon.note(indicator=name, period=p, x=xs)
    got = call(mon, rng, getattr(I, name), [xs], kw)
    up, dn = refs.updown(x)
    if name == "rsi":
        u, d = refs.rolling(up, p, refs.mean), refs.rolling(dn, p, refs.mean)
    else:
        u, d = refs.ewm_mean(up, refs.span_alpha(p)), refs.ewm_mean(dn, refs.span_alpha(p))
    want = 100 * refs.ratio(u, u + d)
    mon.check(got.shape == want.shape, f"{name}: shape {got.shape}")
    ok = ~np.isnan(got)
    mon.check(((got[ok] >= -1e-7) & (got[ok] <= 100 + 1e-7)).all(), lambda: f"{name} outside [0, 100]: {got[ok].min()}, {got[ok].max()}")
    D = max(float(up.max()), float(dn.max()), 1e-300)
    for t in range(n):
        tot = u[t] + d[t]
        if tot != tot:
            mon.check(got[t] != got[t], f"{name}: value {got[t]} at {t} before the window is full")
        elif tot == 0:
            mon.check(got[t] != got[t], f"{name}: value {got[t]} at {t} without any change in the window")
            mon.seen("undefined_rsi")
        elif tot > 1e-9 * D:
            mon.check(abs(got[t] - want[t]) <= 1e-8 + 100 * 1e-13 * D / tot, f"{name} at {t}: {got[t]}, expected {want[t]}")
    mon.seen(name)
    mon.signature(name, p, min(n, 30), isinstance(xs, pd.Series))


STAGES = [("rolling", rolling, 6000, 60000), ("exponential", ewm, 5000, 50000), ("average_true_range", atr, 1500, 15000), ("rsi", rsi, 4000, 40000),
          ("long_histories", features.long_history(["rolling_mean", "rolling_std", "rolling_max", "rolling_min", "rolling_mom", "ewm_mean", "ewm_std", "ewm_mom", "average_true_range", "macd", "macd_signal", "rsi", "ewm_rsi"]), 120, 1200)]
