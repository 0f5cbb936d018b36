"""C19: volatility estimators."""

import math

import numpy as np
import pandas as pd

from quantfinlib.feature import micro_structure as M
from rv import features, gens, refs
from rv.gens import coin, pick, size

NAMES = ["close_close", "high_low", "garman_klass", "rogers_satchell", "yang_zhang", "becker_parkinson"]
RULE = "distinct (estimator, window, length class, container, bar regime) whose values were all recomputed"
REQUIRED = NAMES + ["price_unit", "short_series", "flat_bars", "missing_bars", "floor_at_zero", "inconsistent_bars", "long_histories"]
SQ2 = math.sqrt(2.0)


def log(x):
    with np.errstate(all="ignore"):
        return np.log(x)


def bp_parts(h, l, w):
    n = len(h)
    hl = log(h / l) ** 2
    beta2 = refs.rolling(hl, 2, lambda v: math.fsum(v))
    beta = refs.rolling(beta2, w, refs.mean)
    gamma = np.full(n, refs.NAN)
    for t in range(1, n):
        hh, ll = max(h[t], h[t - 1]), min(l[t], l[t - 1])
        if h[t] == h[t] and h[t - 1] == h[t - 1]:
            gamma[t] = math.log(hh / ll) ** 2
    return beta, gamma


def reference(name, o, h, l, c, w):
    """(value, magnitude of the terms it is made of)"""
    if name == "close_close":
        r = c / refs.shift(c)
        return refs.rolling(r, w, refs.var1), np.nanmax(np.append(r**2, 1.0))
    if name == "high_low":
        x = log(h / l) ** 2
        return refs.rolling(x, w, refs.mean) / (4 * math.log(2)), np.nanmax(x)
    rs = log(h / c) * log(h / o) + log(l / c) * log(l / o)
    if name == "rogers_satchell":
        return refs.rolling(rs, w, refs.mean), np.nanmax(np.abs(rs))
    if name == "garman_klass":
        a, b = 0.5 * log(h / l) ** 2, (2 * math.log(2) - 1) * log(c / o) ** 2
        return refs.rolling(a - b, w, refs.mean), np.nanmax(a + b)
    if name == "yang_zhang":
        k = 0.34 / (1.34 + (w + 1) / (w - 1))
        on, oc = log(o / refs.shift(c)) ** 2, log(c / o) ** 2
        v = refs.rolling(on, w, refs.mean) + k * refs.rolling(oc, w, refs.mean) + (1 - k) * refs.rolling(rs, w, refs.mean)
        return v, np.nanmax(np.concatenate([np.append(on[1:], 0), oc, np.abs(rs)]))
    beta, gamma = bp_parts(h, l, w)
    k2, den = math.sqrt(8 / math.pi), 3 - 2 * SQ2
    s = (2**-0.5 - 1) * np.sqrt(beta) / (k2 * den) + np.sqrt(gamma / (k2**2 * den))
    return np.where(s < 0, 0.0, s), 1.0


FN = dict(
    close_close=lambda o, h, l, c, w: M.get_close_close_volatility(c, w),
    high_low=lambda o, h, l, c, w: M.get_high_low_volatility(h, l, w),
    garman_klass=lambda o, h, l, c, w: M.get_garman_klass_volatility(h, l, o, c, w),
    rogers_satchell=lambda o, h, l, c, w: M.get_rogers_satchell_volatility(h, l, o, c, w),
    yang_zhang=lambda o, h, l, c, w: M.get_yang_zhang_volatility(h, l, o, c, w),
    becker_parkinson=lambda o, h, l, c, w: M.get_becker_parkinson_volatility(h, l, w),
)
KW = dict(
    close_close=lambda o, h, l, c, w: M.get_close_close_volatility(window=w, p_close=c),
    high_low=lambda o, h, l, c, w: M.get_high_low_volatility(window=w, p_low=l, p_high=h),
    garman_klass=lambda o, h, l, c, w: M.get_garman_klass_volatility(p_open=o, p_close=c, p_low=l, p_high=h, window=w),
    rogers_satchell=lambda o, h, l, c, w: M.get_rogers_satchell_volatility(p_open=o, p_close=c, p_low=l, p_high=h, window=w),
    yang_zhang=lambda o, h, l, c, w: M.get_yang_zhang_volatility(p_open=o, p_close=c, p_low=l, p_high=h, window=w),
    becker_parkinson=lambda o, h, l, c, w: M.get_becker_parkinson_volatility(window=w, p_high=h, p_low=l),
)


def one(mon, rng):
    n = size(rng, 1, 50) if coin(rng, 0.95) else int(rng.integers(100, 700))
    o, h, l, c = gens.ohlc(rng, n)
    w = size(rng, 2, 22, 400)
    loose = coin(rng, 0.1)
    if loose:  # opens and closes outside the range of the bar, as bad data has them: the formulas still hold
        o = o * np.exp(rng.normal(0, 0.1, n))
        c = c * np.exp(rng.normal(0, 0.1, n))
        mon.seen("inconsistent_bars")
    name = pick(rng, NAMES)
    if coin(rng, 0.1) and n > 3:
        gap = int(rng.integers(n))
        for v in (o, h, l, c):
            v[gap] = np.nan
        mon.seen("missing_bars")
    args = [o, h, l, c]
    pandas = coin(rng)
    if pandas:
        idx = gens.any_index(rng, n)
        args = [pd.Series(v, index=idx) for v in args]
    mon.note(estimator=name, window=w, bars=args)
    fn = pick(rng, [FN, KW])[name]
    got = np.asarray(mon.call(fn, *args, w), float)
    want, mag = reference(name, o, h, l, c, w)
    check(mon, name, got, want, mag, n, w, loose)
    u = 10.0 ** rng.uniform(-3, 3)
    scaled = np.asarray(mon.call(fn, *[a * u for a in args], w), float)
    if name == "becker_parkinson":
        mon.close(scaled, got, f"{name} after changing the price unit", rtol=1e-6, atol=1e-7)
    else:
        mon.close(scaled, got, f"{name} after changing the price unit", rtol=1e-7, atol=1e-11 * mag + 1e-18)
    mon.seen("price_unit")
    mon.seen(name)
    mon.seen("short_series", int(n < w))
    mon.seen("flat_bars", int((h == l).any()))
    mon.signature(name, w, min(n, 25), pandas, bool((h == l).any()))


def check(mon, name, got, want, mag, n, w, loose):
    if name == "becker_parkinson":
        mon.close(got, want, name, rtol=1e-6, atol=1e-7)
        mon.seen("floor_at_zero", int((want == 0).sum()))
    else:
        mon.close(got, want, name, rtol=1e-8, atol=1e-12 * mag + 1e-18)
    ok = got[~np.isnan(got)]
    if name in ("high_low", "becker_parkinson") or (name == "rogers_satchell" and not loose):
        mon.check((ok >= -1e-13 * max(mag, 1e-12)).all(), lambda: f"{name}: negative volatility {ok.min()}")
    first = dict(close_close=w, high_low=w - 1, garman_klass=w - 1, rogers_satchell=w - 1, yang_zhang=w, becker_parkinson=w)[name]
    mon.check(np.isnan(got[:first]).all(), f"{name}: value before the window of {w} is complete")


STAGES = [("estimators", one, 9000, 90000),
          ("long_histories", features.long_history(["close_close_volatility", "high_low_volatility", "garman_klass_volatility", "rogers_satchell_volatility", "yang_zhang_volatility", "becker_parkinson_volatility"]), 120, 1200)]
