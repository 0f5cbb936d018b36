"""C21: strategic and sequential trade models."""

import math

import numpy as np
import pandas as pd
from scipy.special import betainc

from quantfinlib.feature import micro_structure as M
from rv import features, gens, refs
from rv.gens import coin, pick, size

NAMES = ["kyle", "amihud", "hasbrouck", "vpin", "buy_volume"]
RULE = "distinct (model, window, length class, container, price regime) whose values were all recomputed"
REQUIRED = NAMES + ["unchanged_prices", "default_window", "falling_prices", "extreme_imbalance", "volume_unit", "extreme_volumes", "missing_values", "no_trades", "long_histories"]


def wrap(rng, *xs):
    if coin(rng):
        return False, xs
    idx = gens.any_index(rng, len(xs[0]))
    return True, [pd.Series(x, index=idx) for x in xs]


def t_cdf(x, df=0.25):
    """Student-t distribution function through the incomplete beta function."""
    out = np.full(len(x), refs.NAN)
    for i, v in enumerate(x):
        if v == v:
            tail = 0.5 * betainc(df / 2, 0.5, df / (df + v * v))
            out[i] = tail if v < 0 else 1 - tail
    return out


def lambdas(mon, rng):
    n = size(rng, 1, 60) if coin(rng, 0.96) else int(rng.integers(100, 500))
    c, v = gens.prices(rng, n), gens.volumes(rng, n)
    if coin(rng, 0.15):  # volumes of very different size
        v = v * 10.0 ** rng.integers(-6, 7, n)
        mon.seen("extreme_volumes")
    name = pick(rng, NAMES[:3])
    if coin(rng, 0.1):  # some values were not recorded
        v = np.where(rng.random(n) < 0.1, np.nan, v)
        if name != "amihud":
            c = np.where(rng.random(n) < 0.1, np.nan, c)
        mon.seen("missing_values")
    dead = np.zeros(n, bool)
    if coin(rng, 0.1):  # bars without trades
        dead = rng.random(n) < 0.15
        v = np.where(dead, 0.0, v)
        mon.seen("no_trades", int(dead.any()))
    if coin(rng, 0.1):  # volumes in another unit
        v = v * 10.0 ** rng.uniform(-15, 12)
    if coin(rng, 0.05):  # prices of a tiny unit
        c = c * 1e-11
    default = dict(kyle=10, amihud=10, hasbrouck=20)[name]
    kw, w = ({}, default) if coin(rng, 0.15) else ({"window": (k := size(rng, 1, 15, 300))}, k)
    mon.seen("default_window", int(not kw))
    pandas, (cs, vs) = wrap(rng, c, v)
    mon.note(model=name, window=w, close=cs, volume=vs)
    d = refs.diff(c)
    with np.errstate(all="ignore"):
        if name == "kyle":
            r = d / (np.sign(d) * v)
        elif name == "amihud":
            r = np.abs(d / refs.shift(c)) / (v * c)
        else:
            lr = np.log(c / refs.shift(c))
            r = lr / (np.sign(lr) * np.sqrt(v * c))
    want = refs.rolling(r, w, refs.mean)
    fn = getattr(M, f"get_{name}_lambda")
    got = np.asarray(mon.call(fn, cs, vs, **kw) if coin(rng) else mon.call(fn, volume=vs, p_close=cs, **kw), float)
    top = np.max(np.append(np.abs(r[np.isfinite(r)]), 0.0))
    if dead.any():  # no value where a bar of the window had no trades
        want = np.where(np.isfinite(want), want, np.nan)
        got = np.where(np.isfinite(got), got, np.nan)
        r = np.where(np.isfinite(r), r, np.nan)
    mon.close(got, want, f"{name} lambda", rtol=1e-8, atol=1e-13 * top)
    if w <= n and not np.isnan(r[n - w :]).any():  # the last window on its own, without rounding left from earlier values
        alone = np.asarray(mon.call(fn, *[a[n - w - 1 :] if n > w else a for a in (cs, vs)], **kw), float)[-1:]
        if n > w:
            mon.close(alone, want[-1:], f"{name} lambda of the last window alone", rtol=1e-8, atol=1e-14 * np.nanmax(np.abs(r[n - w :])))
    ok = got[~np.isnan(got)]
    mon.check((ok >= -1e-13 * top).all(), lambda: f"{name} lambda negative: {ok.min()}")
    u = 2.0 ** int(rng.integers(-6, 7))
    g2 = np.asarray(mon.call(fn, cs, vs * u, **kw), float)
    g2 = np.where(np.isfinite(g2), g2, np.nan) if dead.any() else g2
    mon.close(g2 * (u if name != "hasbrouck" else math.sqrt(u)), got, f"{name} lambda after changing the volume unit", rtol=1e-8, atol=1e-12 * top)
    mon.seen("volume_unit")
    mon.seen(name)
    mon.seen("unchanged_prices", int((d == 0).any()))
    mon.seen("falling_prices", int(n > 1 and (d[1:] < 0).all()))
    mon.signature(name, w, min(n, 25), pandas, bool((d == 0).any()))


def volumes(mon, rng):
    n = size(rng, 1, 60) if coin(rng, 0.96) else int(rng.integers(100, 500))
    c, v = gens.prices(rng, n), gens.volumes(rng, n)
    if coin(rng, 0.15):
        v = v * 10.0 ** rng.integers(-6, 7, n)
        mon.seen("extreme_volumes")
    if coin(rng):
        frac = rng.random(n)
        if coin(rng, 0.2):
            frac = 10.0 ** rng.uniform(-9, 0, n)
            if coin(rng):
                frac = 1 - frac
        if coin(rng, 0.3):
            frac = np.round(frac)
            mon.seen("extreme_imbalance")
        b = v * frac
        w = size(rng, 1, 15, 300)
        if coin(rng, 0.15):  # volumes in another unit
            u = 10.0 ** rng.uniform(-15, 12)
            v, b = v * u, b * u
        pandas, (vs, bs) = wrap(rng, v, b)
        mon.note(volume=vs, buy=bs, window=w)
        got = np.asarray(mon.call(M.get_vpin, vs, bs, w) if coin(rng) else mon.call(M.get_vpin, window=w, buy_volume=bs, volume=vs), float)
        want = refs.rolling(np.abs(b - (v - b)) / v, w, refs.mean)
        mon.close(got, want, "vpin", rtol=1e-9, atol=1e-12)
        ok = got[~np.isnan(got)]
        mon.check(((ok >= -1e-12) & (ok <= 1 + 1e-12)).all(), lambda: f"vpin outside [0, 1]: {ok}")
        g2 = np.asarray(mon.call(M.get_vpin, vs, vs - bs, w), float)
        mon.close(g2, got, "vpin with buyers and sellers exchanged", rtol=1e-9, atol=1e-12)
        mon.seen("vpin")
        mon.signature("vpin", w, min(n, 25), pandas)
    else:
        s = 10.0 ** rng.uniform(-6, 3, n) * c.mean() * 0.01
        if coin(rng, 0.2):  # as of a rolling estimate, or with gaps
            s[: int(rng.integers(0, n + 1))] = np.nan
            s[rng.random(n) < 0.1] = np.nan
            mon.seen("missing_values")
        pandas, (cs, vs, ss) = wrap(rng, c, v, s)
        mon.note(close=cs, volume=vs, sigma=ss)
        got = np.asarray(mon.call(M.estimate_buy_volume, cs, vs, ss) if coin(rng) else mon.call(M.estimate_buy_volume, sigma_p=ss, volume=vs, p_close=cs), float)
        mon.close(got, v * t_cdf(refs.diff(c) / s), "estimated buy volume", rtol=1e-7, atol=1e-9 * v.max())
        ok = ~np.isnan(got)
        mon.check(((got[ok] >= 0) & (got[ok] <= v[ok] * (1 + 1e-12))).all(), "estimated buy volume outside [0, volume]")
        mon.check(not ok[:1].any(), "buy volume estimated without a price change")
        mon.seen("buy_volume")
        mon.signature("buy", min(n, 25), pandas, len(set(np.sign(np.diff(c)))))


STAGES = [("lambdas", lambdas, 6000, 60000), ("volumes", volumes, 4000, 40000),
          ("long_histories", features.long_history(["kyle_lambda", "amihud_lambda", "hasbrouck_lambda", "vpin", "estimate_buy_volume"]), 120, 1200)]
