"""C16: bands."""

import numpy as np
import pandas as pd

from quantfinlib.feature import indicators as I
from rv import features, gens, refs
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (band class, window, multiplier, container, reading order) of complete band readings"
REQUIRED = ["BollingerBands", "EwmBollingerBands", "KeltnerBands", "DonchianBands", "default_arguments", "repeated_reading", "zero_width", "own_bands", "negative_values", "long_histories"]
READS = ["upper", "lower", "middle", "bandwidth", "percent_b"]


def one(mon, rng):
    n = size(rng, 1, 60, 700) if coin(rng, 0.95) else 200
    o, h, l, c = gens.ohlc(rng, n)
    cls = pick(rng, [I.BollingerBands, I.EwmBollingerBands, I.KeltnerBands, I.DonchianBands])
    name = cls.__name__
    w, wa = size(rng, 2, 25, 300), size(rng, 1, 20, 200)
    m = pick(rng, [1, 2, 3, 0.5, 2.5, 1.96, float(np.round(10 ** rng.uniform(-1.5, 1), 3))])
    kw = {}
    if coin(rng, 0.85):
        kw["window"] = w
    else:
        w = 20
        mon.seen("default_arguments")
    if name != "DonchianBands":
        if coin(rng, 0.8):
            kw["multiplier"] = m
        else:
            m = 2
    else:
        m = 1
    if coin(rng, 0.15):  # spreads, rates and returns: negative values, or around zero
        h, l, c = -l, -h, -c
        if coin(rng):
            shift = float(c.mean())
            h, l, c = h - shift, l - shift, c - shift
        mon.seen("negative_values")
    ts = c
    if name == "KeltnerBands":
        if coin(rng, 0.8):
            kw["window_atr"] = wa
        else:
            wa = 10
        args = [h, l, c]
    else:
        args = [ts]
    pandas = coin(rng)
    if pandas:
        idx = gens.any_index(rng, n)
        args = [pd.Series(a, index=idx) for a in args]
    before = snapshot(args)
    mon.note(band=name, args=kw, data=args)
    b = mon.call(cls, *args, **kw)
    order = list(rng.permutation(READS)) + [pick(rng, READS) for _ in range(3)]
    r = {}
    for k in order:
        v = mon.call(getattr(b, k))
        mon.check(isinstance(v, pd.Series) == pandas, f"{k} is a {type(v).__name__}")
        if pandas:
            mon.check(v.index.equals(idx), f"index of {k}")
        a = np.asarray(v, float)
        mon.check(a.shape == (n,), f"shape of {k}: {a.shape}")
        if k in r:
            mon.equal(a, r[k], f"{k} read again")
            mon.seen("repeated_reading")
        r[k] = a
    mon.check(snapshot(args) == before, "reading bands modified the input")
    S = float(max(np.abs(h).max(), np.abs(l).max(), 1e-300))
    if name == "BollingerBands":
        mid, width = refs.rolling(ts, w, refs.mean), refs.rolling(ts, w, refs.std1)
    elif name == "EwmBollingerBands":
        mid, width = refs.ewm_mean(ts, refs.span_alpha(w)), refs.ewm_std(ts, refs.span_alpha(w))
    elif name == "KeltnerBands":
        mid, width = refs.ewm_mean(c, refs.span_alpha(w)), refs.ewm_mean(refs.true_range(h, l, c), 1.0 / wa)
    else:
        hi, lo = refs.rolling(ts, w, max), refs.rolling(ts, w, min)
        mid, width = (hi + lo) / 2, (hi - lo) / 2
    mon.close(r["middle"], mid, "middle band", rtol=1e-9, atol=1e-12 * S)
    half = (r["upper"] - r["lower"]) / 2
    # widths are compared through their squares, whose rounding error is known
    mon.close(half**2, (m * width) ** 2, "half width of the band", rtol=1e-7, atol=2e-11 * (S * max(m, 1)) ** 2 * (1e-3 if name in ("KeltnerBands", "DonchianBands") else 0.1))
    good = ~np.isnan(half)
    mon.close(((r["upper"] + r["lower"]) / 2)[good], mid[good], "centre of the band", rtol=1e-9, atol=1e-11 * S)
    mon.check((r["upper"][good] >= r["middle"][good]).all() and (r["lower"][good] <= r["middle"][good]).all(), "bands are not ordered")
    with np.errstate(all="ignore"):
        mon.close(r["bandwidth"], (r["upper"] - r["lower"]) / r["middle"], "bandwidth", rtol=1e-7, atol=1e-9)
    for t in range(n):
        wd = 2 * half[t]
        if wd != wd:
            mon.check(r["percent_b"][t] != r["percent_b"][t], f"percent_b {r['percent_b'][t]} at {t} without a band")
        elif wd > 1e-7 * S:
            want = (ts[t] - r["lower"][t]) / wd
            mon.check(abs(r["percent_b"][t] - want) <= 1e-9 + 1e-13 * S / wd * (1 + abs(want)), f"percent_b at {t}: {r['percent_b'][t]}, expected {want}")
        else:
            mon.seen("zero_width")
    if name == "DonchianBands":
        hi, lo = refs.rolling(ts, w, max), refs.rolling(ts, w, min)
        mon.close(r["upper"], hi, "upper Donchian band", rtol=1e-12, atol=1e-13 * S)
        mon.close(r["lower"], lo, "lower Donchian band", rtol=1e-12, atol=1e-13 * S)
    mon.seen(name)
    mon.signature(name, w, m, pandas, order[0], min(n, 10))


def generic(mon, rng):
    """Bands around a centre and with a width of the user's own."""
    n = size(rng, 1, 30, 300)
    ts, mid, wid = rng.normal(10, 1, n), rng.normal(10, 1, n), rng.uniform(0.1, 1, n)
    m = pick(rng, [1, 2, 3, 0.5, 1.7, 0.03])
    mid = mid * rng.choice([1, -1], n) if coin(rng, 0.3) else mid
    for a in (ts, mid, wid):
        a[rng.random(n) < 0.1] = np.nan
    idx = gens.any_index(rng, n)
    form = pick(rng, [[True] * 3, [False] * 3, [False, True, True]])
    args = [pd.Series(a.copy(), index=idx, name="q") if f else a.copy() for a, f in zip((ts, mid, wid), form)]
    base = pick(rng, [None, "", " own"])
    before = snapshot(args)
    mon.note(args=args, multiplier=m, basename=base)
    b = mon.call(I.GenericBands, *args, m, **({} if base is None else {"basename": base}))
    want = dict(upper=mid + m * wid, lower=mid - m * wid, middle=mid, bandwidth=2 * m * wid / mid, percent_b=(ts - (mid - m * wid)) / (2 * m * wid))
    title = dict(upper="Upper", lower="Lower", middle="Middle", bandwidth="Bandwidth", percent_b="%B")
    for k in rng.permutation(READS):
        v = mon.call(getattr(b, k))
        mon.close(np.asarray(v, float), want[k], f"{k} of bands of the user's own", rtol=1e-12, atol=1e-13)
        if any(form):
            mon.check(isinstance(v, pd.Series) and v.index.equals(idx) and v.name == title[k] + (base or ""), f"label of {k}: {getattr(v, 'name', type(v))}")
        else:
            mon.check(isinstance(v, np.ndarray), f"{k} is a {type(v).__name__}")
    mon.check(snapshot(args) == before, "reading bands modified the input")
    mon.seen("own_bands")
    mon.signature("generic", tuple(form), m, base, min(n, 5))


STAGES = [("bands", one, 8000, 80000), ("own_bands", generic, 1500, 15000),
          ("long_histories", features.long_history(["BollingerBands", "EwmBollingerBands", "KeltnerBands", "DonchianBands"]), 120, 1200)]
