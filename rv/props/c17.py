"""C17: no look-ahead, and no memory beyond the window."""

import joblib
import numpy as np
import pandas as pd

from quantfinlib.feature import chu_stinchcombe_white_cusum_test as cusum
from rv import features, gens
from rv.gens import coin, pick, size

RULE = "distinct (feature, cut position class, kind of change, container, parameters) with all retained values compared"
REQUIRED = ["no_trades", "gaps", "prefix", "altered_future", "missing_future", "altered_past", "cusum", "long_series"] + [f.name for f in features.FEATURES]


def run(mon, f, data, params, index):
    d = data if index is None else features.series(data, index)
    if f.kind == "edge":
        with joblib.parallel_config(backend="threading", n_jobs=2):
            v = mon.call(f, d, params)
    else:
        v = mon.call(f, d, params)
    return np.asarray(v, float)


def compare(mon, f, a, b, S, what):
    fin = np.abs(a[np.isfinite(a)])
    top = float(fin.max()) if fin.size else 0.0
    atol = 1e-9 * top + (2e-6 * S if f.name in features.ROOTED else 0.0) + (1e-10 * S if f.kind != "edge" else 1e-6) * 0.0
    if f.kind == "edge":
        atol = 1e-6
    mon.close(b, a, f"{f.name} {what}", rtol=1e-7, atol=atol)


def long_series(mon, rng):
    """Years of data: nothing about the whole series may be used either."""
    mon.seen("long_series")
    one(mon, rng, int(np.exp(rng.uniform(np.log(250), np.log(3000)))))


def one(mon, rng, n=None):
    f = pick(rng, features.CHEAP) if n or coin(rng, 0.985) else features.BY_NAME["edge_spread"]
    n = n or (size(rng, 3, 45, 600) if f.kind != "edge" else size(rng, 8, 16))
    params = f.params(rng)
    data = f.data(rng, n)
    index = gens.any_index(rng, n) if coin(rng, 0.4) else None
    S = max(float(np.max(np.abs(data[k]))) for k in f.inputs)
    if f.kind != "edge" and coin(rng, 0.3):  # observations missing here and there, or at the start
        for k in f.inputs:
            if coin(rng, 0.6):
                data[k] = data[k].copy()
                hole = rng.random(n) < rng.choice([0.05, 0.3])
                if coin(rng, 0.4):
                    hole[: int(rng.integers(0, n))] = True
                data[k][hole] = np.nan
        mon.seen("gaps")
    if "volume" in f.inputs and coin(rng, 0.3):  # bars without trades
        still = rng.random(n) < rng.choice([0.05, 0.3])
        for k in ("volume", "buy"):
            if k in data:
                data[k] = np.where(still, 0.0, data[k])
        mon.seen("no_trades", int(still.any()))
    mon.note(feature=f.name, params=params, data=data)
    full = run(mon, f, data, params, index)
    mon.check(full.shape == (n,), f"{f.name}: shape {full.shape}")
    cut = size(rng, 1, n - 1)
    mon.note(cut=cut)
    kind = pick(rng, ["prefix", "altered_future", "missing_future"])
    if kind == "prefix":
        got = run(mon, f, {k: v[:cut] for k, v in data.items()}, params, None if index is None else index[:cut])
        what = f"changes when the input ends after {cut} of {n} values"
    else:
        other = f.data(rng, n)
        alt = {}
        scale = 10.0 ** rng.uniform(-2, 2) if coin(rng, 0.5) else 1.0
        for k, v in data.items():
            tail = np.full(n - cut, np.nan) if kind == "missing_future" else other[k][cut:] * scale
            alt[k] = np.concatenate([v[:cut], tail])
        got = run(mon, f, alt, params, index)[:cut]
        what = f"before {cut} changes with later values ({kind})"
    compare(mon, f, full[:cut], got, S, what)
    mon.seen(kind)
    mon.seen(f.name)
    mon.signature(f.name, kind, min(cut, 25), index is None, sorted(params.values()))
    # distant past
    if f.lookback is not None and f.kind != "edge" or (f.kind == "edge" and coin(rng, 0.5)):
        look = f.lookback(params)
        m = size(rng, look, look + 15)
        n = m + size(rng, 1, 15, 200)
        # generic data only: ratios of rounding errors in flat stretches are not compared
        data = features.generic(rng, f, n)
        full = run(mon, f, data, params, None)
        alt = {}
        past = features.generic(rng, f, n)
        miss = coin(rng, 0.3)
        for k, v in data.items():
            head = np.full(n - m, np.nan) if miss else past[k][: n - m]
            alt[k] = np.concatenate([head, v[n - m :]])
        got = run(mon, f, alt, params, None)
        keep = slice(n - m + look - 1, None)
        S = max(float(np.nanmax(np.abs(x[k]))) for x in (data, alt) for k in f.inputs)
        mon.note(data=data, altered=alt, keep=keep)
        a, b = full[keep], got[keep]
        top = float(np.nanmax(np.abs(full))) if np.isfinite(full).any() else 0.0
        atol = 1e-7 * top + (2e-6 * S if f.name in features.ROOTED else 0.0)
        if f.name in features.SQRT:
            atol = 2e-6 * max(top, 1e-3)
        mon.close(b, a, f"{f.name} depends on values before its window of {look} values", rtol=1e-6, atol=atol)
        mon.seen("altered_past")
        mon.signature(f.name, "past", look, miss)


def break_test(mon, rng):
    n = size(rng, 3, 60, 600)
    x = gens.prices(rng, n)
    x = x * np.exp(rng.normal(0, 1e-4, n))  # never flat from the start
    s, c = mon.call(cusum, x)
    cut = size(rng, 2, n - 1)
    mon.note(x=x, cut=cut)
    if coin(rng):
        y = x[:cut]
    else:
        y = np.concatenate([x[:cut], gens.prices(rng, n - cut)])
    s2, c2 = mon.call(cusum, y)
    mon.close(np.asarray(s2, float)[:cut], np.asarray(s, float)[:cut], "break statistic changes with later prices", rtol=1e-9, atol=1e-9)
    mon.close(np.asarray(c2, float)[:cut], np.asarray(c, float)[:cut], "critical value changes with later prices", rtol=1e-9, atol=1e-9)
    mon.seen("cusum")
    mon.signature("cusum", cut, n)


STAGES = [("features", one, 9000, 90000), ("break_test", break_test, 600, 6000), ("long_series", long_series, 1200, 12000)]
