"""All public feature functions with their inputs, so that monitors can quantify over them."""

import joblib
import numpy as np
import pandas as pd

from quantfinlib.feature import indicators as I
from quantfinlib.feature import micro_structure as M
from rv import gens
from rv.gens import coin, size


def bars(rng, n, volume=True):
    o, h, l, c = gens.ohlc(rng, n)
    return dict(open=o, high=h, low=l, close=c, volume=gens.volumes(rng, n), ts=c.copy(),
                buy=None, sigma=np.abs(rng.normal(1, 0.3, n)) * (np.abs(np.diff(c)).mean() + 1e-9) + 1e-9 if n > 1 else np.ones(n))


class Feature:
    """name, function of the inputs, names of the inputs, parameter generator, look-back (None: unbounded)"""

    def __init__(self, name, fn, inputs, params, lookback, kind="price"):
        self.name, self.fn, self.inputs, self.params, self.lookback, self.kind = name, fn, inputs, params, lookback, kind

    def data(self, rng, n):
        b = bars(rng, n)
        b["buy"] = b["volume"] * rng.random(n)
        return {k: b[k] for k in self.inputs}

    def __call__(self, data, params):
        return self.fn(*[data[k] for k in self.inputs], **params)


def win(lo=2, hi=12, key="window"):
    return lambda rng: {key: size(rng, lo, hi)}


def band(cls, read, inputs):
    def fn(*args, **kw):
        return getattr(cls(*args, **kw), read)()

    fn.__qualname__ = f"{cls.__name__}.{read}"
    return fn


W = lambda extra: (lambda p: p["window"] + extra)
FEATURES = [
    Feature("rolling_mean", I.rolling_mean, ["ts"], win(1), W(0)),
    Feature("rolling_std", I.rolling_std, ["ts"], win(2), W(0)),
    Feature("rolling_max", I.rolling_max, ["ts"], win(1), W(0)),
    Feature("rolling_min", I.rolling_min, ["ts"], win(1), W(0)),
    Feature("rolling_mom", I.rolling_mom, ["ts"], win(1), W(1)),
    Feature("ewm_mean", I.ewm_mean, ["ts"], win(1, key="span"), None),
    Feature("ewm_std", I.ewm_std, ["ts"], win(1, key="span"), None),
    Feature("ewm_mom", I.ewm_mom, ["ts"], lambda rng: dict(span=size(rng, 1, 12), **({"min_periods": size(rng, 0, 5)} if coin(rng) else {})), None),
    Feature("average_true_range", I.average_true_range, ["high", "low", "close"], win(1), None),
    Feature("macd", I.macd, ["ts"], lambda rng: dict(fast=size(rng, 1, 8), slow=size(rng, 2, 20)), None),
    Feature("macd_signal", I.macd_signal, ["ts"], lambda rng: dict(fast=size(rng, 1, 8), slow=size(rng, 2, 20), signal=size(rng, 1, 9)), None),
    Feature("rsi", I.rsi, ["ts"], win(1, key="period"), lambda p: p["period"] + 1),
    Feature("ewm_rsi", I.ewm_rsi, ["ts"], win(1, key="period"), None),
    Feature("close_close_volatility", M.get_close_close_volatility, ["close"], win(), W(1)),
    Feature("high_low_volatility", M.get_high_low_volatility, ["high", "low"], win(1), W(0)),
    Feature("garman_klass_volatility", M.get_garman_klass_volatility, ["high", "low", "open", "close"], win(1), W(0)),
    Feature("rogers_satchell_volatility", M.get_rogers_satchell_volatility, ["high", "low", "open", "close"], win(1), W(0)),
    Feature("yang_zhang_volatility", M.get_yang_zhang_volatility, ["high", "low", "open", "close"], win(), W(1)),
    Feature("becker_parkinson_volatility", M.get_becker_parkinson_volatility, ["high", "low"], win(), W(1)),
    Feature("corwin_schultz_spread", M.get_cowrin_schultz_spread, ["high", "low"], win(), W(1)),
    Feature("edge_spread", M.get_edge_spread, ["high", "low", "open", "close"], lambda rng: dict(window=size(rng, 4, 8), sign=coin(rng)), W(0), "edge"),
    Feature("roll_measure", M.get_roll_measure, ["close"], win(), W(2)),
    Feature("roll_impact", M.get_roll_impact, ["close", "volume"], win(), W(2)),
    Feature("kyle_lambda", M.get_kyle_lambda, ["close", "volume"], win(1), W(1)),
    Feature("amihud_lambda", M.get_amihud_lambda, ["close", "volume"], win(1), W(1)),
    Feature("hasbrouck_lambda", M.get_hasbrouck_lambda, ["close", "volume"], win(1), W(1)),
    Feature("vpin", M.get_vpin, ["volume", "buy"], win(1), W(0)),
    Feature("estimate_buy_volume", M.estimate_buy_volume, ["close", "volume", "sigma"], lambda rng: {}, lambda p: 2),
]
for _cls, _inp, _par, _look in [
    (I.BollingerBands, ["ts"], lambda rng: dict(window=size(rng, 2, 12), **({"multiplier": size(rng, 1, 4)} if coin(rng) else {})), W(0)),
    (I.EwmBollingerBands, ["ts"], lambda rng: dict(window=size(rng, 2, 12), **({"multiplier": size(rng, 1, 4)} if coin(rng) else {})), None),
    (I.KeltnerBands, ["high", "low", "close"], lambda rng: dict(window=size(rng, 2, 12), window_atr=size(rng, 1, 9), multiplier=size(rng, 1, 4)), None),
    (I.DonchianBands, ["ts"], win(), W(0)),
]:
    for _read in ("upper", "lower", "middle", "bandwidth", "percent_b"):
        FEATURES.append(Feature(f"{_cls.__name__}.{_read}", band(_cls, _read, _inp), _inp, _par, _look, "band"))

# variance like numbers carry rounding of the order of the squared prices, and their roots of the prices themselves
ROOTED = {"rolling_std", "ewm_std", "BollingerBands.upper", "BollingerBands.lower", "EwmBollingerBands.upper", "EwmBollingerBands.lower"}
CHEAP = [f for f in FEATURES if f.kind != "edge"]
BY_NAME = {f.name: f for f in FEATURES}


def series(data, index):
    return {k: pd.Series(v, index=index, name=k) for k, v in data.items()}


SQRT = {"roll_measure", "roll_impact", "becker_parkinson_volatility", "corwin_schultz_spread", "edge_spread"}


def generic(rng, f, n):
    """Bars without flat stretches or extremes."""
    c = 100.0 * np.exp(np.cumsum(rng.normal(0, 0.02, n)) if n < 600 else np.sin(np.cumsum(rng.normal(0, 0.02, n))) + rng.normal(0, 0.005, n))
    o = np.concatenate([[100.0], c[:-1]]) * np.exp(rng.normal(0, 0.005, n))
    h = np.maximum(o, c) * np.exp(np.abs(rng.normal(0, 0.01, n)) + 1e-4)
    l = np.minimum(o, c) * np.exp(-np.abs(rng.normal(0, 0.01, n)) - 1e-4)
    v = np.exp(rng.normal(8, 0.5, n))
    d = dict(open=o, high=h, low=l, close=c, ts=c.copy(), volume=v, buy=v * rng.random(n), sigma=np.abs(rng.normal(2, 0.3, n)) + 0.1)
    return {k: d[k] for k in f.inputs}


def long_history(names):
    """Histories of thousands of values: every stretch has the values it has on its own (which the other stages decide)."""
    pool = [f for f in FEATURES if f.name in names or f.name.split(".")[0] in names]

    def stage(mon, rng):
        f = pool[int(rng.integers(len(pool)))]
        n = int(np.exp(rng.uniform(np.log(600), np.log(1200 if f.kind == "edge" else 40000))))
        data, params = generic(rng, f, n), f.params(rng)
        params = {k: max(v, 5) if k in ("window", "span") and (f.kind == "band" or f.name == "ewm_std") else v for k, v in params.items()}
        look = 450 if f.lookback is None else f.lookback(params)
        pandas = coin(rng)
        index = pd.RangeIndex(n) if coin(rng) else pd.date_range("1990-01-01", periods=n, freq="h")
        mon.note(feature=f.name, params=params, length=n)

        def values(d):
            if f.kind == "edge":
                with joblib.parallel_config(backend="threading", n_jobs=2):
                    return mon.call(f, d, params)
            return mon.call(f, d, params)

        full = np.asarray(values(series(data, index) if pandas else data), float)
        mon.check(full.shape == (n,), f"{f.name}: shape {full.shape} for {n} values")
        mon.check(np.isfinite(full[look:]).all(), lambda: f"{f.name} undefined at {np.flatnonzero(~np.isfinite(full[look:]))[:3] + look} of {n}")
        top = float(np.max(np.abs(full[look:])))
        S = max(float(np.max(np.abs(data[k]))) for k in f.inputs)
        atol = 2e-6 * max(top, 1e-3) if f.name in SQRT else 1e-8 * top + (2e-6 * S if f.name in ROOTED else 0.0)
        ends = {look, n} | {int(v) for v in rng.integers(look, n + 1, 6)}
        for e in sorted(ends):
            a = max(e - look - 12, 0)
            part = np.asarray(values({k: v[a:e] for k, v in data.items()}), float)
            keep = slice(look - 1 if a else 0, None)
            mon.close(full[a:e][keep], part[keep], f"{f.name} of {n} values between {a} and {e}, against these values alone", rtol=1e-6, atol=atol)
        mon.seen("long_histories")
        mon.signature("long", f.name, n // 1000, pandas)

    return stage
