"""Workload and reference equations for the simulation models."""

import math

import numpy as np
import pandas as pd

from quantfinlib.sim import BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck
from rv.gens import coin, correlation, pick, size

MODELS = {"bm": BrownianMotion, "gbm": GeometricBrownianMotion, "ou": OrnsteinUhlenbeck}
FREQS = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365, "ME": 1 / 12, "MS": 1 / 12, "QE": 1 / 4, "QS": 1 / 4, "YE": 1.0, "YS": 1.0}


def as_param(rng, values):
    """A parameter in one of the forms the models accept."""
    v = [float(a) for a in values]
    if len(v) == 1 and coin(rng, 0.6):
        return v[0]
    return v if coin(rng) else np.array(v)


def npaths(rng, usual=(1, 1, 2, 3, 6)):
    """Number of paths: mostly small, sometimes dozens or hundreds."""
    u = rng.random()
    if u < 0.9:
        return pick(rng, usual)
    return int(rng.integers(7, 33)) if u < 0.975 else int(rng.integers(33, 300))


def dims(rng, usual=(1, 1, 2, 2, 3, 4)):
    return pick(rng, usual) if coin(rng, 0.94) else int(rng.integers(5, 14))


def draw(rng, d=None, kind=None, vol0=False, corr=None):
    """Random model: (kind, d, plain parameters as lists, cor or None)"""
    kind = kind or pick(rng, ["bm", "gbm", "ou"])
    d = d or dims(rng)
    vol = [0.0 if vol0 else float(10 ** rng.uniform(-2, 0.3)) for _ in range(d)]
    p = dict(vol=vol)
    if kind == "ou":
        p["mean"] = [float(v) for v in rng.normal(0, 3, d)]
        p["mrr"] = [float(10 ** rng.uniform(-1, 1.2)) for _ in range(d)]
    else:
        p["drift"] = [float(v) for v in rng.normal(0, 1, d) * (0 if coin(rng, 0.1) else 1)]
    use_cor = d > 1 and (coin(rng, 0.6) if corr is None else corr)
    return kind, d, p, (correlation(rng, d) if use_cor else None)


def near_singular(rng, d):
    """A correlation matrix of variates that are almost combinations of each other."""
    a = rng.normal(size=(d, int(rng.integers(1, d))))
    s = a @ a.T
    s = s / np.sqrt(np.outer(np.diag(s), np.diag(s)))
    c = (s + 10 ** rng.uniform(-8, -3) * np.eye(d))
    c = c / np.sqrt(np.outer(np.diag(c), np.diag(c)))
    c = (c + c.T) / 2
    np.fill_diagonal(c, 1.0)
    return c


def build(rng, kind, p, cor):
    kw = {k: as_param(rng, v) for k, v in p.items()}
    if cor is not None:
        kw["cor"] = cor if coin(rng, 0.7) else cor.tolist()
    return MODELS[kind](**kw)


def build_plain(kind, p, cor):
    kw = {k: np.array(v, dtype=float) for k, v in p.items()}
    return MODELS[kind](cor=None if cor is None else np.array(cor), **kw)


def step_mean(kind, p, x, dt):
    """Deterministic part of one exact step (in log space for gbm)."""
    if kind == "bm":
        return x + np.array(p["drift"]) * dt
    if kind == "gbm":
        v = np.array(p["vol"])
        return x + (np.array(p["drift"]) - v * v / 2) * dt
    m, k = np.array(p["mean"]), np.array(p["mrr"])
    return m + (x - m) * np.exp(-k * dt)


def step_std(kind, p, dt):
    v = np.array(p["vol"])
    if kind == "ou":
        k = np.array(p["mrr"])
        return v * np.sqrt(-np.expm1(-2 * k * dt) / (2 * k))
    return v * math.sqrt(dt)


def unit(kind, d, cor=None):
    one = [1.0] * d
    p = dict(vol=one)
    if kind == "bm":
        p["drift"] = [0.0] * d
    elif kind == "gbm":
        p["drift"] = [0.5] * d
    else:
        p.update(mean=[0.0] * d, mrr=one)
    return p


def to_space(kind, path):
    a = np.asarray(path, dtype=float)
    a = a.reshape(len(a), -1)
    return np.log(a) if kind == "gbm" else a


def noise(kind, p, path, dt, d):
    """The standard normal noise that drives a simulated path: (steps, paths, variates)"""
    x = to_space(kind, path)
    paths = x.shape[1] // d
    x = x.reshape(len(x), paths, d)
    return (x[1:] - step_mean(kind, p, x[:-1], dt)) / step_std(kind, p, dt)


def x0_for(rng, kind, n):
    if coin(rng, 0.08):  # the start that the noise does not show: zero, or one for geometric models
        return np.full(n, 1.0 if kind == "gbm" else 0.0)
    v = np.exp(rng.normal(1, 2, n)) if kind == "gbm" else rng.normal(0, 5, n)
    return np.round(v, 6) + (0.001 if kind == "gbm" else 0.0)


def x0_form(rng, values, names=None):
    """A start value in one of the accepted forms; the labels of a series or a row of a frame have no effect."""
    v = np.asarray(values, dtype=float)
    n = len(v)
    idx = [pd.RangeIndex(n), pd.Index([f"c{(7 * i + 3) % 19}" for i in range(n)]), pd.Index(np.arange(n)[::-1]), pd.Index(["x"] * n)][int(rng.integers(4))]
    if names is not None and n % len(names) == 0 and coin(rng, 0.6):
        idx = pd.Index(list(names) * (n // len(names)))
    if len(v) == 1:
        k = int(rng.integers(5))
        if k == 0:
            return float(v[0])
        if k == 1 and v[0] == int(v[0]):
            return int(v[0])
    k = int(rng.integers(5))
    return [v, v.tolist(), v.reshape(1, -1), pd.Series(v, index=idx), pd.DataFrame([v], columns=idx)][k]


def fit_data(rng, kind, n, d):
    """Positive (gbm), mean reverting (ou) or wandering data."""
    c = correlation(rng, d)
    z = rng.normal(size=(n, d)) @ np.linalg.cholesky(c).T
    s = 10 ** rng.uniform(-2, -0.3, d)
    m = rng.normal(0, 2, d)
    if kind == "ou":
        a = rng.uniform(0.3, 0.95, d)
        x = np.empty((n, d))
        x[0] = m + rng.normal(size=d)
        for t in range(1, n):
            x[t] = m + (x[t - 1] - m) * a + s * z[t]
        return x
    x = np.cumsum(z * s + rng.normal(0, 0.02, d), axis=0) + m
    return np.exp(x * 0.3) * 10 ** rng.uniform(-1, 3) if kind == "gbm" else x * 10 ** rng.uniform(-2, 3)


REGULAR = ["D", "B", "W", "W-WED", "ME", "MS", "QE", "QS", "QE-NOV", "YE", "YS", "YE-JUN"]


def regular_index(rng, n, freq=None, tz=False, name=None):
    f = freq or pick(rng, REGULAR if n <= 130 else [f for f in REGULAR if f[:1] in "DBW" or (n <= 400 and f[:1] == "Q") or (n < 2000 and f[:1] == "M")])
    start = pd.Timestamp("1990-01-01") + pd.Timedelta(int(rng.integers(0, 9000)), unit="D")
    idx = pd.date_range(start, periods=n, freq=f, tz="UTC" if tz else None, name=name)
    if f[:1] in "DW" and coin(rng, 0.15):  # the same dates, made with a fixed step
        idx = pd.date_range(idx[0], periods=n, freq=pick(rng, ["24h", "1440min"] if f == "D" else ["7D", "168h"]), name=name)
    return idx


def irregular_index(rng, n):
    steps = rng.integers(1, 12, n)
    steps[: min(4, n)] = [1, 5, 2, 9][: min(4, n)]
    return pd.DatetimeIndex(pd.Timestamp("2001-02-03") + pd.to_timedelta(np.cumsum(steps), unit="D"))


def fit_container(rng, x, names=True, forms=None):
    """(container, form) for calibration data x (n, d)."""
    n, d = x.shape
    forms = forms or ["array", "frame", "frame_dates", "frame_irregular"] + (["array1", "series", "series_dates", "series_irregular"] if d == 1 else [])
    f = pick(rng, forms)
    nm = pick(rng, [None, "date"])
    if f == "array":
        return x.copy(), f
    if f == "array1":
        return x[:, 0].copy(), f
    idx = None
    if "dates" in f:
        idx = regular_index(rng, n, tz=coin(rng, 0.1), name=nm)
    elif "irregular" in f:
        idx = irregular_index(rng, n).rename(nm)
    if f.startswith("frame"):
        cols = pick(rng, [[f"c{i}" for i in range(d)], [f"asset {d - i}" for i in range(d)], list(range(10, 10 + d))])
        return pd.DataFrame(x.copy(), columns=cols, index=idx), f
    return pd.Series(x[:, 0].copy(), index=idx, name=pick(rng, ["px", "close price"])), f


def data_dt(x):
    """Year fraction of the spacing of the data by the documented rule; None when it is refused."""
    if not isinstance(x, (pd.Series, pd.DataFrame)) or not isinstance(x.index, pd.DatetimeIndex):
        return 1 / 252
    f = pd.infer_freq(x.index)
    if f is None:
        return 1 / 252
    return FREQS.get(f.split("-")[0])


def estimators(kind, x, dt):
    """Closed form estimates per column; None where the regression is not mean reverting."""
    n, d = x.shape
    fs = math.fsum
    out, res = {}, []
    if kind == "ou":
        out = dict(mean=[], mrr=[], vol=[])
        for j in range(d):
            a, b = [float(v) for v in x[:-1, j]], [float(v) for v in x[1:, j]]
            m = n - 1
            ma, mb = fs(a) / m, fs(b) / m
            sxx = fs((v - ma) ** 2 for v in a)
            sxy = fs((v - ma) * (w - mb) for v, w in zip(a, b))
            if sxx == 0:
                return None
            slope = sxy / sxx
            if not 1e-4 < slope < 1 - 1e-6:
                return None
            ic = mb - slope * ma
            r = [w - slope * v - ic for v, w in zip(a, b)]
            mr = fs(r) / m
            c2 = fs((v - mr) ** 2 for v in r) / (m - 1)
            k = -math.log(slope) / dt
            out["mrr"].append(k)
            out["mean"].append(ic / (1 - slope))
            out["vol"].append(math.sqrt(2 * k * c2 / (1 - slope * slope)))
            res.append(r)
    else:
        out = dict(drift=[], vol=[])
        for j in range(d):
            c = [float(v) for v in x[:, j]]
            g = [b - a if kind == "bm" else math.log(b / a) for a, b in zip(c, c[1:])]
            m = fs(g) / len(g)
            s2 = fs((v - m) ** 2 for v in g) / (len(g) - 1)
            out["vol"].append(math.sqrt(s2 / dt))
            out["drift"].append(m / dt + (s2 / dt / 2 if kind == "gbm" else 0.0))
            res.append(g)
    if d > 1:
        c = np.eye(d)
        for i in range(d):
            for j in range(i):
                a, b = res[i], res[j]
                ma, mb = fs(a) / len(a), fs(b) / len(b)
                va, vb = fs((v - ma) ** 2 for v in a), fs((v - mb) ** 2 for v in b)
                if va == 0 or vb == 0:
                    return None
                c[i, j] = c[j, i] = fs((v - ma) * (w - mb) for v, w in zip(a, b)) / math.sqrt(va * vb)
        if np.linalg.eigvalsh(c).min() < 1e-6:
            return None
        out["cor"] = c
    else:
        out["cor"] = None
    return out


def nll(kind, p, cor, x, dt):
    """Minus the sum of the exact transition log densities of log increments (gbm) or values."""
    y = np.log(x) if kind == "gbm" else np.asarray(x, float)
    d = y.shape[1]
    s = step_std(kind, p, dt)
    r = (y[1:] - step_mean(kind, p, y[:-1], dt)) / s
    if cor is None:
        q, ld = (r * r).sum(), 0.0
    else:
        w, v = np.linalg.eigh(np.asarray(cor))
        q, ld = (((r @ v) ** 2) / w).sum(), float(np.log(w).sum())
    m = len(r)
    return 0.5 * (m * d * math.log(2 * math.pi) + 2 * m * float(np.log(s).sum()) + m * ld + q)


def values(out):
    a = np.asarray(out, dtype=float)
    return a.reshape(len(a), -1) if len(a) else a.reshape(0, a.shape[1] if a.ndim == 2 else 1)


SIG = dict(size=size)
