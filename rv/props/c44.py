"""C44: calibration, simulation and likelihood belong to the same model."""

import math

import numpy as np
import pandas as pd

from rv import sims
from rv.gens import coin, correlation, pick, size

RULE = "distinct (model, variates, which parameters were moved or recovered, source of the time step) with likelihoods or recovered parameters compared"
REQUIRED = ["bm", "gbm", "ou", "moved_likelihood", "recovered", "recovered_from_labels", "correlated", "several_paths_scored", "refit_stable", "persistent"]


def best(mon, rng):
    """No other parameters explain the calibration data better than the calibrated ones."""
    kind = pick(rng, ["bm", "gbm", "ou"])
    d = 1 if kind == "ou" else sims.dims(rng, [1, 1, 2, 3])
    n = size(rng, 8, 60, 600) + 3 * d
    x = sims.fit_data(rng, kind, n, d)
    dt = float(10 ** rng.uniform(-3, 0.3))
    persistent = kind == "ou" and coin(rng, 0.3)
    if persistent:  # returns to its mean over hundreds or thousands of steps
        n = pick(rng, [60, 200, 600, 1500])
        a, s, x = 1 - 10 ** rng.uniform(-4.5, -2), 10 ** rng.uniform(-2, 0), np.empty((n, 1))
        x[0] = s * rng.normal() * pick(rng, [1, 10, 100])
        z = rng.normal(size=n)
        for t in range(1, n):
            x[t] = x[t - 1] * a + s * z[t]
        x += rng.normal()
    p = sims.estimators(kind, x, dt)
    if p is None:
        return
    data, form = sims.fit_container(rng, x, forms=None if n < 220 else ["array", "frame"])
    m = sims.MODELS[kind]()
    mon.note(kind=kind, data=data, dt=dt)
    mon.call(m.fit, data, dt=dt)
    base = mon.call(m.nll, data, dt=dt)
    k = n - 1
    slack = k * d / 2 * (math.log(k / (k - 1)) - 1 / k) + 1e-7 * (1 + abs(base))  # the variance estimate is the unbiased one
    names = ("mean", "mrr", "vol") if kind == "ou" else ("drift", "vol")
    got = {q: np.asarray(getattr(m, q), float).reshape(-1) for q in names}
    cor = None if d == 1 else np.asarray(m.cor, float)
    direct = mon.call(sims.build_plain(kind, {a: p[a] for a in names}, p.get("cor")).nll, data, dt=dt)
    mon.check(direct >= base - slack, f"likelihood rises from {-base!r} to {-direct!r} with the estimates {p} instead of {got}")
    for _ in range(4):
        q = {a: v.copy() for a, v in got.items()}
        c = cor
        moved = pick(rng, list(names) + ["all"] + (["cor"] if d > 1 else []))
        s = 10 ** rng.uniform(-4, -0.5)
        for a in names:
            if moved not in (a, "all"):
                continue
            u = rng.normal(size=d) * s
            if a in ("vol", "mrr"):
                q[a] = q[a] * np.exp(u)
            elif a == "mean":
                q[a] = q[a] + u * x.std(axis=0)
            else:
                q[a] = q[a] + u * got["vol"] / math.sqrt(k * dt) * 10
        if moved == "cor":
            c = (1 - min(s, 0.5)) * cor + min(s, 0.5) * correlation(rng, d)
            c = (c + c.T) / 2
            np.fill_diagonal(c, 1.0)
        other = mon.call(sims.build_plain(kind, {a: list(v) for a, v in q.items()}, c).nll, data, dt=dt)
        mon.check(other >= base - slack, f"likelihood rises from {-base!r} to {-other!r} when {moved} is moved away from the calibrated value: {q[moved] if moved in q else ''} instead of {got.get(moved)}")
        mon.seen("moved_likelihood")
        mon.seen("persistent", int(persistent))
        mon.signature("best", kind, d, moved, form)
    # calibrating again on the same data gives the same model
    mon.call(m.fit, data, dt=dt)
    for a in names:
        mon.close(np.asarray(getattr(m, a), float).reshape(-1), got[a], f"{a} after calibrating again on the same data", rtol=1e-12)
    mon.seen("refit_stable")
    mon.seen(kind)
    mon.seen("correlated", int(d > 1))


def recover(mon, rng):
    """Calibration on a long simulated path returns the parameters of the simulation."""
    kind = pick(rng, ["bm", "gbm", "ou"])
    d = pick(rng, [1, 1, 2, 3])
    cor = correlation(rng, d) if d > 1 and coin(rng, 0.7) else None
    n = pick(rng, [2500, 4000])
    labelled = coin(rng, 0.4)
    f = pick(rng, ["D", "B", "W", "W-WED"] if n > 2500 else ["D", "B", "W", "W-MON"])
    dt = sims.FREQS[f.split("-")[0]] if labelled else float(10 ** rng.uniform(-3, 0.3))
    vol = [float(10 ** rng.uniform(-1.5, 0.0)) * (0.3 if kind == "gbm" else 1) / (math.sqrt(dt) if kind == "gbm" and dt > 0.05 else 1) for _ in range(d)]
    p = dict(vol=vol)
    if kind == "ou":
        a = rng.uniform(0.1, 0.95, d)
        p["mrr"] = [float(-math.log(v) / dt) for v in a]
        p["mean"] = [float(v) for v in rng.normal(0, 2, d)]
    else:
        p["drift"] = [float(v) for v in rng.normal(0, 0.5, d) * np.array(vol) / math.sqrt(dt)]
        if kind == "gbm":  # neither overflow nor underflow of the price
            p["drift"] = [v * v / 2 + float(rng.normal(0, 3)) * v / math.sqrt(n * dt) for v in vol]
    m = sims.build_plain(kind, p, cor)
    seed = int(rng.integers(0, 2**31))
    x0 = p["mean"] if kind == "ou" else 1.0
    req = dict(num_steps=n, random_state=seed, x0=x0)
    mon.note(kind=kind, params=p, cor=cor, dt=dt, label=f if labelled else None, request=req)
    if labelled:
        path = mon.call(m.path_sample, label_start="1960-01-04", label_freq=f, **req)
        fit = mon.call(sims.MODELS[kind]().fit, path)
    else:
        path = mon.call(m.path_sample, dt=dt, **req)
        fit = mon.call(sims.MODELS[kind]().fit, path, dt=dt)
    v = np.array(vol)
    g = lambda name: np.asarray(getattr(fit, name), float).reshape(-1)
    Z = 7.0
    got = g("vol")
    if kind == "ou":
        s = v * np.sqrt(-np.expm1(-2 * np.array(p["mrr"]) * dt) / (2 * np.array(p["mrr"])))
        slope = np.exp(-g("mrr") * dt)
        err = Z * np.sqrt((1 - a * a) / n) + 20 / n
        mon.check((np.abs(slope - a) <= err).all(), f"decay per step {slope}, simulated with {a}")
        sd = s / ((1 - a) * math.sqrt(n))
        mon.check((np.abs(g("mean") - p["mean"]) <= 1.5 * Z * sd).all(), f"mean {g('mean')}, simulated with {p['mean']}")
        s2 = got * np.sqrt(-np.expm1(-2 * g("mrr") * dt) / (2 * g("mrr")))
        mon.check((np.abs(s2 / s - 1) <= Z / math.sqrt(2 * n) + 10 / n).all(), f"noise per step {s2}, simulated with {s}")
    else:
        mon.check((np.abs(got / v - 1) <= Z / math.sqrt(2 * n) + 2 / n).all(), f"volatility {got}, simulated with {vol}")
        sd = v / math.sqrt(n * dt)
        extra = np.abs(got**2 - v**2) / 2 if kind == "gbm" else 0.0
        mon.check((np.abs(g("drift") - p["drift"]) <= Z * sd + extra).all(), f"drift {g('drift')}, simulated with {p['drift']}, standard error {sd}")
    if d > 1:
        c = np.eye(d) if cor is None else cor
        mon.check((np.abs(np.asarray(fit.cor) - c) <= Z * (1 - c * c) / math.sqrt(n) + 30 / n).all(), f"correlation {fit.cor}, simulated with {c}")
        mon.seen("correlated")
    # the likelihood of the truth is close to the best one: twice the gap is about chi square
    free = d * (3 if kind == "ou" else 2) + d * (d - 1) // 2
    if cor is not None or d == 1:
        kw = {} if labelled else dict(dt=dt)
        gap = 2 * (mon.call(m.nll, path, **kw) - mon.call(fit.nll, path, **kw))
        mon.check(-1 - 5 * d * (kind == "ou" and d > 1) <= gap <= free + 12 * math.sqrt(2 * free) + 25 + (n if kind == "ou" and d > 1 else 0), f"likelihood ratio statistic {gap} of the true parameters for {free} parameters")
        mon.seen("several_paths_scored", int(d > 1))
    mon.seen("recovered_from_labels" if labelled else "recovered")
    mon.seen(kind)
    mon.signature("recover", kind, d, cor is not None, f if labelled else None)


STAGES = [("best_likelihood", best, 6000, 60000), ("recovery", recover, 2500, 25000)]
