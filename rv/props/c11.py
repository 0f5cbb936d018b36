"""C11: calibrated parameters."""

import numpy as np
import pandas as pd

from rv import sims
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (model, columns, rows class, container, earlier calibration) of calibrated parameter sets"
REQUIRED = ["bm", "gbm", "ou", "several_columns", "refit", "integers", "simulated_and_scored", "oscillating"]


def compare(mon, kind, model, est, what):
    for k, v in est.items():
        if k == "cor":
            continue
        got = np.asarray(getattr(model, k), float).reshape(-1)
        tol = 1e-5 if kind == "ou" else 1e-7
        mon.close(got, v, f"{what}: {k}", rtol=tol, atol=tol * max(1e-3, float(np.max(np.abs(v)))))
    if est["cor"] is None:
        mon.check(model.cor is None, f"{what}: a correlation is set for a single column: {model.cor!r}")
    else:
        mon.check(model.cor is not None, f"{what}: no correlation for several columns")
        mon.close(np.asarray(model.cor, float), est["cor"], f"{what}: cor", rtol=1e-6, atol=1e-7)


def draw_data(rng, kind=None):
    kind = kind or pick(rng, ["bm", "gbm", "ou"])
    d = pick(rng, [1, 1, 2, 3, 5])
    n = 3 + (d > 1) * d + (kind == "ou") if coin(rng, 0.06) else size(rng, 4, 12) + 2 * d if coin(rng, 0.4) else int(rng.integers(20, 200)) if coin(rng, 0.97) else int(rng.integers(300, 5000))
    x = sims.fit_data(rng, kind, n, d)
    ints = kind == "bm" and coin(rng, 0.2)
    if ints:
        x = np.round(x * 100)
    dt = float(10 ** rng.uniform(-3, 0.3))
    est = sims.estimators(kind, x, dt)
    if est is not None and kind == "ou" and max(np.exp(-np.array(est["mrr"]) * dt)) > 0.995:
        est = None
    if est is not None and min(est["vol"]) < 1e-9:
        est = None
    return kind, d, n, x, ints, dt, est


def one(mon, rng):
    kind, d, n, x, ints, dt, est = draw_data(rng)
    if est is None:
        mon.seen("degenerate_data")
        return
    data, form = sims.fit_container(rng, x.astype(int) if ints else x)
    model = sims.MODELS[kind]()
    prior = pick(rng, ["none", "none", "parameters", "fit"])
    if prior == "parameters":
        k2, d2, p2, c2 = sims.draw(rng, kind=kind)
        model = sims.build(rng, k2, p2, c2)
    elif prior == "fit":
        _, d2, _, y, _, dt2, e2 = draw_data(rng, kind)
        if e2 is not None:
            mon.call(model.fit, sims.fit_container(rng, y)[0], dt=dt2)
            mon.seen("refit")
    mon.note(model=kind, data=data, dt=dt, prior=prior)
    before = snapshot(data)
    ret = mon.call(model.fit, data, dt=dt) if coin(rng) else mon.call(model.fit, data, dt)
    mon.check(ret is model, "fit does not return the model")
    mon.check(snapshot(data) == before, "fit modified its data")
    compare(mon, kind, model, est, f"{kind} on {form}")
    if coin(rng, 0.5):
        s = mon.call(model.path_sample, num_steps=5, num_paths=pick(rng, [1, 2]), random_state=1, **({"label_freq": "D", "dt": dt} if "irregular" in form else {}))
        mon.check(np.isfinite(np.asarray(s, float)).all(), "simulation of the calibrated model is not finite")
        mon.check(np.isfinite(mon.call(model.nll, data, dt)), "score of the calibrated model is not finite")
        compare(mon, kind, model, est, "after use")
        mon.seen("simulated_and_scored")
    mon.seen(kind)
    mon.seen("several_columns", int(d > 1))
    mon.seen("integers", int(ints))
    mon.signature(kind, d, min(n, 12), form, prior, ints)


def separate(mon, rng):
    """Every column is calibrated separately: a column alone gives the same parameters, in any column order."""
    kind, d, n, x, ints, dt, est = draw_data(rng)
    if est is None or d == 1:
        return
    mon.note(model=kind, data=x, dt=dt)
    model = mon.call(sims.MODELS[kind]().fit, x, dt=dt)
    names = [k for k in est if k != "cor"]
    j = int(rng.integers(d))
    alone = mon.call(sims.MODELS[kind]().fit, x[:, j].copy(), dt=dt)
    perm = rng.permutation(d)
    other = mon.call(sims.MODELS[kind]().fit, x[:, perm].copy(), dt=dt)
    for k in names:
        a = np.asarray(getattr(model, k)).reshape(-1)
        mon.close(np.asarray(getattr(alone, k)).reshape(-1), a[[j]], f"{k} of column {j} alone", rtol=1e-7, atol=1e-10)
        mon.close(np.asarray(getattr(other, k)).reshape(-1), a[perm], f"{k} of permuted columns", rtol=1e-7, atol=1e-10)
    mon.close(np.asarray(other.cor), np.asarray(model.cor)[np.ix_(perm, perm)], "correlation of permuted columns", rtol=1e-7, atol=1e-9)
    mon.seen("permuted")
    mon.signature("separate", kind, d)


def oscillating(mon, rng):
    """Columns whose regression slope is negative have no mean-reversion rate of their own: the rate is high, and the rest still comes from that column alone."""
    d = pick(rng, [1, 2, 3, 4])
    n = int(rng.integers(30, 200))
    slopes = np.where(rng.random(d) < 0.5, rng.uniform(-0.9, -0.4, d), rng.uniform(0.5, 0.9, d))
    slopes[int(rng.integers(d))] = rng.uniform(-0.9, -0.4)
    x = np.empty((n, d))
    m, s = rng.normal(0, 20, d), 10 ** rng.uniform(-2, 1, d)
    x[0] = m
    for t in range(1, n):
        x[t] = m + (x[t - 1] - m) * slopes + s * rng.normal(size=d)
    dt = float(10 ** rng.uniform(-3, 0.3))
    mon.note(data=x, dt=dt)
    data, form = sims.fit_container(rng, x)
    model = mon.call(sims.MODELS["ou"]().fit, data, dt=dt)
    est = {k: np.asarray(getattr(model, k), float).reshape(-1) for k in ("mean", "mrr", "vol")}
    for j in range(d):
        alone = mon.call(sims.MODELS["ou"]().fit, x[:, j].copy(), dt=dt)
        for k, v in est.items():
            a = float(np.asarray(getattr(alone, k), float).reshape(-1)[0])
            mon.close(a, v[j], f"{k} of column {j} alone and in the set", rtol=1e-6, atol=1e-10)
        sl = np.polyfit(x[:-1, j], x[1:, j], 1)[0]
        if sl < -1e-3:
            later = x[1:, j]
            mon.check(est["mrr"][j] * dt > 5, f"mean-reversion rate {est['mrr'][j]} for slope {sl}, dt={dt}")
            mon.close(est["mean"][j], later.mean(), f"mean of oscillating column {j}", rtol=1e-4, atol=1e-4 * float(np.std(later)))
            mon.close(est["vol"][j] / np.sqrt(2 * est["mrr"][j]), np.std(later, ddof=1), f"stationary deviation of oscillating column {j}", rtol=1e-4, atol=0)
            mon.seen("oscillating")
    mon.check(np.isfinite(np.asarray(mon.call(model.path_sample, num_steps=4, random_state=2, **({"label_freq": "D", "dt": dt} if "irregular" in form else {})), float)).all(), "simulation is not finite")
    mon.check(np.isfinite(mon.call(model.nll, x, dt)), "score is not finite")
    mon.signature("oscillating", d)


def round_trip(mon, rng):
    """Calibrating on a long simulated path recovers the parameters within their standard errors."""
    kind, d, p, cor = sims.draw(rng, d=pick(rng, [1, 2]), corr=True)
    n, dt = 4000, 0.1
    if kind == "gbm":
        p["drift"] = [0.5 * v * v + 0.02 for v in p["vol"]]
        p["vol"] = [min(v, 1.0) for v in p["vol"]]
    if kind == "ou":
        p["mrr"] = [min(max(v, 0.5), 8.0) for v in p["mrr"]]
    seed = int(rng.integers(0, 10**9))
    mon.note(model=kind, params=p, cor=cor, seed=seed)
    path = mon.call(sims.build(rng, kind, p, cor).path_sample, x0=1.0, dt=dt, num_steps=n, random_state=seed)
    m = mon.call(sims.MODELS[kind]().fit, path, dt=dt)
    vol = np.asarray(m.vol).reshape(-1)
    for j in range(d):
        v = p["vol"][j]
        if kind == "ou":
            k = p["mrr"][j]
            a = np.exp(-k * dt)
            se = np.sqrt((1 - a * a) / n) / (a * dt)
            mon.check(abs(np.asarray(m.mrr).reshape(-1)[j] - k) < 7 * se + 60 / (n * dt), f"mrr {np.asarray(m.mrr)} for {p['mrr']}")
            mon.check(abs(vol[j] / v - 1) < 7 * (1 / np.sqrt(2 * n) + se * dt) + 0.05, f"vol {vol} for {p['vol']}")
            sm = v / k / np.sqrt(n * dt)
            mon.check(abs(np.asarray(m.mean).reshape(-1)[j] - p["mean"][j]) < 8 * sm + 0.02 * abs(1 - p["mean"][j]) + 0.02 * sm, f"mean {np.asarray(m.mean)} for {p['mean']}")
        else:
            mon.check(abs(vol[j] / v - 1) < 7 / np.sqrt(2 * n), f"vol {vol} for {p['vol']}")
            mon.check(abs(np.asarray(m.drift).reshape(-1)[j] - p["drift"][j]) < 7 * v / np.sqrt(n * dt) + 7 * v * v / np.sqrt(2 * n), f"drift {np.asarray(m.drift)} for {p['drift']}")
    if cor is not None:
        mon.close(np.asarray(m.cor), cor, "correlation recovered", rtol=0, atol=8 / np.sqrt(n))
    mon.seen("recovered")
    mon.signature("round", kind, d)


STAGES = [("estimators", one, 4000, 40000), ("separate_columns", separate, 2000, 20000), ("oscillating_columns", oscillating, 600, 6000), ("round_trip", round_trip, 300, 3000)]
