"""C12: likelihood and information criteria."""

import math

import numpy as np

from rv import sims
from rv.gens import coin, pick, size

RULE = "distinct (model, variates, correlation, rows class, container, calibrated) of scores"
REQUIRED = ["bm", "gbm", "ou", "correlated", "aic", "bic", "calibrated", "perturbed", "other_units", "zero_correlations"]


def n_params(kind, d, cor):
    return d * (3 if kind == "ou" else 2) + (d * (d - 1) // 2 if cor is not None else 0)


def params_of(kind, m):
    return {k: np.asarray(getattr(m, k), float).reshape(-1).tolist() for k in (("mean", "mrr", "vol") if kind == "ou" else ("drift", "vol"))}


def one(mon, rng):
    kind, d, p, cor = sims.draw(rng)
    if cor is not None and coin(rng, 0.2):  # some or all variates uncorrelated: parameters nevertheless
        keep = rng.random((d, d)) < pick(rng, [0.0, 0.5])
        keep = keep & keep.T | np.eye(d, dtype=bool)
        if np.linalg.eigvalsh(cor * keep).min() > 1e-3:
            cor = cor * keep
            mon.seen("zero_correlations")
    n = size(rng, 2, 60, 3000)
    dt = float(10 ** rng.uniform(-3, 0.3))
    y = sims.fit_data(rng, kind, n, d)
    if coin(rng, 0.2):  # other units: all values and volatilities tiny or large
        s = 10.0 ** (rng.uniform(-14, 9) if kind != "gbm" else rng.uniform(-6, 0))
        y = y * s if kind != "gbm" else np.ones_like(y)
        for a in ("vol", "mean", "drift"):
            if a in p:
                p[a] = [v * s for v in p[a]]
        mon.seen("other_units")
    # a plausible path of the model with some misfit
    z = rng.normal(size=(n, d)) * 10 ** rng.uniform(-1, 0.5)
    x = np.empty((n, d))
    x[0] = np.log(y[0]) if kind == "gbm" else y[0]
    for t in range(1, n):
        x[t] = sims.step_mean(kind, p, x[t - 1], dt) + sims.step_std(kind, p, dt) * z[t]
    x = np.exp(np.clip(x, -500, 500)) if kind == "gbm" else x
    model = sims.build(rng, kind, p, cor)
    fitted = coin(rng, 0.4) and n > 6 + 2 * d and not (kind == "gbm" and (y == 1).all())
    if fitted:
        if sims.estimators(kind, y, 0.2) is None:
            return
        mon.call(model.fit, y, dt=0.2)
        p, cor = params_of(kind, model), model.cor
        mon.seen("calibrated")
    data, form = sims.fit_container(rng, x)
    mon.note(model=kind, params=p, cor=cor, data=data, dt=dt)
    want = sims.nll(kind, p, cor, x, dt)
    tol = 1e-6 * max(1.0, abs(want)) + 1e-8 * n * d
    got = mon.call(model.nll, data, dt=dt) if coin(rng) else mon.call(model.nll, data, dt)
    mon.check(np.ndim(got) == 0, f"nll is not a number: {got!r}")
    mon.close(got, want, f"{kind} nll", rtol=0, atol=tol)
    k = n_params(kind, d, cor)
    mon.close(mon.call(model.aic, data, dt=dt), 2 * k + 2 * want, f"{kind} aic with {k} parameters", rtol=0, atol=2 * tol)
    mon.close(mon.call(model.bic, data, dt=dt), k * math.log(n) + 2 * want, f"{kind} bic with {k} parameters", rtol=0, atol=2 * tol)
    # the likelihood of a path is the sum over its parts
    if n > 3:
        c = int(rng.integers(1, n - 1))
        a, b = mon.call(model.nll, x[: c + 1], dt=dt), mon.call(model.nll, x[c:], dt=dt)
        mon.close(a + b, got, "nll of the two parts of a path", rtol=0, atol=2 * tol)
    mon.seen(kind)
    mon.seen("correlated", int(cor is not None))
    mon.seen("aic")
    mon.seen("bic")
    mon.signature(kind, d, cor is not None, min(n, 6), form, fitted)


def perturbed(mon, rng):
    kind, d = pick(rng, ["bm", "gbm"]), pick(rng, [1, 2, 3])
    x = sims.fit_data(rng, kind, size(rng, 10, 80, 2000), d)
    dt = float(10 ** rng.uniform(-2, 0))
    if sims.estimators(kind, x, dt) is None:
        return
    m = mon.call(sims.MODELS[kind]().fit, x, dt=dt)
    mon.note(model=kind, data=x, dt=dt)
    best = mon.call(m.nll, x, dt=dt)
    p, cor = params_of(kind, m), m.cor
    for _ in range(4):
        q = dict(p)
        q["drift"] = [v + s * float(rng.normal()) * 10 ** float(rng.uniform(-3, 1)) for v, s in zip(p["drift"], p["vol"])]
        other = mon.call(sims.build_plain(kind, q, cor).nll, x, dt=dt)
        mon.check(best <= other + 1e-7 * max(1, abs(other)), f"fitted drift {p['drift']} scores {best}, perturbed {q['drift']} scores {other}")
    mon.seen("perturbed")
    mon.signature("perturbed", kind, d)


STAGES = [("scores", one, 5000, 50000), ("perturbed_drift", perturbed, 500, 5000)]
