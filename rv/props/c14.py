"""C14: quasi-random paths."""

import numpy as np
import pandas as pd

from quantfinlib.sim import BrownianMotion, QuasiRandom
from rv import sims
from rv.core import rng_state, snapshot
from rv.gens import coin, pick, size

RULE = "distinct (base model, variates, paths, indicator, factor form, labels) of decomposed quasi-random paths"
REQUIRED = ["bm", "gbm", "ou", "missing_values", "several_paths_and_variates", "labelled", "default_base", "factor_per_column",
            "per_variate_strength", "scalar_volatility", "no_look_ahead", "default_strength", "calibrated_base", "without_start", "fit_refused", "undefined_indicator", "rescaled_indicator"]


def lagged(k):
    def f(x):
        out = np.full(len(x), np.nan)
        out[k:] = x[k:] - x[:-k]
        return out
    return f


def rolling_mean_gap(w):
    def f(x):
        out = np.full(len(x), np.nan)
        for t in range(w - 1, len(x)):
            out[t] = x[t] - x[t - w + 1 : t + 1].mean()
        return out
    return f


def sign(x):
    return np.append(0.0, np.sign(np.diff(x)))


def running(x):
    return x - np.cumsum(x) / np.arange(1, len(x) + 1)


INDICATORS = dict(lag1=lagged(1), lag2=lagged(2), mean3=rolling_mean_gap(3), sign=sign, running=running, ident=lambda x: x * 1.0,
                  relative=lambda x: x - x.mean(), to_go=lambda x: x[-1] - x, rank=lambda x: np.argsort(np.argsort(x)) / len(x))


def one(mon, rng):
    kind, d, p, cor = sims.draw(rng)
    base = sims.build_plain(kind, p, cor)
    paths = sims.npaths(rng, [1, 1, 2, 4])
    steps = size(rng, 6, 50, 1000)
    dt = float(10 ** rng.uniform(-3, -0.5))
    seed = int(rng.integers(0, 2**31))
    name = pick(rng, sorted(INDICATORS))
    unit = 10.0 ** rng.uniform(-12, 6) if coin(rng, 0.3) else 1.0
    ind = (lambda x: unit * INDICATORS[name](x)) if unit != 1 else INDICATORS[name]
    mon.seen("rescaled_indicator", int(unit != 1))
    cols = d * paths
    fform = pick(rng, ["scalar", "scalar", "int", "column"])
    f = float(10 ** rng.uniform(-2, 0.5)) if fform == "scalar" else 2 if fform == "int" else rng.uniform(0.1, 2, cols)
    x0 = sims.x0_for(rng, kind, pick(rng, [1, d]))
    req = dict(x0=sims.x0_form(rng, x0), dt=dt, num_steps=steps, num_paths=paths, random_state=seed)
    lab = {}
    if coin(rng, 0.3):
        lab = dict(label_start="2021-01-01", label_freq=pick(rng, ["D", "B", "ME"]))
    if coin(rng, 0.2):
        lab["columns"] = [f"c{i}" for i in range(d)]
    include = not coin(rng, 0.2)
    mon.note(base=kind, params=p, cor=cor, indicator=name, unit=unit, factor=f, request=req, labels=lab)
    b = mon.call(base.path_sample, **req)
    factor = dict(f_signal_vol=f) if not (fform == "scalar" and coin(rng, 0.1)) else {}
    q = QuasiRandom(tech_ind_func=ind, base_model=base, **factor)
    if not factor:
        f = 0.1
    out = mon.call(q.path_sample, **req, **lab, **({} if include else {"include_x0": False}))
    v = sims.values(out)
    if not include:
        mon.check(len(v) == steps, "initial value not left out")
        v = np.vstack([b[0], v])
    mon.check(v.shape == b.shape, f"shape {v.shape}, base path {b.shape}")
    want = b.copy()
    fv = np.broadcast_to(np.asarray(f, float), (cols,))
    for c in range(cols):
        raw = ind(b[:-1, c].copy())
        nan = np.isnan(raw)
        mon.seen("missing_values", int(nan.any()))
        sig = np.where(nan, 0.0, raw)  # value at position t drives step t+1
        inner = sig[:-1]
        m = len(inner)
        sd = np.sqrt(((inner - inner.mean()) ** 2).sum() / (m - 2))
        if not sd > 1e-9 * (np.abs(inner).max() + 1e-300):
            mon.seen("constant_indicator")
            return
        gain = fv[c] * p["vol"][c % d] * np.sqrt(dt) / sd
        want[1:, c] += np.cumsum(sig * gain)
    scale = np.abs(want).max(axis=0) + 1e-12
    mon.close(v / scale, want / scale, "quasi-random path against base path plus lagged signal", rtol=0, atol=1e-8)
    # causality seen from outside: the first step never carries a signal from the future
    if lab:
        mon.check(isinstance(out, (pd.Series, pd.DataFrame)), "labelled request without labels")
        mon.seen("labelled")
        ref = mon.call(base.path_sample, **req, **lab, **({} if include else {"include_x0": False}))
        mon.check(type(ref) is type(out) and list(ref.index) == list(out.index), "labels differ from those of the base model")
    mon.seen(kind)
    mon.seen("several_paths_and_variates", int(d > 1 and paths > 1))
    mon.seen("factor_per_column", int(fform == "column" and cols > 1))
    mon.signature(kind, d, paths, name, fform, tuple(sorted(lab)), include)


def default_base(mon, rng):
    """Without a base model, Brownian motion with its default parameters is used."""
    seed, steps, paths = int(rng.integers(0, 10**6)), size(rng, 6, 30, 600), pick(rng, [1, 3])
    name = pick(rng, sorted(INDICATORS))
    ind = INDICATORS[name]
    dt = pick(rng, [None, 0.05])
    mon.note(indicator=name, seed=seed, dt=dt)
    kw = dict(num_steps=steps, num_paths=paths, random_state=seed, x0=3.0)
    a = mon.call(QuasiRandom(ind).path_sample, dt=dt, **kw)
    b = mon.call(QuasiRandom(ind, 0.1, BrownianMotion(drift=0.0, vol=0.1)).path_sample, dt=dt or 1 / 252, **kw)
    mon.equal(a, b, "default base model")
    mon.seen("default_base")
    mon.signature("default", name, paths)


def frozen_past(mon, rng):
    """Altering the indicator from time t on leaves the direction of all steps up to t proportional."""
    kind, d, p, cor = sims.draw(rng, d=1)
    base = sims.build_plain(kind, p, cor)
    steps = size(rng, 12, 40, 600)
    t = int(rng.integers(4, steps - 2))
    seed = int(rng.integers(0, 10**6))
    i1 = INDICATORS["lag1"]

    def i2(x):
        out = np.array(i1(x))
        out[t:] = -3 * out[t:] + 1
        return out

    kw = dict(x0=2.0, dt=0.02, num_steps=steps, random_state=seed)
    b = sims.values(mon.call(base.path_sample, **kw))[:, 0]
    s = [np.diff(sims.values(mon.call(QuasiRandom(i, 1.0, base).path_sample, **kw))[:, 0] - b) for i in (i1, i2)]
    mon.note(base=kind, params=p, altered_from=t)
    # steps 1..t only use indicator values 0..t-1, so the two signals are proportional there
    u, w = s[0][:t], s[1][:t]
    k = (u @ w) / (u @ u)
    scale = np.abs(w).max() + 1e-12 * np.abs(b).max()
    mon.close(w / scale, k * u / scale, "signal before the alteration", rtol=0, atol=1e-6)
    mon.seen("altered_future")
    mon.signature("frozen", kind)


def momentum(x):
    return np.append(0.0, np.diff(x))


def reversion(x):
    return x[0] - x


def centred(x):
    return pd.Series(x).rolling(3).mean().to_numpy() - x


def spikes(x):
    out = np.append(np.nan, np.sign(np.diff(x)))
    out[::4] = np.nan
    return out


def level(x):
    return np.abs(x)


SHAPES = [momentum, reversion, centred, spikes, level]


def forms(mon, rng):
    kind, d, p, cor = sims.draw(rng)
    base = sims.build(rng, kind, p, cor)
    if coin(rng, 0.1):
        base, kind, d = None, "bm", 1
        mon.seen("default_model")
    elif coin(rng, 0.2) and kind != "ou":
        base = sims.MODELS[kind](drift=np.array(p["drift"]), vol=p["vol"][0])
        mon.seen("scalar_volatility", int(d > 1))
    elif coin(rng, 0.15):
        x = np.cumsum(rng.normal(size=(40, d)), axis=0) * 0.05
        base.fit(np.exp(x) if kind == "gbm" else x, 0.1)
        mon.seen("calibrated_base")
    k = size(rng, 1, 4) if coin(rng, 0.93) else sims.npaths(rng, [5, 12])
    n = size(rng, 4, 24, 600)
    dt = float(10 ** rng.uniform(-2.5, 0))
    ind = pick(rng, SHAPES)
    f = float(rng.uniform(0.05, 2))
    farg = f
    fcol = np.full(d, f)
    if coin(rng, 0.4) and base is not None:
        fcol = rng.uniform(0.05, 2, d)
        farg = fcol if coin(rng) else fcol.tolist()
        mon.seen("per_variate_strength", int(d > 1 and k > 1))
        if coin(rng, 0.3):
            fcol = rng.uniform(0.05, 2, d * k)
            farg = fcol
    if base is None:
        if coin(rng):
            q = mon.call(QuasiRandom, ind, farg)
        else:
            q, fcol = mon.call(QuasiRandom, tech_ind_func=ind), np.array([0.1])
            mon.seen("default_strength")
        base = BrownianMotion()
    else:
        q = mon.call(QuasiRandom, ind, farg, base)
    fcol = np.tile(fcol, d * k // len(fcol))
    seed = int(rng.integers(0, 10**6))
    x0 = 1 + rng.random(d)
    form = int(rng.integers(3))
    start = x0 if form == 0 else (x0.tolist() if form == 1 else float(x0[0]))
    if form == 2:
        x0 = np.full(d, x0[0])
    req = dict(x0=start, dt=dt, num_steps=n, num_paths=k, random_state=seed)
    mon.note(base=base, indicator=ind.__name__, strength=farg, request=req)
    g, before = rng_state(), snapshot([vars(base)])
    b = np.array(mon.call(base.path_sample, **req))
    got = np.array(mon.call(q.path_sample, **req))
    mon.check(rng_state() == g, "global random state changed")
    mon.check(snapshot([vars(base)]) == before, "base model modified")
    mon.check(got.shape == (n + 1, d * k), f"shape {got.shape}")
    vol = np.ravel(np.asarray(base.vol, float))
    vol = np.tile(vol, d * k // len(vol))
    sig, scale = np.zeros_like(b), np.zeros(d * k)
    for c in range(d * k):
        sig[1:, c] = np.nan_to_num(ind(b[:-1, c].copy()))
        s = np.std(sig[1:-1, c], ddof=2)
        if not s > 1e-9 * (np.abs(sig[1:-1, c]).max() + 1e-300):
            return  # a flat signal cannot be scaled
        scale[c] = fcol[c] * vol[c] * np.sqrt(dt) / s
    want = b + np.cumsum(sig * scale, axis=0)
    S = np.abs(b).max() + np.abs(sig * scale).sum(axis=0).max()
    mon.close(got, want, "quasi random path", rtol=1e-8, atol=1e-9 * S)
    mon.close(got[0], b[0], "start value", rtol=1e-14)
    mon.seen("undefined_indicator", int(ind in (centred, spikes)))
    # no look ahead: the direction of the signal up to a step does not depend on later values
    with np.errstate(all="ignore"):
        step = np.diff(got - b, axis=0)
        for c in range(d * k):
            j = int(rng.integers(1, n))
            early = np.nan_to_num(ind(b[:j, c].copy()))
            nz = np.abs(early) > 1e-3 * np.abs(early).max()
            if nz.any() and np.abs(step[:j, c][nz]).min() > 1e-7 * S:
                r = step[:j, c][nz] / early[nz]
                mon.check((np.abs(r - scale[c]) <= 1e-6 * abs(scale[c]) + 1e-9 * S / np.abs(early[nz]).min()).all(), f"signal of column {c} depends on later values: ratios {r[:5]}, {scale[c]}")
                mon.seen("no_look_ahead")
    mon.equal(np.array(mon.call(q.path_sample, **req, include_x0=False)), got[1:], "path without start value")
    mon.seen("without_start")
    if coin(rng, 0.3):
        lab = mon.call(q.path_sample, **req, label_start="2020-01-06", label_freq="B", columns=[f"v{i}" for i in range(d)])
        mon.equal(np.asarray(lab).reshape(got.shape), got, "values of the labelled path")
        mon.check(list(lab.index) == list(pd.bdate_range("2020-01-06", periods=n + 1)), "dates")
        mon.seen("labelled")
    if coin(rng, 0.05):
        mon.rejects("calibration of a quasi random model", q.fit, b)
        mon.seen("fit_refused")
    mon.seen(kind)
    mon.seen("several_paths", int(k > 1))
    mon.seen("several_variates", int(d > 1))
    mon.signature(kind, d, k, n, ind.__name__, type(farg).__name__, form)


STAGES = [("decomposition", one, 4000, 40000), ("default_base", default_base, 200, 2000), ("altered_future", frozen_past, 500, 5000),
          ("forms_of_request", forms, 4000, 40000)]
