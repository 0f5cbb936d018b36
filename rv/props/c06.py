"""C06: each step is the exact solution, driven by parameter independent noise."""

import numpy as np

from rv import sims
from rv.gens import coin, pick, size

RULE = "distinct (model, variates, paths, correlation, step size class, mean reversion class) of recorded step traces"
REQUIRED = ["bm", "gbm", "ou", "correlated", "several_paths_and_variates", "noise_free", "steps_compared", "extreme_reversion", "near_singular"]


def exact(mon, rng):
    kind, d, p, cor = sims.draw(rng, vol0=coin(rng, 0.05))
    if cor is not None and coin(rng, 0.12):
        cor = sims.near_singular(rng, d)
        mon.seen("near_singular")
    model = sims.build(rng, kind, p, cor)
    paths = sims.npaths(rng)
    steps = size(rng, 1, 60) if coin(rng, 0.97) else 1500
    if kind == "ou" and coin(rng, 0.25):  # hardly or at once reverting
        p["mrr"] = [float(10 ** rng.uniform(*pick(rng, [(-5, -1), (1.2, 4)]))) for _ in range(d)]
        if coin(rng):
            p["mean"] = [0.0] * d
        model = sims.build(rng, kind, p, cor)
        mon.seen("extreme_reversion")
    dt = float(10 ** rng.uniform(*((-3, 0.3) if coin(rng, 0.85) else pick(rng, [(-7, -3), (-13, -7)]))))
    dt = min(dt, 60.0 / steps)  # keeps geometric paths in the range of floating point
    seed = pick(rng, [0, 1, 7, int(rng.integers(0, 2**31)), int(rng.integers(0, 2**60))])
    x0 = sims.x0_for(rng, kind, pick(rng, [1, d]))
    if coin(rng, 0.1):
        x0 = x0 * 1e3
    elif coin(rng, 0.5 if dt < 1e-7 else 0.15):
        x0 = np.ones_like(x0) if kind == "gbm" else np.zeros_like(x0)
    mon.note(model=kind, params=p, cor=cor, paths=paths, steps=steps, dt=dt, seed=seed, x0=x0)
    path = mon.call(model.path_sample, x0=sims.x0_form(rng, x0), dt=dt, num_steps=steps, num_paths=paths, random_state=seed)
    unit = sims.unit(kind, d)
    base = mon.call(sims.build_plain(kind, unit, None).path_sample, x0=1.0 if kind == "gbm" else 0.0, dt=1.0,
                    num_steps=steps, num_paths=paths, random_state=seed)
    z = sims.noise(kind, unit, base, 1.0, d)
    mon.check(np.isfinite(z).all(), "noise of the unit model is not finite")
    if cor is not None:
        L = np.zeros((d, d))  # lower triangular square root
        for i in range(d):
            for j in range(i + 1):
                s = cor[i, j] - L[i, :j] @ L[j, :j]
                L[i, j] = np.sqrt(s) if i == j else s / L[j, j]
        z = z @ L.T
        mon.seen("correlated")
    x = sims.to_space(kind, path).reshape(steps + 1, paths, d)
    if kind == "gbm":
        mon.check((np.asarray(path) > 0).all(), "a geometric Brownian path is not positive")
    want = sims.step_mean(kind, p, x[:-1], dt) + sims.step_std(kind, p, dt) * z
    std = sims.step_std(kind, p, dt) * (np.abs(z).max() + 1)
    size_ = np.abs(x).max() + (np.abs(p["mean"]).max() if kind == "ou" else 1.0)
    tol = 1e-13 * size_ + std * (1e-9 + (1e-15 / (np.array(p["mrr"]) * dt) if kind == "ou" else 0))
    err = np.abs(x[1:] - want)
    at = np.unravel_index(int((err - tol).argmax()), err.shape)
    mon.check((err <= tol).all(), lambda: f"{kind} step {at} from the previous value is {x[1:][at]!r}, expected {want[at]!r} (tolerance {np.broadcast_to(tol, err.shape)[at]:.3g})")
    mon.seen("steps_compared", x[1:].size)
    mon.seen(kind)
    mon.seen("several_paths_and_variates", int(d > 1 and paths > 1))
    mon.seen("noise_free", int(p["vol"][0] == 0))
    mon.signature(kind, d, paths, cor is not None, round(np.log10(dt)), steps > 3, round(np.log10(p["mrr"][0] * dt)) if kind == "ou" else 0)


def default_parameters(mon, rng):
    """Models made with some parameters left out use the documented defaults."""
    kind = pick(rng, ["bm", "gbm", "ou"])
    full = dict(bm=dict(drift=0.0, vol=0.1), gbm=dict(drift=0.0, vol=0.1), ou=dict(mean=0.0, mrr=1.0, vol=0.1))[kind]
    kw = {k: float(np.exp(rng.normal())) for k in full if coin(rng)}
    p = {k: [kw.get(k, v)] for k, v in full.items()}
    seed, steps, dt = int(rng.integers(0, 10**6)), size(rng, 1, 20, 1000), float(10 ** rng.uniform(-2, 0))
    mon.note(model=kind, given=kw, seed=seed, dt=dt)
    path = mon.call(sims.MODELS[kind](**kw).path_sample, x0=1.5, dt=dt, num_steps=steps, random_state=seed)
    base = mon.call(sims.MODELS[kind](**{k: v[0] for k, v in sims.unit(kind, 1).items()}).path_sample, x0=1.0, dt=1.0,
                    num_steps=steps, random_state=seed)
    z = sims.noise(kind, sims.unit(kind, 1), base, 1.0, 1)
    x = sims.to_space(kind, path).reshape(steps + 1, 1, 1)
    mon.close(x[1:], sims.step_mean(kind, p, x[:-1], dt) + sims.step_std(kind, p, dt) * z, "step", rtol=0, atol=1e-8 * (1 + np.abs(x).max()))
    mon.signature("default", kind, tuple(sorted(kw)))


def fitted(mon, rng):
    """The same holds for a calibrated model, with the parameters it reports."""
    kind, d = pick(rng, ["bm", "gbm", "ou"]), sims.dims(rng, [1, 2, 3])
    x = sims.fit_data(rng, kind, size(rng, 12, 60, 1000) + 2 * d, d)
    est = sims.estimators(kind, x, 0.1)
    if est is None:
        return
    mon.note(model=kind, data=x)
    model = mon.call(sims.MODELS[kind]().fit, x, dt=0.1)
    cor = est.pop("cor")
    paths, steps, seed, dt = sims.npaths(rng, [1, 2, 3]), size(rng, 1, 20, 1000), int(rng.integers(0, 10**6)), float(10 ** rng.uniform(-2, 0))
    path = mon.call(model.path_sample, dt=dt, num_steps=steps, num_paths=paths, random_state=seed)
    same = mon.call(sims.build_plain(kind, est, cor).path_sample, x0=x[0], dt=dt, num_steps=steps, num_paths=paths, random_state=seed)
    s = np.abs(sims.values(same)).max()
    mon.close(sims.values(path), sims.values(same), "calibrated model against a model with the same parameters", rtol=1e-6, atol=1e-7 * s)
    mon.signature("fitted", kind, d, paths)


STAGES = [("exact_steps", exact, 6000, 100000), ("default_parameters", default_parameters, 400, 3000),
          ("calibrated", fitted, 1500, 15000)]
