"""C07: the law of the noise."""

import numpy as np
from scipy.stats import chi2, norm, poisson

from rv import sims
from rv.gens import coin, pick

RULE = "distinct (model, variates, paths, correlation, sample size class) of recorded noise samples"
REQUIRED = ["many_paths", "correlated", "uncorrelated", "several_paths", "cross_seed", "tail", "far_tail", "distribution", "near_singular"]
ASSUMPTIONS = ["thresholds of 6 standard errors: a false alarm has probability below 1e-7 per statistic, and the seeds are fixed"]
K = 6.0


def stat(mon, name, value, want, se, k=K):
    mon.check(abs(value - want) <= k * se, f"{name} is {value:.6g}, expected {want:.6g} within {k * se:.3g}")


def law(mon, rng):
    kind, d, p, cor = sims.draw(rng, corr=None)
    if cor is not None and coin(rng, 0.12):
        cor = sims.near_singular(rng, d)
        mon.seen("near_singular")
    paths = pick(rng, [1, 2, 5, 20, 64, 100, int(rng.integers(30, 300))])
    big = coin(rng, 0.3)
    steps = max((400000 if big else 40000) // (d * paths), 250)
    dt = float(10 ** rng.uniform(-3, 0))
    if kind == "gbm":  # keep the log path in the range of floating point
        p["drift"] = [v * v / 2 for v in p["vol"]]
        dt = min(dt, 2000.0 / steps, 4000.0 / max(p["vol"]) ** 2 / steps)
    seed = int(rng.integers(0, 2**31))
    model = sims.build(rng, kind, p, cor)
    mon.note(model=kind, params=p, cor=cor, paths=paths, steps=steps, dt=dt, seed=seed)
    run = lambda s: sims.noise(kind, p, mon.call(model.path_sample, x0=1.0, dt=dt, num_steps=steps, num_paths=paths, random_state=s), dt, d)
    z = run(seed)
    mon.check(np.isfinite(z).all(), "noise is not finite")
    if cor is not None:
        L = np.linalg.cholesky(cor)
        w = np.linalg.solve(L, z.reshape(-1, d).T).T.reshape(z.shape)
        mon.seen("correlated")
    else:
        w = z
        mon.seen("uncorrelated", int(d > 1))
    n = w.size
    for name, a in [("noise", w)] + [(f"variate {j}", z[:, :, j]) for j in range(d)] + [(f"path {i}", w[:, i, :]) for i in range(min(paths, 5))]:
        m = a.size
        stat(mon, f"mean of {name}", a.mean(), 0, 1 / np.sqrt(m))
        stat(mon, f"variance of {name}", (a**2).mean(), 1, np.sqrt(2 / m))
        stat(mon, f"third moment of {name}", (a**3).mean(), 0, np.sqrt(15 / m), 7)
        stat(mon, f"fourth moment of {name}", (a**4).mean(), 3, np.sqrt(96 / m), 8)
        for q, prob in ((1.0, 0.31731050786291415), (2.0, 0.04550026389635842), (3.0, 0.0026997960632601866)):
            if m * prob > 100:
                stat(mon, f"frequency of |z|>{q} of {name}", (np.abs(a) > q).mean(), prob, np.sqrt(prob / m), 7)
                mon.seen("tail")
        stat(mon, f"frequency of z>0 of {name}", (a > 0).mean(), 0.5, 0.5 / np.sqrt(m))
    # first and last steps are as variable as the others
    k = max(1, min(steps // 4, 50))
    for name, a in (("first steps", w[:k]), ("last steps", w[-k:])):
        if a.size > 200:
            stat(mon, f"variance of {name}", (a**2).mean(), 1, np.sqrt(2 / a.size), 7)
    # dependence between steps (also of the squares), between paths and between variates
    for lag in (1, 2, 3, 5):
        a, b = w[:-lag], w[lag:]
        stat(mon, f"autocovariance at lag {lag}", (a * b).mean(), 0, 1 / np.sqrt(a.size))
        stat(mon, f"autocovariance of squares at lag {lag}", ((a**2 - 1) * (b**2 - 1)).mean(), 0, 2 / np.sqrt(a.size), 8)
    flat = w.reshape(-1)
    for lag in (1, 2, d, paths, d * paths, steps):
        if 0 < lag < n // 2:
            stat(mon, f"covariance in drawing order at lag {lag}", (flat[lag:] * flat[:-lag]).mean(), 0, 1 / np.sqrt(n - lag))
    half = n // 2
    # every lag in drawing order at once, so that a repetition of any period shows
    spec = np.fft.rfft(flat, 2 * n)
    auto = np.fft.irfft(np.abs(spec) ** 2, 2 * n)[1:half] / np.sqrt(n - np.arange(1, half))
    at = int(np.abs(auto).argmax())
    mon.check(abs(auto[at]) <= 7.5, f"covariance in drawing order at lag {at + 1} is {auto[at]:.3g} standard errors from 0")
    mon.seen("lags_compared", len(auto))
    stat(mon, "covariance of the two halves", (flat[:half] * flat[half : 2 * half]).mean(), 0, 1 / np.sqrt(half))
    stat(mon, "covariance with the reverse", (flat[:half] * flat[::-1][:half]).mean(), 0, 1 / np.sqrt(half))
    c = (z.reshape(-1, d).T @ z.reshape(-1, d)) / (steps * paths)
    want = np.eye(d) if cor is None else cor
    for i in range(d):
        for j in range(i):
            stat(mon, f"correlation of variates {i},{j}", c[i, j], want[i, j], np.sqrt((1 + want[i, j] ** 2) / (steps * paths)))
    if paths > 1:
        mon.seen("several_paths")
        cols = w.reshape(steps, paths * d)
        cross = np.abs(cols.T @ cols) / np.sqrt(steps)
        np.fill_diagonal(cross, 0)
        at = np.unravel_index(int(cross.argmax()), cross.shape)
        mon.check(cross[at] <= (7.5 if steps > 2000 else 10), f"noise of columns {at[0]} and {at[1]} is correlated: {cross[at]:.3g} standard errors from 0")
        mon.seen("many_paths", int(paths >= 64))
        for _ in range(12):
            i, j = rng.choice(paths, 2, replace=False)
            u, v = int(rng.integers(d)), int(rng.integers(d))
            for lag in (0, 1):
                a, b = w[lag:, i, u], w[: steps - lag, j, v]
                stat(mon, f"covariance of paths {i},{j} at lag {lag}", (a * b).mean(), 0, 1 / np.sqrt(len(a)), 6.5)
    for other in (seed + 1, seed ^ (1 << 16), seed + 2**31):
        y = run(other)
        if cor is not None:
            y = np.linalg.solve(L, y.reshape(-1, d).T).T.reshape(z.shape)
        stat(mon, f"covariance with seed {other}", (y * w).mean(), 0, 1 / np.sqrt(n))
        stat(mon, f"covariance with seed {other} shifted", (y[1:] * w[:-1]).mean(), 0, 1 / np.sqrt(n))
        mon.seen("cross_seed")
    mon.signature(kind, d, paths, cor is not None, big)


def short_runs(mon, rng):
    """Pooling many short seeded runs: the law also holds across seeds, step by step."""
    kind, d, p, cor = sims.draw(rng, corr=True, d=pick(rng, [1, 2]))
    paths, steps, dt = pick(rng, [1, 2]), pick(rng, [1, 2, 3]), 0.1
    model = sims.build(rng, kind, p, cor)
    s0 = int(rng.integers(0, 2**31))
    mon.note(model=kind, params=p, cor=cor, first_seed=s0)
    N = 1500
    z = np.stack([sims.noise(kind, p, mon.call(model.path_sample, x0=1.0, dt=dt, num_steps=steps, num_paths=paths, random_state=s0 + i), dt, d) for i in range(N)])
    if cor is not None:
        z = np.linalg.solve(np.linalg.cholesky(cor), z.reshape(-1, d).T).T.reshape(z.shape)
    f = z.reshape(N, -1)
    for c in range(f.shape[1]):
        stat(mon, f"mean over seeds of entry {c}", f[:, c].mean(), 0, 1 / np.sqrt(N))
        stat(mon, f"variance over seeds of entry {c}", (f[:, c] ** 2).mean(), 1, np.sqrt(2 / N), 7)
        stat(mon, f"covariance of successive seeds in entry {c}", (f[1:, c] * f[:-1, c]).mean(), 0, 1 / np.sqrt(N), 6.5)
        for e in range(c):
            stat(mon, f"covariance of entries {e},{c}", (f[:, c] * f[:, e]).mean(), 0, 1 / np.sqrt(N), 6.5)
    mon.seen("cross_seed", N)
    mon.signature("short", kind, d, paths, steps)


def unseeded(mon, rng):
    """Without a seed the noise has the same law."""
    kind, d, p, cor = sims.draw(rng, d=1)
    model = sims.build(rng, kind, p, cor)
    dt, steps, paths = 0.01, 2000, 10
    mon.note(model=kind, params=p)
    z = sims.noise(kind, p, mon.call(model.path_sample, x0=1.0, dt=dt, num_steps=steps, num_paths=paths), dt, d)
    stat(mon, "mean of unseeded noise", z.mean(), 0, 1 / np.sqrt(z.size), 8)
    stat(mon, "variance of unseeded noise", (z**2).mean(), 1, np.sqrt(2 / z.size), 8)
    stat(mon, "covariance of unseeded paths", (z[:, 0] * z[:, 1]).mean(), 0, 1 / np.sqrt(steps), 8)
    mon.signature("unseeded", kind)


def tails(mon, rng):
    """Millions of draws: far tails and the whole distribution function."""
    kind, d, p, cor = sims.draw(rng, d=pick(rng, [1, 1, 2, 3]))
    paths = pick(rng, [1, 10, 200, 2000])
    n = 3_000_000
    steps, dt = n // (paths * d), 0.01
    if kind == "gbm":
        p["drift"] = [v * v / 2 for v in p["vol"]]
        dt = min(0.01, 2000.0 / steps, 4000.0 / max(p["vol"]) ** 2 / steps)
    model = sims.build(rng, kind, p, cor)
    seed = int(rng.integers(0, 2**31)) if coin(rng, 0.8) else None
    mon.note(model=kind, params=p, cor=cor, paths=paths, steps=steps, seed=seed)
    z = sims.noise(kind, p, mon.call(model.path_sample, x0=1.0, dt=dt, num_steps=steps, num_paths=paths, random_state=seed), dt, d)
    if cor is not None:
        z = np.linalg.solve(np.linalg.cholesky(cor), z.reshape(-1, d).T).T
    a = z.reshape(-1)
    m = len(a)
    for q in (2.5, 3.0, 3.5, 4.0, 4.5):
        prob = norm.sf(q)
        for name, count in ((f"z>{q}", int((a > q).sum())), (f"z<-{q}", int((a < -q).sum()))):
            lo, hi = poisson.ppf([1e-9, 1 - 1e-9], m * prob)
            mon.check(lo <= count <= hi, f"{count} of {m} draws have {name}, expected {m * prob:.1f}")
    mon.seen("far_tail")
    bins = 400
    h = np.bincount(np.minimum((norm.cdf(a) * bins).astype(int), bins - 1), minlength=bins)
    chi = ((h - m / bins) ** 2 / (m / bins)).sum()
    mon.check(chi < chi2.ppf(1 - 1e-9, bins - 1), f"distribution of {m} draws: chi-square {chi:.1f} with {bins - 1} degrees of freedom")
    mon.check(np.unique(a[:200000]).size > 199000, "draws repeat or lie on a grid")
    mon.seen("distribution")
    mon.signature("tails", kind, d, paths, cor is not None, seed is None)


STAGES = [("tails", tails, 8, 60), ("noise_law", law, 360, 4000), ("short_runs", short_runs, 60, 600), ("unseeded", unseeded, 60, 400)]
