"""C24: entropies, mutual information, variation of information."""

import numpy as np
import pandas as pd

from quantfinlib.distance import compute_entropies, mutual_info, var_info
from rv import gens, info
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (measure, bins or default, normalisation, container, sample regime, size class) recomputed by counting"
REQUIRED = ["mutual_info", "var_info", "entropies", "default_bins", "perfectly_correlated", "anti_correlated", "nearly_perfect", "triangle", "self", "discrete", "single_bin_joint"]


def samples(mon, rng, d=2):
    n = size(rng, 2, 80) if coin(rng, 0.95) else int(rng.integers(200, 1500)) if coin(rng, 0.9) else int(np.exp(rng.uniform(np.log(1500), np.log(30000))))
    k = int(rng.integers(7))
    x = rng.normal(size=(n, d)) * 10 ** rng.uniform(-3, 3, d)
    if k == 1:
        x = gens.returns_matrix(rng, n, d)
    elif k == 2:  # few distinct values, on bin edges
        x = rng.integers(0, int(rng.integers(2, 6)), (n, d)).astype(float)
        mon.seen("discrete")
    elif k == 3:
        x[:, 1] = x[:, 0] * 2.0 + 1
        mon.seen("perfectly_correlated")
    elif k == 4:
        x[:, 1] = -x[:, 0] * 0.5 + 3
        mon.seen("anti_correlated")
    elif k == 5:
        s = float(np.std(x[:, 0])) + 1e-12
        x[:, 1] = pick(rng, [1, -1]) * x[:, 0] + rng.normal(size=n) * s * 10.0 ** rng.uniform(-4, -1)
        mon.seen("nearly_perfect")
    elif k == 6:
        x[:, 1] = x[:, 0] ** 2
    for j in range(d):
        if x[:, j].min() == x[:, j].max():
            x[0, j] += 1.0
    return n, x


def measure(mon, rng):
    n, x = samples(mon, rng)
    a, b = x[:, 0].copy(), x[:, 1].copy()
    bins = None if coin(rng, 0.3) else size(rng, 2, 14, 50)
    norm = coin(rng)
    pandas = coin(rng, 0.3)
    idx = gens.any_index(rng, n)
    args = [pd.Series(a, index=idx), pd.Series(b, index=idx)] if pandas else [a, b]
    name = pick(rng, ["mutual_info", "var_info", "entropies"])
    before = snapshot(args)
    mon.note(measure=name, bins=bins, norm=norm, x=args[0], y=args[1])
    if name == "entropies":
        bins = bins or size(rng, 2, 20, 60)
        got = mon.call(compute_entropies, args[0], args[1], bins) if coin(rng) else mon.call(compute_entropies, y=args[1], bins=bins, x=args[0])
        mon.check(len(got) == 3, f"{len(got)} entropies")
        mon.close(list(got), info.entropies(a, b, bins), "entropies of x, y and both", rtol=1e-9, atol=1e-12)
        hx, hy, hxy = (float(v) for v in got)
        mon.check(hxy >= max(hx, hy) - 1e-9 and hxy <= hx + hy + 1e-9, f"joint entropy {hxy} for {hx}, {hy}")
        mon.check(min(hx, hy, hxy) >= -1e-12 and max(hx, hy) <= np.log(bins) + 1e-9, f"entropies {got} for {bins} bins")
    else:
        fn, ref = (mutual_info, info.mutual) if name == "mutual_info" else (var_info, info.variation)
        kw = {}
        if bins is not None or coin(rng, 0.2):
            kw["bins"] = bins
        if not norm or coin(rng):
            kw["norm"] = norm
        got = float(mon.call(fn, args[0], args[1], **kw))
        cand = {bins} if bins is not None else info.default_bins(a, b)
        want = [ref(a, b, k, norm) for k in sorted(cand)]
        mon.check(any(abs(got - w) <= 1e-8 * (1 + abs(w)) for w in want), f"{name} {got!r}, expected {want} for bins {sorted(cand)}")
        other = float(mon.call(fn, args[1], args[0], **kw))
        if len(cand) == 1:
            mon.check(abs(got - other) <= 1e-8 * (1 + abs(got)), f"{name} not symmetric: {got!r} and {other!r}")
        mon.check(got >= -1e-9, f"{name} negative: {got!r}")
        if name == "var_info" and norm:
            mon.check(got <= 1 + 1e-9, f"normalised variation of information {got!r} above one")
        if bins is None:
            mon.seen("default_bins")
        if coin(rng, 0.3):
            own = float(mon.call(var_info, args[0], args[0], **kw))
            mon.check(abs(own) <= 1e-9, f"variation of information of a sample with itself {own!r}")
            if norm:
                own = float(mon.call(mutual_info, args[0], args[0], **kw))
                mon.check(abs(own - 1) <= 1e-9, f"normalised mutual information of a sample with itself {own!r}")
            mon.seen("self")
    mon.seen("single_bin_joint", int(n <= 3))
    mon.check(snapshot(args) == before, "samples modified")
    mon.seen(name)
    mon.signature(name, bins, norm, pandas, min(n, 40))


def triangle(mon, rng):
    n, x = samples(mon, rng, 3)
    bins = size(rng, 2, 10)
    norm = coin(rng)
    mon.note(bins=bins, norm=norm, x=x)
    v = lambda i, j: float(mon.call(var_info, x[:, i], x[:, j], bins=bins, norm=norm))
    d01, d12, d02 = v(0, 1), v(1, 2), v(0, 2)
    for p, q, r in ((d01, d12, d02), (d01, d02, d12), (d02, d12, d01)):
        mon.check(r <= p + q + 1e-9, f"triangle inequality: {r} > {p} + {q}")
    mon.seen("triangle")
    mon.signature("triangle", bins, norm, min(n, 40))


STAGES = [("measures", measure, 5000, 50000), ("triangles", triangle, 1500, 15000)]
