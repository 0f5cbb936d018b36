"""C37: Kullback-Leibler divergence of samples."""

import numpy as np
import pandas as pd

from quantfinlib.distance import kl_divergence_xy
from rv import gens, info
from rv.gens import coin, pick, size

RULE = "distinct (bins or default, container, sample regime, covering or not, size class) recomputed by counting"
REQUIRED = ["default_bins", "given_bins", "covered", "not_covered", "identical", "rescaled", "different_lengths"]


def one(mon, rng):
    n = size(rng, 2, 80, 6000)
    bins = None if coin(rng, 0.3) else size(rng, 1, 14, 60)
    m = n if bins is None or coin(rng, 0.6) else size(rng, 2, 80, 6000)
    draw = lambda k: pick(rng, [lambda: rng.normal(size=k), lambda: rng.exponential(size=k), lambda: rng.random(k), lambda: rng.integers(0, 5, k).astype(float)])() * 10 ** rng.uniform(-3, 3)
    x, y = draw(n), draw(m)
    if coin(rng, 0.15) and n == m:
        y = x * pick(rng, [1.0, -1.0, 3.0])
    for v in (x, y):
        if v.min() == v.max():
            v[0] += 1.0
    pandas = coin(rng, 0.3)
    args = [pd.Series(x, index=gens.any_index(rng, n)), pd.Series(y, index=gens.any_index(rng, m))] if pandas else [x, y]
    mon.note(bins=bins, x=args[0], y=args[1])
    kw = {} if bins is None else dict(bins=bins)
    with np.errstate(all="ignore"):
        got = float(mon.call(kl_divergence_xy, *args, **kw) if coin(rng) else mon.call(kl_divergence_xy, y=args[1], x=args[0], **kw))
    cand = {bins} if bins is not None else info.default_bins(x, y)
    want = [info.divergence(x, y, k) for k in sorted(cand)]
    mon.check(any(abs(got - w) <= 1e-9 * (1 + abs(w)) for w, _ in want), f"divergence {got!r}, expected {want}")
    covered = all(c for _, c in want)
    if covered:
        mon.check(got >= -1e-10, f"negative divergence {got!r} although the second sample covers the first")
    mon.seen("covered" if covered else "not_covered")
    mon.seen("default_bins" if bins is None else "given_bins")
    mon.seen("different_lengths", int(m != n))
    with np.errstate(all="ignore"):
        same = float(mon.call(kl_divergence_xy, args[0], args[0], **kw))
    mon.check(abs(same) <= 1e-12, f"divergence of a sample from itself {same!r}")
    mon.seen("identical")
    if bins is not None:
        # powers of two scale without rounding, so the bins stay the same
        f = 2.0 ** int(rng.integers(-5, 6))
        which = int(rng.integers(2))
        sc = [a * f if i == which else a for i, a in enumerate(args)]
        with np.errstate(all="ignore"):
            g = float(mon.call(kl_divergence_xy, *sc, **kw))
        mon.check(abs(g - got) <= 1e-9 * (1 + abs(got)), f"divergence {got!r} becomes {g!r} after rescaling")
        mon.seen("rescaled")
    mon.signature(bins, pandas, covered, min(n, 40), m == n)


STAGES = [("pairs", one, 5000, 50000)]
