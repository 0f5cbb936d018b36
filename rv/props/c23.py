"""C23: correlation distances."""

import math

import numpy as np
import pandas as pd

from quantfinlib.distance import (
    corr_to_abs_angular_dist,
    corr_to_angular_dist,
    corr_to_squared_angular_dist,
    pair_abs_angular_distance,
    pair_angular_distance,
    pair_squared_angular_distance,
)
from quantfinlib.distance.distance_matrix import corr_to_dist
from rv import gens
from rv.core import snapshot
from rv.gens import coin, pick, size

CONV = dict(angular=corr_to_angular_dist, abs_angular=corr_to_abs_angular_dist, squared_angular=corr_to_squared_angular_dist)
PAIR = dict(angular=pair_angular_distance, abs_angular=pair_abs_angular_distance, squared_angular=pair_squared_angular_distance)
RULE = "distinct (conversion, entry point, container, dimension, correlation regime) with all entries recomputed"
REQUIRED = ["matrix", "frame", "scalar", "pair", "rounded_matrix", "overshoot", "refused", "triangles", "perfect_correlation", "single_asset"]


def formula(c, kind):
    c = min(max(c, -1.0), 1.0)
    v = dict(angular=(1 - c) / 2, abs_angular=1 - abs(c), squared_angular=(1 - c) * (1 + c))[kind]
    return math.sqrt(max(v, 0.0))


def near(mon, got, c, kind, what):
    """Distances are compared through their squares: close to perfect correlation the root magnifies rounding."""
    want = formula(c, kind)
    mon.check(abs(float(got) ** 2 - want**2) <= 1e-12 and abs(float(got) - want) <= 2e-6, f"{what}: {got!r}, expected {want!r} for correlation {c!r}")
    mon.check(0.0 <= float(got) <= 1.0, f"{what}: {got!r} outside [0, 1]")


def corr_matrix(mon, rng, d):
    k = int(rng.integers(6))
    if k <= 1:
        c = gens.correlation(rng, d)
    elif k == 2:  # computed from data: unit diagonal and symmetry only up to rounding
        x = gens.returns_matrix(rng, size(rng, 3, 30, 2000), d)
        c = np.atleast_2d(np.corrcoef(x.T))
        mon.seen("rounded_matrix")
    elif k == 3:  # duplicated and mirrored series
        x = gens.returns_matrix(rng, 12, d)
        for j in range(1, d):
            if coin(rng):
                x[:, j] = pick(rng, [1.0, -1.0]) * x[:, int(rng.integers(j))] * 10 ** rng.uniform(-3, 3)
        c = np.atleast_2d(np.corrcoef(x.T))
        mon.seen("perfect_correlation")
    else:  # rounding errors of either sign
        c = gens.correlation(rng, d)
        if coin(rng):
            b = np.sign(rng.normal(size=d))
            c = np.outer(b, b).astype(float)
        c = c * (1 + rng.uniform(-1, 1, (d, d)) * 10.0 ** rng.uniform(-16, -10))
        mon.seen("overshoot", int((np.abs(c) > 1).any()))
        mon.seen("rounded_matrix")
    return c


def matrices(mon, rng):
    d = size(rng, 1, 9, 120)
    c = corr_matrix(mon, rng, d)
    kind = pick(rng, list(CONV))
    frame = coin(rng, 0.4)
    arg = c.copy()
    if frame:
        names = pd.Index([f"a{j}" for j in rng.permutation(d)], name=pick(rng, [None, "asset"]))
        arg = pd.DataFrame(c.copy(), index=names, columns=names)
    via = "function"
    fn = CONV[kind]
    if d >= 2 and coin(rng):
        via = "by_name"
        fn = (lambda m: corr_to_dist(m, kind)) if coin(rng) else (lambda m: corr_to_dist(corr=m, corr_to_dist_method=kind))
        if kind == "angular" and coin(rng):
            fn = corr_to_dist
    before = snapshot(arg)
    mon.note(kind=kind, via=via, corr=arg)
    out = mon.call(fn, arg)
    mon.check(snapshot(arg) == before, "the correlation matrix was modified")
    mon.check(isinstance(out, pd.DataFrame) if frame else isinstance(out, np.ndarray), f"container {type(out).__name__}")
    if frame:
        mon.check(list(out.index) == list(names) and list(out.columns) == list(names), f"labels {list(out.index)}, {list(out.columns)}")
    D = np.asarray(out, float)
    mon.check(D.shape == (d, d), f"shape {D.shape}")
    mon.equal(D, D.T, "distance matrix transposed")
    mon.check((np.diag(D) == 0).all(), f"diagonal {np.diag(D)}")
    for i in range(d):
        for j in range(i + 1, d):
            # rounding asymmetry of the input may be resolved either way
            lo, hi = sorted([c[i, j], c[j, i]])
            cc = min(max((lo + hi) / 2, -1.0), 1.0)
            want = formula(cc, kind)
            tol = 1e-12 + 3 * (hi - lo) + 3 * max(0.0, abs(hi) - 1, abs(lo) - 1)
            mon.check(abs(D[i, j] ** 2 - want**2) <= tol + 1e-13, f"distance [{i},{j}] {D[i, j]!r}, expected {want!r} for {c[i, j]!r}")
            mon.check(0 <= D[i, j] <= 1, f"distance [{i},{j}] {D[i, j]!r} outside [0, 1]")
    mon.seen("frame" if frame else "matrix")
    mon.seen("single_asset", int(d == 1))
    mon.signature(kind, via, frame, d, round(float(c[0, -1]), 1))
    if kind == "angular" and d >= 3 and np.linalg.eigvalsh((c + c.T) / 2).min() > -1e-9:
        for i in range(d):
            for j in range(d):
                for k in range(d):
                    mon.check(D[i, k] <= D[i, j] + D[j, k] + 5e-5, f"triangle {i},{j},{k}: {D[i, k]} > {D[i, j]} + {D[j, k]}")
        mon.seen("triangles")


def refusals(mon, rng):
    d = size(rng, 2, 6, 20)
    c = gens.correlation(rng, d)
    kind = pick(rng, list(CONV))
    fn = CONV[kind] if coin(rng) else (lambda m: corr_to_dist(m, corr_to_dist_method=kind))
    bad = pick(rng, ["rectangular", "asymmetric", "diagonal", "covariance", "vector", "cube"])
    if bad == "rectangular":
        c = c[:, :-1] if coin(rng) else c[:-1]
        if c.shape[1] < 2 and coin(rng):
            c = np.ones((3, 2))
    elif bad == "asymmetric":
        i = int(rng.integers(1, d))
        c[0, i] += pick(rng, [-1, 1]) * rng.uniform(0.01, 0.5)
    elif bad == "diagonal":
        i = int(rng.integers(d))
        c[i, i] = pick(rng, [0.0, 0.9, 1.1, -1.0, 2.0])
    elif bad == "covariance":
        s = rng.uniform(1.5, 3, d)
        c = c * np.outer(s, s)
    elif bad == "vector":
        c = c[0]
    else:
        c = c[None]
    mon.note(kind=kind, bad=bad, c=c)
    mon.rejects(f"{kind} distance of a {bad} matrix", fn, c)
    mon.rejects("unknown conversion", corr_to_dist, gens.correlation(rng, d), pick(rng, ["", "Angular", "euclid", "abs", None]))
    mon.seen("refused")
    mon.signature("refuse", bad, kind, d)


def values(mon, rng):
    kind = pick(rng, list(CONV))
    if coin(rng):
        c = pick(rng, [0.0, 1.0, -1.0, 0.5, float(rng.uniform(-1, 1)), 1 - 10.0 ** rng.uniform(-16, -3), -1 + 10.0 ** rng.uniform(-16, -3), 1 + 1e-15, -1 - 2e-16, 1.0000000001])
        mon.seen("overshoot", int(abs(c) > 1))
        arg = pick(rng, [float(c), np.float64(c)])
        mon.note(kind=kind, corr=arg)
        near(mon, mon.call(CONV[kind], arg), c, kind, f"{kind} distance")
        mon.seen("scalar")
        mon.signature("value", kind, round(c, 1))
        return
    n = size(rng, 3, 40, 1200)
    x = gens.returns_matrix(rng, n, 2)
    a, b = x[:, 0].copy(), x[:, 1].copy()
    if coin(rng, 0.25):
        b = pick(rng, [1, -1]) * a * 3.0 + 1
        mon.seen("perfect_correlation")
    xs = [pd.Series(v) for v in (a, b)] if coin(rng) else [a, b]
    ma, mb = math.fsum(a) / n, math.fsum(b) / n
    sab, saa, sbb = (math.fsum(p) for p in ((a - ma) * (b - mb), (a - ma) ** 2, (b - mb) ** 2))
    c = sab / math.sqrt(saa * sbb)
    mon.note(kind=kind, x=xs[0], y=xs[1], corr=c)
    d1, d2 = mon.call(PAIR[kind], xs[0], xs[1]), mon.call(PAIR[kind], xs[1], xs[0])
    want = formula(c, kind)
    for g in (d1, d2):
        mon.check(abs(float(g) ** 2 - want**2) <= 1e-9 and 0 <= float(g) <= 1, f"{kind} distance of samples {g!r}, expected {want!r}")
    mon.check(abs(float(d1) - float(d2)) <= 1e-7, f"{kind} distance {d1} one way, {d2} the other")
    mon.seen("pair")
    mon.signature("pair", kind, n, round(c, 1))


STAGES = [("matrices", matrices, 5000, 50000), ("values", values, 4000, 40000), ("refusals", refusals, 1500, 10000)]
