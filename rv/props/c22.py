"""C22: Chu-Stinchcombe-White CUSUM test."""

import math

import numpy as np

from quantfinlib.feature import chu_stinchcombe_white_cusum_test as cusum
from rv import gens
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (series length, price regime, argmax pattern) with every statistic and critical value recomputed"
REQUIRED = ["long_reference_span", "short_reference_span", "flat_start", "price_unit", "falling"]


def one(mon, rng):
    n = size(rng, 2, 60) if coin(rng, 0.96) else int(rng.integers(100, 250)) if coin(rng, 0.85) else int(rng.integers(300, 1600))
    x = gens.prices(rng, n)
    if coin(rng, 0.3):
        k = int(rng.integers(n))
        x[k:] *= math.exp(rng.normal(0, 0.3))
    if coin(rng, 0.1):
        x = np.clip(np.round(x), 1, 1e14).astype(np.int64)
    before = snapshot(x)
    mon.note(x=x)
    with np.errstate(all="ignore"):
        out = mon.call(cusum, x)
    mon.check(isinstance(out, tuple) and len(out) == 2, f"result {type(out).__name__}")
    S, C = (np.asarray(v, float) for v in out)
    mon.check(S.shape == (n,) and C.shape == (n,), f"shapes {S.shape} and {C.shape} for {n} prices")
    mon.check(S[0] == 0 and C[0] == 0, f"first values {S[0]}, {C[0]}")
    mon.check(snapshot(x) == before, "input modified")
    y = np.log(np.asarray(x, float))
    L = float(np.abs(y).max()) + 1
    d2 = [(y[i] - y[i - 1]) ** 2 for i in range(1, n)]
    pat = []
    for t in range(1, n):
        sig = math.sqrt(math.fsum(d2[:t]) / t)
        if sig <= 1e-12 * L:
            mon.seen("flat_start")
            continue
        vals = [(y[t] - y[k]) / (sig * math.sqrt(t - k)) for k in range(t)]
        best = max(vals)
        tol = 1e-9 * (1 + abs(best)) + 1e-14 * L / sig
        mon.check(abs(S[t] - best) <= tol, f"statistic at {t}: {S[t]}, expected {best}")
        spans = [t - k for k in range(t) if vals[k] >= best - 2 * tol]
        mon.check(any(abs(C[t] - math.sqrt(4.6 + math.log(s))) <= 1e-9 for s in spans), f"critical value at {t}: {C[t]}, reference span {spans}")
        pat.append(spans[0])
        mon.seen("long_reference_span", int(min(spans) > 3))
        mon.seen("short_reference_span", int(max(spans) == 1))
    mon.seen("falling", int(n > 3 and (np.diff(y) < 0).all()))
    mon.signature(n, tuple(pat[:8]))
    u = 10.0 ** rng.uniform(-3, 3)
    with np.errstate(all="ignore"):
        S2, C2 = mon.call(cusum, x * u)
    for t in range(1, n):
        sig = math.sqrt(math.fsum(d2[:t]) / t)
        if sig > 1e-9 * (L + abs(math.log(u))):
            mon.check(abs(S2[t] - S[t]) <= 1e-8 * (1 + abs(S[t])) + 1e-13 * (L + abs(math.log(u))) / sig, f"statistic at {t} after changing the price unit: {S2[t]}, was {S[t]}")
    mon.seen("price_unit")


STAGES = [("series", one, 2500, 25000)]
