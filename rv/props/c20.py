"""C20: spread estimators."""

import math
import os
import pickle
import subprocess
import sys
import tempfile

import joblib
import numpy as np
import pandas as pd

from quantfinlib.feature import micro_structure as M
from rv import features, gens, refs
from rv.gens import coin, pick, size
from rv.props import c19

RULE = "distinct (estimator, window, length class, sign, container, backend) whose values were all recomputed"
REQUIRED = ["corwin_schultz", "roll_measure", "roll_impact", "edge", "edge_signed", "negative_signed_spread", "price_unit", "volume_unit",
            "clipped_to_zero", "sequential", "threading", "undefined_edge", "long_histories"]
ASSUMPTIONS = ["EDGE values are compared where the variances that weight its two moments are not both rounding errors"]


def wrap(rng, *xs):
    if coin(rng):
        return False, xs
    idx = gens.any_index(rng, len(xs[0]))
    return True, [pd.Series(x, index=idx) for x in xs]


def corwin_schultz(mon, rng):
    n = size(rng, 1, 50, 700)
    o, h, l, c = gens.ohlc(rng, n)
    w = size(rng, 1, 15, 300)
    pandas, (hs, ls) = wrap(rng, h, l)
    mon.note(high=hs, low=ls, window=w)
    fn = (lambda a, b, k: M.get_cowrin_schultz_spread(a, b, k)) if coin(rng) else (lambda a, b, k: M.get_cowrin_schultz_spread(window=k, p_low=b, p_high=a))
    got = np.asarray(mon.call(fn, hs, ls, w), float)
    beta, gamma = c19.bp_parts(h, l, w)
    den = 3 - 2 * math.sqrt(2)
    alpha = (math.sqrt(2) - 1) * np.sqrt(beta) / den - np.sqrt(gamma / den)
    mon.seen("clipped_to_zero", int((alpha < 0).sum()))
    alpha = np.where(alpha < 0, 0.0, alpha)
    want = 2 * (np.exp(alpha) - 1) / (1 + np.exp(alpha))
    mon.close(got, want, "Corwin-Schultz spread", rtol=1e-6, atol=1e-7)
    mon.check((got[~np.isnan(got)] >= 0).all(), "negative Corwin-Schultz spread")
    u = 10.0 ** rng.uniform(-3, 3)
    mon.close(np.asarray(mon.call(fn, hs * u, ls * u, w), float), got, "Corwin-Schultz spread after changing the price unit", rtol=1e-6, atol=1e-7)
    mon.seen("corwin_schultz")
    mon.seen("price_unit")
    mon.signature("cs", w, min(n, 25), pandas)


def roll(mon, rng):
    n = size(rng, 1, 60, 700)
    c = gens.prices(rng, n)
    v = gens.volumes(rng, n)
    w = size(rng, 2, 15, 300)
    pandas, (cs, vs) = wrap(rng, c, v)
    mon.note(close=cs, volume=vs, window=w)
    r = refs.diff(np.log(c))
    r1 = refs.shift(r)
    cov = np.full(n, refs.NAN)
    for t in range(w + 1, n):
        cov[t] = refs.cov1(r[t - w + 1 : t + 1], r1[t - w + 1 : t + 1])
    # rounding: log prices carry absolute errors of the order of their magnitude times the unit roundoff
    mag = np.nanmax(np.append(np.abs(r), 0)) ** 2 + (1e-16 * np.abs(np.log(c)).max()) * np.nanmax(np.append(np.abs(r), 0)) + 1e-30
    L = max(np.abs(np.log(c)).max(), 1.0)
    got = np.asarray(mon.call(M.get_roll_measure, cs, w) if coin(rng) else mon.call(M.get_roll_measure, window=w, p_close=cs), float)
    mon.close(got**2 / 4, np.abs(cov), "squared Roll measure over four", rtol=1e-8, atol=1e-11 * mag + 1e-14 * L * math.sqrt(mag) + 1e-28)
    mon.check((got[~np.isnan(got)] >= 0).all(), "negative Roll measure")
    imp = np.asarray(mon.call(M.get_roll_impact, cs, vs, w) if coin(rng) else mon.call(M.get_roll_impact, window=w, volume=vs, p_close=cs), float)
    mon.close(imp, got / (v * c), "Roll impact", rtol=1e-9, atol=0.0)
    u = 10.0 ** rng.uniform(-3, 3)
    tol = 1e-11 * mag + 1e-14 * (L + abs(math.log(u))) * math.sqrt(mag) + 1e-28
    g2 = np.asarray(mon.call(M.get_roll_measure, cs * u, w), float)
    mon.close(g2**2, got**2, "squared Roll measure after changing the price unit", rtol=1e-7, atol=8 * tol)
    i2 = np.asarray(mon.call(M.get_roll_impact, cs * u, vs, w), float)
    mon.close((i2 * u * v * c) ** 2, (imp * v * c) ** 2, "squared Roll impact after changing the price unit", rtol=1e-7, atol=8 * tol)
    i3 = np.asarray(mon.call(M.get_roll_impact, cs, vs * u, w), float)
    mon.close(i3 * u, imp, "Roll impact after changing the volume unit", rtol=1e-9, atol=0.0)
    mon.seen("roll_measure")
    mon.seen("roll_impact")
    mon.seen("volume_unit")
    mon.signature("roll", w, min(n, 25), pandas)


def edge_input(rng, loky=False):
    w = size(rng, 3, 12)
    n = size(rng, max(1, w - 2), w + 14)
    o, h, l, c = gens.ohlc(rng, n)
    if coin(rng, 0.3):  # bounce between bid and ask, so that both signs occur
        mid = 100 * np.exp(np.cumsum(rng.normal(0, 0.002, n)))
        s = 0.01 * rng.random()
        o, c = mid * (1 + s * rng.choice([-1, 1], n)), mid * (1 + s * rng.choice([-1, 1], n))
        h, l = np.maximum(o, c), np.minimum(o, c)
    if coin(rng, 0.1):  # dead market
        k = int(rng.integers(n))
        o[k:] = h[k:] = l[k:] = c[k:] = c[max(k - 1, 0)]
    sign = coin(rng)
    pandas, args = wrap(rng, h, l, o, c)
    kw = dict(window=w) if (not sign and coin(rng)) else dict(window=w, sign=sign)
    return (o, h, l, c), list(args), kw, pandas


def edge_verdict(mon, bars, kw, got):
    o, h, l, c = bars
    w, sign, n = kw["window"], kw.get("sign", False), len(o)
    mon.check(got.shape == (n,), f"EDGE shape {got.shape}")
    mon.check(np.isnan(got[: w - 1]).all(), f"EDGE value before the window of {w} is complete")
    for t in range(w - 1, n):
        sl = slice(t - w + 1, t + 1)
        win = (o[sl], h[sl], l[sl], c[sl])
        want, soft = refs.edge(*win, sign), edge_conditioning(*win)
        if want != want and soft is None:
            mon.check(got[t] != got[t], f"EDGE at {t}: {got[t]} where it is undefined")
            mon.seen("undefined_edge")
        elif soft:
            a, b = np.sign(got[t]) * got[t] ** 2, np.sign(want) * want**2
            mon.check(abs(a - b) <= 1e-7 * abs(b) + soft, f"EDGE at {t}: {got[t]}, expected {want}")
            mon.seen("negative_signed_spread", int(want < 0))
    if not sign:
        mon.check((got[~np.isnan(got)] >= 0).all(), "negative absolute EDGE spread")
    mon.seen("edge")
    mon.seen("edge_signed", int(sign))


def edge_threads(mon, rng):
    backend = pick(rng, ["sequential", "sequential", "threading"])
    bars, args, kw, pandas = edge_input(rng)
    o, h, l, c = bars
    w, n = kw["window"], len(o)
    mon.note(bars=args, args=kw, backend=backend)

    def run(b, a):
        with joblib.parallel_config(backend=b, n_jobs=int(rng.integers(1, 4))):
            return np.asarray(mon.call(M.get_edge_spread, *a, **kw), float)

    got = run(backend, args)
    edge_verdict(mon, bars, kw, got)
    if coin(rng, 0.3):
        mon.equal(run(pick(rng, ["sequential", "threading"]), args), got, "EDGE under another schedule")
    if coin(rng, 0.3):
        u = 2.0 ** int(rng.integers(-8, 9))
        sc = run("sequential", [a * u for a in args])
        for t in range(w - 1, n):
            sl = slice(t - w + 1, t + 1)
            soft = edge_conditioning(o[sl], h[sl], l[sl], c[sl], abs(math.log(u)))
            if soft and same_pattern(o[sl], h[sl], l[sl], c[sl], u):
                mon.check(abs(np.sign(sc[t]) * sc[t] ** 2 - np.sign(got[t]) * got[t] ** 2) <= 1e-6 * got[t] ** 2 + soft, f"EDGE at {t} after changing the price unit: {sc[t]}, was {got[t]}")
    mon.seen(backend)
    mon.signature("edge", w, n - w, kw.get("sign"), pandas, backend)


def edge_processes(mon, rng):
    """The library's own default schedule (worker processes), in a fresh interpreter."""
    jobs = [edge_input(rng) for _ in range(8)]
    path = tempfile.mktemp(dir=".")
    child = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "edge_child.py")
    mon.note(jobs=len(jobs))
    try:
        p = subprocess.run([sys.executable, child, path], input=pickle.dumps([(j[1], j[2]) for j in jobs]), capture_output=True, timeout=240)
    except subprocess.TimeoutExpired:
        mon.seen("process_backend_too_slow")  # starting worker processes is not what is judged
        return
    if not os.path.exists(path):
        mon.fail("EDGE under process workers crashed: " + p.stderr.decode(errors="replace")[-500:])
    out = pickle.load(open(path, "rb"))
    for (bars, args, kw, pandas), got in zip(jobs, out):
        mon.note(bars=args, args=kw)
        mon.check(not isinstance(got, str), f"EDGE under process workers raised {got}")
        mon.check(isinstance(got, pd.Series) == pandas, f"EDGE returned {type(got).__name__}")
        got = np.asarray(got, float)
        edge_verdict(mon, bars, kw, got)
        with joblib.parallel_config(backend="sequential"):
            mon.equal(np.asarray(mon.call(M.get_edge_spread, *args, **kw), float), got, "EDGE in process workers against sequential")
        mon.signature("edge", kw["window"], len(got) - kw["window"], kw.get("sign"), pandas, "loky")
    mon.seen("loky")


def same_pattern(o, h, l, c, u):
    """The estimator compares log prices for equality, so both units have to have the same ties."""
    a = [np.log(np.asarray(v, float)) for v in (o, h, l, c)]
    b = [np.log(np.asarray(v, float) * u) for v in (o, h, l, c)]
    A, B = np.concatenate(a), np.concatenate(b)
    return ((A[:, None] == A[None, :]) == (B[:, None] == B[None, :])).all()


def edge_conditioning(o, h, l, c, shift=0.0):
    """None: undefined window; 0: not comparable; else the tolerance on the squared spread."""
    ref = refs.edge(o, h, l, c, True)
    if ref != ref:
        o_, h_, l_, c_ = (np.log(v) for v in (o, h, l, c))
        tau = (h_[1:] != l_[1:]) | (l_[1:] != c_[:-1])
        po = ((o_[1:] != h_[1:]) & tau).sum() + ((o_[1:] != l_[1:]) & tau).sum()
        pc = ((c_[:-1] != h_[:-1]) & tau).sum() + ((c_[:-1] != l_[:-1]) & tau).sum()
        return None if tau.sum() == 0 or po == 0 or pc == 0 else 0
    lp = np.log(np.concatenate([o, h, l, c]))
    R = float(lp.max() - lp.min())
    E = 4e-16 * (float(np.abs(lp).max()) + shift + 1)  # rounding of one log price
    v = edge_variances(o, h, l, c)
    noise = 60 * len(o) * (R * E)  # rounding of the products that are averaged
    if v < (1e4 * noise) ** 2 or R < 1e-9:
        return 0
    # weights v2/(v1+v2) are well defined: error of the weighted mean
    return 1e-9 * R * R + 1e3 * noise


def edge_variances(o, h, l, c):
    o, h, l, c = (np.log(v) for v in (o, h, l, c))
    m = (h + l) / 2
    tau = (h[1:] != l[1:]) | (l[1:] != c[:-1])
    k = len(tau)
    pt = tau.sum() / k
    po = (((o[1:] != h[1:]) & tau).sum() + ((o[1:] != l[1:]) & tau).sum()) / k
    pc = (((c[:-1] != h[:-1]) & tau).sum() + ((c[:-1] != l[:-1]) & tau).sum()) / k
    r1, r2, r3, r4, r5 = m[1:] - o[1:], o[1:] - m[:-1], m[1:] - c[:-1], c[:-1] - m[:-1], o[1:] - c[:-1]
    d1, d3, d5 = (r - tau * r.mean() / pt for r in (r1, r3, r5))
    x1 = -4 / po * d1 * r2 - 4 / pc * d3 * r4
    x2 = -4 / po * d1 * r5 - 4 / pc * d5 * r4
    return x1.var() + x2.var()


STAGES = [("corwin_schultz", corwin_schultz, 3000, 30000), ("roll", roll, 3000, 30000), ("edge", edge_threads, 1500, 15000), ("edge_processes", edge_processes, 6, 40),
          ("long_histories", features.long_history(["corwin_schultz_spread", "edge_spread", "roll_measure", "roll_impact"]), 80, 600)]
