"""C26: matrix divergences."""

import math

import numpy as np

from quantfinlib.distance import log_det_divergence, von_neuman_divergence
from rv import gens
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (divergence, dimension, matrix regime, size class of the divergence) recomputed from eigenvalues"
REQUIRED = ["log_det", "von_neumann", "equal_matrices", "rotated", "congruence", "scaled", "refused", "close_matrices", "one_dimensional", "other_units", "extreme_determinants", "diagonal", "variances_far_apart"]


def spd(rng, d):
    k = int(rng.integers(4))
    if k == 0:
        m = gens.correlation(rng, d)
    elif k == 1:
        m = np.diag(10.0 ** rng.uniform(-1.5, 1.5, d))
    else:
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        m = q @ np.diag(10.0 ** rng.uniform(-1, 1, d)) @ q.T
        if k == 3:
            m = m * 10.0 ** rng.uniform(-3, 3)
    return (m + m.T) / 2


def reference(name, p, q):
    wp, up = np.linalg.eigh(p)
    wq, uq = np.linalg.eigh(q)
    if name == "log_det":
        s = uq @ np.diag(wq**-0.5) @ uq.T
        lam = np.linalg.eigvalsh(s @ p @ s)
        return math.fsum(v - math.log(v) - 1 for v in lam), float(np.abs(lam).sum() + np.abs(np.log(lam)).sum())
    ov = (up.T @ uq) ** 2
    v = math.fsum(wp * np.log(wp)) - float(wp @ ov @ np.log(wq)) - wp.sum() + wq.sum()
    return v, float((wp * np.abs(np.log(wp))).sum() + wp @ ov @ np.abs(np.log(wq)) + wp.sum() + wq.sum())


FN = dict(log_det=log_det_divergence, von_neumann=von_neuman_divergence)


def one(mon, rng):
    d = size(rng, 1, 8, 60)
    p = spd(rng, d)
    if coin(rng, 0.006):  # many assets: determinants beyond the range of floating point numbers
        d = int(rng.integers(110, 240))
        p = gens.correlation(rng, d) * 10.0 ** (pick(rng, [-1, 1]) * rng.uniform(1.5, 3))
        mon.seen("extreme_determinants")
    rel = int(rng.integers(4))
    if rel == 0:
        q = p.copy()
    elif rel == 1:
        e = rng.normal(size=(d, d))
        q = p + (e + e.T) * np.linalg.eigvalsh(p).min() * 0.02
        mon.seen("close_matrices")
    else:
        q = spd(rng, d)
    if coin(rng, 0.15):  # covariances of small or large units
        s = 10.0 ** rng.uniform(-14, 8)
        p, q = p * s, q * s
        mon.seen("other_units")
    name = pick(rng, list(FN))
    fn = FN[name]
    before = snapshot([p, q])
    mon.note(divergence=name, p=p, q=q)
    raw = mon.call(fn, p, q)
    mon.check(snapshot([p, q]) == before, "matrices modified")
    mon.check(abs(complex(raw).imag) <= 1e-9, f"complex divergence {raw}")
    got = float(np.real(raw))
    want, mag = reference(name, p, q)
    cond = np.linalg.cond(p) * np.linalg.cond(q)
    tol = 1e-12 * mag * max(1.0, cond**0.5) * d + 1e-13 * min(mag, 1.0)
    mon.check(abs(got - want) <= tol, f"{name} divergence {got!r}, expected {want!r} (tolerance {tol:.1e})")
    mon.check(got >= -tol, f"negative {name} divergence {got!r}")
    if rel == 0:
        mon.check(abs(got) <= tol, f"{name} divergence of equal matrices {got!r}")
        mon.seen("equal_matrices")
    elif want > 10 * tol:
        mon.check(got > 0, f"{name} divergence {got!r} of different matrices")
    u, _ = np.linalg.qr(rng.normal(size=(d, d)))
    sym = lambda m: (m + m.T) / 2
    g = float(np.real(mon.call(fn, sym(u @ p @ u.T), sym(u @ q @ u.T))))
    mon.check(abs(g - got) <= 20 * tol + 1e-11 * mag, f"{name} divergence {got!r} becomes {g!r} after a rotation")
    mon.seen("rotated")
    if name == "log_det":
        a = rng.normal(size=(d, d)) + 3 * np.eye(d)
        k = np.linalg.cond(a)
        if k < 50:
            g = float(np.real(mon.call(fn, sym(a @ p @ a.T), sym(a @ q @ a.T))))
            mon.check(abs(g - got) <= 1e-10 * mag * k * k * max(cond**0.5, 1), f"log-determinant divergence {got!r} becomes {g!r} after a congruence")
            mon.seen("congruence")
    else:
        f = 10.0 ** rng.uniform(-2, 2)
        g = float(np.real(mon.call(fn, p * f, q * f)))
        mon.check(abs(g - f * got) <= f * (20 * tol + 1e-10 * mag) * (1 + abs(math.log(f))), f"von Neumann divergence {got!r} becomes {g!r} for {f} times the matrices")
        mon.seen("scaled")
    mon.seen(name)
    mon.seen("one_dimensional", int(d == 1))
    mon.seen("diagonal", int(d > 1 and np.count_nonzero(p - np.diag(np.diag(p))) == 0))
    mon.signature(name, d, rel, round(math.log10(abs(want) + 1e-12)))


def wide_range(mon, rng):
    """Diagonal matrices whose variances lie many orders of magnitude apart: the divergence is a sum over the variances."""
    d = pick(rng, [2, 3, 5, 12, 40])
    span = rng.uniform(3, 60)
    p = 10.0 ** (rng.uniform(0, span, d) - span / 2)
    q = p * 10.0 ** rng.uniform(-1, 1, d) if coin(rng) else p * (1 + rng.uniform(-0.2, 0.2, d)) if coin(rng) else p[rng.permutation(d)]
    name = pick(rng, list(FN))
    mon.note(divergence=name, p=p, q=q)
    got = float(np.real(mon.call(FN[name], np.diag(p), np.diag(q))))
    r = p / q
    lr = np.log(p) - np.log(q)
    if name == "log_det":
        terms, mag = r - lr - 1, float(np.abs(r).sum() + np.abs(lr).sum())
    else:
        terms, mag = p * lr - p + q, float((p * (np.abs(np.log(p)) + np.abs(np.log(q)) + 1)).sum() + q.sum())
    want = math.fsum(terms)
    mon.check(abs(got - want) <= 1e-12 * mag * d**0.5, f"{name} divergence of diagonal matrices {got!r}, expected {want!r}")
    mon.seen("variances_far_apart")
    mon.signature("wide", name, d, int(span / 6))


def refusals(mon, rng):
    d = size(rng, 1, 6, 40)
    p = spd(rng, d)
    bad = pick(rng, ["negative", "zero", "indefinite"])
    if bad == "indefinite" and d > 1:
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        w = np.abs(rng.normal(size=d)) + 0.1
        w[int(rng.integers(d))] *= -1
        m = q @ np.diag(w) @ q.T
        m = (m + m.T) / 2
    elif bad == "zero":
        w = np.abs(rng.normal(size=d)) + 0.1
        w[int(rng.integers(d))] = 0.0
        m = np.diag(w)
    else:
        m = -spd(rng, d)
    name = pick(rng, list(FN))
    mon.note(divergence=name, bad=m)
    if coin(rng):
        mon.rejects(f"{name} divergence with a {bad} first matrix", FN[name], m, p)
    else:
        mon.rejects(f"{name} divergence with a {bad} second matrix", FN[name], p, m)
    mon.seen("refused")
    mon.signature("refuse", bad, name, d)


STAGES = [("divergences", one, 4000, 40000), ("variances_far_apart", wide_range, 600, 6000), ("refusals", refusals, 800, 6000)]
