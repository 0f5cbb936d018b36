"""Reference information measures, by counting."""

import math

import numpy as np

from rv import refs


def counts(*cols):
    cnt = {}
    for key in zip(*cols):
        cnt[key] = cnt.get(key, 0) + 1
    return cnt


def entropies(x, y, bins):
    bx, by = refs.histogram(x, bins), refs.histogram(y, bins)
    return refs.entropy_of(bx), refs.entropy_of(by), refs.entropy_of(list(zip(bx, by)))


def round_both(v):
    """Candidates for the rounded value: both neighbours when rounding errors decide."""
    lo = math.floor(v)
    if abs(v - lo - 0.5) < 1e-7:
        return {lo, lo + 1}
    return {int(round(v))}


def univariate(n):
    z = (8 + 324 * n + 12 * math.sqrt(36 * n + 729 * n**2)) ** (1 / 3.0)
    return round_both(z / 6.0 + 2.0 / (3 * z) + 1.0 / 3)


def default_bins(x, y):
    """All acceptable bin numbers for a pair of samples (usually one)."""
    n = len(x)
    x, y = np.asarray(x, float), np.asarray(y, float)
    mx, my = math.fsum(x) / n, math.fsum(y) / n
    sxy, sxx, syy = (math.fsum(v) for v in ((x - mx) * (y - my), (x - mx) ** 2, (y - my) ** 2))
    c = sxy / math.sqrt(sxx * syy)
    out = set()
    gap = 1 - abs(c)
    if gap < 1.000001e-5:
        out |= univariate(n)
    if gap > 0.999999e-5:
        rel = 1e-13 / gap  # rounding of the correlation
        for f in (1 - rel, 1.0, 1 + rel):
            out |= round_both(2**-0.5 * math.sqrt(1 + math.sqrt(1 + 24 * n / ((1 - c) * (1 + c) * f))))
    return out


def mutual(x, y, bins, norm):
    hx, hy, hxy = entropies(x, y, bins)
    v = hx + hy - hxy
    return v / math.sqrt(hx * hy) if norm else v


def variation(x, y, bins, norm):
    hx, hy, hxy = entropies(x, y, bins)
    v = 2 * hxy - hx - hy
    return v / hxy if norm else v


def divergence(x, y, bins):
    """sum p log p/q over the bins both samples occupy, and whether the second covers the first."""
    n, m = len(x), len(y)
    px, py = {}, {}
    for b in refs.histogram(x, bins):
        px[b] = px.get(b, 0) + 1
    for b in refs.histogram(y, bins):
        py[b] = py.get(b, 0) + 1
    v = math.fsum(px[b] / n * math.log((px[b] / n) / (py[b] / m)) for b in px if b in py)
    return v, all(b in py for b in px)
