"""Reference models: slow, direct transcriptions of the definitions, sharing no code with quantfinlib."""

import math

import numpy as np

NAN = float("nan")


# ---- moving windows --------------------------------------------------------------------------------------------
def rolling(x, w, f):
    """f over each full window of w values that holds no NaN, NaN elsewhere."""
    x = np.asarray(x, dtype=float)
    out = np.full(len(x), NAN)
    for t in range(w - 1, len(x)):
        win = x[t - w + 1 : t + 1]
        if not np.isnan(win).any():
            out[t] = f(win)
    return out


def mean(v):
    return math.fsum(v) / len(v)


def var1(v):
    if len(v) < 2:
        return NAN
    m = mean(v)
    return math.fsum((a - m) ** 2 for a in v) / (len(v) - 1)


def std1(v):
    s = var1(v)
    return math.sqrt(s) if s == s else NAN


def cov1(a, b):
    if len(a) < 2:
        return NAN
    ma, mb = mean(a), mean(b)
    return math.fsum((p - ma) * (q - mb) for p, q in zip(a, b)) / (len(a) - 1)


def ewm_mean(x, alpha, min_periods=0):
    """Weighted mean of all values up to t, weight (1-alpha)^age; missing values have no weight but do age."""
    x = np.asarray(x, dtype=float)
    out = np.full(len(x), NAN)
    for t in range(len(x)):
        ok = ~np.isnan(x[: t + 1])
        if ok.sum() < max(min_periods, 1):
            continue
        w = (1 - alpha) ** np.arange(t, -1, -1, dtype=float)
        w = w[ok]
        if w.sum() > 0:
            out[t] = math.fsum(w * x[: t + 1][ok]) / math.fsum(w)
        else:
            out[t] = x[: t + 1][ok][-1]
    return out


def ewm_std(x, alpha):
    """Unbiased exponentially weighted standard deviation."""
    x = np.asarray(x, dtype=float)
    out = np.full(len(x), NAN)
    for t in range(len(x)):
        ok = ~np.isnan(x[: t + 1])
        if ok.sum() < 2:
            continue
        w = ((1 - alpha) ** np.arange(t, -1, -1, dtype=float))[ok]
        v = x[: t + 1][ok]
        sw, sw2 = math.fsum(w), math.fsum(w * w)
        den = sw * sw - sw2
        if den <= 0:
            continue
        m = math.fsum(w * v) / sw
        s = math.fsum(w * (v - m) ** 2) / sw * (sw * sw / den)
        out[t] = math.sqrt(max(s, 0.0))
    return out


def span_alpha(span):
    return 2.0 / (span + 1.0)


def diff(x, k=1):
    x = np.asarray(x, dtype=float)
    out = np.full(len(x), NAN)
    if k < len(x):
        out[k:] = x[k:] - x[:-k]
    return out


def shift(x, k=1):
    x = np.asarray(x, dtype=float)
    out = np.full(len(x), NAN)
    if k < len(x):
        out[k:] = x[:-k]
    return out


def true_range(h, l, c):
    """Largest of the available distances; missing when there is none."""
    out = np.full(len(h), NAN)
    for t in range(len(h)):
        cand = [h[t] - l[t]]
        if t > 0:
            cand += [abs(h[t] - c[t - 1]), abs(l[t] - c[t - 1])]
        cand = [v for v in cand if v == v]
        if cand:
            out[t] = max(cand)
    return out


def updown(x):
    d = diff(x)
    up = np.array([v if v > 0 else 0.0 for v in d])
    dn = np.array([-v if v < 0 else 0.0 for v in d])
    return up, dn


def ratio(a, b):
    with np.errstate(all="ignore"):
        return np.asarray(a, float) / np.asarray(b, float)


# ---- EDGE bid-ask spread, Ardia, Guidotti & Kroencke (2024) ------------------------------------------------------
def edge(o, h, l, c, sign):
    o, h, l, c = (np.log(np.asarray(v, float)) for v in (o, h, l, c))
    m = (h + l) / 2.0
    n = len(o)
    T = range(1, n)
    k = n - 1
    if k < 1:
        return NAN
    tau = [1.0 if (h[t] != l[t] or l[t] != c[t - 1]) else 0.0 for t in T]
    pt = sum(tau) / k
    po = (
        sum(1.0 for i, t in enumerate(T) if o[t] != h[t] and tau[i])
        + sum(1.0 for i, t in enumerate(T) if o[t] != l[t] and tau[i])
    ) / k
    pc = (
        sum(1.0 for i, t in enumerate(T) if c[t - 1] != h[t - 1] and tau[i])
        + sum(1.0 for i, t in enumerate(T) if c[t - 1] != l[t - 1] and tau[i])
    ) / k
    if pt == 0 or po == 0 or pc == 0:
        return NAN
    r1 = np.array([m[t] - o[t] for t in T])
    r2 = np.array([o[t] - m[t - 1] for t in T])
    r3 = np.array([m[t] - c[t - 1] for t in T])
    r4 = np.array([c[t - 1] - m[t - 1] for t in T])
    r5 = np.array([o[t] - c[t - 1] for t in T])
    tau = np.array(tau)
    d1, d3, d5 = (r - tau * (r.sum() / k) / pt for r in (r1, r3, r5))
    x1 = -4.0 / po * d1 * r2 - 4.0 / pc * d3 * r4
    x2 = -4.0 / po * d1 * r5 - 4.0 / pc * d5 * r4
    e1, e2 = x1.sum() / k, x2.sum() / k
    v1, v2 = ((x1 - e1) ** 2).sum() / k, ((x2 - e2) ** 2).sum() / k
    if v1 + v2 == 0:
        return NAN
    s2 = (v2 * e1 + v1 * e2) / (v1 + v2)
    s = math.sqrt(abs(s2))
    return -s if (sign and s2 < 0) else s


# ---- train/test splitting -----------------------------------------------------------------------------------------
def fold_bounds(groups, n_folds):
    """Start offsets of the folds: equal sized blocks, each start moved to the next group boundary."""
    n = len(groups)
    base, extra = divmod(n, n_folds)
    starts = [0]
    for k in range(n_folds - 1):
        starts.append(starts[-1] + base + (1 if k < extra else 0))
    out = [0]
    for s in starts[1:]:
        while s < n and groups[s] == groups[s - 1]:
            s += 1
        out.append(s)
    return out + [n]


def kfold(groups, n_folds, embargo, purge, look_forward):
    """[(train, test)] or None when a fold would be empty; train may be empty (then the split is infeasible)."""
    b = fold_bounds(groups, n_folds)
    if any(b[i] >= b[i + 1] for i in range(n_folds)):
        return None
    n = len(groups)
    out = []
    for k in range(1 if look_forward else 0, n_folds):
        lo, hi = b[k], b[k + 1]
        first, last = groups[lo], groups[hi - 1]
        train = []
        for i in range(n):
            if lo <= i < hi:
                continue
            g = groups[i]
            if g > last and (look_forward or g <= last + purge):
                continue
            if g < first and g >= first - embargo:
                continue
            train.append(i)
        out.append((train, list(range(lo, hi))))
    return out


def walk_forward(groups, train_window, test_window, embargo, split_type, unit):
    """[(train, test)]; train may be empty after the embargo (then the split is infeasible)."""
    n = len(groups)
    out = []
    train_lo = groups[0]
    limit = groups[0] + train_window - unit
    i = 0
    while i < n and groups[i] <= limit:
        i += 1
    first = True
    while i < n:
        train_hi = groups[i - 1]
        if not first and split_type == "rolling":
            train_lo = train_hi - train_window + unit
        first = False
        start = groups[i]
        j = i
        while j < n and groups[j] <= start + test_window - unit:
            j += 1
        train = [k for k in range(i) if groups[k] >= train_lo and groups[k] < start - embargo]
        out.append((train, list(range(i, j))))
        i = j
    return out


# ---- information ---------------------------------------------------------------------------------------------------
def bin_of(v, lo, hi, bins):
    edges = np.linspace(lo, hi, bins + 1)
    k = int(np.searchsorted(edges, v, side="right")) - 1
    return min(max(k, 0), bins - 1)


def histogram(x, bins):
    lo, hi = float(np.min(x)), float(np.max(x))
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    return [bin_of(v, lo, hi, bins) for v in np.asarray(x, float)]


def entropy_of(labels):
    n = len(labels)
    cnt = {}
    for v in labels:
        cnt[v] = cnt.get(v, 0) + 1
    return -math.fsum(c / n * math.log(c / n) for c in cnt.values())


def optimal_bins(n, corr=None):
    """Hacine-Gharbi & Ravier."""
    if corr is None:
        z = (8 + 324 * n + 12 * (36 * n + 729 * n**2) ** 0.5) ** (1 / 3.0)
        return int(round(z / 6.0 + 2.0 / (3 * z) + 1.0 / 3))
    return int(round(2**-0.5 * (1 + (1 + 24 * n / (1.0 - corr**2)) ** 0.5) ** 0.5))
