"""C25: distance matrices of tables."""

import numpy as np
import pandas as pd

from quantfinlib.distance import get_corr_distance_matrix, get_info_distance_matrix
from rv import gens, info
from rv.core import snapshot
from rv.gens import coin, pick, size
from rv.props import c23, c24

RULE = "distinct (measure, options, container, dimension) with all entries recomputed pair by pair"
REQUIRED = ["pearson", "spearman", "angular", "abs_angular", "squared_angular", "transformer", "var_info", "mutual_info", "default_bins",
            "frame", "array", "permuted", "refused", "ties_in_ranks", "default_arguments", "repeated_columns", "repeated_names", "missing_values"]


def pearson(a, b):
    a, b = a - a.mean(), b - b.mean()
    return float((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))


def ranks(v):
    return np.array([((v < x).sum() + (v <= x).sum() + 1) / 2.0 for x in v])


def table(mon, rng):
    n, d = size(rng, 4, 40, 700) if coin(rng, 0.99) else int(rng.integers(1000, 6000)), size(rng, 2, 7, 30)
    x = gens.returns_matrix(rng, n, d)
    k = int(rng.integers(5))
    if k == 0:
        x = rng.integers(0, 6, (n, d)).astype(float)
        mon.seen("ties_in_ranks")
    elif k == 1:
        x[:, -1] = pick(rng, [1, -1]) * x[:, 0] * 2
        mon.seen("repeated_columns")
    for j in range(d):
        if x[:, j].min() == x[:, j].max():
            x[0, j] += 1.0
    frame = coin(rng)
    arg = x.copy()
    if frame:
        cols = pd.Index(pick(rng, [[f"c{j}" for j in range(d)], list(range(5, 5 + d)), [f"z{d - j}" for j in range(d)], [f"c{j // 2}" for j in range(d)], ["same"] * d]), name=pick(rng, [None, "asset"]))
        arg = pd.DataFrame(x.copy(), columns=cols, index=gens.any_index(rng, n))
    mon.seen("frame" if frame else "array")
    mon.seen("repeated_names", int(frame and not arg.columns.is_unique))
    return n, d, x, arg, frame


def container(mon, out, arg, frame, d):
    mon.check(isinstance(out, pd.DataFrame) if frame else isinstance(out, np.ndarray), f"container {type(out).__name__}")
    if frame:
        mon.check(list(out.index) == list(arg.columns) and list(out.columns) == list(arg.columns), f"labels {list(out.index)}, {list(out.columns)}")
    D = np.asarray(out, float)
    mon.check(D.shape == (d, d), f"shape {D.shape}")
    mon.check((D == D.T).all(), "matrix is not symmetric")
    return D


def permuted(mon, rng, fn, arg, frame, D, d, tol=1e-7):
    p = rng.permutation(d)
    again = np.asarray(mon.call(fn, arg.iloc[:, p] if frame else arg[:, p]), float)
    mon.close(again, D[np.ix_(p, p)], f"matrix after reordering the columns by {p}", rtol=1e-7, atol=tol)
    mon.seen("permuted")


def correlations(mon, rng):
    n, d, x, arg, frame = table(mon, rng)
    method, conv = pick(rng, ["pearson", "spearman"]), pick(rng, list(c23.CONV))
    kw = dict(corr_method=method, corr_to_dist_method=conv)
    if coin(rng, 0.15):
        kw, method, conv = {}, "pearson", "angular"
        mon.seen("default_arguments")
    tr = None
    if coin(rng, 0.3):
        f = rng.uniform(0, 1)
        tr = lambda c: c * f + (1 - f) * np.eye(d)
        kw["corr_transformer"] = tr
        mon.seen("transformer")
    before = snapshot(arg)
    mon.note(args={k: str(v) for k, v in kw.items()}, X=arg)
    fn = lambda a: get_corr_distance_matrix(a, **kw)
    D = container(mon, mon.call(fn, arg), arg, frame, d)
    mon.check(snapshot(arg) == before, "table modified")
    mon.check((np.diag(D) == 0).all(), f"diagonal {np.diag(D)}")
    for i in range(d):
        for j in range(i):
            a, b = x[:, i], x[:, j]
            c = pearson(ranks(a), ranks(b)) if method == "spearman" else pearson(a, b)
            if tr is not None:
                c = c * f
            want = c23.formula(c, conv)
            mon.check(abs(D[i, j] ** 2 - want**2) <= 1e-8 and 0 <= D[i, j] <= 1, f"distance [{i},{j}] {D[i, j]!r}, expected {want!r} for correlation {c!r}")
    if coin(rng, 0.4):
        permuted(mon, rng, fn, arg, frame, D, d, 1e-6)
    mon.seen(method)
    mon.seen(conv)
    mon.signature(method, conv, tr is not None, frame, d, min(n, 20))


def missing(mon, rng):
    """Values missing in some columns: every entry still is the distance of its two columns."""
    n, d = size(rng, 25, 60, 700), size(rng, 3, 6)
    x = gens.returns_matrix(rng, n, d)
    if coin(rng, 0.3):
        x = np.round(x)
        x[:2] = np.arange(2.0)[:, None]
    hole = rng.random((n, d)) < rng.choice([0.02, 0.3])
    hole[:, rng.random(d) < 0.4] = False
    hole[:4] = False
    x[hole] = np.nan
    method, conv = pick(rng, ["pearson", "spearman"]), pick(rng, list(c23.CONV))
    frame = coin(rng)
    arg = pd.DataFrame(x.copy(), columns=[f"c{j}" for j in range(d)]) if frame else x.copy()
    mon.note(method=method, conv=conv, X=arg)
    D = container(mon, mon.call(get_corr_distance_matrix, arg, corr_method=method, corr_to_dist_method=conv), arg, frame, d)
    for i in range(d):
        for j in range(i):
            ok = ~hole[:, i] & ~hole[:, j]
            a, b = x[ok, i], x[ok, j]
            if a.min() == a.max() or b.min() == b.max():
                continue
            c = pearson(ranks(a), ranks(b)) if method == "spearman" else pearson(a, b)
            want = c23.formula(c, conv)
            mon.check(abs(D[i, j] ** 2 - want**2) <= 1e-8, f"distance [{i},{j}] {D[i, j]!r}, expected {want!r} from the rows both columns have")
    mon.seen("missing_values", int(hole.any()))
    mon.signature("missing", method, conv, frame, d, min(n, 30))


def information(mon, rng):
    n, d, x, arg, frame = table(mon, rng)
    method = pick(rng, ["var_info", "mutual_info"])
    kw, bins, norm = dict(method=method), None, True
    if coin(rng, 0.15):
        kw, method = {}, "var_info"
    if coin(rng, 0.6):
        kw["bins"] = bins = size(rng, 2, 10, 30)
    if coin(rng, 0.4):
        kw["norm"] = norm = coin(rng)
    before = snapshot(arg)
    mon.note(args=kw, X=arg)
    fn = lambda a: get_info_distance_matrix(a, **kw)
    D = container(mon, mon.call(fn, arg), arg, frame, d)
    mon.check(snapshot(arg) == before, "table modified")
    if method == "var_info":
        mon.check((np.diag(D) == 0).all(), f"diagonal {np.diag(D)}")
    elif norm:
        mon.check((np.diag(D) == 1).all(), f"diagonal {np.diag(D)}")
    ref = info.variation if method == "var_info" else info.mutual
    sure = True
    for i in range(d):
        for j in range(i):
            cand = {bins} if bins else info.default_bins(x[:, i], x[:, j])
            sure &= len(cand) == 1
            want = [ref(x[:, i], x[:, j], k, norm) for k in sorted(cand)]
            mon.check(any(abs(D[i, j] - w) <= 1e-8 * (1 + abs(w)) for w in want), f"{method} [{i},{j}] {D[i, j]!r}, expected {want}")
    if sure and coin(rng, 0.4):
        permuted(mon, rng, fn, arg, frame, np.asarray(D), d) if method == "var_info" or norm else None
    mon.seen(method)
    mon.seen("default_bins", int(bins is None))
    mon.signature(method, bins, norm, frame, d, min(n, 20))


def refusals(mon, rng):
    n, d, x, arg, frame = table(mon, rng)
    bad = pick(rng, ["", "Pearson", "kendall", "cosine", "mi", "varinfo", "angular "])
    mon.note(bad=bad)
    mon.rejects(f"correlation method {bad!r}", get_corr_distance_matrix, arg, corr_method=bad)
    mon.rejects(f"conversion {bad!r}", get_corr_distance_matrix, arg, corr_to_dist_method=bad)
    mon.rejects(f"information method {bad!r}", get_info_distance_matrix, arg, method=bad)
    mon.rejects("one column", get_info_distance_matrix, x[:, :1])
    mon.rejects("one column", get_corr_distance_matrix, x[:, :1])
    mon.rejects("one dimension", get_info_distance_matrix, x[:, 0])
    mon.rejects("one dimension", get_corr_distance_matrix, x[:, 0])
    mon.seen("refused")
    mon.signature("refuse", bad)


STAGES = [("correlations", correlations, 2500, 25000), ("missing", missing, 500, 5000), ("information", information, 1500, 15000), ("refusals", refusals, 300, 2000)]
