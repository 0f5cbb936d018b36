"""C45: the order of assets and of independent observations does not matter."""

import numpy as np
import pandas as pd

import quantfinlib.distance as D
from quantfinlib.clustering import HC, gap_statistic, silhouette_tstat
from quantfinlib.distance.distance_matrix import corr_to_dist
from quantfinlib.math import cov as C
from rv import gens, info, sims
from rv.gens import coin, pick, size

RULE = "distinct (function, size, containers) with the results for permuted inputs compared"
REQUIRED = ["covariance", "denoise", "corr_distance", "info_distance", "divergence", "clustering", "labels", "calibration", "observations", "frames", "eigen"]


def frame(mon, rng, a, square=False, p=None):
    """A permuted copy of the columns (and rows) of a, as an array or a frame with names that move along."""
    q = np.arange(a.shape[1]) if p is None else p
    b = a[:, q]
    if square:
        b = b[q]
    return np.ascontiguousarray(b)


def maybe_frame(use, a, q, square=False):
    if not use:
        return a
    names = [f"a{i}" for i in q]
    return pd.DataFrame(a, columns=names, index=names if square else None)


def plain(x):
    return x.to_numpy() if isinstance(x, (pd.DataFrame, pd.Series)) else np.asarray(x)


def partition(lab):
    lab = plain(lab)
    return sorted(tuple(int(i) for i in np.flatnonzero(lab == v)) for v in np.unique(lab))


def one(mon, rng):
    d = size(rng, 2, 9, 80)
    p = rng.permutation(d)
    use = coin(rng, 0.4)
    mon.seen("frames", int(use))
    op = pick(rng, ["covariance", "denoise", "corr_distance", "info_distance", "divergence", "clustering", "labels", "calibration", "eigen"])
    pp = np.ix_(p, p)
    mon.note(operation=op, permutation=p)
    if op in ("covariance", "denoise", "eigen"):
        c = gens.correlation(rng, d)
        s = 10 ** rng.uniform(-1.5, 1.5, d)
        v = c * np.outer(s, s)
        v = (v + v.T) / 2
        if op == "covariance":
            a, sa = mon.call(C._cov_to_cor, v.copy())
            b, sb = mon.call(C._cov_to_cor, v[pp].copy())
            mon.close(b, a[pp], "correlation of a permuted covariance", rtol=1e-12, atol=1e-14)
            mon.close(sb, np.asarray(sa)[p], "standard deviations of a permuted covariance", rtol=1e-12)
            mon.close(mon.call(C._cor_to_cov, c[pp].copy(), s[p].copy()), np.asarray(mon.call(C._cor_to_cov, c.copy(), s.copy()))[pp], "covariance of a permuted correlation", rtol=1e-12)
        elif op == "eigen":
            wa, va = mon.call(C._cor_to_eig, c.copy())
            wb, vb = mon.call(C._cor_to_eig, c[pp].copy())
            mon.close(wb, wa, "eigenvalues of a permuted correlation", rtol=1e-9, atol=1e-11)
            mon.close(np.asarray(vb) @ np.diag(wb) @ np.asarray(vb).T, c[pp], "eigenvectors of a permuted correlation", rtol=1e-8, atol=1e-9)
        else:
            T = size(rng, d + 1, 12 * d)
            kw = dict(k=size(rng, 0, d - 1)) if coin(rng) else {}
            mon.note(matrix=c, num_timesteps=T, **kw)
            w = np.sort(np.linalg.eigvalsh(c))[::-1]
            if kw and 0 < kw["k"] < d and w[kw["k"] - 1] - w[kw["k"]] < 1e-6:
                return  # the signal is not determined when its weakest part ties with the noise
            fn, m = (C._cor_denoise, c) if coin(rng) else (C._cov_denoise, v)
            a, e1 = mon.attempt(fn, m.copy(), T, **kw)
            b, e2 = mon.attempt(fn, m[pp].copy(), T, **kw)
            mon.check((e1 is None) == (e2 is None), f"denoising: {e1!r} and {e2!r} for the permuted matrix")
            if e1 is not None:
                return
            a, b = np.asarray(a[0]), np.asarray(b[0])
            if np.abs(np.diff(w)).min() < 1e-6 and not kw:
                return
            mon.close(b / np.abs(a).max(), a[pp] / np.abs(a).max(), f"{fn.__name__} of a permuted matrix", rtol=1e-6, atol=1e-7)
    elif op in ("corr_distance", "info_distance"):
        n = size(rng, 6, 40, 1500)
        x = gens.returns_matrix(rng, n, d)
        r = rng.permutation(n) if coin(rng, 0.6) else np.arange(n)
        mon.seen("observations", int((r != np.arange(n)).any()))
        y = np.ascontiguousarray(x[r][:, p])
        q = np.arange(d)
        X, Y = maybe_frame(use, x, q), maybe_frame(use, y, p)
        mon.note(X=X)
        if op == "corr_distance":
            kw = dict(corr_method=pick(rng, ["pearson", "spearman"]), corr_to_dist_method=pick(rng, ["angular", "abs_angular", "squared_angular"]))
            f, tol = D.get_corr_distance_matrix, 1e-6
        else:
            kw = dict(method=pick(rng, ["var_info", "mutual_info"]))
            if coin(rng, 0.7):
                kw["bins"] = size(rng, 2, 9)
            elif any(len(info.default_bins(x[:, i], x[:, j])) > 1 for i in range(d) for j in range(i)):
                return
            f, tol = D.get_info_distance_matrix, 1e-9
        mon.note(X=X, options=kw)
        a, b = mon.call(f, X, **kw), mon.call(f, Y, **kw)
        if use and isinstance(b, pd.DataFrame) and isinstance(a, pd.DataFrame) and list(a.columns) == [f"a{i}" for i in q]:
            mon.check(list(b.columns) == [f"a{i}" for i in p], "labels do not move with the columns")
        mon.close(plain(b), plain(a)[pp], f"{f.__name__} {kw} of permuted data", rtol=1e-9, atol=tol)
    elif op == "divergence":
        def spd():
            a = rng.normal(size=(d + 3, d))
            return a.T @ a / d + 0.05 * np.eye(d)

        a, b = spd(), spd()
        for f in (D.log_det_divergence, D.von_neuman_divergence):
            u, v = float(mon.call(f, a.copy(), b.copy())), float(mon.call(f, a[pp].copy(), b[pp].copy()))
            mon.check(abs(u - v) <= 1e-7 * (1 + abs(u) + np.abs(a).max() * d * 10), f"{f.__name__} is {u!r}, and {v!r} when both matrices are permuted")
    elif op == "clustering":
        c = gens.correlation(rng, d)
        x = gens.returns_matrix(rng, 30, d)
        dist = np.sqrt(np.clip((1 - c) / 2, 0, 1))
        dist = dist + np.triu(rng.uniform(0, 1e-2, (d, d)), 1) + np.triu(np.zeros((d, d)), 1).T
        dist = np.triu(dist, 1)
        dist = dist + dist.T
        q = np.arange(d)
        which = pick(rng, ["dist", "corr", "X"])
        kw = dict(linkage_method=pick(rng, ["single", "complete", "average", "ward"]))
        a, b = {"dist": (dist, dist[pp]), "corr": (c, c[pp]), "X": (x, x[:, p])}[which]
        a, b = (maybe_frame(use, np.ascontiguousarray(v), o, which != "X") for v, o in ((a, q), (b, p)))
        k = size(rng, 1, d)
        mon.note(which=which, data=a, clusters=k, **kw)
        ha, hb = mon.call(HC, **{which: a}, **kw), mon.call(HC, **{which: b}, **kw)
        la, lb = np.asarray(ha.linkage), np.asarray(hb.linkage)
        h = np.sort(la[:, 2])
        mon.close(np.sort(lb[:, 2]), h, "merge heights", rtol=1e-6, atol=1e-7)
        flat = plain(ha.dist)[np.triu_indices(d, 1)]
        if len(flat) > 1 and np.diff(np.sort(flat)).min() > 1e-7 and (len(h) < 2 or np.diff(h).min() > 1e-6):
            pa = mon.call(ha.get_clusters, k)
            pb = mon.call(hb.get_clusters, k)
            back = np.empty(d, int)
            back[p] = plain(pb)
            mon.check(partition(back) == partition(pa), f"{k} clusters {partition(pa)}, for permuted items {partition(back)}")
            if d >= 4:
                u = mon.call(ha.get_optimal_nclusters, max_clust=3, metric="silhouette")
                v = mon.call(hb.get_optimal_nclusters, max_clust=3, metric="silhouette")
                ts = [silhouette_tstat(plain(ha.dist), plain(ha.get_clusters(j))) for j in range(2, min(3, d - 1) + 1)]
                if len(ts) < 2 or np.diff(np.sort(ts)).min() > 1e-9 * (1 + np.abs(ts).max()):
                    mon.check(u == v, f"best number of clusters {u}, for permuted items {v}")
    elif op == "labels":
        if d < 3:
            return
        dist = np.sqrt(np.clip((1 - gens.correlation(rng, d)) / 2, 0, 1))
        np.fill_diagonal(dist, 0)
        k = size(rng, 2, d - 1)
        lab = rng.permutation(np.concatenate([np.arange(k), rng.integers(0, k, d - k)]))
        new = rng.permutation(3 * k)[:k] - pick(rng, [0, 0, 5])
        ren = new[lab]
        mon.note(dist=dist, labels=lab, renamed=ren)
        a = mon.call(silhouette_tstat, dist.copy(), lab.copy())
        b = mon.call(silhouette_tstat, dist.copy(), ren.copy())
        e = mon.call(silhouette_tstat, np.ascontiguousarray(dist[pp]), lab[p].copy())
        mon.close([b, e], [a, a], "silhouette statistic with renamed labels and with permuted items", rtol=1e-7, atol=1e-9)
        seed = int(rng.integers(1000))
        kw = dict(nb=3, random_state=seed)
        u, e1 = mon.attempt(gap_statistic, dist.copy(), lab.copy(), **kw)
        v, e2 = mon.attempt(gap_statistic, dist.copy(), ren.copy(), **kw)
        mon.check((e1 is None) == (e2 is None), f"gap statistic: {e1!r}, with renamed labels {e2!r}")
        if e1 is None:
            mon.close(np.ravel(np.asarray(v, float)), np.ravel(np.asarray(u, float)), "gap statistic with renamed labels", rtol=1e-7, atol=1e-9)
    else:
        kind = pick(rng, ["bm", "gbm", "ou"])
        n = size(rng, 10, 40) + 3 * d
        x = sims.fit_data(rng, kind, n, d)
        if sims.estimators(kind, x, 0.3) is None:
            return
        X, Y = maybe_frame(use, x, np.arange(d)), maybe_frame(use, np.ascontiguousarray(x[:, p]), p)
        mon.note(kind=kind, data=X)
        a, b = mon.call(sims.MODELS[kind]().fit, X, dt=0.3), mon.call(sims.MODELS[kind]().fit, Y, dt=0.3)
        for name in ("mean", "mrr", "vol") if kind == "ou" else ("drift", "vol"):
            u, v = (np.asarray(getattr(m, name), float).reshape(-1) for m in (a, b))
            mon.close(v, u[p], f"{name} of permuted data", rtol=1e-8, atol=1e-10 * np.abs(u).max())
        mon.close(np.asarray(b.cor), np.asarray(a.cor)[pp], "correlation of permuted data", rtol=1e-8, atol=1e-9)
        for f in ("nll", "aic", "bic"):
            u, v = mon.call(getattr(a, f), X, dt=0.3), mon.call(getattr(b, f), Y, dt=0.3)
            mon.check(abs(u - v) <= 1e-7 * (1 + abs(u)), f"{f} is {u!r}, and {v!r} for permuted columns")
    mon.seen(op)
    mon.signature(op, d, use)


STAGES = [("permutations", one, 6000, 60000)]
