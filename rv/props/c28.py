"""C28: cluster quality and the chosen number of clusters."""

import math

import numpy as np
import pandas as pd

from quantfinlib.clustering import HC, gap_statistic, optimize_n_clusters, silhouette_tstat
from rv import gens
from rv.core import rng_state, snapshot
from rv.gens import coin, pick, size
from rv.props import c27

RULE = "distinct (statistic, items, clusters, draws, seed class, container) recomputed by definition, and distinct selections"
REQUIRED = ["gap", "silhouette", "select_gap", "select_silhouette", "renamed", "refused", "seeded", "default_seed", "singleton_cluster", "no_qualifying_number", "hc_selection", "names_fraction", "names_unsigned", "names_text", "names_float"]


def distances(rng, n):
    k = int(rng.integers(3))
    if k == 0:
        p = rng.normal(size=(n, 3)) + 6 * rng.integers(0, 3, n)[:, None]
        d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    elif k == 1:
        c = gens.correlation(rng, n)
        d = np.sqrt(np.clip((1 - c) / 2, 0, 1))
    else:
        d = rng.uniform(0.1, 1, (n, n)) * 10 ** rng.uniform(-2, 2)
    d = (d + d.T) / 2
    np.fill_diagonal(d, 0)
    return d


def labeling(rng, n, k):
    lab = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
    return rng.permutation(lab)


def wrap(rng, d, lab):
    n = len(lab)
    names = [f"a{i}" for i in range(n)]
    return (pd.DataFrame(d, index=names, columns=names) if coin(rng, 0.4) else d.copy()), (pd.Series(lab, index=names) if coin(rng, 0.4) else lab.copy())


def dispersion(d, lab, k):
    n = len(lab)
    return math.fsum(d[i, j] ** 2 for i in range(n) for j in range(n) if lab[i] == lab[j]) / (4 * k)


def gap_reference(d, lab, nb, seed):
    n, k = len(lab), len(set(lab.tolist()))
    logs = []
    for b in range(nb):
        u = np.random.RandomState(seed + b).uniform(0, d.max(), size=(n, n))
        ref = np.zeros((n, n))
        for i in range(n):
            for j in range(i + 1, n):
                ref[i, j] = ref[j, i] = u[i, j]
        w = dispersion(ref, lab, k)
        logs.append(math.log(w) if w > 0 else 0.0)
    m = math.fsum(logs) / nb
    return m - math.log(dispersion(d, lab, k)), math.sqrt(math.fsum((v - m) ** 2 for v in logs) / nb)


def silhouettes(d, lab):
    n = len(lab)
    out = []
    for i in range(n):
        own = [j for j in range(n) if lab[j] == lab[i] and j != i]
        if not own:
            out.append(0.0)
            continue
        a = math.fsum(d[i, j] for j in own) / len(own)
        b = min(math.fsum(d[i, j] for j in range(n) if lab[j] == l) / sum(lab == l) for l in set(lab.tolist()) if l != lab[i])
        out.append((b - a) / max(a, b))
    return out


def statistics(mon, rng):
    n = size(rng, 3, 16, 150)
    d = distances(rng, n)
    gap = coin(rng)
    k = size(rng, 1 if gap else 2, n - 1)
    lab = labeling(rng, n, k)
    mon.seen("singleton_cluster", int(min(np.bincount(lab)) == 1))
    D, L = wrap(rng, d, lab)
    before, state = snapshot([D, L]), rng_state()
    name = "gap" if gap else "silhouette"
    mon.note(statistic=name, dist=D, labels=L)
    # another naming of the clusters
    names = rng.permutation(max(50, 2 * k))[:k] - (20 if coin(rng) else 0)
    how = pick(rng, ["int", "int", "fraction", "unsigned", "text", "float"])
    if how == "fraction":
        names = names * 0.25 - 3
    elif how == "unsigned":
        names = (names - names.min()).astype(pick(rng, [np.uint8, np.uint64]))
    elif how == "text":
        names = np.array([f"c{v}" for v in names])
    elif how == "float":
        names = names.astype(float)
    mon.seen("names_" + how)
    lab2 = names[lab]
    L2 = pd.Series(lab2) if coin(rng, 0.3) else lab2
    if gap:
        nb = size(rng, 1, 8, 150)
        kw = dict(nb=nb)
        if coin(rng, 0.1):
            kw, nb = {}, 10
        seed = None
        if coin(rng):
            kw["random_state"] = seed = int(rng.integers(0, 10**6)) if coin(rng, 0.8) else 0
        mon.seen("default_seed" if seed is None else "seeded")
        mon.note(args=kw)
        got = mon.call(gap_statistic, D, L, **kw)
        mon.check(len(got) == 2, f"result {got}")
        want = gap_reference(d, lab, nb, seed or 0)
        mon.close(got, want, "gap statistic and its deviation", rtol=1e-8, atol=1e-9)
        mon.close(mon.call(gap_statistic, dist=D, labels=L2, **kw), got, "gap statistic with renamed clusters", rtol=1e-10, atol=1e-12)
        mon.signature("gap", n, k, nb, seed is None)
    else:
        s = np.array(silhouettes(d, lab))
        got = float(mon.call(silhouette_tstat, D, L))
        if s.std() > 1e-6:
            mon.close(got, s.mean() / s.std(), "silhouette statistic", rtol=1e-7, atol=1e-9)
            mon.close(mon.call(silhouette_tstat, labels=L2, dist=D), got, "silhouette statistic with renamed clusters", rtol=1e-8, atol=1e-10)
        mon.signature("silhouette", n, k)
    mon.seen("renamed")
    mon.check(snapshot([D, L]) == before, "inputs modified")
    mon.check(rng_state() == state, "global random state changed")
    mon.seen(name)


def selection(mon, rng):
    n = size(rng, 4, 14, 30)
    d = distances(rng, n)
    many = coin(rng, 0.04)
    if many:  # many small groups: the best number of clusters is large
        k = size(rng, 8, 20)
        p = np.repeat(rng.uniform(0, 1, (k, 2)), rng.integers(2, 4, k), axis=0)
        n = len(p)
        d = np.sqrt((((p + rng.normal(0, pick(rng, [1e-3, 1e-2, 3e-2]), p.shape))[:, None] - p[None]) ** 2).sum(-1))
        d = (d + d.T) / 2
        np.fill_diagonal(d, 0)
        mon.seen("many_clusters")
    link = pick(rng, c27.METHODS[:5])
    use_hc = coin(rng)
    hc = mon.call(HC, dist=d.copy(), linkage_method=link)
    if coin(rng, 0.2 if many else 0.5):
        metric, top = "gap", size(rng, 3, n - 1)
        nb = size(rng, 1, 6)
        kw = dict(max_clust=top, nb=nb)
        if coin(rng):
            kw["metric"] = "gap"
    else:
        metric, top, nb = "silhouette", size(rng, 2, n - 1), 1
        kw = dict(max_clust=top, metric="silhouette")
    mon.note(dist=d, linkage=link, args=kw)
    stats = []
    for k in range(2, top + 1):
        lab = np.asarray(mon.call(hc.get_clusters, k))
        stats.append(mon.call(gap_statistic, d, lab, nb=nb) if metric == "gap" else mon.call(silhouette_tstat, d, lab))
    if use_hc:
        got, err = mon.attempt(hc.get_optimal_nclusters, **kw)
        mon.seen("hc_selection")
    else:
        got, err = mon.attempt(optimize_n_clusters, hc.linkage, d, **kw)
    if metric == "silhouette":
        mon.check(err is None, f"selection failed: {err!r}")
        s = np.array(stats, float)
        if np.isfinite(s).all():
            mon.check(2 <= got <= top and s[got - 2] >= s.max() - 1e-9 * abs(s.max()), f"chose {got} of {dict(zip(range(2, top + 1), s))}")
        mon.seen("select_silhouette")
    else:
        g, sd = np.array(stats, float).T
        margin = [g[i] - (g[i + 1] - sd[i + 1]) for i in range(len(g) - 1)]
        sure = [m > 1e-10 for m in margin]
        maybe = [abs(m) <= 1e-10 for m in margin]
        if not any(maybe):
            if any(sure):
                want = sure.index(True) + 2
                mon.check(err is None and got == want, f"chose {got} ({err!r}), expected {want}; margins {margin}")
            else:
                mon.check(err is not None or got == top, f"chose {got} although no gap qualifies")
                mon.seen("no_qualifying_number")
        mon.seen("select_gap")
    mon.signature("select", metric, n, top, got)


def refusals(mon, rng):
    n = size(rng, 4, 8)
    d = distances(rng, n)
    m = pick(rng, [n - 1, n + 1, n + 3])
    lab = labeling(rng, m, 2)
    fn = pick(rng, [gap_statistic, silhouette_tstat])
    mon.note(n=n, labels=lab)
    mon.rejects(f"{m} labels for {n} items", fn, d, lab)
    mon.rejects(f"{m} labels for {n} items", fn, pd.DataFrame(d), pd.Series(lab))
    hc = mon.call(HC, dist=d)
    mon.rejects("unknown metric", hc.get_optimal_nclusters, max_clust=3, metric=pick(rng, ["", "Gap", "elbow", None]))
    mon.seen("refused")
    mon.signature("refuse", n, m, fn.__name__)


STAGES = [("statistics", statistics, 2500, 25000), ("selection", selection, 1200, 12000), ("refusals", refusals, 200, 1200)]
