"""C27: hierarchical clustering."""

import math

import numpy as np
import pandas as pd

from quantfinlib.clustering import HC
from rv import gens, info
from rv.core import snapshot
from rv.gens import coin, pick, size
from rv.props import c23, c25

METHODS = ["single", "complete", "average", "weighted", "ward", "centroid", "median"]
MONOTONE = METHODS[:5]
RULE = "distinct (linkage, codependence, conversion, source, container, number of items) with all cuts checked"
REQUIRED = METHODS + ["pearson-correlation", "spearman-correlation", "var_info", "from_data", "from_correlation", "from_distance", "frame",
                      "tree_compared", "permuted", "refused", "tied_items", "two_items", "several_sources", "other_units"]


def agglomerate(D, method):
    """Lance-Williams on a distance matrix: [(height, members)] in merge order and whether near-ties occurred."""
    n = len(D)
    D = D.astype(float).copy()
    sq = method in ("ward", "centroid", "median")
    act = {i: frozenset([i]) for i in range(n)}
    d = {(i, j): D[i, j] for i in range(n) for j in range(i)}
    get = lambda a, b: d[(max(a, b), min(a, b))]
    merges, nxt, tie, top = [], n, False, float(D.max())
    while len(act) > 1:
        pairs = sorted((get(a, b), a, b) for a in act for b in act if a > b)
        h, a, b = pairs[0]
        if len(pairs) > 1 and pairs[1][0] - h <= 1e-7 * (abs(h) + 1e-3 * top):
            tie = True
        na, nb = len(act[a]), len(act[b])
        for k in act:
            if k in (a, b):
                continue
            x, y, nk = get(a, k), get(b, k), len(act[k])
            if method == "single":
                v = min(x, y)
            elif method == "complete":
                v = max(x, y)
            elif method == "average":
                v = (na * x + nb * y) / (na + nb)
            elif method == "weighted":
                v = (x + y) / 2
            elif method == "ward":
                v = math.sqrt(max(((na + nk) * x * x + (nb + nk) * y * y - nk * h * h) / (na + nb + nk), 0))
            elif method == "centroid":
                v = math.sqrt(max((na * x * x + nb * y * y) / (na + nb) - na * nb * h * h / (na + nb) ** 2, 0))
            else:
                v = math.sqrt(max(x * x / 2 + y * y / 2 - h * h / 4, 0))
            d[(nxt, k)] = v
        act[nxt] = act[a] | act[b]
        merges.append((h, act[nxt]))
        del act[a], act[b]
        nxt += 1
    return merges, tie


def partition(labels):
    out = {}
    for i, l in enumerate(labels):
        out.setdefault(l, []).append(i)
    return frozenset(frozenset(v) for v in out.values())


def cut(merges, n, k):
    part = {frozenset([i]) for i in range(n)}
    for _, m in merges[: n - k]:
        part = {p for p in part if not p <= m} | {m}
    return frozenset(part)


def one(mon, rng):
    n_items = size(rng, 2, 12, 100)
    n = size(rng, 5, 40, 1500)
    x = gens.returns_matrix(rng, n, n_items)
    tied = coin(rng, 0.15)
    if tied:
        for j in range(1, n_items):
            if coin(rng, 0.4):
                x[:, j] = x[:, int(rng.integers(j))]
        mon.seen("tied_items")
    for j in range(n_items):
        if x[:, j].min() == x[:, j].max():
            x[0, j] += 1.0
    codep = pick(rng, ["pearson-correlation", "spearman-correlation", "var_info"])
    conv = pick(rng, list(c23.CONV))
    link = pick(rng, METHODS)
    frame = coin(rng)
    # reference distance matrix
    D = np.zeros((n_items, n_items))
    C = np.eye(n_items)
    ambiguous = False
    for i in range(n_items):
        for j in range(i):
            if codep == "var_info":
                cand = info.default_bins(x[:, i], x[:, j])
                ambiguous |= len(cand) > 1
                D[i, j] = D[j, i] = max(info.variation(x[:, i], x[:, j], max(cand), True), 0.0)
            else:
                C[i, j] = C[j, i] = c25.pearson(x[:, i], x[:, j]) if codep[0] == "p" else c25.pearson(c25.ranks(x[:, i]), c25.ranks(x[:, j]))
                D[i, j] = D[j, i] = c23.formula(C[i, j], conv)
    scale = 1.0
    labels = [f"a{j}" for j in range(n_items)]
    wrap = (lambda m: pd.DataFrame(m, index=labels, columns=labels)) if frame else np.array
    source = pick(rng, ["data", "data", "correlation", "distance"])
    if codep == "var_info" and source == "correlation":
        source = "data"
    kw = dict(linkage_method=link)
    if link == "ward" and coin(rng, 0.3):
        kw = {}
    if coin(rng, 0.2):
        kw["optimal_ordering"] = False
    if source == "data":
        arg = pd.DataFrame(x.copy(), columns=labels, index=gens.any_index(rng, n)) if frame else x.copy()
        kw.update(X=arg, codependence_method=codep, corr_to_dist_method=conv)
    elif source == "correlation":
        arg = wrap(C.copy())
        kw.update(corr=arg, codependence_method=codep, corr_to_dist_method=conv)
    else:
        if coin(rng, 0.3):  # distances of any unit
            scale = 10.0 ** rng.uniform(-14, 6)
            D = D * scale
            mon.seen("other_units")
        arg = wrap(D.copy())
        kw.update(dist=arg)
    if source != "data" and coin(rng, 0.2):  # given together with what it would be computed from
        other = gens.returns_matrix(rng, n, n_items)
        for j in range(n_items):
            other[0, j] += 1.0 if other[:, j].min() == other[:, j].max() else 0.0
        kw.setdefault("codependence_method", codep)
        kw["X"] = pd.DataFrame(other, columns=labels) if frame else other
        if source == "distance" and coin(rng):
            kw["corr"] = wrap(gens.correlation(rng, n_items))
        mon.seen("several_sources")
    mon.note(codependence=codep, conversion=conv, linkage=link, source=source, arg=arg)
    before = snapshot(arg)
    hc = mon.call(HC, **kw)
    got = np.asarray(hc.dist, float)
    mon.check(got.shape == D.shape, f"distance matrix of shape {got.shape}")
    if not ambiguous:
        mon.check(np.abs(got**2 - D**2).max() <= 1e-7 * scale**2, f"distance matrix differs by {np.abs(got - D).max()}")
    Z = np.asarray(mon.call(lambda: hc.linkage), float)
    mon.check(Z.shape == (n_items - 1, 4), f"linkage of shape {Z.shape}")
    merges, tie = agglomerate(got, link)
    tie |= tied
    ks = list(range(1, n_items + 1))
    parts = {}
    for k in rng.permutation(ks):
        k = int(k)
        lab = np.asarray(mon.call(hc.get_clusters, k))
        mon.check(lab.shape == (n_items,), f"{lab.shape} labels for {n_items} items")
        parts[k] = partition(lab.tolist())
        mon.check(len(parts[k]) == k, f"asked for {k} clusters, got {len(parts[k])}: {lab.tolist()}")
    for k in ks[1:]:
        mon.check(all(any(a <= b for b in parts[k - 1]) for a in parts[k]), f"clusters for {k} are not nested in those for {k - 1}")
    if not tie:
        for k in ks:
            mon.check(parts[k] == cut(merges, n_items, k), f"{k} clusters {sorted(map(sorted, parts[k]))}, expected {sorted(map(sorted, cut(merges, n_items, k)))}")
        mon.close(np.sort(Z[:, 2]), np.sort([h for h, _ in merges]), "merge distances", rtol=1e-6, atol=1e-7 * scale)
        mon.seen("tree_compared")
    mon.check(snapshot(arg) == before, "the input was modified")
    k = size(rng, 1, n_items)
    again = mon.call(hc.get_clusters, k)
    mon.check(partition(np.asarray(again).tolist()) == parts[k], "asking again gives other clusters")
    if not tie and not ambiguous and coin(rng, 0.5):
        p = rng.permutation(n_items)
        key, a = next((q, kw[q]) for q in ("dist", "corr", "X") if q in kw)
        if key == "X":
            b = a.iloc[:, p] if frame else a[:, p]
        else:
            b = a.iloc[p, p] if frame else a[np.ix_(p, p)]
        h2 = mon.call(HC, **{**kw, key: b})
        for k in ks:
            lab = np.asarray(mon.call(h2.get_clusters, k))
            back = np.empty(n_items, dtype=lab.dtype)
            back[p] = lab
            mon.check(partition(back.tolist()) == parts[k], f"{k} clusters change when the items are reordered by {p}")
        mon.seen("permuted")
    mon.seen(link)
    mon.seen(codep)
    mon.seen("from_" + source)
    mon.seen("frame", int(frame))
    mon.seen("two_items", int(n_items == 2))
    mon.signature(link, codep if source != "distance" else "", conv, source, frame, n_items)


def refusals(mon, rng):
    x = gens.returns_matrix(rng, 10, 4)
    c = np.corrcoef(x.T)
    mon.rejects("no input", HC)
    mon.rejects("no input", HC, codependence_method=pick(rng, ["pearson-correlation", "spearman-correlation", "var_info"]))
    mon.rejects("variation of information of a correlation matrix", HC, corr=c, codependence_method="var_info")
    bad = pick(rng, ["pearson", "kendall", "", "mutual_info", "Var_Info", None])
    mon.note(bad=bad)
    mon.rejects(f"codependence {bad!r}", HC, X=x, codependence_method=bad)
    mon.rejects(f"conversion {bad!r}", HC, X=x, corr_to_dist_method=bad)
    hc = mon.call(HC, X=x, linkage_method=pick(rng, ["Ward", "", "centre"]))
    mon.rejects("linkage method", lambda: hc.get_clusters(2))
    mon.seen("refused")
    mon.signature("refuse", bad)


STAGES = [("clusterings", one, 2000, 20000), ("refusals", refusals, 100, 600)]
