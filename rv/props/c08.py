"""C08: seeds determine simulations; the global generators are neither read nor written."""

import os
import pickle
import random
import subprocess
import sys
import threading

import numpy as np

from quantfinlib import distance as D
from quantfinlib.clustering import HC, gap_statistic, silhouette_tstat
from quantfinlib.sim import QuasiRandom
from rv import sims
from rv.core import rng_state
from rv.gens import coin, correlation, pick, returns_matrix, size

RULE = "distinct (model, request form, interleaved operation sequence) around bit-exact repetitions"
REQUIRED = ["repeated_used", "repeated_fresh", "threads", "different_seeds", "absent_seed", "global_state_kept",
            "gap_statistic", "quasi_random", "processes"]


def request(rng, kind, d):
    paths = sims.npaths(rng, [1, 2, 4])
    req = dict(num_steps=size(rng, 2, 30, 1500), num_paths=paths, x0=sims.x0_form(rng, sims.x0_for(rng, kind, d)))
    if coin(rng):
        req["dt"] = float(10 ** rng.uniform(-3, 0))
    if coin(rng, 0.3):
        req.update(label_start="2020-01-01", label_freq=pick(rng, ["D", "B", "W"]))
    return req


def disturb(mon, rng, models):
    """Some other operation between two seeded runs."""
    op = pick(rng, ["np_seed", "np_draw", "random", "sample_other", "sample_none", "fit", "score", "np_state"])
    if op == "np_seed":
        np.random.seed(int(rng.integers(1000)))
    elif op == "np_draw":
        np.random.normal(size=int(rng.integers(1, 700)))
    elif op == "random":
        random.random()
    elif op == "np_state":
        np.random.set_state(np.random.RandomState(int(rng.integers(1000))).get_state())
    else:
        kind, model, d = pick(rng, models)
        g = rng_state()
        if op == "sample_other":
            mon.call(model.path_sample, x0=1.0, num_steps=size(rng, 1, 20), num_paths=pick(rng, [1, 3]), random_state=int(rng.integers(100)))
        elif op == "sample_none":
            mon.call(model.path_sample, x0=1.0, num_steps=size(rng, 1, 20))
        else:
            x = sims.fit_data(rng, kind, 30, d)
            if op == "score":
                mon.call(pick(rng, [model.nll, model.aic, model.bic]), x, 0.1)
            else:
                mon.call(sims.MODELS[kind]().fit, x, 0.1)
        mon.check(rng_state() == g, f"{op} changed the state of a global random generator")
        mon.seen("global_state_kept")
    return op


def histories(mon, rng):
    kind, d, p, cor = sims.draw(rng)
    model = sims.build(rng, kind, p, cor)
    req = request(rng, kind, d)
    seed = pick(rng, [0, 1, 2, 42, 2**32 - 1, int(rng.integers(0, 2**31)), int(rng.integers(0, 2**62))])
    others = [(k, sims.build_plain(k, q, c), e) for k, e, q, c in (sims.draw(rng) for _ in range(2))] + [(kind, model, d)]
    mon.note(model=kind, params=p, cor=cor, request=req, seed=seed)
    g = rng_state()
    first = np.array(mon.call(model.path_sample, random_state=seed, **req))
    mon.check(rng_state() == g, "path_sample changed the state of a global random generator")
    hist = []
    for _ in range(int(rng.integers(1, 5))):
        hist.append(disturb(mon, rng, others))
        mon.note(history=hist)
        fresh = coin(rng)
        m = sims.build_plain(kind, p, cor) if fresh else model
        again = np.array(mon.call(m.path_sample, random_state=seed, **req))
        mon.equal(again, first, f"repetition with seed {seed} on a {'fresh' if fresh else 'used'} model")
        mon.seen("repeated_fresh" if fresh else "repeated_used")
    for s2 in (seed + 1, seed ^ 1, (seed + (1 << 16)), (seed + (1 << 31)), seed + (1 << 32)):
        if s2 >= 0 and s2 != seed:
            y = np.array(mon.call(model.path_sample, random_state=s2, **req))
            mon.check(not np.array_equal(y, first), f"seeds {seed} and {s2} give the same path")
            mon.seen("different_seeds")
    mon.signature(kind, d, tuple(sorted(req)), tuple(hist))


def absent(mon, rng):
    kind, d, p, cor = sims.draw(rng)
    model = sims.build(rng, kind, p, cor)
    req = request(rng, kind, d)
    mon.note(model=kind, params=p, request=req)
    s = int(rng.integers(1000))
    runs = []
    for k in range(3):
        np.random.seed(s)
        random.seed(s)
        g = rng_state()
        m = model if k < 2 else sims.build_plain(kind, p, cor)
        kw = {} if coin(rng) else dict(random_state=None)
        runs.append(np.array(mon.call(m.path_sample, **req, **kw)))
        mon.check(rng_state() == g, "an unseeded path_sample changed a global random generator")
    for i in range(3):
        for j in range(i):
            mon.check(not np.array_equal(runs[i], runs[j]), "two unseeded runs (with reset global generators) are equal")
    mon.seen("absent_seed")
    mon.signature("absent", kind, d)


def threads(mon, rng):
    """Concurrent seeded runs on one shared model equal the sequential ones."""
    kind, d, p, cor = sims.draw(rng)
    model = sims.build(rng, kind, p, cor)
    req = request(rng, kind, d)
    seeds = [int(v) for v in rng.integers(0, 50, 12)]
    want = {s: np.array(mon.call(model.path_sample, random_state=s, **req)) for s in set(seeds)}
    got, errs, bar = [None] * len(seeds), [], threading.Barrier(4)

    def work(w):
        try:
            bar.wait()
            for i in range(w, len(seeds), 4):
                got[i] = np.array(model.path_sample(random_state=seeds[i], **req))
        except BaseException as e:  # noqa
            errs.append(e)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    mon.calls += len(seeds)
    mon.note(model=kind, params=p, request=req, seeds=seeds)
    mon.check(not errs, f"concurrent run raised {errs[:1]}")
    for i, s in enumerate(seeds):
        mon.equal(got[i], want[s], f"concurrent run with seed {s}")
    mon.seen("threads")
    mon.signature("threads", kind, d)


def quasi(mon, rng):
    kind, d, p, cor = sims.draw(rng)
    ind = lambda x: np.append(0.0, np.diff(x))
    model = QuasiRandom(ind, float(rng.uniform(0.05, 1)), sims.build(rng, kind, p, cor))
    seed, req = int(rng.integers(0, 10**6)), dict(x0=2.0, dt=0.05, num_steps=size(rng, 5, 20), num_paths=pick(rng, [1, 3]))
    g = rng_state()
    a = np.array(mon.call(model.path_sample, random_state=seed, **req))
    mon.check(rng_state() == g, "QuasiRandom changed the state of a global random generator")
    disturb(mon, rng, [(kind, sims.build_plain(kind, p, cor), d)])
    mon.equal(np.array(mon.call(model.path_sample, random_state=seed, **req)), a, "repeated quasi random path")
    b = np.array(mon.call(model.path_sample, random_state=seed + 1, **req))
    mon.check(not np.array_equal(a, b), "different seeds give the same quasi random path")
    mon.seen("quasi_random")
    mon.signature("quasi", kind, d)


def clustering(mon, rng):
    """Functions with internal randomness, and functions that need none."""
    n = size(rng, 5, 12)
    c = correlation(rng, n)
    dist = np.sqrt((1 - c) / 2)
    np.fill_diagonal(dist, 0)
    k = int(rng.integers(2, n))
    labels = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
    x = returns_matrix(rng, 40, n)
    np.random.seed(int(rng.integers(1000)))
    seed = int(rng.integers(0, 10**6))
    ops = dict(
        gap_statistic=lambda: gap_statistic(dist, labels, nb=5, random_state=seed),
        gap_default=lambda: gap_statistic(dist, labels, nb=5),
        silhouette=lambda: silhouette_tstat(dist, labels),
        hc=lambda: HC(X=x).get_clusters(k),
        hc_gap=lambda: HC(X=x).get_optimal_nclusters(max_clust=4, nb=5, metric="gap"),
        hc_sil=lambda: HC(X=x).get_optimal_nclusters(max_clust=4, metric="silhouette"),
        corr_dist=lambda: D.get_corr_distance_matrix(x, "pearson", "angular"),
        log_det=lambda: D.log_det_divergence(c, np.eye(n)),
        von_neumann=lambda: D.von_neuman_divergence(c, np.eye(n)),
        kl=lambda: D.kl_divergence_xy(x[:, 0], x[:, 1]),
        info_dist=lambda: D.get_info_distance_matrix(x[:, :4], "var_info"),
    )
    name = pick(rng, sorted(ops))
    mon.note(operation=name, n=n, k=k, seed=seed)
    outs = []
    for _ in range(3):
        g = rng_state()
        v, err = mon.attempt(ops[name])
        mon.check(rng_state() == g, f"{name} changed the state of a global random generator")
        if name != "hc_gap":
            mon.check(err is None, f"{name} raised {err!r}")
        outs.append(repr(np.asarray(v).tolist()) if err is None else type(err).__name__)
        np.random.normal(size=int(rng.integers(1, 9)))
        random.random()
        np.random.seed(int(rng.integers(1000)))
    mon.check(len(set(outs)) == 1, f"{name} depends on the global random generator: {outs}")
    mon.seen("gap_statistic" if name.startswith("gap") else name)
    mon.seen("global_state_kept")
    mon.signature("clustering", name, n)


def processes(mon, rng):
    """The same seeded requests in another interpreter, with its own hash seed and its own other requests before."""
    cases, want = [], []
    for _ in range(40):
        kind, d, p, cor = sims.draw(rng)
        req = request(rng, kind, d)
        if coin(rng, 0.3):
            req["num_steps"] = int(rng.integers(30, 1500))
        seed = pick(rng, [0, 1, 42, int(rng.integers(0, 2**31)), int(rng.integers(0, 2**62))])
        cases.append((kind, p, cor, seed, req))
        want.append(np.array(mon.call(sims.build_plain(kind, p, cor).path_sample, random_state=seed, **req)))
    order = rng.permutation(len(cases))
    env = {**os.environ, "PYTHONHASHSEED": str(int(rng.integers(0, 2**31)))}
    child = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seed_child.py")
    r = subprocess.run([sys.executable, "-B", child], input=pickle.dumps([cases[i] for i in order]), capture_output=True, env=env, timeout=120)
    mon.check(r.returncode == 0, lambda: f"the requests fail in another process: {r.stderr.decode()[-300:]}")
    for i, got in zip(order, pickle.loads(r.stdout)):
        kind, p, cor, seed, req = cases[i]
        mon.note(model=kind, params=p, cor=cor, seed=seed, request=req)
        mon.equal(got, want[i], f"path with seed {seed} in another process")
        mon.seen("processes")
        mon.signature("process", kind, req["num_steps"] > 300, tuple(sorted(req)))


STAGES = [("histories", histories, 1500, 25000), ("absent_seed", absent, 400, 6000), ("threads", threads, 200, 3000),
          ("processes", processes, 12, 200), ("quasi_random", quasi, 300, 4000), ("clustering", clustering, 600, 8000)]
