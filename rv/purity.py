"""Every public function with generated arguments, and a probe of the process state around a call."""

import builtins
import functools
import logging
import os
import sys
import threading
import warnings

import joblib
import numpy as np
import pandas as pd

import quantfinlib.distance as D
from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration
from quantfinlib.clustering import HC, gap_statistic, optimize_n_clusters, silhouette_tstat
from quantfinlib.datasets import load_equity_indices, load_treasury_rates, load_vix
from quantfinlib.distance.distance_matrix import corr_to_dist
from quantfinlib.feature.structural_breaks.cusumtest import chu_stinchcombe_white_cusum_test
from quantfinlib.math import cov as C
from quantfinlib.sim import QuasiRandom
from quantfinlib.train_test_split import TimeAwareKFold, WalkForward
from quantfinlib.util import get_project_root, to_numpy
from rv import features, gens, sims, splits
from rv.core import Captured, rng_state, snapshot
from rv.gens import coin, pick, size

# -- process state ----------------------------------------------------------------------------------------------------
OPTIONS = sorted(pd._config.config._registered_options)
OPENED = []


def _audit(event, args):
    if event == "open" and OPENED is not None and _watch.on:
        path, mode, flags = args
        write = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if write and str(path) != "/dev/null":
            OPENED.append(str(path))
    elif _watch.on and event in ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.putenv", "subprocess.Popen", "socket.connect", "os.system", "shutil.rmtree", "os.truncate"):
        OPENED.append(event + " " + repr(args)[:80])


class _watch:
    on = False


_installed = False


def install():
    global _installed
    if not _installed:
        sys.addaudithook(_audit)
        _installed = True


def state():
    lg = logging.getLogger("quantfinlib")
    root = logging.getLogger()
    return dict(
        numpy_errors=np.geterr(), numpy_errcall=np.geterrcall(), numpy_print=repr(np.get_printoptions()),
        pandas_options=[repr(pd.get_option(o)) for o in OPTIONS],
        warning_filters=repr(warnings.filters), showwarning=warnings.showwarning,
        random=rng_state(), environment=dict(os.environ), directory=os.getcwd(), files=sorted(os.listdir(".")),
        path=list(sys.path), logger=(lg.level, list(lg.handlers), lg.disabled, lg.propagate), root=(root.level, list(root.handlers), root.manager.disable),
        threads=threading.active_count(), recursion=sys.getrecursionlimit(), streams=(sys.stdin, sys.stderr, sys.excepthook), opened=open is builtins.open,
    )


# -- public functions --------------------------------------------------------------------------------------------------
OPS = {}
BIG = 0.03  # share of the calls with far more values than usual


def many(rng, lo, hi, top):
    return int(rng.integers(hi, top + 1)) if rng.random() < BIG else size(rng, lo, hi)


def op(name, draws=False):
    def deco(fn):
        OPS[name] = (fn, draws)
        return fn

    return deco


def _series_args(rng, data):
    if coin(rng):
        return {k: v for k, v in data.items()}
    return features.series(data, gens.any_index(rng, len(next(iter(data.values())))))


def _feature(f):
    def make(rng):
        n = many(rng, 4, 30, 120 if f.kind == "edge" else 700)
        d = _series_args(rng, f.data(rng, n))
        p = f.params(rng)
        args = [d[k] for k in f.inputs]

        def call(*a):
            return f.fn(*a, **p)

        return call, args

    return make


for _f in features.FEATURES:
    OPS["feature." + _f.name] = (_feature(_f), False)


@op("cusum")
def _(rng):
    return chu_stinchcombe_white_cusum_test, [np.log(gens.prices(rng, many(rng, 4, 25, 70)))]


def _pair(rng):
    n = many(rng, 4, 40, 3000)
    x, y = rng.normal(size=n), rng.normal(size=n)
    if coin(rng):
        return [pd.Series(x), pd.Series(y)]
    return [x, y]


for _fn in (D.mutual_info, D.var_info, D.kl_divergence_xy):
    for _kw in (dict(), dict(bins=4)):
        OPS[f"distance.{_fn.__name__}{sorted(_kw)}"] = ((lambda fn, kw: lambda rng: (functools.partial(fn, **kw), _pair(rng)))(_fn, _kw), False)
for _fn in (D.pair_angular_distance, D.pair_abs_angular_distance, D.pair_squared_angular_distance):
    OPS["distance." + _fn.__name__] = ((lambda fn: lambda rng: (fn, _pair(rng)))(_fn), False)
OPS["distance.compute_entropies"] = (lambda rng: (functools.partial(D.compute_entropies, bins=5), _pair(rng)), False)


def _corr(rng, lo=2, hi=8):
    c = gens.correlation(rng, many(rng, lo, hi, 40))
    if coin(rng, 0.3):
        c = np.asfortranarray(c)
    return c


def _framed(rng, a):
    names = [f"a{i}" for i in range(a.shape[1])]
    return pd.DataFrame(a, columns=names, index=names if a.shape[0] == a.shape[1] else None) if coin(rng) else a


for _fn in (D.corr_to_angular_dist, D.corr_to_abs_angular_dist, D.corr_to_squared_angular_dist):
    OPS["distance." + _fn.__name__] = ((lambda fn: lambda rng: (fn, [_corr(rng)]))(_fn), False)
    OPS["distance." + _fn.__name__ + " of data"] = ((lambda fn: lambda rng: (fn, [np.corrcoef(rng.normal(size=(6, 4)) @ np.diag([1, 1, 1, 0]) + rng.normal(size=(6, 1)), rowvar=False)]))(_fn), False)


@op("distance.corr_to_dist")
def _(rng):
    return functools.partial(corr_to_dist, corr_to_dist_method=pick(rng, ["angular", "abs_angular", "squared_angular"])), [_framed(rng, _corr(rng))]


def _data(rng, cols=(2, 6)):
    return _framed(rng, gens.returns_matrix(rng, many(rng, 8, 30, 600), many(rng, *cols, 12)))


@op("distance.get_corr_distance_matrix")
def _(rng):
    kw = dict(corr_method=pick(rng, ["pearson", "spearman"]), corr_to_dist_method=pick(rng, ["angular", "abs_angular", "squared_angular"]))
    return functools.partial(D.get_corr_distance_matrix, **kw), [_data(rng)]


@op("distance.get_info_distance_matrix")
def _(rng):
    kw = dict(method=pick(rng, ["var_info", "mutual_info"]))
    if coin(rng):
        kw["bins"] = size(rng, 2, 6)
    return functools.partial(D.get_info_distance_matrix, **kw), [_data(rng)]


def _spd(rng, d):
    a = rng.normal(size=(d + 2, d))
    return a.T @ a / d + 0.1 * np.eye(d)


for _fn in (D.log_det_divergence, D.von_neuman_divergence):
    OPS["distance." + _fn.__name__] = ((lambda fn: lambda rng: (lambda d: (fn, [_spd(rng, d), _spd(rng, d)]))(size(rng, 2, 6)))(_fn), False)


def _distance(rng, n):
    d = np.sqrt(np.clip((1 - gens.correlation(rng, n)) / 2, 0, 1))
    np.fill_diagonal(d, 0)
    return d


def _labels(rng, n, k):
    lab = rng.permutation(np.concatenate([np.arange(k), rng.integers(0, k, n - k)]))
    return pd.Series(lab) if coin(rng) else lab


@op("clustering.gap_statistic")
def _(rng):
    n = many(rng, 4, 9, 40)
    return functools.partial(gap_statistic, nb=3, random_state=pick(rng, [None, 5])), [_framed(rng, _distance(rng, n)), _labels(rng, n, size(rng, 2, n - 1))]


@op("clustering.silhouette_tstat")
def _(rng):
    n = many(rng, 4, 9, 40)
    return silhouette_tstat, [_framed(rng, _distance(rng, n)), _labels(rng, n, size(rng, 2, n - 1))]


def _hc(kw, k, optimum, **args):
    h = HC(**{**args, **kw})
    out = [np.array(h.linkage), np.array(h.get_clusters(k))]
    if optimum:
        out.append(h.get_optimal_nclusters(max_clust=3, metric="silhouette"))
        try:
            out.append(h.get_optimal_nclusters(max_clust=3, metric="gap", nb=3))
        except IndexError:
            pass
    return out


@op("clustering.HC")
def _(rng):
    n = many(rng, 4, 7, 20)
    which = pick(rng, ["X", "corr", "dist"])
    arg = {"X": lambda: gens.returns_matrix(rng, 25, n), "corr": lambda: gens.correlation(rng, n), "dist": lambda: _distance(rng, n)}[which]()
    kw = dict(linkage_method=pick(rng, ["single", "complete", "average", "ward", "centroid"]))
    k, optimum, arg = size(rng, 2, 3), coin(rng), _framed(rng, arg)
    return (lambda a: _hc(kw, k, optimum, **{which: a})), [arg]


@op("clustering.optimize_n_clusters")
def _(rng):
    d = _distance(rng, size(rng, 5, 8))
    link = HC(dist=d.copy()).linkage
    return functools.partial(optimize_n_clusters, max_clust=3, metric="silhouette"), [np.array(link), d]


# matrices
@op("math._cor_block_diagonal")
def _(rng):
    m = size(rng, 1, 4)
    return C._cor_block_diagonal, [[int(v) for v in rng.integers(1, 4, m)], [float(v) for v in rng.uniform(-0.2, 0.9, m)]]


def _cov(rng):
    c = gens.correlation(rng, size(rng, 2, 7))
    s = 10 ** rng.uniform(-1, 1, len(c))
    return c * np.outer(s, s), c, s


OPS["math._cov_to_cor"] = (lambda rng: (C._cov_to_cor, [_cov(rng)[0]]), False)
OPS["math._cor_to_cov"] = (lambda rng: (C._cor_to_cov, list(_cov(rng)[1:])), False)
OPS["math._cor_to_eig"] = (lambda rng: (functools.partial(C._cor_to_eig, sort=coin(rng)), [_corr(rng)]), False)
OPS["math._cor_to_eig k"] = (lambda rng: (functools.partial(C._cor_to_eig, k=2), [_corr(rng, 3)]), False)


@op("math._eig_to_cor")
def _(rng):
    w, v = np.linalg.eigh(_corr(rng))
    return C._eig_to_cor, [w, v]


@op("math._eig_complete")
def _(rng):
    w, v = np.linalg.eigh(_corr(rng, 3))
    return C._eig_complete, [w[::-1][:2].copy(), v[:, ::-1][:, :2].copy()]


@op("math._eigen_values_denoise")
def _(rng):
    w = np.sort(np.linalg.eigvalsh(_corr(rng, 3)))[::-1].copy()
    kw = dict(k=size(rng, 0, len(w))) if coin(rng) else {}
    return functools.partial(C._eigen_values_denoise, num_timesteps=size(rng, 3, 60), **kw), [w]


@op("math._cor_denoise")
def _(rng):
    return functools.partial(C._cor_denoise, num_timesteps=size(rng, 3, 60)), [_corr(rng, 3)]


@op("math._cov_denoise")
def _(rng):
    return functools.partial(C._cov_denoise, num_timesteps=size(rng, 3, 60)), [_cov(rng)[0]]


OPS["math._marchenko_pastur_pdf"] = (lambda rng: (lambda e: C._marchenko_pastur_pdf(1.0, 40, 10, e), [rng.uniform(0, 3, 8)]), False)
OPS["math._marchenko_pastur_fit"] = (lambda rng: (lambda e: C._marchenko_pastur_fit(40, 6, e), [rng.uniform(0.2, 2, 6)]), False)
OPS["math._marcenko_pastur_support"] = (lambda rng: (C._marcenko_pastur_support, [1.5, size(rng, 5, 50), 5]), False)
OPS["math._random_cov"] = (lambda rng: (C._random_cov, [size(rng, 1, 6)]), True)
OPS["math._random_cor"] = (lambda rng: (C._random_cor, [size(rng, 1, 6)]), True)


# simulation: construction, use and calibration of a model on its own
def _use(kind, p, cor, actions, *args):
    model = sims.MODELS[kind](**{**p, **({} if cor is None else {"cor": cor})})
    return [a(model, *args) for a in actions]


@op("sim.path_sample")
def _(rng):
    kind, d, p, cor = sims.draw(rng)
    p = {k: np.array(v) for k, v in p.items()}
    x0 = 1 + rng.random(d)
    names = [f"n{i}" for i in range(d)]
    kw = dict(num_steps=many(rng, 1, 6, 700), num_paths=many(rng, 1, 3, 40), random_state=int(rng.integers(1000)), include_x0=coin(rng))
    if coin(rng):
        kw.update(label_start="2020-01-31", label_freq=pick(rng, ["B", "ME", "D"]))
    cols = coin(rng)

    def call(prm, c, start, nm):
        args = dict(kw, columns=nm) if cols else kw
        return _use(kind, prm, c, [lambda m: m.path_sample(x0=start, **args)])

    return call, [p, cor, x0, names]


@op("sim.fit and score")
def _(rng):
    kind, d, p, cor = sims.draw(rng)
    p = {k: np.array(v) for k, v in p.items()}
    n = many(rng, d + 6, d + 30, 700)
    x = np.cumsum(rng.normal(size=(n, d)), axis=0) * 0.02
    if coin(rng, 0.25):  # falls after every rise: no mean-reversion rate of its own
        x = rng.normal(size=(n, d)) + np.where(np.arange(n) % 2 == 0, 2.0, -2.0)[:, None] * rng.uniform(1, 2, d)
        x = x * 0.02
    x = np.exp(x) if kind == "gbm" else x
    form = pick(rng, ["array", "frame", "series"])
    data = x[:, 0].copy() if form == "series" else x
    if form != "array":
        i = pd.bdate_range("2001-01-01" + pick(rng, ["", " 09:30", " 16:00", " 23:59:59"]), periods=n, normalize=False, tz=pick(rng, [None, None, None, "UTC", "America/New_York"]))
        data = pd.Series(data, index=i) if form == "series" else pd.DataFrame(x, index=i, columns=[f"v{j}" for j in range(d)])

    def call(prm, c, dat):
        m = sims.MODELS[kind]()
        m.fit(dat)
        return [m.nll(dat), m.aic(dat), m.bic(dat), m.path_sample(num_steps=3, random_state=1), m.path_sample(x0="last", num_steps=3, num_paths=2, random_state=1),
                {k: v for k, v in vars(m).items() if isinstance(v, (float, np.ndarray))}]

    return call, [p, cor, data]


@op("sim.QuasiRandom")
def _(rng):
    kind, d, p, cor = sims.draw(rng)
    base = sims.build_plain(kind, p, cor)
    q = QuasiRandom(lambda x: np.append(0.0, np.diff(x)), 0.3, base)
    x0 = np.ones(d)
    return (lambda a: q.path_sample(x0=a, dt=0.1, num_steps=8, num_paths=2, random_state=3)), [x0]


# splits
@op("split.TimeAwareKFold")
def _(rng):
    n = many(rng, 24, 60, 400)
    g = np.arange(n) * 2
    g = pick(rng, [None, g, pd.Series(g, index=np.arange(n)[::-1]), pd.date_range("2000-01-01", periods=n)])
    freq = "D" if isinstance(g, pd.DatetimeIndex) else None
    cv = TimeAwareKFold(n_folds=size(rng, 2, 4), n_embargo=1, n_purge=2, look_forward=coin(rng), freq=freq)
    X = _framed(rng, rng.normal(size=(n, 2)))
    y = rng.normal(size=n)
    return (lambda *a: [np.concatenate([s, t]) for s, t in cv.split(*a)] + [cv.get_n_splits()]), [X, y, g]


@op("split.WalkForward")
def _(rng):
    n = many(rng, 24, 60, 400)
    g = np.arange(n) * 2
    g = pick(rng, [None, g, pd.Series(g, index=np.arange(n)[::-1]), pd.date_range("2000-01-01", periods=n)])
    freq = "D" if isinstance(g, pd.DatetimeIndex) else None
    cv = WalkForward(n_embargo=1, train_window=8, test_window=5, split_type=pick(rng, ["expanding", "rolling"]), freq=freq)
    X = _framed(rng, rng.normal(size=(n, 2)))
    y = rng.normal(size=n)
    return (lambda *a: [np.concatenate([s, t]) for s, t in cv.split(*a)] + [cv.get_n_splits()]), [X, y, g]


# datasets and helpers
for _fn in (load_vix, load_treasury_rates, load_equity_indices):
    OPS["datasets." + _fn.__name__] = ((lambda fn: lambda rng: (fn, []))(_fn), False)
OPS["time_series_freq"] = (lambda rng: (time_series_freq, [pd.Series(np.arange(9.0), index=pd.date_range("2001-01-31", periods=9, freq=pick(rng, ["D", "ME", "W"])))]), False)
OPS["time_series_freq_to_duration"] = (lambda rng: (time_series_freq_to_duration, [pick(rng, ["D", "ME", "x"])]), False)
OPS["to_numpy"] = (lambda rng: (to_numpy, [_data(rng)]), False)
OPS["get_project_root"] = (lambda rng: (get_project_root, [pick(rng, [None, "quantfinlib"])]), False)


# refused calls
@op("refused.distance")
def _(rng):
    return pick(rng, [D.get_corr_distance_matrix, D.get_info_distance_matrix, corr_to_dist]), [rng.normal(size=5)]


@op("refused.correlation")
def _(rng):
    c = _corr(rng)
    c[0, -1] = 3.0
    return pick(rng, [D.corr_to_angular_dist, D.corr_to_abs_angular_dist, D.corr_to_squared_angular_dist]), [c]


@op("refused.divergence")
def _(rng):
    return pick(rng, [D.log_det_divergence, D.von_neuman_divergence]), [-np.eye(3), np.eye(3)]


@op("refused.split")
def _(rng):
    cv = TimeAwareKFold(n_folds=2, n_embargo=0, n_purge=0)
    return (lambda x, g: list(cv.split(x, None, g))), [rng.normal(size=(6, 2)), np.array([3, 2, 1, 4, 5, 6])]


@op("refused.sim")
def _(rng):
    m = sims.MODELS[pick(rng, ["bm", "gbm", "ou"])]()
    return (lambda x: m.fit(x)), [pd.Series(np.arange(1.0, 9), index=pd.date_range("2000-01-01", periods=8, freq="2h"))]


def sequential(fn, args):
    with joblib.parallel_config(backend="sequential"):
        return fn(*args)
