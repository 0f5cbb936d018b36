"""C49: calling conventions and documented defaults."""

import joblib
import numpy as np
import pandas as pd

import quantfinlib.distance as D
from quantfinlib.clustering import HC, gap_statistic, optimize_n_clusters, silhouette_tstat
from quantfinlib.distance.distance_matrix import corr_to_dist
from quantfinlib.feature import chu_stinchcombe_white_cusum_test as cusum
from quantfinlib.feature import indicators as I
from quantfinlib.feature import micro_structure as M
from quantfinlib.math import cov as C
from quantfinlib.sim import BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom
from quantfinlib.train_test_split import TimeAwareKFold, WalkForward
from quantfinlib.util import get_project_root, to_numpy
from rv import features, gens, purity, sims
from rv.core import describe
from rv.gens import coin, pick, size
from rv.props.c36 import same

RULE = "distinct (function, parameters by position, by name, left out) called and compared with the call that gives everything by name"
SPECS = {}


def spec(name, fn, order, make, defaults=None, observe=None, strict=True):
    """order: documented parameters; make(rng): values of the parameters; defaults: documented defaults of the optional ones."""
    SPECS[name] = (fn, order.split(), make, defaults or {}, observe or (lambda r: r), strict)


def _bars(*names, **params):
    def make(rng):
        f = pick(rng, features.FEATURES)
        n = size(rng, 12, 70)
        o, h, l, c = gens.ohlc(rng, n)
        v = np.exp(rng.normal(5, 1, n))
        d = dict(open=o, high=h, low=l, close=c, ts=gens.prices(rng, n), volume=v, buy=v * rng.random(n), sigma=np.abs(rng.normal(1, 0.2, n)) + 0.1)
        if names[0] == "ts" and coin(rng, 0.25):  # gaps, as a user's data has them
            d["ts"][rng.random(n) < 0.15] = np.nan
        if coin(rng):
            d = features.series(d, gens.any_index(rng, n))
        out = [d[k] for k in names]
        for lo, hi in params.values():
            out.append(size(rng, lo, hi))
        return out

    return make


for _n, _d in dict(rolling_mean=20, rolling_std=20, rolling_max=20, rolling_min=20, rolling_mom=20).items():
    spec(_n, getattr(I, _n), "ts window", _bars("ts", window=(2, 9)), dict(window=_d))
for _n in ("ewm_mean", "ewm_std"):
    spec(_n, getattr(I, _n), "ts span", _bars("ts", span=(2, 9)), dict(span=20))
spec("ewm_mom", I.ewm_mom, "ts span min_periods", _bars("ts", span=(2, 9), min_periods=(1, 5)), dict(span=20, min_periods=0))
spec("average_true_range", I.average_true_range, "high low close window", _bars("high", "low", "close", window=(2, 9)), dict(window=14))
for _n in ("rsi", "ewm_rsi"):
    spec(_n, getattr(I, _n), "ts period", _bars("ts", period=(2, 9)), dict(period=14))
spec("macd", I.macd, "ts fast slow", _bars("ts", fast=(2, 9), slow=(10, 19)), dict(fast=12, slow=26))
spec("macd_signal", I.macd_signal, "ts fast slow signal", _bars("ts", fast=(2, 9), slow=(10, 19), signal=(2, 6)), dict(fast=12, slow=26, signal=9))


def _bands(b):
    return [b.upper(), b.middle(), b.lower(), b.bandwidth(), b.percent_b()]


for _n in ("BollingerBands", "EwmBollingerBands"):
    spec(_n, getattr(I, _n), "ts window multiplier", _bars("ts", window=(2, 9), multiplier=(1, 4)), dict(window=20, multiplier=2), _bands)
spec("KeltnerBands", I.KeltnerBands, "high low close window_atr window multiplier", _bars("high", "low", "close", a=(2, 6), b=(7, 12), c=(1, 4)), dict(window_atr=10, window=20, multiplier=2), _bands)
spec("DonchianBands", I.DonchianBands, "ts window", _bars("ts", window=(2, 9)), dict(window=20), _bands)
spec("GenericBands", I.GenericBands, "ts rolling_mean rolling_std multiplier basename", lambda rng: _bars("ts", "close", "sigma", multiplier=(1, 4))(rng) + ["mine"], dict(basename=""), _bands)
_W = dict(window=(3, 9))
spec("get_becker_parkinson_volatility", M.get_becker_parkinson_volatility, "p_high p_low window", _bars("high", "low", **_W))
spec("get_high_low_volatility", M.get_high_low_volatility, "p_high p_low window", _bars("high", "low", **_W))
spec("get_cowrin_schultz_spread", M.get_cowrin_schultz_spread, "p_high p_low window", _bars("high", "low", **_W))
spec("get_close_close_volatility", M.get_close_close_volatility, "p_close window", _bars("close", **_W))
spec("get_roll_measure", M.get_roll_measure, "p_close window", _bars("close", **_W))
spec("get_roll_impact", M.get_roll_impact, "p_close volume window", _bars("close", "volume", **_W))
for _n in ("garman_klass", "rogers_satchell", "yang_zhang"):
    spec(f"get_{_n}_volatility", getattr(M, f"get_{_n}_volatility"), "p_high p_low p_open p_close window", _bars("high", "low", "open", "close", **_W))
spec("get_edge_spread", M.get_edge_spread, "p_high p_low p_open p_close window sign", lambda rng: _bars("high", "low", "open", "close", **_W)(rng) + [True], dict(sign=False))
spec("get_amihud_lambda", M.get_amihud_lambda, "p_close volume window", _bars("close", "volume", **_W), dict(window=10))
spec("get_kyle_lambda", M.get_kyle_lambda, "p_close volume window", _bars("close", "volume", **_W), dict(window=10))
spec("get_hasbrouck_lambda", M.get_hasbrouck_lambda, "p_close volume window", _bars("close", "volume", **_W), dict(window=20))
spec("estimate_buy_volume", M.estimate_buy_volume, "p_close volume sigma_p", _bars("close", "volume", "sigma"))
spec("get_vpin", M.get_vpin, "volume buy_volume window", _bars("volume", "buy", **_W))
spec("cusum", cusum, "y", lambda rng: [gens.prices(rng, size(rng, 4, 25))])


def _pair(*more):
    def make(rng):
        n = size(rng, 8, 80)
        x = rng.normal(size=n)
        y = x * rng.normal() + rng.normal(size=n)
        xy = [pd.Series(x), pd.Series(y)] if coin(rng) else [x, y]
        return xy + [m(rng) for m in more]

    return make


_bins = lambda rng: size(rng, 2, 9)  # noqa: E731
for _n in ("pair_angular_distance", "pair_abs_angular_distance", "pair_squared_angular_distance"):
    spec(_n, getattr(D, _n), "x y", _pair())
spec("compute_entropies", D.compute_entropies, "x y bins", _pair(_bins))
spec("kl_divergence_xy", D.kl_divergence_xy, "x y bins", _pair(_bins), dict(bins=None))
spec("mutual_info", D.mutual_info, "x y bins norm", _pair(_bins, lambda rng: False), dict(bins=None, norm=True))
spec("var_info", D.var_info, "x y bins norm", _pair(_bins, lambda rng: False), dict(bins=None, norm=True))


def _table(rng, d=None, n=None):
    x = rng.normal(size=(n or size(rng, 12, 40), d or size(rng, 3, 7)))
    x = x @ rng.normal(size=(x.shape[1], x.shape[1])) * 0.3 + x
    return pd.DataFrame(x, columns=[f"c{j}" for j in range(x.shape[1])]) if coin(rng) else x


def _cor(rng, d=None):
    c = np.corrcoef(np.asarray(_table(rng, d, 60)), rowvar=False)
    np.fill_diagonal(c, 1.0)
    return (c + c.T) / 2


for _n in ("corr_to_angular_dist", "corr_to_abs_angular_dist", "corr_to_squared_angular_dist"):
    spec(_n, getattr(D, _n), "corr", lambda rng: [_cor(rng)])
spec("corr_to_dist", corr_to_dist, "corr corr_to_dist_method", lambda rng: [_cor(rng), pick(rng, ["abs_angular", "squared_angular"])], dict(corr_to_dist_method="angular"))
_half = lambda c: c * 0.5 + 0.5 * np.eye(len(c))  # noqa: E731
spec("get_corr_distance_matrix", D.get_corr_distance_matrix, "X corr_method corr_to_dist_method corr_transformer",
     lambda rng: [_table(rng), "spearman", pick(rng, ["abs_angular", "squared_angular"]), _half], dict(corr_method="pearson", corr_to_dist_method="angular", corr_transformer=None))
spec("get_info_distance_matrix", D.get_info_distance_matrix, "X method", lambda rng: [_table(rng), "mutual_info"], dict(method="var_info"))
_spd = lambda rng: [a @ a.T + np.eye(3) for a in rng.normal(size=(2, 3, 3))]  # noqa: E731
spec("log_det_divergence", D.log_det_divergence, "p q", _spd)
spec("von_neuman_divergence", D.von_neuman_divergence, "p q", _spd)


def _dist(rng, d=None):
    return np.asarray(D.corr_to_angular_dist(_cor(rng, d or size(rng, 5, 12))))


def _labelled(*more):
    def make(rng):
        dist = _dist(rng)
        lab = np.arange(len(dist)) % 3
        return [dist, lab[rng.permutation(len(lab))]] + [m(rng) for m in more]

    return make


def _tree(h):
    return [h.linkage, h.get_clusters(3), np.asarray(h.dist)]


def _hc(rng):
    return [_table(rng, size(rng, 4, 8), 40), None, None, pick(rng, ["spearman-correlation", "var_info"]), pick(rng, ["abs_angular", "squared_angular"]), pick(rng, ["single", "average"]), False]


spec("gap_statistic", gap_statistic, "dist labels nb random_state", _labelled(lambda rng: size(rng, 2, 6), lambda rng: int(rng.integers(1, 99))), dict(nb=10, random_state=None))
spec("silhouette_tstat", silhouette_tstat, "dist labels", _labelled())
spec("HC", HC, "X corr dist codependence_method corr_to_dist_method linkage_method optimal_ordering", _hc,
     dict(corr=None, dist=None, codependence_method="pearson-correlation", corr_to_dist_method="angular", linkage_method="ward", optimal_ordering=True), _tree)
spec("HC of correlations", lambda *a, **k: HC(None, *a, **k), "corr dist codependence_method", lambda rng: [_cor(rng, 6), None, "spearman-correlation"], dict(dist=None, codependence_method="pearson-correlation"), _tree)


def _optimal(rng):
    h = HC(dist=_dist(rng, size(rng, 24, 30)))
    return h.linkage, h.dist, size(rng, 4, 9), "silhouette", size(rng, 2, 5)


spec("optimize_n_clusters", optimize_n_clusters, "linkage dist max_clust metric nb", _optimal, dict(max_clust=20, metric="gap", nb=10))
spec("HC.get_optimal_nclusters", lambda h, *a, **k: h.get_optimal_nclusters(*a, **k), "self max_clust metric nb", lambda rng: [HC(dist=_dist(rng, size(rng, 24, 30))), size(rng, 4, 9), "silhouette", size(rng, 2, 5)],
     dict(max_clust=20, metric="gap", nb=10))
spec("HC.get_clusters", lambda h, *a, **k: h.get_clusters(*a, **k), "self n_clusters", lambda rng: [HC(dist=_dist(rng)), size(rng, 1, 5)])

# matrices
spec("_cov_to_cor", C._cov_to_cor, "cov cov_reg", lambda rng: [_spd(rng)[0], 10.0], dict(cov_reg=1e-6))
spec("_cor_to_cov", C._cor_to_cov, "cor std", lambda rng: [_cor(rng, 4), np.exp(rng.normal(size=4))])
spec("_cor_to_eig", C._cor_to_eig, "cor sort k", lambda rng: [_cor(rng, 5), False, None], dict(sort=True, k=None))
spec("_eig_to_cor", C._eig_to_cor, "eigen_values eigen_vectors", lambda rng: list(C._cor_to_eig(_cor(rng, 4))))
spec("_eig_complete", C._eig_complete, "eigen_values eigen_vectors", lambda rng: list(C._cor_to_eig(_cor(rng, 5), k=2)))
spec("_marcenko_pastur_support", C._marcenko_pastur_support, "var num_timesteps num_assets", lambda rng: [float(rng.uniform(0.3, 2)), int(rng.integers(60, 90)), int(rng.integers(5, 40))])
spec("_marchenko_pastur_pdf", C._marchenko_pastur_pdf, "var num_timesteps num_assets eigen_values", lambda rng: [float(rng.uniform(0.3, 2)), int(rng.integers(60, 90)), int(rng.integers(5, 40)), rng.uniform(0, 3, 9)])
spec("_marchenko_pastur_fit", C._marchenko_pastur_fit, "num_timesteps num_assets eigen_values", lambda rng: [100, 6, np.linalg.eigvalsh(_cor(rng, 6))])
spec("_cov_denoise", C._cov_denoise, "cov num_timesteps k", lambda rng: [np.cov(rng.normal(size=(6, 40))), 40, 2], dict(k=None))
spec("_cor_denoise", C._cor_denoise, "cor num_timesteps k", lambda rng: [_cor(rng, 6), 60, 2], dict(k=None))
spec("_eigen_values_denoise", C._eigen_values_denoise, "eigen_values num_timesteps k", lambda rng: [np.linalg.eigvalsh(_cor(rng, 6))[::-1].copy(), 60, 2], dict(k=None))
spec("_cor_block_diagonal", C._cor_block_diagonal, "block_sizes block_cors", lambda rng: [[2, 3], [0.3, 0.4]],
     dict(block_sizes=[10, 10, 20, 24, 64], block_cors=[0.5, 0.2, 0.3, 0.5, 0.3]))


def _drawn(fn):
    def call(*a, **k):
        np.random.seed(11)
        return fn(*a, **k)

    return call


spec("_random_cov", _drawn(C._random_cov), "dim", lambda rng: [size(rng, 2, 6)], dict(dim=3))
spec("_random_cor", _drawn(C._random_cor), "dim", lambda rng: [size(rng, 2, 6)], dict(dim=3))


# models
def _use(m):
    return [m.path_sample(x0=2.0, dt=0.1, num_steps=4, num_paths=2, random_state=3), m.num_parameters_]


def _mdl(names):
    def make(rng):
        d = pick(rng, [1, 2, 3])
        cor = sims.correlation(rng, d) if d > 1 else None
        return [np.exp(rng.normal(-1, 0.5, d)) for _ in names] + [cor]

    return make


spec("BrownianMotion", BrownianMotion, "drift vol cor", _mdl("ab"), dict(drift=0.0, vol=0.1, cor=None), _use)
spec("GeometricBrownianMotion", GeometricBrownianMotion, "drift vol cor", _mdl("ab"), dict(drift=0.0, vol=0.1, cor=None), _use)
spec("OrnsteinUhlenbeck", OrnsteinUhlenbeck, "mean mrr vol cor", _mdl("abc"), dict(mean=0.0, mrr=1.0, vol=0.1, cor=None), _use)
_ind = lambda x: np.append(0.0, np.diff(x))  # noqa: E731
spec("QuasiRandom", QuasiRandom, "tech_ind_func f_signal_vol base_model", lambda rng: [_ind, float(rng.uniform(0.2, 2)), BrownianMotion(float(rng.normal()), 0.4)],
     dict(f_signal_vol=0.1, base_model=lambda: BrownianMotion()), lambda m: m.path_sample(x0=2.0, dt=0.1, num_steps=9, num_paths=2, random_state=3))


def _sampler(rng):
    kind, d, p, cor = sims.draw(rng, d=pick(rng, [1, 1, 2]))
    if coin(rng, 0.3):
        m = sims.MODELS[kind]()
        x = sims.fit_data(rng, kind, 30, d)
        if sims.estimators(kind, x, 0.1) is not None:
            return m.fit(pd.DataFrame(x, index=pd.date_range("2001-01-31", periods=30, freq="ME"), columns=[f"k{j}" for j in range(d)]))
    return sims.build_plain(kind, p, cor)


def _sample_values(rng):
    m = _sampler(rng)
    d = m.vol.size
    return [m, sims.x0_for(rng, "gbm", d), float(rng.uniform(0.01, 0.5)), size(rng, 1, 9), size(rng, 2, 4), "2003-05-06", pick(rng, ["D", "B", "W", "ME"]), [f"z{j}" for j in range(d)], int(rng.integers(1, 999)), False]


spec("path_sample", lambda m, *a, **k: m.path_sample(*a, **k), "self x0 dt num_steps num_paths label_start label_freq columns random_state include_x0", _sample_values,
     dict(x0=None, dt=None, num_steps=252, num_paths=1, label_start=None, label_freq=None, columns=None, include_x0=True))


def _scored(rng):
    m = _sampler(rng)
    x = sims.fit_data(rng, "gbm" if isinstance(m, GeometricBrownianMotion) else "bm", 12, m.vol.size)
    return [m, pd.DataFrame(x, index=pd.date_range("2001-01-01", periods=12, freq=pick(rng, ["D", "W"]))) if coin(rng) else x, float(rng.uniform(0.05, 0.4))]


for _n in ("nll", "aic", "bic"):
    spec(_n, (lambda n: lambda m, *a, **k: getattr(m, n)(*a, **k))(_n), "self x dt", _scored, dict(dt=None))


def _fitted(rng):
    kind, d = pick(rng, ["bm", "gbm", "ou"]), pick(rng, [1, 2])
    while True:
        x = sims.fit_data(rng, kind, 25, d)
        if sims.estimators(kind, x, 0.1) is not None:
            break
    return [kind, pd.DataFrame(x, index=pd.date_range("2001-01-01", periods=25, freq=pick(rng, ["D", "W"]))) if coin(rng) else x, float(rng.uniform(0.05, 0.4))]


spec("fit", lambda kind, *a, **k: sims.MODELS[kind]().fit(*a, **k), "self x dt", _fitted, dict(dt=None), lambda m: {k: v for k, v in vars(m).items() if isinstance(v, (float, np.ndarray))}, strict=False)


# splitters
def _splits(cv):
    X = np.zeros((40, 2))
    g = pd.date_range("2000-01-01", periods=40) if cv.freq is not None else None
    return [np.concatenate([a, [-1], b]) for a, b in cv.split(X, None, g)] + [cv.get_n_splits()]


spec("TimeAwareKFold", TimeAwareKFold, "n_folds n_embargo n_purge look_forward freq", lambda rng: [size(rng, 2, 5), size(rng, 0, 2), size(rng, 3, 4), True, "D"], dict(look_forward=False, freq=None), _splits)
spec("WalkForward", WalkForward, "n_embargo n_purge train_window test_window split_type freq", lambda rng: [size(rng, 1, 3), size(rng, 0, 2), size(rng, 8, 12), size(rng, 3, 6), "rolling", "D"], dict(n_purge=0, split_type="expanding", freq=None), _splits)


def _split_values(rng):
    cv = TimeAwareKFold(3, 1, 2) if coin(rng) else WalkForward(1, 0, 9, 4)
    return [cv, np.zeros((40, 2)), np.arange(40.0), np.repeat(np.arange(20), 2)]


spec("split", lambda cv, *a, **k: [np.concatenate([s, [-1], t]) for s, t in cv.split(*a, **k)], "self X y groups", _split_values, dict(y=None, groups=None))
spec("to_numpy", to_numpy, "x", lambda rng: [_table(rng)])
spec("get_project_root", get_project_root, "relative_filepath", lambda rng: ["tests"], dict(relative_filepath=None))
NAMES = sorted(SPECS)
REQUIRED = ["position", "name", "mixed", "left_out", "unknown_refused"] + ["spec " + n for n in NAMES]


def value(v):
    return v() if callable(v) and getattr(v, "__name__", "") == "<lambda>" and v.__code__.co_argcount == 0 else v


def outcome(mon, observe, fn, args, kw):
    def go():
        with joblib.parallel_config(backend="sequential"), np.errstate(all="ignore"):
            return observe(fn(*args, **kw))

    got, err = mon.attempt(go)
    return ("raised", None) if err is not None else ("value", got)


def one(mon, rng):
    name = NAMES[int(mon._where["index"]) % len(NAMES)]
    fn, order, make, defaults, observe, strict = SPECS[name]
    held = order[0] == "self"  # the object itself, always first
    vals = dict(zip(order, make(rng)))
    optional = [k for k in order if k in defaults]
    drop = [k for k in optional if coin(rng, 0.5)]
    if name == "_cor_block_diagonal":
        drop = pick(rng, [optional, [], optional])
    elif name.startswith("_"):  # internal: parameter names are no part of the interface
        drop = optional[int(rng.integers(0, len(optional) + 1)):]
    if name == "path_sample":
        if "x0" in drop and not vals["self"].fit_num_rows_ and coin(rng):
            drop.remove("x0")
        if "label_freq" in drop and "label_start" not in drop and vals["self"].fit_num_rows_ is None:  # dates need a frequency
            drop.append("label_start")
        if "label_start" in drop and "label_freq" not in drop and vals["self"].fit_num_rows_ is None:
            drop.append("label_freq")
    full = {k: (value(defaults[k]) if k in drop else v) for k, v in vals.items()}
    lead = [full[order[0]]] if held else []
    rest = order[1:] if held else order
    mon.note(function=name, values=full, left_out=drop)
    if name.startswith("_"):
        how, want = outcome(mon, observe, fn, [full[k] for k in rest], {})
        mon.check(how == "value", f"{name} raised with {describe(full)}")
        if drop:
            h, got = outcome(mon, observe, fn, [full[k] for k in rest if k not in drop], {})
            mon.check(h == how and same(want, got), lambda: f"{name} without {drop}, against the documented defaults: {describe(got, 200)} instead of {describe(want, 200)}")
        mon.seen("spec " + name)
        mon.signature(name, tuple(drop))
        return
    how, want = outcome(mon, observe, fn, lead, {k: full[k] for k in rest})
    # no cluster number may qualify; one drift with several volatilities, or correlations without, is not a model
    if strict and name not in ("optimize_n_clusters", "HC.get_optimal_nclusters", "BrownianMotion", "GeometricBrownianMotion", "OrnsteinUhlenbeck"):
        mon.check(how == "value", f"{name} raised with {describe(full)}")

    def check(label, args, kw):
        h, got = outcome(mon, observe, fn, lead + args, kw)
        mon.check(h == how, lambda: f"{name} {label}: {h}, and {how} when everything is given by name")
        if how == "value":
            mon.check(same(want, got), lambda: f"{name} {label}: {describe(got, 200)}, and {describe(want, 200)} when everything is given by name")

    check("with everything given by position", [full[k] for k in rest], {})
    mon.seen("position")
    names = [rest[i] for i in rng.permutation(len(rest))]
    check("given by name in another order", [], {k: full[k] for k in names})
    mon.seen("name")
    cut = int(rng.integers(0, len(rest) + 1))
    check(f"with {cut} given by position", [full[k] for k in rest[:cut]], {k: full[k] for k in names if k in rest[cut:]})
    mon.seen("mixed")
    if drop:
        check(f"without {drop}, against the documented defaults", [], {k: full[k] for k in rest if k not in drop})
        first = min(rest.index(k) for k in drop)
        check(f"without {drop}, partly by position", [full[k] for k in rest[:first]], {k: full[k] for k in names if k in rest[first:] and k not in drop})
        mon.seen("left_out")
    if strict and not name.startswith("get_corr_d") and not name.startswith("get_info_d"):
        h, _ = outcome(mon, observe, fn, lead, {**{k: full[k] for k in rest}, pick(rng, ["windows", "seed", "verbose", "n", "axis", "dtype_"]): 3})
        mon.check(h == "raised", f"{name} accepts an unknown parameter")
        mon.seen("unknown_refused")
    mon.seen("spec " + name)
    mon.signature(name, tuple(drop), cut)


def fresh(mon, rng):
    """A default is the same for every call, whatever was done to the objects that got it before."""
    q = QuasiRandom(_ind)
    ref = mon.call(q.path_sample, x0=1.0, dt=0.1, num_steps=8, random_state=5)
    used = QuasiRandom(_ind)
    k = int(rng.integers(3))
    if k == 0:
        mon.call(used.base_model.fit, np.cumsum(rng.normal(size=(20, int(rng.integers(1, 3)))), axis=0), dt=0.2)
    elif k == 1:
        used.base_model.vol = used.base_model.vol * 7
    else:
        used.base_model.drift += 3.0
    got = mon.call(QuasiRandom(_ind).path_sample, x0=1.0, dt=0.1, num_steps=8, random_state=5)
    mon.close(got, ref, "a quasi-random model with the default base model, after another one's base model was changed")
    for make in (BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck):
        a = make()
        ref = mon.call(a.path_sample, dt=0.1, num_steps=5, random_state=2)
        for v in vars(a).values():
            if isinstance(v, np.ndarray):
                v += 1.5
        mon.close(mon.call(make().path_sample, dt=0.1, num_steps=5, random_state=2), ref, f"{make.__name__} with defaults, after another one was changed")
    a = mon.call(C._cor_block_diagonal)
    keep = a.copy()
    a[:] = 9
    mon.equal(mon.call(C._cor_block_diagonal), keep, "default blocks after a result was changed")
    mon.seen("fresh_defaults")
    mon.signature("fresh", k)


STAGES = [("conventions", one, len(NAMES) * 30, len(NAMES) * 300), ("defaults", fresh, 60, 400)]
