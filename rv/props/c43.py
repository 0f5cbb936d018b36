"""C43: importing the library or any part of it."""

import json
import os
import pkgutil
import subprocess
import sys
import tempfile

import quantfinlib
from rv.core import describe
from rv.gens import coin, pick

RULE = "distinct (import order, star imports, libraries loaded before) started in fresh interpreters and observed"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = sorted(m.name for m in pkgutil.walk_packages(quantfinlib.__path__, "quantfinlib."))
PUBLIC = {
    "quantfinlib.sim": "BrownianMotion GeometricBrownianMotion OrnsteinUhlenbeck QuasiRandom",
    "quantfinlib.util": "logger get_project_root configure_logger validate_series_or_1Darray validate_frame_or_2Darray to_numpy SeriesOrArray DataFrameOrArray ArrayLike",
    "quantfinlib.distance": "corr_to_abs_angular_dist corr_to_angular_dist corr_to_squared_angular_dist pair_abs_angular_distance pair_angular_distance "
                            "pair_squared_angular_distance compute_entropies kl_divergence_xy mutual_info var_info log_det_divergence von_neuman_divergence "
                            "get_corr_distance_matrix get_info_distance_matrix",
    "quantfinlib.clustering": "HC optimize_n_clusters gap_statistic silhouette_tstat",
    "quantfinlib.datasets": "load_equity_indices load_treasury_rates load_vix",
    "quantfinlib.feature": "chu_stinchcombe_white_cusum_test",
    "quantfinlib.feature.indicators": "rsi ewm_rsi macd macd_signal BollingerBands EwmBollingerBands KeltnerBands DonchianBands GenericBands rolling_mean rolling_std "
                                      "rolling_max rolling_min ewm_mean ewm_std average_true_range rolling_mom ewm_mom",
    "quantfinlib.feature.micro_structure": "get_becker_parkinson_volatility get_close_close_volatility get_cowrin_schultz_spread get_edge_spread get_garman_klass_volatility "
                                           "get_high_low_volatility get_rogers_satchell_volatility get_roll_measure get_roll_impact get_yang_zhang_volatility "
                                           "get_amihud_lambda get_hasbrouck_lambda get_kyle_lambda estimate_buy_volume get_vpin",
    "quantfinlib.train_test_split": "TimeAwareKFold WalkForward",
}
PUBLIC = {k: v.split() for k, v in PUBLIC.items()}
THIRD = ["numpy", "pandas", "scipy.stats", "scipy.optimize", "scipy.linalg", "scipy.special", "scipy.sparse", "scipy.signal", "sklearn.base", "sklearn.utils", "sklearn.covariance", "sklearn.cluster", "scipy.cluster.hierarchy", "scipy.spatial.distance", "sklearn.metrics", "sklearn.model_selection", "joblib",
         "joblib.externals.loky", "pydantic", "logging.handlers", "concurrent.futures", "multiprocessing"]
REQUIRED = ["alone", "shuffled", "star", "all_modules", "nothing_loaded_before", "settings_left_to_defaults"] + ["first " + m for m in PUBLIC]


THREADS = ["OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "LOKY_MAX_CPU_COUNT", "NUMEXPR_NUM_THREADS"]


def original_environment():
    """The environment this process was started with: what the library has set since is not in it."""
    with open("/proc/self/environ", "rb") as f:
        items = dict(e.split("=", 1) for e in f.read().decode(errors="surrogateescape").split("\0") if "=" in e)
    return {**items, **{k: os.environ[k] for k in THREADS + ["QFL_REPO"] if k in os.environ}}


def run(order, star, third, without=()):
    with tempfile.TemporaryDirectory(prefix="rv_", dir=".") as d:
        r, w = os.pipe()
        try:
            p = subprocess.Popen([sys.executable, "-B", "-c", "import os,sys;os.dup2(int(sys.argv[1]),3);os.execv(sys.executable,[sys.executable,'-B']+sys.argv[2:])", str(w),
                                  os.path.join(HERE, "import_child.py"), json.dumps([order, star, third])],
                                 cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=[w], env={**{k: v for k, v in original_environment().items() if k not in without}, "PYTHONDONTWRITEBYTECODE": "1", "HOME": os.path.abspath(d)})
            os.close(w)
            w = None
            buf = b""
            while True:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                buf += b
            out, err = p.communicate(timeout=120)
            return (json.loads(buf) if buf else None), out.decode(), err.decode(), p.returncode
        finally:
            os.close(r)
            if w is not None:
                os.close(w)


_base = {}


def names_of(m):
    """What a module offers in this process, where everything else is loaded as well."""
    if m not in _base:
        __import__(m)
        mod = sys.modules[m]
        _base[m] = {k: f"{getattr(v, '__module__', '')}:{getattr(v, '__qualname__', type(v).__name__)}" for k, v in vars(mod).items()}
    return _base[m]


def one(mon, rng):
    k = int(rng.integers(4))
    if k == 0:
        order = [pick(rng, MODULES + sorted(PUBLIC))]
        mon.seen("alone")
    elif k == 1:
        order = [MODULES[i] for i in rng.permutation(len(MODULES))]
        mon.seen("all_modules")
    else:
        order = [pick(rng, sorted(PUBLIC))] + [MODULES[i] for i in rng.permutation(len(MODULES))[: int(rng.integers(0, 6))]]
        mon.seen("shuffled")
        mon.seen("first " + order[0])
    drive(mon, rng, order)


def each(mon, rng):
    """Every part of the public surface as the first thing that is imported."""
    order = [sorted(PUBLIC)[int(mon._where["index"]) % len(PUBLIC)]]
    mon.seen("first " + order[0])
    drive(mon, rng, order)


def drive(mon, rng, order):
    star = [pick(rng, sorted(PUBLIC))] + ([m for m in order if m in PUBLIC] if coin(rng) else [])
    bare = coin(rng, 0.15)
    third = [] if bare else THIRD
    without = [k for k in THREADS if coin(rng, 0.6)]
    mon.note(order=order, star=star, without=without)
    rep, out, err, code = run(order, star, third, without)
    mon.seen("settings_left_to_defaults", int(bool(without)))
    mon.check(rep is not None, f"interpreter ended with {code}: {err[-300:]}")
    mon.check(code == 0, f"exit status {code}")
    mon.check(not rep["errors"], f"{rep['errors'][:3]}")
    mon.check(out == "", f"importing prints {out[:200]!r}")
    mon.check(err.split("--from here--")[-1].strip() == "" or bare, f"importing writes {err[-300:]!r} to stderr")
    mon.check(bare or not rep["opened"], f"importing touches files or processes: {rep['opened'][:4]}")
    if not bare:
        mon.check(not rep["changed"], f"importing changes settings of the process: {describe(rep['changed'])}")
    else:
        mon.seen("nothing_loaded_before")
    for m, names in rep["names"].items():
        full = names_of(m)
        for n in PUBLIC.get(m, []):
            mon.check(n in names, f"{m}.{n} is missing when imported in order {order}")
        for n in PUBLIC.get(m, []):
            what = names[n]
            mon.check(full.get(n) == what, f"{m}.{n} is {what}, and {full.get(n)} when everything is loaded")
    for m, names in rep["star"].items():
        gone = [n for n in PUBLIC[m] if n not in names]
        mon.check(not gone, f"from {m} import * does not offer {gone}")
        mon.seen("star")
    mon.signature(tuple(order[:3]), len(order), tuple(star), bare)


STAGES = [("orders", one, 40, 400), ("parts", each, 18, 36)]
