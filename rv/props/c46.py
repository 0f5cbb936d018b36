"""C46: nothing is kept after a call."""

import collections
import contextlib
import gc
import logging
import os
import pickle
import sys
import threading
import types
import warnings
import weakref

import numpy as np
import pandas as pd

import quantfinlib.distance as D
from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration
from quantfinlib.clustering import HC
from quantfinlib.feature import indicators
from quantfinlib.sim import QuasiRandom
from quantfinlib.train_test_split import TimeAwareKFold, WalkForward
from quantfinlib.util import get_project_root, to_numpy
from rv import purity, sims
from rv.gens import coin, pick
from rv.props import c39

RULE = "distinct (function or class, outcome, number of repetitions) with the lifetime of arguments and results, open files, threads and object sizes observed"
NAMES = sorted(purity.OPS)
REQUIRED = ["released_argument", "released_result", "refused", "files_counted", "repeated", "model", "fitted", "quasi", "kfold", "walk", "clustering", "bands", "object_released", "object_lives_on", "calibration_data", "dated_calibration_data", "growth_observed"]


def trackable(x, out):
    if isinstance(x, (np.ndarray, pd.Series, pd.DataFrame, pd.Index)):
        out.append(x)
        if isinstance(x, (pd.Series, pd.DataFrame)):  # what it consists of must be released as well
            out += [i for i in (x.index, getattr(x, "columns", None)) if i is not None]
    elif isinstance(x, dict):
        for v in x.values():
            trackable(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            trackable(v, out)
    return out


def files():
    return len(os.listdir("/proc/self/fd"))


def calls(mon, rng):
    """Arguments and results are garbage as soon as the caller drops them."""
    name = NAMES[mon._where["index"] % len(NAMES)]
    repeat = pick(rng, [1, 2, 5])
    mon.note(function=name, repeat=repeat)
    refs, outs = [], []
    purity.sequential(*_warm(name, rng))
    fds, threads = files(), threading.active_count()
    for _ in range(repeat):
        fn, args = purity.OPS[name][0](rng)
        refs += [weakref.ref(a) for a in trackable(args, [])]
        value, err = mon.attempt(purity.sequential, fn, args)
        if err is None:
            outs += [weakref.ref(a) for a in trackable(value, [])]
        mon.seen("refused", int(err is not None))
        value = err = fn = args = None
    gc.collect()
    alive = [type(r()).__name__ + str(getattr(r(), "shape", "")) for r in refs if r() is not None]
    mon.check(not alive, f"{name}: {len(alive)} of {len(refs)} arguments are still alive after the call: {alive[:3]}")
    alive = [type(r()).__name__ + str(getattr(r(), "shape", "")) for r in outs if r() is not None]
    mon.check(not alive, f"{name}: {len(alive)} of {len(outs)} results are still alive after the caller dropped them: {alive[:3]}")
    mon.check(files() <= fds, f"{name}: {files() - fds} files stay open after {repeat} calls")
    mon.check(threading.active_count() <= threads, f"{name}: {threading.active_count() - threads} threads stay after {repeat} calls")
    mon.seen("released_argument", int(bool(refs)))
    mon.seen("released_result", int(bool(outs)))
    mon.seen("files_counted")
    mon.signature(name, repeat, bool(outs))


def _warm(name, rng):
    fn, args = purity.OPS[name][0](rng)

    def quiet(*a):
        try:
            return fn(*a)
        except Exception:
            return None

    return quiet, args


def word(rng, n=6):
    return "".join(chr(65 + int(k)) for k in rng.integers(0, 26, n))


def some_data(rng, n=12):
    return pd.Series(rng.normal(size=n).cumsum(), index=pd.date_range(pd.Timestamp("1970-01-01") + pd.Timedelta(int(rng.integers(0, 10**9)), unit="s"), periods=n), name=word(rng))


# functions that are called with ever new values: (function, calls per window)
FRESH = {
    "frequency code": (lambda rng: time_series_freq_to_duration(word(rng)), 600),
    "frequency code with anchor": (lambda rng: time_series_freq_to_duration(pick(rng, ["W", "QE", "YE", word(rng)]) + "-" + word(rng)), 600),
    "frequency of dates": (lambda rng: time_series_freq(some_data(rng).index), 60),
    "project path": (lambda rng: get_project_root(word(rng)), 600),
    "named array": (lambda rng: to_numpy(some_data(rng)), 200),
    "model": (lambda rng: repr(sims.MODELS[pick(rng, ["bm", "gbm"])](drift=float(rng.normal()), vol=float(rng.random()))), 100),
    "path": (lambda rng: sims.MODELS["bm"](drift=float(rng.normal()), vol=float(rng.random())).path_sample(
        x0=float(rng.normal()), num_steps=4, dt=float(rng.random()), random_state=int(rng.integers(2**31)), label_start=str(pd.Timestamp("1970-01-01") + pd.Timedelta(int(rng.integers(0, 40000)), unit="D")), label_freq=pick(rng, ["D", "B", "W"])), 60),
    "calibration": (lambda rng: sims.MODELS["ou"]().fit(sims.fit_data(rng, "ou", 40, 1), dt=float(rng.random())).nll(rng.normal(size=9), dt=float(rng.random())), 60),
    "named columns": (lambda rng: D.get_info_distance_matrix(named(rng), bins=2), 60),
    "named correlations": (lambda rng: D.get_corr_distance_matrix(named(rng)), 60),
    "clustering": (lambda rng: HC(X=named(rng), linkage_method=pick(rng, ["single", "average"])).get_clusters(2), 40),
    "folds": (lambda rng: list(TimeAwareKFold(n_folds=3, n_embargo=int(rng.integers(3)), n_purge=int(rng.integers(3))).split(rng.normal(size=(int(rng.integers(9, 90)), 1)))), 60),
    "walk": (lambda rng: list(WalkForward(n_embargo=0, train_window=int(rng.integers(2, 9)), test_window=int(rng.integers(2, 9)), freq="D").split(np.ones((30, 1)), groups=some_data(rng, 30).index)), 40),
    "refusal": (lambda rng: quiet(D.mutual_info, word(rng), word(rng)), 300),
    "refused model": (lambda rng: quiet(sims.MODELS["bm"], vol=word(rng)), 100),
    "indicator": (lambda rng: indicators.rsi(some_data(rng, 20), int(rng.integers(2, 12))), 60),
}


def named(rng):
    return pd.DataFrame(rng.normal(size=(12, 4)), columns=[word(rng) for _ in range(4)])


def quiet(fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except Exception:
        return None


def library_state():
    """Number of values that modules, classes, functions and caches of the library hold."""
    seen, todo, total = set(), [m for k, m in sorted(sys.modules.items()) if k.split(".")[0] == "quantfinlib"], 0
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, types.ModuleType):
            if x.__name__.split(".")[0] == "quantfinlib":
                todo += [v for k, v in vars(x).items() if k != "__builtins__"]
        elif hasattr(x, "cache_info") and hasattr(x, "__wrapped__"):
            total += x.cache_info().currsize if x.cache_info().maxsize is None else 0
            todo.append(x.__wrapped__)
        elif isinstance(x, (dict, list, tuple, set, frozenset, collections.deque)) or type(x).__name__ in ("mappingproxy", "OrderedDict", "WeakKeyDictionary", "WeakValueDictionary"):
            total += len(x)
            if len(x) < 10000:
                todo += (list(x) + list(x.values())) if hasattr(x, "values") else list(x)
        elif isinstance(x, type):
            if (x.__module__ or "").split(".")[0] == "quantfinlib":
                todo += list(vars(x).values())
        elif isinstance(x, types.FunctionType):
            if (x.__module__ or "").split(".")[0] == "quantfinlib":
                todo += [x.__dict__, x.__defaults__, x.__kwdefaults__] + [c.cell_contents for c in (x.__closure__ or ()) if c != types.CellType()]
        elif isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo += [x.fget, x.fset]
        elif (type(x).__module__ or "").split(".")[0] in ("quantfinlib", "logging") and hasattr(x, "__dict__"):
            todo += [v for k, v in vars(x).items() if not isinstance(v, logging.Manager) and k != "parent"]
    return total


def growth(mon, rng):
    """What the library holds, and the number of objects in the process, do not grow with the number of calls, whatever their arguments."""
    names = sorted(FRESH) + NAMES
    name = names[mon._where["index"] % len(names)]
    if name in FRESH:
        f, n = FRESH[name]

        def go():
            quiet(f, rng)
    else:
        n = 5 if "load" in name else 16

        def go():
            fn, args = purity.OPS[name][0](rng)
            quiet(purity.sequential, fn, args)
    mon.note(function=name, calls=n)
    held, blocks = [], []
    with open(os.devnull, "w") as sink, contextlib.redirect_stderr(sink), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(min(n, 200)):
            go()
        for k in range(5):
            gc.collect()
            blocks.append(sys.getallocatedblocks())
            held.append(library_state())
            if k and held[-1] - held[-2] < n / 4 and (n < 200 or blocks[-1] - blocks[-2] < n):
                break
            for _ in range(n):
                go()
    held, blocks = np.diff(held), np.diff(blocks)
    mon.check(len(held) < 4 or (held < n / 4).any(), f"{name}: every {n} further calls leave {held.tolist()} more values in the library")
    # numpy and pandas keep small pools of their own, so single objects are counted for long series of cheap calls only
    mon.check(n < 200 or len(blocks) < 4 or (blocks < n).any(), f"{name}: every {n} further calls leave {blocks.tolist()} more objects in memory")
    mon.seen("growth_observed")
    mon.seen("values_held_by_library", library_state())
    mon.signature("growth", name)


def objects(mon, rng):
    """Objects do not grow with use and disappear together with their data."""
    kind = pick(rng, c39.KINDS)
    made = c39.make(rng, kind)
    if made is None:
        return
    o, arg = made
    mon.note(kind=kind, cls=type(o).__name__)
    for _ in range(2):
        mon.call(c39.observe, kind, o, arg)
    n = pick(rng, [3, 10])
    before = len(pickle.dumps(o))
    for _ in range(n):
        mon.call(c39.observe, kind, o, arg)
    after = len(pickle.dumps(o))
    mon.check(after <= before + 64, f"{type(o).__name__} grows from {before} to {after} bytes in {n} uses")
    mon.seen("repeated")
    # an object of its own data: calibrate and use it, then drop everything
    refs = [weakref.ref(o)] + [weakref.ref(a) for a in trackable([arg] if arg else [], [])]
    refs += [weakref.ref(v) for v in trackable(list(vars(o).values()), [])]
    cls = type(o).__name__
    o = arg = made = None
    mon.context = {}
    gc.collect()
    alive = [type(r()).__name__ for r in refs if r() is not None]
    mon.check(not alive, f"{cls}: {alive[:4]} still alive after the object was dropped")
    mon.seen("object_released")
    mon.seen(kind)
    mon.signature(kind, cls, n)


def arguments(mon, rng):
    """A model or splitter that lives on keeps neither the data it was used on nor its results, whatever their size."""
    big = pick(rng, [300, 3000])
    kind = pick(rng, ["bm", "gbm", "ou", "quasi", "kfold", "walk"])
    refs, sizes = [], []
    if kind in ("kfold", "walk"):
        freq = pick(rng, [None, "D"])
        o = TimeAwareKFold(n_folds=3, n_embargo=1, n_purge=1, freq=freq) if kind == "kfold" else WalkForward(n_embargo=1, train_window=40, test_window=40, freq=freq)
        for n in (120, big):
            X, y = rng.normal(size=(n, 2)), pick(rng, [None, rng.normal(size=n)])
            g = pick(rng, [np.arange(n), pd.Series(np.arange(n))]) if freq is None else pick(rng, [lambda d: d, pd.Series])(pd.date_range("2000-01-01", periods=n))
            if coin(rng):
                X = pd.DataFrame(X)
            refs += [weakref.ref(v) for v in (X, y, g) if v is not None]
            out = mon.call(lambda: [v for ab in o.split(X, y, g) for v in ab])
            refs += [weakref.ref(v) for v in out]
            X = y = g = out = None
            sizes.append(len(pickle.dumps(o)))
    else:
        mk, d, p, cor = sims.draw(rng, kind=None if kind == "quasi" else kind, d=pick(rng, [1, 2]))
        o = sims.build(rng, mk, p, cor)
        if kind == "quasi":
            o = QuasiRandom(c39.momentum, 0.3, o)
        calibrate = kind != "quasi" and coin(rng, 0.7)
        for n in (60, big):
            x = sims.fit_data(rng, mk, n, d)
            if sims.estimators(mk, x, 1 / 252) is None:
                return
            data = x.copy() if coin(rng) else pd.DataFrame(x.copy(), index=pick(rng, [None, pd.date_range("1999-01-04", periods=n, freq=pick(rng, ["D", "B", "W"]))]))
            if d == 1 and isinstance(data, pd.DataFrame) and coin(rng):
                data = data[0].copy()
                refs.append(weakref.ref(data))
            if not isinstance(data, np.ndarray) and isinstance(data.index, pd.DatetimeIndex):
                refs.append(weakref.ref(data.index))
                mon.seen("dated_calibration_data", int(calibrate))
            base = data.to_numpy() if not isinstance(data, np.ndarray) else data
            refs += [weakref.ref(data)] + ([weakref.ref(base)] if base is not data else [])
            base = None
            if calibrate:
                mon.call(o.fit, data, dt=0.3)
                mon.seen("calibration_data")
            if kind != "quasi":
                for f in ("nll", "aic", "bic"):
                    mon.call(getattr(o, f), data, dt=0.3)
            data = x = None
            out = mon.call(o.path_sample, x0=1.5, num_steps=n, num_paths=2, dt=1e-4, random_state=1)
            refs.append(weakref.ref(out))
            out = None
            sizes.append(len(pickle.dumps(o)))
    mon.note(kind=kind, rows=big)
    gc.collect()
    alive = [type(r()).__name__ + str(getattr(r(), "shape", "")) for r in refs if r() is not None]
    mon.check(not alive, f"{type(o).__name__}: {len(alive)} of {len(refs)} arguments and results are still alive while the object lives on: {alive[:3]}")
    mon.check(sizes[1] <= sizes[0] + 400, f"{type(o).__name__} has {sizes[0]} bytes after small requests and {sizes[1]} after large ones")
    mon.seen("object_lives_on")
    mon.signature("arguments", kind, big)


STAGES = [("arguments", arguments, 600, 6000), ("calls", calls, 24 * len(NAMES), 200 * len(NAMES)), ("objects", objects, 1500, 15000), ("growth", growth, 3 * (len(FRESH) + len(NAMES)), 20 * (len(FRESH) + len(NAMES)))]
