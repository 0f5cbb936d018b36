"""C39: copied and pickled objects behave like the original and independently of it."""

import copy
import os
import pickle
import struct
import subprocess
import sys

import numpy as np
import pandas as pd

from quantfinlib.clustering import HC
from quantfinlib.feature import indicators as I
from quantfinlib.sim import QuasiRandom
from quantfinlib.train_test_split import TimeAwareKFold, WalkForward
from rv import features, gens, sims, splits
from rv.gens import coin, pick, size
from rv.props.c36 import same

RULE = "distinct (class, how it was copied, history, containers) whose copies were observed against the original"
KINDS = ["model", "fitted", "quasi", "kfold", "walk", "clustering", "bands"]
WAYS = ["copy", "deepcopy", "pickle", "pickle0", "process"]
REQUIRED = KINDS + WAYS + ["independent_of_copy", "copy_independent", "used_before", "pickled_twice"]


def momentum(x):
    return np.append(0.0, np.diff(x))


# -- making objects ---------------------------------------------------------------------------------------------------
def make(rng, kind):
    """(object, argument of the observation)"""
    if kind in ("model", "fitted", "quasi"):
        mk, d, p, cor = sims.draw(rng)
        m = sims.build(rng, mk, p, cor)
        arg = dict(seed=int(rng.integers(10**6)), steps=size(rng, 3, 12), paths=pick(rng, [1, 2, 3]), x0=1.5, dt=0.1, data=None)
        if kind == "quasi":
            return QuasiRandom(momentum, float(rng.uniform(0.1, 1)), m), arg
        x = sims.fit_data(rng, mk, 25 if coin(rng, 0.93) else int(rng.integers(26, 4000)), d)
        if kind == "fitted":
            if sims.estimators(mk, x, 1 / 252) is None:
                return None
            data, form = sims.fit_container(rng, x)
            m = sims.MODELS[mk]()
            m.fit(data, dt=0.2)
            arg["x0"] = pick(rng, ["first", "last", 2.0])
            if "irregular" in form:
                arg["x0"] = 2.0
                arg["labels"] = dict(label_freq="D")
        arg["data"] = x
        return m, arg
    if kind in ("kfold", "walk"):
        for _ in range(20):
            gk, freq, groups, unit, n = splits.problem(rng, 40)
            g = splits.container(rng, gk, groups)
            if kind == "kfold":
                cv = TimeAwareKFold(n_folds=2, n_embargo=pick(rng, [0, 1]), n_purge=pick(rng, [0, 1]), look_forward=coin(rng), freq=freq)
            else:
                cv = WalkForward(n_embargo=pick(rng, [0, 1]), train_window=size(rng, 2, 6), test_window=size(rng, 2, 6), split_type=pick(rng, ["expanding", "rolling"]), freq=freq)
            X = np.zeros((n, 1))
            try:
                list(cv.split(X, None, g))
            except Exception:
                continue
            fresh = copy_settings(cv)
            return fresh, dict(X=X, groups=g)
        return None
    if kind == "clustering":
        n = size(rng, 4, 8)
        kw = dict(linkage_method=pick(rng, ["single", "complete", "average", "ward"]))
        which = pick(rng, ["X", "corr", "dist"])
        if which == "X":
            a = gens.returns_matrix(rng, 25, n)
        elif which == "corr":
            a = gens.correlation(rng, n)
        else:
            a = np.sqrt(np.clip((1 - gens.correlation(rng, n)) / 2, 0, 1))
            np.fill_diagonal(a, 0)
        if coin(rng):
            names = [f"a{i}" for i in range(n)]
            a = pd.DataFrame(a, columns=names, index=None if which == "X" else names)
        return HC(**{which: a}, **kw), dict(k=size(rng, 2, n - 1))
    n = size(rng, 6, 40)
    b = features.bars(rng, n)
    s = {k: b[k] for k in ("high", "low", "close", "ts")}
    if coin(rng):
        s = features.series(s, gens.any_index(rng, n))
    w = size(rng, 2, 6)
    which = int(rng.integers(5))
    if which == 0:
        o = I.BollingerBands(s["ts"], w, 2)
    elif which == 1:
        o = I.EwmBollingerBands(s["ts"], w, 3)
    elif which == 2:
        o = I.KeltnerBands(s["high"], s["low"], s["close"], w, w, 2)
    elif which == 3:
        o = I.DonchianBands(s["ts"], w)
    else:
        o = I.GenericBands(s["ts"], s["high"], s["low"], 2, "x")
    return o, None


def copy_settings(cv):
    return type(cv)(**{k: getattr(cv, k) for k in ("n_folds", "n_embargo", "n_purge", "look_forward", "train_window", "test_window", "split_type", "freq") if hasattr(cv, k)})


def public(o):
    """What a user can read: the parameters, data and results kept in attributes without underscore."""
    out = {k: v for k, v in vars(o).items() if not k.startswith("_") and not k.endswith("_")}
    return {k: public(v) if type(v).__module__.startswith("quantfinlib.") else v for k, v in out.items() if not callable(v) or isinstance(v, type)}


# -- observing --------------------------------------------------------------------------------------------------------
def observe(kind, o, arg):
    if kind in ("model", "fitted", "quasi"):
        kw = dict(num_steps=arg["steps"], num_paths=arg["paths"], random_state=arg["seed"], dt=arg["dt"])
        out = [o.path_sample(x0=arg["x0"], **kw, **arg.get("labels", {})), repr(o)]
        if kind == "quasi":
            out[1] = type(o).__name__
        if arg["data"] is not None and np.asarray(arg["data"]).ndim:
            out += [o.nll(arg["data"], dt=0.1), o.aic(arg["data"], dt=0.1), o.bic(arg["data"], dt=0.1)]
        return out
    if kind in ("kfold", "walk"):
        out = [np.concatenate([a, [-1], b]) for a, b in o.split(arg["X"], None, arg["groups"])]
        return out + [o.get_n_splits(), str(o.__dict__.get("freq")), o.n_embargo]
    if kind == "clustering":
        return [np.array(o.get_clusters(arg["k"])), np.array(o.linkage), o.get_optimal_nclusters(max_clust=3, metric="silhouette")]
    return [o.upper(), o.lower(), o.middle(), o.bandwidth(), o.percent_b()]


def disturb(mon, rng, kind, o):
    """Change an object in the ways users do."""
    if kind in ("model", "fitted"):
        mk = {"BrownianMotion": "bm", "GeometricBrownianMotion": "gbm", "OrnsteinUhlenbeck": "ou"}[type(o).__name__]
        for _ in range(5):
            x = sims.fit_data(rng, mk, 30, pick(rng, [1, 2]))
            if sims.estimators(mk, x, 0.5) is not None:
                mon.call(o.fit, pd.DataFrame(x, index=pd.date_range("2011-01-01", periods=30)), dt=0.5)
                return
        o.vol = np.asarray(o.vol) * 2
    elif kind == "quasi":
        o.base_model.vol = np.asarray(o.base_model.vol) * 3.0
        o.f_signal_vol = 7.0
    elif kind in ("kfold", "walk"):
        if getattr(o, "freq", None) is None:
            mon.attempt(lambda: list(o.split(np.zeros((31, 2)))))
        o.n_embargo = 3
    elif kind == "clustering":
        o.linkage[:, 2] *= 2.0
        o.linkage_method = "single"
    else:
        for name in ("ts", "rolling_mean", "rolling_std"):
            v = getattr(o, name)
            if isinstance(v, pd.Series):
                v.iloc[:] = 1.25
            elif isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 1.25
        o.multiplier = 5


_child = None


def in_child(payload):
    global _child
    if _child is None or _child.poll() is not None or _child.owner != os.getpid():
        _child = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "copychild.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _child.owner = os.getpid()
    _child.stdin.write(struct.pack("<I", len(payload)) + payload)
    _child.stdin.flush()
    n = _child.stdout.read(4)
    if len(n) < 4:
        raise RuntimeError("the helper process ended")
    return pickle.loads(_child.stdout.read(struct.unpack("<I", n)[0]))


def one(mon, rng):
    kind = pick(rng, KINDS)
    made = make(rng, kind)
    if made is None:
        return
    o, arg = made
    used = coin(rng)
    if used:
        mon.call(observe, kind, o, arg)
        mon.seen("used_before")
    way = pick(rng, WAYS[:4] if coin(rng, 0.9) else WAYS[4:])
    mon.note(kind=kind, cls=type(o).__name__, way=way, argument=arg, used_before=used)
    if way == "process":
        status, got = in_child(pickle.dumps((o, kind, arg)))
        mon.check(status == "ok", f"{type(o).__name__} cannot be used in another process: {got}")
        want = mon.call(observe, kind, o, arg)
        mon.check(same(got, want), f"{type(o).__name__} behaves differently in another process")
        mon.seen(way)
        mon.seen(kind)
        mon.signature(type(o).__name__, way, used)
        return
    copier = dict(copy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda v: pickle.loads(pickle.dumps(v)), pickle0=lambda v: pickle.loads(pickle.dumps(v, 2)))[way]
    c = mon.call(copier, o)
    mon.check(type(c) is type(o), f"the copy is a {type(c).__name__}")
    if coin(rng, 0.2):
        c = mon.call(copier, c)
        mon.seen("pickled_twice", int(way.startswith("pickle")))
    if kind in ("kfold", "walk"):  # before the copy has split anything itself
        na, nb = (mon.attempt(v.get_n_splits)[0] for v in (o, c))
        mon.check(na == nb, f"{type(o).__name__}: the {way} has {nb} splits, the original {na}")
    mon.check(same(public(o), public(c)), f"{type(o).__name__}: the {way} has other attributes than the original: {sorted(public(o))}, {sorted(public(c))}")
    a, b = (mon.call(observe, kind, v, arg) for v in ((o, c) if coin(rng) else (c, o)))
    mon.check(same(a, b), f"{type(o).__name__}: the {way} behaves differently from the original")
    if way != "copy":
        if coin(rng):
            first, second = o, c
        else:
            first, second = c, o
        before = mon.call(observe, kind, first, arg)
        disturb(mon, rng, kind, second)
        after = mon.call(observe, kind, first, arg)
        mon.check(same(before, after), f"{type(o).__name__}: changing {'the copy' if second is c else 'the original'} changes the other one ({way})")
        mon.seen("independent_of_copy" if second is c else "copy_independent")
    mon.seen(way)
    mon.seen(kind)
    mon.signature(type(o).__name__, way, used, str(type(arg.get("groups"))) if arg and "groups" in arg else "")


STAGES = [("copies", one, 6000, 60000)]
