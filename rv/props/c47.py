"""C47: calls that fail or are interrupted leave everything as it was, or finish their work."""

import copy
import logging
import os
import sys
import warnings

import numpy as np
import pandas as pd

import quantfinlib
from quantfinlib.sim import QuasiRandom
from quantfinlib.train_test_split import WalkForward
from quantfinlib.util import configure_logger, logger
from rv import gens, sims, splits
from rv.core import rng_state, snapshot
from rv.gens import coin, pick, size
from rv.props import c39
from rv.props.c36 import same

RULE = "distinct (operation, kind of failure, source line at which it struck, history) with the object observed before and afterwards"
REQUIRED = ["interrupted", "refused_calibration", "refused_simulation", "refused_score", "refused_split", "refused_clustering", "refused_logging", "unchanged", "completed",
            "labelled_history", "memory_error", "keyboard_interrupt", "still_usable", "unusual_data", "failed_midway", "failed_indicator"]
ROOT = os.path.dirname(os.path.abspath(quantfinlib.__file__)) + os.sep


class Fault(MemoryError):
    pass


class Interrupt(KeyboardInterrupt):
    pass


def strike(fn, at, kind):
    """Run fn and raise before the at-th executed line of the library. (value, exception, line or None, lines seen)"""
    seen = [0]
    hit = [None]

    def local(frame, event, arg):
        if event == "line":
            if seen[0] == at and hit[0] is None:
                hit[0] = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                seen[0] += 1
                raise kind("injected")
            seen[0] += 1
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fn(), None, hit[0], seen[0]
    except (Fault, Interrupt, Exception) as e:
        return None, e, hit[0], seen[0]
    finally:
        sys.settrace(old)


def history(mon, rng, kind, d):
    """A model with a past: constructed, or calibrated on labelled or unlabelled data."""
    if coin(rng, 0.3):
        _, _, p, cor = sims.draw(rng, d=d, kind=kind)
        return sims.build(rng, kind, p, cor)
    for _ in range(10):
        x = sims.fit_data(rng, kind, size(rng, 8, 20) + 3 * d, d)
        if sims.estimators(kind, x, 0.2) is not None:
            data, form = sims.fit_container(rng, x)
            if "irregular" in form:
                continue
            m = sims.MODELS[kind]()
            mon.call(m.fit, data, dt=0.2)
            mon.seen("labelled_history", int(form not in ("array", "array1")))
            return m
    return sims.build_plain(kind, sims.unit(kind, d), None)


def views(mon, m, kind):
    """What a user sees of a model: repeated requests with and without explicit start values."""
    x0 = pick_x0(m)
    out = []
    for kw in (dict(), dict(x0="last") if m.fit_xn_ is not None else dict(x0=1.5), dict(x0=2.0, num_paths=2, columns=None)):
        kw = {k: v for k, v in kw.items() if v is not None}
        try:
            out.append(m.path_sample(num_steps=4, random_state=3, dt=0.1, **kw))
        except Exception as e:
            out.append(type(e).__name__)
    out.append(repr(m))
    out.append({k: np.asarray(getattr(m, k)) for k in ("drift", "vol", "mean", "mrr", "cor", "num_parameters_", "fit_dt_") if getattr(m, k, None) is not None})
    return out


def pick_x0(m):
    return getattr(m, "fit_x0_", None)


def interrupted(mon, rng):
    """A fault at any line of a calibration, simulation or score."""
    kind, d = pick(rng, ["bm", "gbm", "ou"]), pick(rng, [1, 1, 2, 3])
    m = history(mon, rng, kind, d)
    what = pick(rng, ["fit", "fit", "fit", "sample", "score", "quasi"])
    d2 = pick(rng, [1, 2, 3]) if what == "fit" else (np.size(m.vol))
    for _ in range(10):
        x = sims.fit_data(rng, kind, size(rng, 8, 20) + 3 * d2, d2)
        if sims.estimators(kind, x, 0.7) is not None:
            break
    else:
        return
    data, form = sims.fit_container(rng, x)
    watched = m
    if what == "fit":
        act = lambda v: v.fit(data, dt=0.7)
    elif what == "sample":
        req = dict(num_steps=5, num_paths=2, x0=1.5, dt=0.3, random_state=4)
        if coin(rng):
            req.update(label_start="2020-01-01", label_freq="D")
        act = lambda v: v.path_sample(**req)
    elif what == "score":
        f = pick(rng, ["nll", "aic", "bic"])
        act = lambda v: getattr(v, f)(data, dt=0.7)
    else:
        q = QuasiRandom(c39.momentum, 0.2, m)
        act = lambda v: q.path_sample(num_steps=6, num_paths=2, x0=1.5, dt=0.3, random_state=4)
    twin = copy.deepcopy(m)
    if what == "quasi":
        keep, q = q, QuasiRandom(c39.momentum, 0.2, twin)
        _, e, _, lines = strike(lambda: q.path_sample(num_steps=6, num_paths=2, x0=1.5, dt=0.3, random_state=4), -1, Fault)
        q = keep
    else:
        _, e, _, lines = strike(lambda: act(twin), -1, Fault)
    if e is not None or lines == 0:
        mon.check(e is None, f"{what} fails without a fault: {e!r}")
        return
    done = views(mon, twin, kind)
    before = views(mon, m, kind)
    args = snapshot(data)
    g = rng_state()
    at = int(rng.integers(lines))
    fault = Fault if coin(rng) else Interrupt
    mon.note(model=kind, operation=what, data=data, at=f"{at} of {lines}", fault=fault.__name__)
    value, e, where, _ = strike(lambda: act(m), at, fault)
    mon.calls += 1
    after = views(mon, m, kind)
    mon.check(e is not None, f"a fault in {where} during {what} is swallowed")
    old, new = same(after, before), what == "fit" and same(after, done)
    mon.check(old or new, f"{what} interrupted in {where} leaves a {type(m).__name__} that is neither the old nor the new one")
    mon.check(snapshot(data) == args, f"{what} interrupted in {where} modifies the data")
    mon.check(rng_state() == g, "global random state changed")
    mon.seen("unchanged" if old else "completed")
    # and it can be used again
    mon.call(act, m)
    mon.check(same(views(mon, m, kind), done), f"{what} repeated after the interruption gives another result")
    mon.seen("still_usable")
    mon.seen("interrupted")
    mon.seen("memory_error" if fault is Fault else "keyboard_interrupt")
    mon.signature(what, kind, where, fault.__name__)


def refused(mon, rng):
    """Requests the library refuses by itself."""
    kind, d = pick(rng, ["bm", "gbm", "ou"]), pick(rng, [1, 1, 2])
    m = history(mon, rng, kind, d)
    watched = m
    act = pick(rng, ["fit", "fit", "fit", "sample", "score", "quasi_fit"])
    before = views(mon, m, kind)
    x = sims.fit_data(rng, kind, 14, d)
    hourly = pd.DataFrame(x, index=pd.date_range("2015-01-01", periods=14, freq=pick(rng, ["h", "2D", "15min"])), columns=[f"z{i}" for i in range(d)])
    if act == "fit":
        bad = int(rng.integers(6))
        if bad == 0:
            job, what = (lambda: m.fit(hourly)), "data without a known time step"
        elif bad == 1:
            job, what = (lambda: m.fit(pd.DataFrame(np.array([["a"] * d] * 9), columns=list("xyz")[:d]))), "text"
        elif bad == 2:
            job, what = (lambda: m.fit(np.zeros((4, d, 2)), 0.1)), "data with three dimensions"
            mon.seen("unusual_data")
        elif bad == 3:
            job, what = (lambda: m.fit(hourly, dt="day")), "a time step in words"
        elif bad == 4:
            job, what = (lambda: m.fit(None)), "no data"
        else:
            def job():
                with warnings.catch_warnings(), np.errstate(all="raise"):
                    warnings.simplefilter("error")
                    m.fit(pd.DataFrame(np.tile([[1.0], [-1.0]], (7, d)), columns=[f"w{i}" for i in range(d)], index=pd.date_range("2000-01-01", periods=14)))
            what = "data the model does not fit, with warnings as errors"
            mon.seen("unusual_data")
        mon.seen("refused_calibration")
    elif act == "sample":
        req = pick(rng, [dict(x0="middle"), dict(x0=[1.0] * 7, num_paths=2), dict(num_steps=-3), dict(label_freq="no such frequency", label_start="2020-01-01"), dict(x0=1.0, num_steps=3, columns=["a"] * 9),
                         dict(label_start="not a date", label_freq="D"), dict(num_steps="many"), dict(random_state="seed"), dict(num_paths=0.5)])
        job, what = (lambda: m.path_sample(**{**dict(num_steps=4), **req})), f"request {req}"
        mon.seen("refused_simulation")
    elif act == "score":
        f = pick(rng, ["nll", "aic", "bic"])
        data = pick(rng, [hourly, np.zeros((5, 9)), None, "abc"])
        job, what = (lambda: getattr(m, f)(data)), f"{f} of unsuited data"
        mon.seen("refused_score")
    else:
        q = QuasiRandom(c39.momentum, 0.2, m)
        look = lambda: [q.path_sample(num_steps=6, x0=1.5, dt=0.1, random_state=3), q.path_sample(num_steps=6, dt=0.1, random_state=3)]
        qb = look()
        job, what = (lambda: q.fit(hourly if coin(rng) else pd.DataFrame(x, columns=[f"z{i}" for i in range(d)]), dt=0.2)), "calibration of a quasi random model"
        mon.seen("refused_calibration")
    mon.note(model=kind, operation=what)
    _, e = mon.attempt(job)
    if e is None:
        if act == "fit":
            return  # accepted after all: not the domain of this stage
        mon.check(same(views(mon, m, kind), before), f"{what} changes the model")
        return
    mon.check(same(views(mon, m, kind), before), f"refusing {what} ({type(e).__name__}) changes the {type(m).__name__}")
    if act == "quasi_fit":
        mon.check(same(look(), qb), "a refused calibration changes the results of a quasi random model")
    mon.seen("unchanged")
    mon.signature("refused", kind, what[:40], type(e).__name__)


def other(mon, rng):
    """Splitters and clusterings."""
    kind = pick(rng, ["kfold", "walk", "clustering"])
    made = c39.make(rng, kind)
    if made is None:
        return
    o, arg = made
    if coin(rng):
        mon.call(c39.observe, kind, o, arg)
    want = mon.call(c39.observe, kind, copy.deepcopy(o), arg)
    mon.note(kind=kind)
    if kind == "clustering":
        job = pick(rng, [lambda: o.get_clusters("many"), lambda: o.get_clusters(None), lambda: o.get_optimal_nclusters(metric="no such metric"),
                         lambda: o.get_optimal_nclusters(max_clust="x", metric="silhouette")])
        mon.seen("refused_clustering")
    else:
        n = len(arg["X"])
        g = pick(rng, [np.arange(n)[::-1], np.array(["a"] * n), "groups", list(range(n)), 5])
        job = lambda: list(o.split(pick(rng, [arg["X"], arg["X"], "abc"]), None, g))
        mon.seen("refused_split")
    if coin(rng, 0.4):
        real = lambda: c39.observe(kind, o, arg)
        twin = copy.deepcopy(o)
        _, e, _, lines = strike(lambda: c39.observe(kind, twin, arg), -1, Fault)
        at = int(rng.integers(max(lines, 1)))
        fault = Fault if coin(rng) else Interrupt
        mon.note(at=f"{at} of {lines}")
        _, e, where, _ = strike(real, at, fault)
        mon.signature("interrupted", kind, where)
        mon.seen("interrupted")
    else:
        mon.attempt(job)
        mon.signature("refused", kind)
    got = mon.call(c39.observe, kind, o, arg)
    mon.check(same(got, want), f"{type(o).__name__} behaves differently after a failed call")
    mon.seen("unchanged")


def count(cv):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cv.get_n_splits()


def midway(mon, rng):
    """A walk-forward pass that fails after some splits, by itself or by an interruption."""
    e = size(rng, 2, 6)
    st = pick(rng, ["rolling", "rolling", "expanding"])
    kw = dict(n_embargo=e, train_window=e, test_window=size(rng, 1, 3), split_type=st)
    cv = WalkForward(**kw)
    hist = pick(rng, ["new", "used", "used", "used twice"])
    done = 0
    for _ in range(["new", "used", "used twice"].index(hist)):
        m = size(rng, 5, 40)
        done = len(mon.call(lambda: list(cv.split(np.zeros((m, 1)), None, np.arange(m) * (e + 1)))))
    mon.check(mon.call(count, cv) == done, "reported number of splits")
    far, near = size(rng, 2, 9), size(rng, 3 * e, 40)
    groups = np.concatenate([np.arange(far) * (e + 1), (far - 1) * (e + 1) + 1 + np.arange(near)])  # sparse, then dense: the embargo empties later training sets
    X = np.zeros((len(groups), 1))
    mon.note(settings=kw, history=hist, groups=groups)
    job = lambda: list(cv.split(X, None, groups))
    if st == "rolling":
        mon.rejects("a pass whose later training sets are emptied by the embargo", job)
        want = (done,)
        mon.signature("midway", st, e, hist)
    else:
        twin = copy.deepcopy(cv)
        full, err, _, lines = strike(lambda: list(twin.split(X, None, groups)), -1, Fault)
        if err is not None:
            return
        _, err, where, _ = strike(job, int(rng.integers(lines)), pick(rng, [Fault, Interrupt]))
        mon.check(err is not None, f"a fault in {where} is swallowed")
        want = (done, len(full))
        mon.signature("midway", st, where, hist)
    got = mon.call(count, cv)
    mon.check(got in want, f"{got} splits are reported after a pass that failed, {done} before it")
    m = size(rng, 5, 40)
    late = dict(X=np.zeros((m, 1)), groups=np.arange(m) * (e + 1))
    mon.check(same(mon.call(c39.observe, "walk", cv, late), mon.call(c39.observe, "walk", WalkForward(**kw), late)), "another splitter after a pass that failed")
    mon.seen("failed_midway")


def signal(mon, rng):
    """A simulation whose indicator fails on some path."""
    kind, d, paths = pick(rng, ["bm", "gbm", "ou"]), pick(rng, [1, 1, 2, 3]), pick(rng, [1, 2, 3])
    base = history(mon, rng, kind, d)
    d = int(np.size(base.vol))
    n = pick(rng, [1, d, d * paths])
    f = rng.normal(0, 0.5, n) * pick(rng, [1.0, -1.0])
    f = pick(rng, [f, f.tolist(), float(f[0])]) if n == 1 else f
    fail = [None, 0]

    def indicator(x):
        fail[1] += 1
        if fail[0] is not None and fail[1] > fail[0]:
            raise pick(rng, [ValueError, Fault, Interrupt])("indicator")
        return np.append(0.0, np.diff(x)) + np.sin(np.arange(len(x)))

    q = QuasiRandom(indicator, f, base)
    req = dict(num_steps=size(rng, 4, 9), num_paths=paths, x0=1.5, dt=0.1, random_state=int(rng.integers(0, 1000)))
    mon.note(model=kind, f_signal_vol=f, request=req)
    want, before, old = mon.call(q.path_sample, **req), snapshot([f, {k: v for k, v in vars(q).items() if k not in ("base_model", "tech_ind_func")}]), views(mon, base, kind)
    for _ in range(size(rng, 1, 3)):
        fail[:] = [int(rng.integers(d * paths)), 0]
        try:
            q.path_sample(**req)
            mon.check(False, "a failure of the indicator is swallowed")
        except (ValueError, Fault, Interrupt):
            mon.calls += 1
        after = snapshot([f, {k: v for k, v in vars(q).items() if k not in ("base_model", "tech_ind_func")}])
        mon.check(after == before, lambda: f"a failure of the indicator on path {fail[0]} changes the simulation: {vars(q)}")
        mon.check(q.base_model is base and q.tech_ind_func is indicator, "the parts of the simulation were replaced")
    fail[0] = None
    mon.check(same(views(mon, base, kind), old), "the base model changed")
    mon.equal(mon.call(q.path_sample, **req), want, "the same request after failures of the indicator")
    mon.seen("failed_indicator")
    mon.signature("signal", kind, d, paths, n, fail[0])


def logs(mon, rng):
    """A refused logging configuration."""
    base = f"log_{mon._where['index']}_{int(rng.integers(1 << 30))}"
    os.makedirs(base)
    old_err = sys.stderr
    import io

    sys.stderr = console = io.StringIO()
    try:
        first = os.path.join(base, "first.log")
        level = pick(rng, [logging.DEBUG, logging.INFO, logging.WARNING])
        to_file = coin(rng, 0.7)
        mon.call(configure_logger, level, to_file, first)
        logger.warning("before")
        fds = len(os.listdir("/proc/self/fd"))
        bad = pick(rng, [dict(log_to_file=True, log_file_path=os.path.join(base, "missing", "x.log")), dict(log_to_file=True, log_file_path=base), dict(verbosity="LOUD"),
                         dict(verbosity=None), dict(verbosity=[1], log_to_file=True, log_file_path=os.path.join(base, "second.log")), dict(log_to_file=True, log_file_path=None),
                         dict(verbosity=logging.CRITICAL, log_to_file=True, log_file_path=os.path.join(base, "first.log", "x"))])
        mon.note(level=level, to_file=to_file, refused={k: str(v) for k, v in bad.items()})
        mon.rejects(f"configuration {bad}", configure_logger, **bad)
        mon.check(len(os.listdir("/proc/self/fd")) <= fds, "a refused configuration leaves files open")
        mon.check(logger.getEffectiveLevel() == level, f"level {logger.getEffectiveLevel()} after a refused configuration, {level} before")
        for lv in (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR):
            logger.log(lv, f"after-{lv}-end")
        text = console.getvalue()
        body = open(first).read() if to_file else None
        for lv in (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR):
            want = int(lv >= level)
            mon.check(text.count(f"after-{lv}-end") == want, f"message of level {lv} reaches the console {text.count(f'after-{lv}-end')} times after a refused configuration, expected {want}")
            if to_file:
                mon.check(body.count(f"after-{lv}-end") == want, f"message of level {lv} reaches the file {body.count(f'after-{lv}-end')} times after a refused configuration, expected {want}")
        mon.seen("refused_logging")
        mon.seen("unchanged")
        mon.signature("logging", level, to_file, tuple(bad))
    finally:
        sys.stderr = old_err
        for h in logger.handlers[:]:
            logger.removeHandler(h)
            h.close()
        logger.setLevel(logging.WARNING)


STAGES = [("interrupted", interrupted, 3000, 40000), ("refused", refused, 2500, 25000), ("other_objects", other, 1200, 12000), ("midway", midway, 1000, 10000), ("indicator", signal, 800, 8000), ("logging", logs, 300, 3000)]
