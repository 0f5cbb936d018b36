"""C04: splitters are functions of the data."""

import warnings

import numpy as np
import pandas as pd

from quantfinlib.train_test_split import TimeAwareKFold, WalkForward
from rv import refs, splits
from rv.core import snapshot
from rv.gens import coin, pick
from rv.props import c03

RULE = "distinct (splitter, containers, history shape) compared with a fresh splitter on plain arrays"
REQUIRED = ["series_groups", "array_groups", "datetime", "abandoned_pass", "interleaved_pass", "repeated_pass",
            "reported_count", "shifted_origin", "refused", "related_data"]


def make(mon, rng):
    """A factory of identical splitters together with the data and the expected splits."""
    if coin(rng):
        case = splits.kfold_case(mon, rng)
        if case is None:
            return None
        kind, freq, groups, unit, n, folds, e, p, lf, want = case
        fac = lambda: TimeAwareKFold(n_folds=folds, n_embargo=e, n_purge=p, look_forward=lf, freq=freq)
        name = "kfold"
    else:
        case = c03.draw(mon, rng)
        if case is None:
            return None
        kind, freq, groups, unit, n, tw, sw, e, st = case
        want = refs.walk_forward(groups, tw * unit, sw * unit, e * unit, st, unit)
        fac = lambda: WalkForward(n_embargo=e, train_window=tw, test_window=sw, split_type=st, freq=freq)
        name = "walk"
    if any(not a for a, _ in want) or not want:
        return None
    return name, fac, kind, groups, unit, n, want


def one(mon, rng):
    m = make(mon, rng)
    if m is None:
        mon.seen("outside_domain")
        return
    name, fac, kind, groups, unit, n, want = m
    cv = fac()
    data = []
    for _ in range(3):
        X, y, g = splits.features(rng, n), splits.target(rng, n), splits.container(rng, kind, groups)
        data.append((X, y, g))
        mon.seen("series_groups" if isinstance(g, pd.Series) else "array_groups")
    prints = [snapshot(d) for d in data]
    hist = []
    for _ in range(int(rng.integers(2, 6))):
        op = pick(rng, ["full", "abandon", "interleave", "count", "other"])
        hist.append(op)
        mon.note(history=hist)
        X, y, g = pick(rng, data)
        if op == "full":
            got = mon.call(lambda: splits.as_lists(cv.split(X, y, g)))
            mon.check(got == want, lambda: f"splits of a used splitter differ: {got} expected {want}")
            mon.seen("repeated_pass")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c = mon.call(cv.get_n_splits)
            mon.check(c == len(want), f"get_n_splits() is {c} after a pass with {len(want)} splits")
            mon.seen("reported_count")
        elif op == "abandon":
            it = cv.split(X, y, g)
            for k in range(int(rng.integers(0, len(want)))):
                a, b = mon.call(next, it)
                mon.check(([int(v) for v in a], [int(v) for v in b]) == want[k], f"split {k} differs in an abandoned pass")
            it.close()
            mon.seen("abandoned_pass")
        elif op == "interleave":
            its = [cv.split(*pick(rng, data)) for _ in range(2)]
            outs = [[], []]
            live = [0, 1]
            while live:
                w = pick(rng, live)
                v = mon.call(next, its[w], None)
                if v is None:
                    live.remove(w)
                else:
                    outs[w] += splits.as_lists([v])
                mon.check(len(outs[w]) <= len(want), "an interleaved pass does not end")
            mon.check(outs[0] == want and outs[1] == want, lambda: f"interleaved passes differ: {outs} expected {want}")
            mon.seen("interleaved_pass")
        elif op == "count":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mon.call(cv.get_n_splits)
        else:  # the same splitter on other data, whose outcome does not matter here
            o = make(mon, rng)
            if o is not None:
                oX, og = splits.features(rng, o[5]), splits.container(rng, o[2], o[3])
                it = cv.split(oX, None, og)
                for _ in range(3):
                    v, err = mon.attempt(next, it, None)
                    if v is None:
                        break
                it.close()
        mon.signature(name, kind, tuple(hist), len(want))
    got = mon.call(lambda: splits.as_lists(cv.split(*data[0])))
    mon.check(got == want, lambda: f"final pass differs after {hist}: {got} expected {want}")
    c = mon.call(cv.get_n_splits)
    mon.check(c == len(want), f"get_n_splits() is {c} after a final pass with {len(want)} splits, history {hist}")
    for d, p in zip(data, prints):
        mon.check(snapshot(d) == p, "an input was modified")
    mon.seen(kind)


def shifted(mon, rng):
    m = make(mon, rng)
    if m is None or m[2] == "none":
        return
    name, fac, kind, groups, unit, n, want = m
    by = int(rng.integers(-500, 500)) * (unit if kind == "datetime" else 1)
    if kind == "datetime":
        by += int(rng.integers(0, 1000)) * 10**9
    g2 = [v + by for v in groups]
    mon.note(shift=by)
    got = mon.call(lambda: splits.as_lists(fac().split(splits.features(rng, n), None, splits.container(rng, kind, g2))))
    mon.check(got == want, lambda: f"splits change when all groups are shifted by {by}: {got} expected {want}")
    if kind == "datetime" and coin(rng):
        tz = pd.DatetimeIndex(np.array(groups, dtype="int64").view("M8[ns]")).tz_localize("UTC")
        tz = tz if coin(rng) else tz.tz_convert("America/New_York")
        got = mon.call(lambda: splits.as_lists(fac().split(splits.features(rng, n), None, tz)))
        mon.check(got == want, "splits change for time zone aware dates")
        mon.seen("time_zone")
    mon.seen("shifted_origin")
    mon.signature("shift", name, kind, n)


def variant(rng, groups):
    """Other groups with the same length, first and last value, and often the same value in the middle or in most places."""
    g, n = list(groups), len(groups)
    a = int(rng.integers(1, n - 1))
    b = int(rng.integers(a, n - 1))
    k = int(rng.integers(4))
    if k == 0:  # a run becomes one group
        g[a : b + 1] = [g[a]] * (b + 1 - a)
    elif k == 1:  # or joins the group before it
        g[a : b + 1] = [g[a - 1]] * (b + 1 - a)
    elif k == 2:  # one value moves
        g[a] = int(rng.integers(g[a - 1], g[a + 1] + 1))
    else:  # everything in between moves
        g[1:-1] = sorted(int(v) for v in rng.integers(g[0], g[-1] + 1, n - 2))
    return g


def related(mon, rng):
    """One splitter for several data sets that look alike."""
    m = make(mon, rng)
    if m is None or m[2] == "none" or m[5] < 4:
        mon.seen("outside_domain")
        return
    name, fac, kind, groups, unit, n, want = m
    sets = [(groups, want)]
    X = splits.features(rng, n)
    for _ in range(3):
        g = variant(rng, sets[-1][0] if coin(rng) else groups)
        w, err = mon.attempt(lambda: splits.as_lists(fac().split(X, None, splits.container(rng, kind, g))))
        if err is None and w:
            sets.append((g, w))
    cv = fac()
    for _ in range(5):
        g, w = pick(rng, sets)
        mon.note(now=g)
        got = mon.call(lambda: splits.as_lists(cv.split(X, None, splits.container(rng, kind, g))))
        mon.check(got == w, lambda: f"a splitter used for other data before gives {got}, a fresh one {w}")
    mon.seen("related_data", len(sets) - 1)
    mon.signature("related", name, kind, n, len(sets), len(want))


def refused(mon, rng):
    n = int(rng.integers(12, 40))
    X = rng.normal(size=(n, 2))
    good = np.sort(rng.integers(0, 2 * n, n))
    bad = good.copy()
    i = int(rng.integers(1, n))
    bad[i - 1] = bad[i] + 1 + int(rng.integers(0, 3))
    mk = [lambda **k: TimeAwareKFold(**{**dict(n_folds=3, n_embargo=0, n_purge=0), **k}),
          lambda **k: WalkForward(**{**dict(n_embargo=0, train_window=3, test_window=2), **k})]
    w = int(rng.integers(2))
    fac = mk[w]
    what = int(rng.integers(8))
    run = lambda cv, *a, **k: (lambda: list(cv.split(*a, **k)))
    if what == 0:
        g = bad.astype(pick(rng, [np.int64, np.uint8, np.uint64, np.int16, float]))
        g = g if coin(rng) else pd.Series(g)
        mon.rejects("unsorted integer groups", run(fac(), X, None, g))
    elif what == 1:
        d = pd.DatetimeIndex(pd.Timestamp("2020-01-01") + pd.to_timedelta(bad, unit="D"))
        d = d if coin(rng) else pd.Series(d)
        mon.rejects("unsorted dates", run(fac(freq="D"), X, None, d))
    elif what == 2:
        v = pick(rng, [-1, -7, pd.Timedelta(-1, unit="D")])
        mon.rejects(f"n_embargo={v}", fac, n_embargo=v)
    elif what == 3:
        v = pick(rng, [-1, -7, pd.Timedelta(-1, unit="D")])
        mon.rejects(f"n_purge={v}", fac, n_purge=v)
    elif what == 4:
        v = pick(rng, [1, 0, -3])
        mon.rejects(f"n_folds={v}", mk[0], n_folds=v)
    elif what == 5:
        v = pick(rng, [X.tolist(), "abc", None, {"a": [1, 2]}])
        mon.rejects(f"features {type(v).__name__}", run(fac(), v))
    elif what == 6:
        v = pick(rng, [list(range(n)), "y", {"a": 1}])
        mon.rejects(f"target {type(v).__name__}", run(fac(), X, v))
    else:
        v = pick(rng, [good.tolist(), tuple(good.tolist()), "g"])
        mon.rejects(f"groups {type(v).__name__}", run(fac(), X, None, v))
    mon.note(splitter=w, what=what)
    mon.seen("refused")
    mon.signature("refused", w, what)


STAGES = [("histories", one, 2500, 40000), ("related", related, 1500, 15000), ("shifted", shifted, 1500, 20000), ("refused", refused, 600, 4000)]
