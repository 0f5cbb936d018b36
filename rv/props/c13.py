"""C13: models are not changed by sampling or scoring; calibration replaces; data is copied."""

import copy

import numpy as np
import pandas as pd

from rv import sims
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (model, operation history) whose used model was compared with an untouched shadow model"
REQUIRED = ["shadow_compared", "refit", "scored_other_data", "data_modified_afterwards", "sampled", "unfitted", "changed_and_scored_again"]


def params(model):
    return [np.asarray(getattr(model, k), float) if getattr(model, k, None) is not None else None
            for k in ("drift", "vol", "mean", "mrr", "cor")]


def labels(v):
    if isinstance(v, pd.Series):
        return ("series", repr(v.name), [str(t) for t in v.index], repr(v.index.name))
    if isinstance(v, pd.DataFrame):
        return ("frame", repr(list(v.columns)), [str(t) for t in v.index], repr(v.index.name))
    return ("array", np.shape(v))


def observe(mon, model, kind, form, d, probe):
    """Everything a user can see of the model: parameters, defaults, labels, scores."""
    lab = {"label_freq": "D"} if form and "irregular" in form else {}
    out = [("parameter", None, v) for v in params(model)]
    reqs = [("default", {}), ("two paths", dict(num_paths=2)), ("one path after two", {}), ("start given", dict(x0=1.25)),
            ("monthly", dict(label_freq="ME", label_start="2001-01-01"))]
    if form:
        reqs += [("last", dict(x0="last")), ("first", dict(x0="first"))]
    for name, kw in reqs:
        v = mon.call(model.path_sample, num_steps=4, random_state=11, **{**lab, **kw})
        out.append((name, labels(v), np.asarray(v, float)))
    first = {name: v for name, *v in out[-len(reqs):]}
    mon.check(first["default"][0] == first["one path after two"][0] and np.array_equal(first["default"][1], first["one path after two"][1]),
              lambda: f"one path after a request for two: {first['one path after two']}, before it {first['default']}")
    for f in ("nll", "aic", "bic"):
        out.append((f, None, np.asarray(mon.call(getattr(model, f), probe, dt=0.1), float)))
    return out


def compare(mon, a, b, what):
    for (n, lu, u), (_, lv, v) in zip(a, b):
        mon.check(lu == lv, f"{what}: labels of {n} differ from the shadow model without those calls: {lu} / {lv}")
        mon.check((u is None) == (v is None), f"{what}: {n} is set on only one of the used and the shadow model")
        if u is not None:
            mon.close(u, v, f"{what}: {n} of the used and the shadow model", rtol=1e-7, atol=1e-9 * (1 + float(np.nanmax(np.abs(v)))))


def one(mon, rng):
    kind, d, p, cor = sims.draw(rng, d=pick(rng, [1, 2, 3]))
    model, shadow = sims.build_plain(kind, p, cor), sims.build_plain(kind, p, cor)
    form, last_data = None, None
    hist = []
    probe_rng = np.random.default_rng(5)
    probe = lambda dd: sims.fit_data(np.random.default_rng(5), kind, 12, dd)
    mon.note(model=kind, params=p, cor=cor)
    compare(mon, observe(mon, model, kind, form, d, probe(d)), observe(mon, copy.deepcopy(shadow), kind, form, d, probe(d)), "new model")
    for _ in range(int(rng.integers(2, 7))):
        op = pick(rng, ["fit", "sample", "score", "score_dates", "modify", "sample", "bad_score", "sample_labels", "rescore"])
        if op == "fit":
            d2 = pick(rng, [1, 2, 3])
            x = sims.fit_data(rng, kind, size(rng, 10, 25), d2)
            if sims.estimators(kind, x, 0.2) is None:
                continue
            twin = copy.deepcopy(rng)
            own, _ = sims.fit_container(twin, x)
            data, form = sims.fit_container(rng, x)
            kw = dict(dt=0.2) if coin(rng) else {}
            # the shadow is a new model calibrated on an own copy: an earlier life has no effect
            shadow = sims.MODELS[kind]()
            mon.call(shadow.fit, own, **kw)
            before = snapshot(data)
            mon.call(model.fit, data, **kw)
            mon.check(snapshot(data) == before, "fit modified its data")
            last_data, d = data, d2
            mon.seen("refit", int("fit" in hist))
        elif op in ("sample", "sample_labels"):
            x0 = sims.x0_for(rng, kind, d)
            before = snapshot(x0)
            kw = dict(label_freq="B", label_start="2015-01-01", columns=[f"q{i}" for i in range(d)]) if op == "sample_labels" else dict(label_freq="D") if form and "irregular" in form else {}
            a = mon.call(model.path_sample, x0=x0, num_steps=size(rng, 1, 9), num_paths=sims.npaths(rng, [1, 3]), dt=pick(rng, [None, 0.05, 1.0, float(10 ** rng.uniform(-12, -3))]), random_state=pick(rng, [None, 4]), **(kw if op == "sample_labels" or form else {}))
            mon.check(snapshot(x0) == before, "path_sample modified its start value")
            arr = a if isinstance(a, np.ndarray) else None
            if arr is not None:
                arr[:] = -1.0  # results are the caller's to modify
            elif isinstance(a, (pd.Series, pd.DataFrame)):
                a.iloc[:] = -1.0
            mon.seen("sampled")
        elif op in ("score", "score_dates"):
            y = sims.fit_data(rng, kind, size(rng, 4, 20), d)
            data = pd.DataFrame(y, columns=[f"other{i}" for i in range(d)])
            if op == "score_dates":
                data.index = sims.regular_index(rng, len(y), name="other")
            elif coin(rng):
                data = y
            before = snapshot(data)
            for f in [pick(rng, ["nll", "aic", "bic"]) for _ in range(2)]:
                mon.call(getattr(model, f), data, *pick(rng, [(), (), (float(10 ** rng.uniform(-9, 1)),)]))
            mon.check(snapshot(data) == before, "scoring modified its data")
            mon.seen("scored_other_data")
        elif op == "rescore":  # the data of an earlier score, with other values now
            y = sims.fit_data(rng, kind, size(rng, 4, 20), d)
            f = pick(rng, ["nll", "aic", "bic"])
            data = y if coin(rng) else pd.DataFrame(y, columns=[f"other{i}" for i in range(d)])
            mon.call(getattr(model, f), data, dt=0.1)
            y2 = sims.fit_data(rng, kind, len(y), d)
            if isinstance(data, np.ndarray):
                data[:] = y2
            else:
                data.iloc[:] = y2
            g = pick(rng, [f, "nll", "aic", "bic"])
            got, want = mon.call(getattr(model, g), data, dt=0.1), mon.call(getattr(copy.deepcopy(model), g), y2.copy(), dt=0.1)
            mon.check(np.isclose(got, want, rtol=1e-9, atol=1e-9) or (np.isnan(got) and np.isnan(want)), f"{g} of data that was scored before it changed is {got!r}, of a copy {want!r}")
            mon.seen("changed_and_scored_again")
        elif op == "bad_score":  # a refused call leaves no trace either
            y = pd.Series(np.ones(6) * 2.0 + np.arange(6), index=pd.date_range("2020-01-01", periods=6, freq="h"))
            mon.attempt(model.nll, y)
        elif op == "modify" and last_data is not None:
            if isinstance(last_data, np.ndarray):
                last_data[:] = 1.0
            else:
                last_data.iloc[:] = 1.0
            mon.seen("data_modified_afterwards")
        hist.append(op)
        mon.note(history=hist)
        compare(mon, observe(mon, model, kind, form, d, probe(d)), observe(mon, copy.deepcopy(shadow), kind, form, d, probe(d)), f"after {hist}")
        mon.seen("shadow_compared")
        mon.signature(kind, tuple(hist[-3:]), form)
    mon.seen("unfitted", int("fit" not in hist))


STAGES = [("histories", one, 1500, 20000)]
