"""C09: labels of simulated output."""

import numpy as np
import pandas as pd

from rv import sims
from rv.gens import coin, pick, size

RULE = "distinct (model, calibration container, requested labels, variates, paths) of labelled results"
REQUIRED = ["plain_array", "series", "frame", "requested_dates", "calibrated_dates", "requested_columns",
            "calibrated_columns", "generated_columns", "several_paths", "continued_from_last", "index_name", "time_zone"]


def labels(fit, d, paths, req):
    """Reference model: (kind of result, index or None, column labels or None)"""
    cont = type(fit) if fit is not None else None
    fidx = fit.index if cont in (pd.Series, pd.DataFrame) and isinstance(fit.index, pd.DatetimeIndex) else None
    dated = fidx is not None or "label_start" in req or "label_freq" in req
    named = dated or cont in (pd.Series, pd.DataFrame) or "columns" in req
    if not named:
        return "array", None, None
    n = req["num_steps"] + 1
    if dated:
        start = req.get("label_start")
        if start is None:
            start = fidx.max() if req.get("x0") == "last" else fidx.min()
        freq = req.get("label_freq") or pd.infer_freq(fidx)
        idx = pd.date_range(start, periods=n, freq=freq, name=None if fidx is None else fidx.name)
    else:
        idx = pd.RangeIndex(n)
    if "columns" in req:
        base = list(req["columns"])
    elif cont is pd.DataFrame:
        base = list(fit.columns)
    elif cont is pd.Series:
        base = [fit.name]
    else:
        base = ["S"] if d == 1 else [f"S{i}" for i in range(d)]
    cols = base if paths == 1 else [f"{b}_{i}" for i in range(paths) for b in base]
    single = len(cols) == 1 and cont in (None, pd.Series)
    return ("series" if single else "frame"), idx, cols


def one(mon, rng):
    fitted = coin(rng, 0.6)
    if fitted:
        kind, d = pick(rng, ["bm", "gbm", "ou"]), sims.dims(rng, [1, 1, 2, 3])
        x = sims.fit_data(rng, kind, size(rng, 8, 30, 800) + 3 * d, d)
        p = sims.estimators(kind, x, 0.3)
        if p is None:
            return
        cor = p.pop("cor")
        fit, form = sims.fit_container(rng, x)
        model = sims.MODELS[kind]()
        mon.note(model=kind, data=fit)
        mon.call(model.fit, fit, dt=0.3)
    else:
        kind, d, p, cor = sims.draw(rng)
        fit, form, x = None, "none", None
        model = sims.build(rng, kind, p, cor)
    paths = sims.npaths(rng, [1, 1, 2, 3])
    req = dict(num_steps=size(rng, 1, 20, 6000) if coin(rng, 0.98) else 0, num_paths=paths)
    dated_fit = "dates" in form
    if dated_fit:  # calendars end in 2262
        req["num_steps"] = min(req["num_steps"], 60)
    if coin(rng, 0.45) or "irregular" in form:
        req["label_freq"] = pick(rng, ["D", "B", "h", "2D"] + (["W", "W-TUE", "ME", "MS"] if req["num_steps"] < 2500 else []) + (["QE", "QS", "YE"] if req["num_steps"] < 100 else []))
    if (("label_freq" in req and not ("irregular" in form or dated_fit)) or
            (("label_freq" in req or dated_fit) and coin(rng, 0.5))):
        s = pd.Timestamp("2005-03-01") + pd.Timedelta(int(rng.integers(0, 5000)), unit="D")
        if coin(rng, 0.25) and not dated_fit:  # with a time zone or a time of day
            s = (s + pd.Timedelta(int(rng.integers(21600, 86000)), unit="s")).tz_localize(pick(rng, [None, "UTC", "Asia/Tokyo", "US/Eastern"]))
            mon.seen("time_zone", int(s.tz is not None))
            req["label_start"] = pick(rng, [s, str(s), s.isoformat(), s.to_pydatetime()])
        else:
            req["label_start"] = pick(rng, [s, str(s.date()), s.to_pydatetime()])
    if coin(rng, 0.35):
        req["columns"] = pick(rng, [[f"col{i}" for i in range(d)], [f"z{d - i}" for i in range(d)]])
    how = pick(rng, ["default", "given", "first", "last"]) if fitted else "given"
    if how == "given":
        x0 = sims.x0_for(rng, kind, d)
        req["x0"] = x0
    elif how != "default":
        req["x0"] = how
    if not fitted or coin(rng, 0.7):
        req["dt"] = 0.3
    else:
        req.pop("label_freq", None) if not ("irregular" in form) else req.update(dt=0.3)
        if "label_start" in req and not dated_fit and "label_freq" not in req:
            req.pop("label_start")
    seed = int(rng.integers(0, 10**6))
    mon.note(request=req, params=p, cor=cor)
    out = mon.call(model.path_sample, random_state=seed, **req)
    want, idx, cols = labels(fit, d, paths, {k: v for k, v in req.items() if not (k == "x0" and how == "given")})
    got = {np.ndarray: "array", pd.Series: "series", pd.DataFrame: "frame"}.get(type(out), type(out).__name__)
    mon.check(got == want, f"result is a {got}, expected {want}")
    if want == "series":
        mon.check(out.name == cols[0], f"series is named {out.name!r}, expected {cols[0]!r}")
    if want == "frame":
        mon.check(list(out.columns) == cols, f"columns {list(out.columns)}, expected {cols}")
    if idx is not None:
        mon.check(len(out.index) == len(idx) and list(out.index) == list(idx),
                  f"index {list(out.index[:2])}..{out.index[-1]}, expected {list(idx[:2])}..{idx[-1]}")
        if isinstance(idx, pd.DatetimeIndex):
            mon.check(isinstance(out.index, pd.DatetimeIndex), "index is not a DatetimeIndex")
            mon.check(out.index.name == idx.name, f"index name {out.index.name!r}, expected {idx.name!r}")
            mon.check(str(out.index.tz) == str(idx.tz), "time zone of the index")
    # the values do not depend on the labels
    start = x0 if how == "given" else (x[-1] if how == "last" else x[0])
    bare = mon.call(sims.build_plain(kind, p, cor).path_sample, x0=np.asarray(start), dt=0.3, num_steps=req["num_steps"],
                    num_paths=paths, random_state=seed)
    mon.check(isinstance(bare, np.ndarray), f"a request without labels on an uncalibrated model returns {type(bare).__name__}")
    v = sims.values(out)
    mon.close(v, bare, "values of the labelled and the plain result", rtol=1e-6, atol=1e-7 * np.abs(bare).max())
    if coin(rng, 0.3):
        part = mon.call(model.path_sample, random_state=seed, include_x0=False, **req)
        mon.check(type(part) is type(out), "container changes without initial value")
        if want != "array":
            mon.check(list(part.index) == list(idx[1:]), "index without initial value is not the remaining one")
        mon.equal(sims.values(part), v[1:], "values without initial value")
    mon.seen(dict(array="plain_array").get(want, want))
    if idx is not None and isinstance(idx, pd.DatetimeIndex):
        mon.seen("requested_dates" if "label_start" in req else "calibrated_dates")
        mon.seen("index_name", int(idx.name is not None))
        mon.seen("continued_from_last", int(how == "last" and "label_start" not in req))
    if cols:
        mon.seen("requested_columns" if "columns" in req else ("calibrated_columns" if form not in ("none", "array", "array1") else "generated_columns"))
        mon.seen("several_paths", int(paths > 1))
    mon.signature(kind, form, d, paths, how, tuple(sorted(req)))


STAGES = [("labels", one, 6000, 60000)]
