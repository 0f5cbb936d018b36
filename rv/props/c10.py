"""C10: the effective time step."""

import numpy as np
import pandas as pd

from rv import sims
from rv.gens import coin, pick, size

RULE = "distinct (operation, source of the time step, frequency) with the effective step recovered from outputs"
REQUIRED = ["sim_given", "sim_label_freq", "sim_calibrated", "sim_default", "fit_given", "fit_dates", "fit_default",
            "score_given", "score_dates", "score_default", "refused", "refitted", "decoy", "usual_lengths", "sim_same_frequency"]
DT = sims.FREQS


def effective(mon, rng, kind, model, p, req, dated):
    """Time step of a noise free run, recovered from its first step."""
    x0 = 2.0
    steps = {"num_steps": 3}
    if coin(rng, 0.25) and "label_freq" not in req and "label_start" not in req and not dated or coin(rng, 0.2) and str(req.get("label_freq"))[0] in "DBMWQh":  # usual lengths
        steps = pick(rng, [{}, {"num_steps": pick(rng, [1, 2, 4, 5, 12, 20, 52, 60, 250, 252, 260, 365, 366])}])
        mon.seen("usual_lengths")
    out = sims.to_space(kind, mon.call(model.path_sample, x0=x0, **steps, **req))[:4]
    mon.check(np.isfinite(out).all(), "noise free run is not finite")
    if kind == "ou":
        r = (out[1:, 0] - p["mean"][0]) / (out[:-1, 0] - p["mean"][0])
        return -np.log(r) / p["mrr"][0]
    return np.diff(out[:, 0]) / p["drift"][0]


def sim(mon, rng):
    kind = pick(rng, ["bm", "gbm", "ou"])
    calibrated = coin(rng, 0.5)
    fdt = None
    p = dict(mean=[0.5], mrr=[0.7], vol=[0.0]) if kind == "ou" else dict(drift=[0.8], vol=[0.0])
    if calibrated:
        # data without noise: a straight line, an exponential, or an exact decay
        n = size(rng, 6, 30, 120)
        form = pick(rng, ["array", "dates", "irregular", "given", "given_dates"])
        idx = sims.regular_index(rng, n) if form.endswith("dates") else (sims.irregular_index(rng, n) if form == "irregular" else None)
        data = rng.normal(size=n)  # replaced below once the time step is known
        fdt = 1 / 252
        if form == "dates":
            fdt = sims.data_dt(pd.Series(data, index=idx))
        kw = {}
        if form.startswith("given"):
            fdt = float(10 ** rng.uniform(-3, 0))
            kw["dt"] = fdt
        t = np.arange(n) * fdt
        if kind == "ou":
            data = 0.5 + (3 - 0.5) * np.exp(-0.7 * t) + rng.normal(0, 1e-9, n)
        else:
            data = 1 + 0.8 * t if kind == "bm" else np.exp(0.8 * t)
        ser = data if idx is None else pd.Series(data, index=idx)
        mon.note(kind=kind, form=form, data=ser, fdt=fdt)
        model = sims.MODELS[kind]()
        refit(mon, rng, kind, model)
        mon.call(model.fit, ser, **kw)
        model.vol = np.zeros_like(model.vol)  # public parameter: remove the noise
        p = params_of(kind, model)
    else:
        model = sims.build_plain(kind, p, None)
    req = {}
    src = pick(rng, ["given", "label", "fallback", "label_unknown", "both"])
    want = fdt or 1 / 252
    if src in ("given", "both"):
        want = req["dt"] = float(10 ** rng.uniform(-3, 0.5))
    if src in ("label", "both"):
        f = pick(rng, sorted(DT) + ["W-WED", "QE-NOV", "QS-FEB", "YE-JUN"])
        if calibrated and form.endswith("dates") and coin(rng):
            f = pd.infer_freq(idx)  # as the data
            mon.seen("sim_same_frequency")
        req.update(label_freq=f, label_start="2010-01-04")
        if src == "label":
            want = DT[f.split("-")[0]]
        mon.seen("sim_anchored", int("-" in f))
    if src == "label_unknown":
        req.update(label_freq=pick(rng, ["h", "2D", "15min"]), label_start="2010-01-04")
    if src == "fallback" and coin(rng, 0.4):
        if calibrated and form.endswith("dates"):
            req.update(label_start="2010-01-04")
        else:
            req.update(columns=["a"])
    if calibrated and form == "irregular" and "label_freq" not in req:
        if src == "fallback" :
            return
        req.update(label_freq="h", label_start="2010-01-04")
    mon.note(kind=kind, calibrated=calibrated, request=req)
    got = effective(mon, rng, kind, model, p, req, calibrated and form.endswith("dates"))
    tol = 1e-6
    mon.close(got, [want] * len(got), f"effective time step ({src}, calibrated {calibrated})", rtol=tol, atol=1e-12)
    mon.seen(dict(given="sim_given", both="sim_given", label="sim_label_freq").get(src, "sim_calibrated" if calibrated else "sim_default"))
    mon.signature("sim", kind, calibrated, src, req.get("label_freq"))


def data_for(mon, rng, least=10):
    """Data with its expected time step."""
    kind, d = pick(rng, ["bm", "gbm", "ou"]), pick(rng, [1, 2])
    n = size(rng, least, 30, 1500)
    x = sims.fit_data(rng, kind, n, d)
    form = pick(rng, ["array", "frame", "dates", "dates", "irregular"])
    if form == "array":
        return kind, d, x, x.copy(), form, 1 / 252, None
    df = pd.DataFrame(x.copy(), columns=[f"c{i}" for i in range(d)])
    f = None
    want = 1 / 252
    if form == "dates":
        f = pick(rng, ["D", "B", "W", "W-MON", "W-FRI", "ME", "MS", "QE", "QS", "QE-OCT", "QS-FEB", "YE", "YS", "YE-MAR", "YS-APR"])
        f = f if n < 200 else pick(rng, ["D", "B", "W", "W-MON", "W-FRI", "ME", "MS"])
        df.index = sims.regular_index(rng, n, f, tz=coin(rng, 0.1))
        want = DT[f.split("-")[0]] if n > 9 else sims.data_dt(df)  # a few business days may be a few days
    elif form == "irregular":
        df.index = sims.irregular_index(rng, n)
    data = df["c0"] if d == 1 and coin(rng) else df
    return kind, d, x, data, form, want, f


def params_of(kind, m):
    names = ("mean", "mrr", "vol") if kind == "ou" else ("drift", "vol")
    return {k: np.asarray(getattr(m, k), float).reshape(-1) for k in names}


def refit(mon, rng, kind, m, d=1):
    """Give the model a history: calibrations with other time steps, which may not matter afterwards."""
    while coin(rng, 0.35):
        x = sims.fit_data(rng, kind, 20, d)
        if sims.estimators(kind, x, 1.0) is None:
            continue
        if coin(rng):
            mon.call(m.fit, x, dt=float(10 ** rng.uniform(-3, 0.5)))
        else:
            mon.call(m.fit, pd.DataFrame(x, index=sims.regular_index(rng, 20)))
        if coin(rng, 0.3):
            mon.call(m.path_sample, x0=1.0, num_steps=2, dt=0.3)
        mon.seen("refitted")


def decoy(mon, rng, data):
    """Let the library see other data with as many rows and the same first and last date."""
    idx = getattr(data, "index", None)
    if not isinstance(idx, pd.DatetimeIndex) or len(idx) < 3 or not coin(rng, 0.3):
        return
    if coin(rng):
        other = pd.date_range(idx[0], idx[-1], periods=len(idx))
    else:
        inner = np.sort(rng.uniform(0.01, 0.99, len(idx) - 2))
        other = pd.DatetimeIndex([idx[0]] + [idx[0] + (idx[-1] - idx[0]) * float(u) for u in inner] + [idx[-1]])
    x = pd.Series(rng.normal(size=len(idx)).cumsum(), index=other)
    mon.attempt(sims.MODELS["bm"]().fit, x)
    mon.seen("decoy")


def fit(mon, rng):
    kind, d, x, data, form, want, f = data_for(mon, rng)
    if sims.estimators(kind, x, 1.0) is None:
        return
    kw = {}
    if coin(rng, 0.3):
        want = kw["dt"] = float(10 ** rng.uniform(-3, 0.5))
    mon.note(kind=kind, data=data, **kw)
    decoy(mon, rng, data)
    m = sims.MODELS[kind]()
    refit(mon, rng, kind, m, d)
    m = mon.call(m.fit, data, **kw)
    ref = mon.call(sims.MODELS[kind]().fit, x, dt=want)
    a, b = params_of(kind, m), params_of(kind, ref)
    for k in a:
        mon.close(a[k], b[k], f"{k} calibrated with the time step of the data ({f or form}) and with dt={want}", rtol=1e-9)
    # and the time step has the documented effect: per unit time estimates scale with it
    base = sims.estimators(kind, x, want)
    for k in a:
        mon.close(a[k], base[k], f"{k} per unit of time", rtol=1e-6, atol=1e-9)
    mon.seen("fit_given" if kw else ("fit_dates" if form == "dates" else "fit_default"))
    mon.signature("fit", kind, d, form, f, bool(kw))


def score(mon, rng):
    kind, d, x, data, form, want, f = data_for(mon, rng, 3)
    _, _, p, cor = sims.draw(rng, d=d, kind=kind)
    m = sims.build(rng, kind, p, cor)
    kw = {}
    if coin(rng, 0.3):
        want = kw["dt"] = float(10 ** rng.uniform(-3, 0.5))
    other = sims.fit_data(rng, kind, 25, d) if len(x) < 12 or coin(rng) else x
    if coin(rng, 0.5) and sims.estimators(kind, other, 1.0) is not None:
        mon.call(m.fit, other, dt=0.7)  # the step used in calibration is not used for scoring
        p = {k: v.tolist() for k, v in params_of(kind, m).items()}
        cor = m.cor
    mon.note(kind=kind, data=data, params=p, cor=cor, **kw)
    which = pick(rng, ["nll", "aic", "bic"])
    decoy(mon, rng, data)
    got = mon.call(getattr(m, which), data, **kw)
    ref = mon.call(getattr(m, which), x, dt=want)
    mon.close(got, ref, f"{which} with the time step of the data ({f or form}) and with dt={want}", rtol=1e-9)
    mon.close(mon.call(m.nll, data, **kw), sims.nll(kind, p, cor, x, want), f"nll with time step {want}", rtol=1e-6, atol=1e-6)
    mon.seen("score_given" if kw else ("score_dates" if form == "dates" else "score_default"))
    mon.signature("score", kind, d, form, f, bool(kw), which)


def refused(mon, rng):
    kind = pick(rng, ["bm", "gbm", "ou"])
    n = size(rng, 6, 20, 1000)
    f = pick(rng, ["h", "15min", "2D", "3D", "2W", "6h", "s"])
    x = pd.Series(sims.fit_data(rng, kind, n, 1)[:, 0], index=pd.date_range("2011-05-03 05:00", periods=n, freq=f))
    x = x if coin(rng) else x.to_frame()
    mon.note(kind=kind, freq=f)
    mon.rejects(f"calibration on {f} data without time step", sims.MODELS[kind]().fit, x)
    m = sims.build_plain(kind, sims.unit(kind, 1), None)
    mon.rejects(f"scoring {f} data without time step", pick(rng, [m.nll, m.aic, m.bic]), x)
    if sims.estimators(kind, x.to_numpy().reshape(-1, 1), 1.0) is not None:
        mon.call(sims.MODELS[kind]().fit, x, dt=0.01)
    mon.seen("refused")
    mon.signature("refused", kind, f)


STAGES = [("simulation", sim, 3000, 30000), ("calibration", fit, 2000, 20000), ("scoring", score, 2000, 20000),
          ("refused", refused, 200, 1500)]
