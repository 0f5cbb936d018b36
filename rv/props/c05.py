"""C05: shape, column order and start values of simulated paths."""

import numpy as np

from rv import sims
from rv.gens import coin, pick, size

RULE = "distinct (model, variates, paths, start value form, calibrated, steps class) of simulated results"
REQUIRED = ["x0_one", "x0_per_variate", "x0_per_column", "x0_default", "fit_default", "fit_first", "fit_last",
            "several_paths_and_variates", "no_initial_value", "no_steps", "large_request", "refused_start_values"]


def check_rows(mon, rng, model, kind, d, req, want_row):
    """Run the request with and without initial value; want_row has one value per column."""
    seed = int(rng.integers(0, 2**31)) if coin(rng, 0.9) else 0
    steps, paths = req["num_steps"], req.get("num_paths", 1)
    full = mon.call(model.path_sample, random_state=seed, **req)
    mon.check(full.shape == ((steps + 1, d * paths) if full.ndim == 2 else (steps + 1,)) and (full.ndim == 2 or d * paths == 1),
              f"shape {full.shape} for {steps} steps, {d} variates, {paths} paths")
    v = sims.values(full)
    mon.close(v[0], want_row, "first row", rtol=1e-12, atol=1e-12)
    part = mon.call(model.path_sample, random_state=seed, include_x0=False, **req)
    mon.equal(sims.values(part), v[1:], "result without initial value")
    if hasattr(full, "index"):
        mon.check(list(part.index) == list(full.index[1:]), "index without initial value")
        mon.check(type(part) is type(full), "container without initial value")
    mon.seen("no_initial_value")
    mon.seen("no_steps", int(steps == 0))
    if coin(rng, 0.2):
        again = mon.call(model.path_sample, random_state=seed, include_x0=True, **req)
        mon.equal(sims.values(again), v, "include_x0=True is the default")
    mon.seen("several_paths_and_variates", int(d > 1 and paths > 1))
    return v


def uncalibrated(mon, rng):
    kind, d, p, cor = sims.draw(rng)
    model = sims.build(rng, kind, p, cor)
    paths = sims.npaths(rng, [1, 1, 2, 3, 5, 9])
    req = dict(num_steps=size(rng, 1, 40, 3000) if coin(rng, 0.97) else 0)
    if paths > 1 or coin(rng):
        req["num_paths"] = paths
    form = pick(rng, ["x0_one", "x0_per_variate", "x0_per_column", "x0_default"])
    n = dict(x0_one=1, x0_per_variate=d, x0_per_column=d * paths, x0_default=0)[form]
    if n:
        x0 = sims.x0_for(rng, kind, n)
        if coin(rng, 0.2):
            x0 = np.ceil(np.abs(x0))
        req["x0"] = sims.x0_form(rng, x0)
        want = [x0[c % n] for c in range(d * paths)]
    else:
        want = [100.0 if kind == "gbm" else 0.0] * (d * paths)
    if coin(rng):
        req["dt"] = float(10 ** rng.uniform(-3, 0))
    if coin(rng, 0.004):  # about a million values
        req["num_paths"] = paths = int(rng.integers(300, 900))
        req["num_steps"] = int(rng.integers(500_000, 1_200_000) // (paths * d))
        mon.seen("large_request")
        if form == "x0_per_column":
            req["x0"] = x0 = sims.x0_for(rng, kind, d * paths)
            n = d * paths
        want = [x0[c % n] for c in range(d * paths)] if n else [want[0]] * (d * paths)
        req["dt"] = 1e-4
    mon.note(model=kind, params=p, cor=cor, request=req)
    check_rows(mon, rng, model, kind, d, req, want)
    mon.seen(form)
    mon.signature(kind, d, paths, form, min(req["num_steps"], 4))


def order(mon, rng):
    """Noise free runs identify which column belongs to which variate."""
    kind, d, p, cor = sims.draw(rng, d=sims.dims(rng, [1, 2, 3, 4]), vol0=True)
    model = sims.build(rng, kind, p, cor)
    paths, steps, dt = sims.npaths(rng, [1, 2, 3, 6]), size(rng, 1, 30, 1000), float(10 ** rng.uniform(-2, 0))
    x0 = sims.x0_for(rng, kind, d * paths)
    mon.note(model=kind, params=p, paths=paths, steps=steps, dt=dt, x0=x0)
    out = sims.values(mon.call(model.path_sample, x0=x0, dt=dt, num_steps=steps, num_paths=paths))
    want = np.empty((steps + 1, d * paths))
    for c in range(d * paths):
        q = {k: [v[c % d]] for k, v in p.items()}
        x = np.log(x0[c]) if kind == "gbm" else x0[c]
        for t in range(steps + 1):
            want[t, c] = np.exp(x) if kind == "gbm" else x
            x = sims.step_mean(kind, q, x, dt)[0]
    mon.close(out, want, "noise free paths per column", rtol=1e-9, atol=1e-9)
    mon.seen("column_order")
    mon.signature("order", kind, d, paths, min(steps, 4))


def calibrated(mon, rng):
    kind = pick(rng, ["bm", "gbm", "ou"])
    d = sims.dims(rng, [1, 1, 2, 3])
    n = size(rng, 6, 40, 800) + 3 * d
    x = sims.fit_data(rng, kind, n, d)
    if sims.estimators(kind, x, 1 / 252) is None:
        return
    data, form = sims.fit_container(rng, x)
    model = sims.MODELS[kind]()
    mon.note(model=kind, data=data)
    mon.call(model.fit, data)
    paths = sims.npaths(rng, [1, 1, 2, 4])
    req = dict(num_steps=size(rng, 1, 30, 1500) if coin(rng, 0.97) else 0, num_paths=paths)
    if "dates" in form:  # calendars end in 2262
        req["num_steps"] = min(req["num_steps"], 60)
    if "irregular" in form:
        req["label_freq"] = "D"
    how = pick(rng, ["fit_default", "fit_first", "fit_last", "fit_given"])
    row = x[0] if how != "fit_last" else x[-1]
    if how in ("fit_first", "fit_last"):
        req["x0"] = how[4:]
    if how == "fit_given":
        row = sims.x0_for(rng, kind, pick(rng, [1, d]))
        req["x0"] = sims.x0_form(rng, row, getattr(data, "columns", None))
    mon.note(request=req)
    check_rows(mon, rng, model, kind, d, req, [row[c % len(row)] for c in range(d * paths)])
    mon.seen(how)
    mon.signature("fit", kind, d, paths, how, form)


def refused(mon, rng):
    kind, d, p, cor = sims.draw(rng)
    model = sims.build(rng, kind, p, cor)
    mon.rejects("x0='first' on an uncalibrated model", model.path_sample, x0="first", num_steps=3)
    mon.rejects("x0='last' on an uncalibrated model", model.path_sample, x0="last", num_steps=3)
    # a number of start values that fits neither variates nor columns
    paths = pick(rng, [1, 2, 3, 4, 7])
    n = int(rng.integers(2, d * paths + 4))
    if (d * paths) % n:
        x0 = sims.x0_for(rng, kind, n)
        x0 = pick(rng, [x0, x0.tolist()])
        mon.note(model=kind, variates=d, paths=paths, x0=x0)
        mon.rejects(f"{n} start values for {d} variates and {paths} paths", model.path_sample, x0=x0, num_steps=3, num_paths=paths, **({"random_state": 1} if coin(rng) else {}))
        mon.seen("refused_start_values")
    mon.seen("refused")


STAGES = [("uncalibrated", uncalibrated, 6000, 80000), ("column_order", order, 4000, 60000),
          ("calibrated", calibrated, 3000, 30000), ("refused", refused, 600, 3000)]
