"""C18: containers, index, length and integer input."""

import joblib
import numpy as np
import pandas as pd

from rv import features, gens
from rv.gens import coin, pick, size

RULE = "distinct (feature, index kind, length class, calling style) compared across representations"
REQUIRED = ["mixed_refused", "unsupported_refused", "integers", "float32", "repeated_labels", "by_keyword", "empty_index_name"] + [f.name for f in features.FEATURES]


def call(mon, f, d, params):
    if f.kind == "edge":
        with joblib.parallel_config(backend="threading", n_jobs=2):
            return mon.call(f, d, params)
    return mon.call(f, d, params)


def reject(mon, f, d, params, what):
    if f.kind == "edge":
        with joblib.parallel_config(backend="threading", n_jobs=2):
            return mon.rejects(what, f, d, params)
    return mon.rejects(what, f, d, params)


def one(mon, rng):
    f = pick(rng, features.CHEAP) if coin(rng, 0.985) else features.BY_NAME["edge_spread"]
    n = size(rng, 2, 40, 2000) if f.kind != "edge" else size(rng, 6, 14)
    params = f.params(rng)
    data = f.data(rng, n)
    idx = gens.any_index(rng, n)
    if coin(rng, 0.1):
        idx = pd.Index(np.sort(rng.integers(0, max(n // 2, 1), n)), name="bar")
        mon.seen("repeated_labels", int(not idx.is_unique))
    mon.seen("empty_index_name", int(idx.name is None))
    mon.note(feature=f.name, params=params, data=data, index=idx)
    arr = call(mon, f, data, params)
    mon.check(isinstance(arr, np.ndarray), f"{f.name}: array input gives {type(arr).__name__}")
    mon.check(arr.shape == (n,), f"{f.name}: {n} values in, shape {arr.shape} out")
    ser = features.series(data, idx)
    out = call(mon, f, ser, params)
    mon.check(isinstance(out, pd.Series), f"{f.name}: Series input gives {type(out).__name__}")
    mon.check(len(out) == n and out.index.equals(idx), f"{f.name}: index changed to {out.index}")
    mon.check(type(out.index) is type(idx) or out.index.dtype == idx.dtype, f"{f.name}: index type {type(out.index).__name__}")
    mon.check(out.index.names == idx.names, f"{f.name}: index name {out.index.names}, expected {idx.names}")
    mon.close(out.to_numpy(), arr, f"{f.name} on a Series against an array", rtol=1e-10, atol=1e-12 * (np.nanmax(np.abs(arr)) if np.isfinite(arr).any() else 0))
    # names by keyword, in another order, for plain functions
    if f.kind != "band" and coin(rng, 0.3):
        import inspect

        names = [p for p in inspect.signature(f.fn).parameters][: len(f.inputs)]
        kw = {names[i]: ser[f.inputs[i]] for i in rng.permutation(len(names))}
        g = mon.call(lambda: _kw(f, kw, params))
        mon.equal(np.asarray(g, float), out.to_numpy(), f"{f.name} called by keyword")
        mon.seen("by_keyword")
    # mixing
    if len(f.inputs) > 1:
        mask = rng.integers(0, 2, len(f.inputs))
        if mask.min() != mask.max():
            mixed = {k: (ser[k] if mask[i] else data[k]) for i, k in enumerate(f.inputs)}
            reject(mon, f, mixed, params, f"{f.name} with arrays and Series mixed")
            mon.seen("mixed_refused")
    if coin(rng, 0.3):
        k = pick(rng, f.inputs)
        bad = pick(rng, ["list", "tuple", "frame", "scalar", "none", "string"])
        val = dict(list=list(data[k]), tuple=tuple(data[k]), frame=ser[k].to_frame(), scalar=float(data[k][0]), none=None, string="abc")[bad]
        src = ser if coin(rng) else data
        reject(mon, f, {**src, k: val}, params, f"{f.name} with {k} given as {bad}")
        mon.seen("unsupported_refused")
    # integers
    if coin(rng, 0.5):
        ints = {k: np.clip(np.round(v), 1, 1e5).astype(np.int64) for k, v in data.items()}
        if f.name == "vpin":
            ints["buy"] = np.minimum(ints["buy"], ints["volume"])
        if coin(rng, 0.3):  # whole numbers beyond 32 bits
            k = pick(rng, f.inputs)
            for j in ["high", "low", "open", "close"] if k in ("high", "low", "open") else ["volume", "buy"] if k in ("volume", "buy") else [k]:
                if j in ints:
                    ints[j] = ints[j] * int(max(1, min(1e13 if len(f.inputs) == 1 or k in ("volume", "buy") else 1e10, 1e13) // max(float(ints[k].max()), 1.0)))
            if f.name == "vpin":
                ints["buy"] = np.minimum(ints["buy"], ints["volume"])
            mon.seen("large_integers")
        flt = {k: v.astype(float) for k, v in ints.items()}
        if coin(rng):
            ints, flt = features.series(ints, idx), features.series(flt, idx)
        mon.note(ints=ints)
        a, b = np.asarray(call(mon, f, ints, params), float), np.asarray(call(mon, f, flt, params), float)
        mon.close(a, b, f"{f.name} on integers against floats", rtol=1e-9, atol=1e-11 * (np.nanmax(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0))
        mon.seen("integers")
    elif coin(rng, 0.2):
        single = {k: v.astype(np.float32) for k, v in data.items()}
        mon.note(single=single)
        a = call(mon, f, single, params)
        mon.check(isinstance(a, np.ndarray) and a.shape == (n,), f"{f.name}: single precision array gives {type(a).__name__}")
        mon.seen("float32")
    mon.seen(f.name)
    mon.signature(f.name, str(idx.dtype), min(n, 20), sorted(params.values()))


def _kw(f, kw, params):
    if f.kind == "edge":
        with joblib.parallel_config(backend="threading", n_jobs=2):
            return f.fn(**kw, **params)
    return f.fn(**kw, **params)


STAGES = [("features", one, 7000, 70000)]
