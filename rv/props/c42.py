"""C42: results depend on the values of the inputs, not on how they are stored."""

import numpy as np
import pandas as pd

from rv import purity
from rv.core import snapshot
from rv.gens import coin, pick
from rv.props.c36 import same

RULE = "distinct (function, storage of each array argument) compared with the same values stored plainly"
NAMES = sorted(k for k, (_, draws) in purity.OPS.items() if not draws and not k.startswith("datasets") and k not in ("get_project_root",))
STORES = ["fortran", "strided", "reversed", "view", "read_only", "transposed_copy", "inner_slice"]
REQUIRED = STORES + ["pandas_storage", "several_arguments", "whole_numbers", "block_of_frame", "unsigned", "small_integers"]


def store(rng, a, how):
    """The same values, stored differently; None when the form does not exist for this array."""
    if how == "fortran":
        return np.asfortranarray(a) if a.ndim > 1 else None
    if how == "strided":
        big = np.full(tuple(2 * s + 1 for s in a.shape), -77, a.dtype)
        v = big[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        ax = int(rng.integers(a.ndim))
        return np.flip(np.flip(a, ax).copy(), ax)
    if how == "view":
        v = a.copy()
        return v[...]
    if how == "read_only":
        v = a.copy()
        v.setflags(write=False)
        return v
    if how == "transposed_copy":
        return np.ascontiguousarray(a.T).T if a.ndim > 1 else None
    if how == "inner_slice":
        big = np.full(tuple(s + 4 for s in a.shape), 99, a.dtype)
        v = big[tuple(slice(2, -2) for _ in a.shape)]
        v[...] = a
        return v
    return None


def restore(mon, rng, x, how):
    """x with all its arrays stored in another way, and whether anything changed."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "fi" and x.ndim in (1, 2) and x.size:
        v = store(rng, x, how)
        return (v, v is not None) if v is not None else (x, False)
    if isinstance(x, pd.DataFrame):
        k = int(rng.integers(3))
        mon.seen("pandas_storage")
        if k == 0:  # one block per column
            return pd.concat([x.iloc[:, [i]].copy() for i in range(x.shape[1])], axis=1), True
        if k == 1:  # part of a wider frame
            y = x.copy()
            y.insert(0, "__other", 1.5)
            return y.iloc[:, 1:], True
        return pd.DataFrame(np.asfortranarray(x.to_numpy()), columns=x.columns, index=x.index), True
    if isinstance(x, pd.Series) and x.dtype.kind in "fi":
        k = int(rng.integers(3))
        mon.seen("pandas_storage")
        if k == 0:  # a column of a frame
            mon.seen("block_of_frame")
            f = pd.DataFrame(np.column_stack([np.zeros(len(x)), x.to_numpy(), np.ones(len(x))]).astype(x.dtype), index=x.index)
            return f[1].rename(x.name), True
        if k == 1:  # every second element of a longer series
            v = np.repeat(x.to_numpy(), 2)
            return pd.Series(v, index=x.index.repeat(2), name=x.name).iloc[::2], True
        v = x.to_numpy()[::-1].copy()
        return pd.Series(v[::-1], index=x.index, name=x.name), True
    return x, False


def layout(mon, rng):
    name = pick(rng, NAMES)
    fn, args = purity.OPS[name][0](rng)
    how = pick(rng, STORES)
    new, changed = [], 0
    for a in args:
        v, c = restore(mon, rng, a, how) if coin(rng, 0.8) else (a, False)
        new.append(v)
        changed += c
    if not changed:
        return
    mon.note(function=name, storage=how, arguments=args)
    want, e1 = mon.attempt(purity.sequential, fn, args)
    before = snapshot(new)
    got, e2 = mon.attempt(purity.sequential, fn, new)
    mon.check((e1 is None) == (e2 is None), f"{name}: {e1!r} for plain storage, {e2!r} for {how}")
    if e1 is None:
        mon.check(same(got, want), f"{name}: another result for the same values stored {how}")
    mon.check(snapshot(new) == before, f"{name}: arguments modified")
    mon.seen(how)
    mon.seen("several_arguments", int(changed > 1))
    mon.signature(name, how, changed, tuple(type(a).__name__ for a in args))


def rounded(x, rng, scale):
    """The argument with whole numbers as floats, and the same as integers."""
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        r = np.where(np.isfinite(x), np.round(x * scale), 0.0)
        return r, True
    if isinstance(x, (pd.Series, pd.DataFrame)) and all(t.kind == "f" for t in (x.dtypes if isinstance(x, pd.DataFrame) else [x.dtype])):
        return (x * scale).round().fillna(0.0), True
    return x, False


INTEGERS = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]
WHOLE = [n for n in NAMES if n.startswith("feature.") or n == "cusum" or n.startswith("distance.") and "dist" not in n.split(".")[1] and "diverg" not in n and "corr" not in n]


def as_dtype(x, t):
    return x.astype(t)


def numbers(mon, rng):
    """Whole numbers stored as floats or as integers."""
    name = pick(rng, WHOLE)
    fn, args = purity.OPS[name][0](rng)
    f, ints, n = [], [], 0
    feature = name.startswith("feature.") or name == "cusum"
    t = pick(rng, INTEGERS) if feature and coin(rng, 0.7) else pick(rng, [np.int64, np.int64, np.int32])
    limit = 2.0**30 if not feature else float(np.iinfo(t).max)
    scale = float(pick(rng, [50.0, 50.0, 5.0, 1.0])) if feature else 50.0
    for a in args:
        r, ok = rounded(a, rng, scale)
        if ok:
            v = np.asarray(r)
            big, low = (np.abs(v).max(), v.min()) if v.size else (0, 0)
            ok = big <= min(limit, 2.0**53) and (low >= 0 or np.iinfo(t).min < 0)
        f.append(r if ok else a)
        ints.append(as_dtype(r, t if feature or big < 1e4 else np.int64) if ok and coin(rng, 0.8) else f[-1])
        n += ints[-1] is not f[-1]
    if not n:
        return
    mon.note(function=name, arguments=f, dtype=str(t))
    want, e1 = mon.attempt(purity.sequential, fn, f)
    got, e2 = mon.attempt(purity.sequential, fn, ints)
    mon.check((e1 is None) == (e2 is None), f"{name}: {e1!r} for floats, {e2!r} for integers")
    if e1 is None:
        mon.check(same(got, want), f"{name}: another result for the same whole numbers stored as {t.__name__}")
    mon.seen("whole_numbers")
    mon.seen("unsigned", int(np.iinfo(t).min == 0))
    mon.seen("small_integers", int(np.iinfo(t).bits < 64))
    mon.signature(name, "integers", t.__name__, n)


STAGES = [("layout", layout, 6000, 60000), ("whole_numbers", numbers, 5000, 50000)]
