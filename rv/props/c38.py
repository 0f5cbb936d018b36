"""C38: input validation of the guarded functions."""

import numpy as np
import pandas as pd

import quantfinlib.distance as D
from quantfinlib.clustering import gap_statistic, silhouette_tstat
from quantfinlib.distance.distance_matrix import corr_to_dist
from quantfinlib.util import validate_frame_or_2Darray, validate_series_or_1Darray
from rv import gens
from rv.core import describe, rng_state, snapshot
from rv.gens import coin, pick, size

RULE = "distinct (function, argument, accepted or refused, type and shape class of the argument, calling style)"
REQUIRED = ["accepted", "refused", "by_name", "by_position", "absent", "none", "metadata", "stacked", "not_called", "defaults", "method", "variadic"]


class OwnArray(np.ndarray):
    """Arrays of other libraries, such as memory mapped ones, derive from the array type."""


class OwnSeries(pd.Series):
    @property
    def _constructor(self):
        return OwnSeries


class OwnFrame(pd.DataFrame):
    @property
    def _constructor(self):
        return OwnFrame

    @property
    def _constructor_sliced(self):
        return OwnSeries


def good_vector(rng, n=None):
    n = n or size(rng, 2, 12)
    v = rng.normal(size=n)
    k = int(rng.integers(8))
    if k == 6:
        return v.view(OwnArray)
    if k == 7:
        return OwnSeries(v, index=gens.any_index(rng, n))
    if k == 0:
        return v
    if k == 1:
        return pd.Series(v, index=gens.any_index(rng, n))
    if k == 2:
        return (np.round(v * 5)).astype(int)
    if k == 3:
        return np.repeat(v, 2)[::2]
    if k == 4:
        return pd.Series(v.astype(np.float32), name="x")
    f = v.copy()
    f.setflags(write=False)
    return f


def bad_vector(rng):
    return pick(rng, [
        lambda: [1.0, 2.0, 3.0], lambda: (1.0, 2.0), lambda: "abc", lambda: 3.0, lambda: 7, lambda: {"a": 1, "b": 2}, lambda: range(5), lambda: pd.Index([1.0, 2, 3]),
        lambda: pd.DataFrame({"a": [1.0, 2, 3]}), lambda: np.ones((3, 1)), lambda: np.ones((1, 3)), lambda: np.ones((2, 2, 2)), lambda: np.array(3.0), lambda: np.ones(1),
        lambda: np.ones(0), lambda: pd.Series([1.0]), lambda: pd.Series([], dtype=float), lambda: {1.0, 2.0}, lambda: pd.array([1.0, 2.0]), lambda: True, lambda: b"xy",
        lambda: iter([1, 2]), lambda: np.float64(2.0), lambda: pd.Timestamp("2001-01-01"), lambda: memoryview(b"abc"), lambda: pd.date_range("2001", periods=3),
    ])()


def good_table(rng):
    n, d = size(rng, 2, 8), size(rng, 2, 5)
    v = rng.normal(size=(n, d))
    k = int(rng.integers(6))
    if k == 4:
        return v.view(OwnArray)
    if k == 5:
        return OwnFrame(v, index=gens.any_index(rng, n))
    if k == 0:
        return v
    if k == 1:
        return pd.DataFrame(v, index=gens.any_index(rng, n))
    if k == 2:
        return np.asfortranarray(v)
    return v[:1]


def bad_table(rng):
    return pick(rng, [
        lambda: [[1.0, 2.0], [3.0, 4.0]], lambda: ((1.0, 2.0),), lambda: "abc", lambda: 3.0, lambda: pd.Series([1.0, 2, 3]), lambda: np.ones(4), lambda: np.ones((4, 1)),
        lambda: pd.DataFrame({"a": [1.0, 2, 3]}), lambda: np.ones((2, 2, 2)), lambda: np.array(1.0), lambda: {"a": [1, 2], "b": [3, 4]}, lambda: np.ones((3, 0)), lambda: pd.DataFrame(),
        lambda: pd.Index([1, 2]), lambda: 5, lambda: pd.MultiIndex.from_tuples([(1, 2), (3, 4)]), lambda: True, lambda: [pd.Series([1.0, 2])], lambda: np.ones((1, 2, 2)),
    ])()


# -- the decorators on functions of our own ---------------------------------------------------------------------------
def decorators(mon, rng):
    tab = coin(rng)
    deco = validate_frame_or_2Darray if tab else validate_series_or_1Darray
    good, bad = (good_table, bad_table) if tab else (good_vector, bad_vector)
    calls = []
    shape = int(rng.integers(5))
    names = ["x", "y"]
    guarded = pick(rng, [["x"], ["y"], ["x", "y"], ["x", "missing"]])
    if shape == 0:
        @deco(*guarded)
        def fn(x, y=None, z=3, *, w="w"):
            """doc of fn"""
            calls.append((x, y, z, w))
            return x, y, z, w
    elif shape == 1:  # both decorators, as the clustering measures use them
        other = validate_series_or_1Darray if tab else validate_frame_or_2Darray

        @other("z")
        @deco(*guarded)
        def fn(x, y=None, z=None, *, w="w"):
            """doc of fn"""
            calls.append((x, y, z, w))
            return x, y, z, w
        mon.seen("stacked")
    elif shape == 2:
        class Holder:
            @deco(*guarded)
            def fn(self, x, y=None, z=3, *, w="w"):
                """doc of fn"""
                calls.append((x, y, z, w))
                return x, y, z, w

        fn = Holder().fn
        mon.seen("method")
    elif shape == 3:
        @deco(*guarded)
        def fn(x, y=None, z=3, *rest, w="w", **more):
            """doc of fn"""
            calls.append((x, y, z, w))
            return x, y, z, w
        mon.seen("variadic")
    else:
        default = [1, 2]  # an invalid default is not an argument that was passed

        @deco(*guarded)
        def fn(x=default, y=default, z=3, *, w="w"):
            """doc of fn"""
            calls.append((x, y, z, w))
            return x, y, z, w
    mon.check(fn.__name__ == "fn" and fn.__doc__ == "doc of fn", f"name or doc of the decorated function: {fn.__name__}, {fn.__doc__}")
    mon.seen("metadata")
    vals, ok, kinds = {}, True, []
    for nm in names:
        u = rng.random()
        if nm == "y" and u < 0.2 or (shape == 4 and u < 0.1):
            mon.seen("absent")
            kinds.append("absent")
            continue
        if u < 0.35:
            vals[nm] = None
            mon.seen("none")
            kinds.append("none")
        elif u < 0.6:
            vals[nm] = bad(rng)
            ok &= nm not in guarded
            kinds.append("bad")
        else:
            vals[nm] = good(rng)
            kinds.append("good")
    if "x" in vals and coin(rng):
        args, kw = [vals["x"]], {}
        if "y" in vals:
            if coin(rng):
                args.append(vals["y"])
            else:
                kw["y"] = vals["y"]
        mon.seen("by_position")
    else:
        args, kw = [], dict(reversed(list(vals.items())))
        mon.seen("by_name")
    if coin(rng, 0.3):
        kw["w"] = 5
    if shape == 3 and coin(rng, 0.4):
        kw["extra"] = [1]
    mon.note(guarded=guarded, table=tab, args=args, kw=kw, form=shape)
    got, err = mon.attempt(fn, *args, **kw)
    if ok:
        mon.check(err is None, f"refused: {err!r}")
        default = [1, 2] if shape == 4 else None
        want = (vals.get("x", default), vals.get("y", default), None if shape == 1 else 3, kw.get("w", "w"))
        for i, (g, v) in enumerate(zip(got, want)):
            mon.check(g is v or (i in (0, 1) and nm_absent(vals, i) and g == v) or (not isinstance(v, (np.ndarray, pd.DataFrame, pd.Series)) and i > 1 and g == v), f"argument {i} arrived as {describe(g, 80)}")
        mon.check(len(calls) == 1, f"called {len(calls)} times")
        mon.seen("accepted")
        mon.seen("defaults", int("y" not in vals))
    else:
        mon.check(err is not None, f"accepted: {describe(got, 100)}")
        mon.check(isinstance(err, Exception), "refused with a non-exception")
        mon.check(not calls, "the function was called although the input is refused")
        mon.seen("refused")
        mon.seen("not_called")
    mon.signature("decorator", tab, tuple(guarded), tuple(kinds), shape, len(args))


def nm_absent(vals, i):
    return "xy"[i] not in vals


# -- the guarded functions ---------------------------------------------------------------------------------------------
VECTORS = {"mutual_info": (D.mutual_info, dict(bins=4)), "var_info": (D.var_info, dict(bins=4)), "kl_divergence_xy": (D.kl_divergence_xy, dict(bins=4)), "compute_entropies": (D.compute_entropies, dict(bins=4))}


def vectors(mon, rng):
    name = pick(rng, sorted(VECTORS))
    fn, kw = VECTORS[name]
    n = size(rng, 2, 12)
    x, y = good_vector(rng, n), good_vector(rng, n)
    for v in (x, y):
        if len(np.unique(np.asarray(v))) < 2:
            return
    bad = bad_vector(rng)
    where = pick(rng, ["x", "y", "both", "none"])
    vals = dict(x=bad if where in ("x", "both") else x, y=bad if where in ("y", "both") else y)
    style = pick(rng, ["position", "name", "mixed"])
    args, kwargs = {"position": ([vals["x"], vals["y"]], {}), "name": ([], dict(y=vals["y"], x=vals["x"])), "mixed": ([vals["x"]], dict(y=vals["y"]))}[style]
    if name in ("mutual_info", "var_info", "kl_divergence_xy") and coin(rng, 0.3) and n >= 5:
        kw = {}
    run(mon, name, fn, args, {**kwargs, **kw}, where == "none", (where, type(bad).__name__ if where != "none" else "-", style))


def run(mon, name, fn, args, kwargs, ok, sig):
    mon.note(function=name, args=args, kwargs=kwargs)
    try:
        before = snapshot([args, kwargs])
    except Exception:
        before = None
    g = rng_state()
    got, err = mon.attempt(fn, *args, **kwargs)
    mon.check((err is None) == ok, f"{name} refused valid input: {err!r}" if ok else f"{name} accepted invalid input: {describe(got, 100)}")
    mon.check(before is None or snapshot([args, kwargs]) == before, f"{name} modified its input")
    mon.check(rng_state() == g, f"{name} changed the global random state")
    mon.seen("accepted" if ok else "refused")
    mon.seen("by_name" if not args else "by_position")
    mon.signature(name, ok, *sig)


def tables(mon, rng):
    d = size(rng, 2, 5)
    n = size(rng, 4, 12)
    name = pick(rng, ["get_info_distance_matrix", "get_corr_distance_matrix", "corr_to_dist"])
    if name == "corr_to_dist":
        fn, par, good = corr_to_dist, "corr", gens.correlation(rng, d)
        more = dict(corr_to_dist_method=pick(rng, ["angular", "abs_angular", "squared_angular"])) if coin(rng) else {}
    else:
        good = rng.normal(size=(n, d))
        fn, par = getattr(D, name), "X"
        more = (dict(method=pick(rng, ["var_info", "mutual_info"]), bins=3) if name == "get_info_distance_matrix" else dict(corr_method=pick(rng, ["pearson", "spearman"]))) if coin(rng) else {}
    if coin(rng):
        good = pd.DataFrame(good)
    ok = coin(rng)
    arg = good if ok else bad_table(rng)
    by_name = coin(rng)
    run(mon, name, fn, [] if by_name else [arg], {**({par: arg} if by_name else {}), **more}, ok, (type(arg).__name__, by_name, bool(more)))


def measures(mon, rng):
    n = size(rng, 4, 8)
    c = gens.correlation(rng, n)
    dist = np.sqrt(np.clip((1 - c) / 2, 0, 1))
    np.fill_diagonal(dist, 0)
    lab = rng.permutation(np.concatenate([[0, 1], rng.integers(0, 2, n - 2)]))
    gd = pd.DataFrame(dist) if coin(rng) else dist
    # the names of clusters are numbers, texts, truth values
    lab = pick(rng, [lab, lab, lab.astype(bool), lab.astype(float), np.array(["u", "vw"])[lab], np.array(["u", "vw"], dtype=object)[lab], lab.astype(np.uint8)])
    gl = pd.Series(lab) if coin(rng) else lab
    where = pick(rng, ["dist", "labels", "both", "none", "none"])
    vals = dict(dist=bad_table(rng) if where in ("dist", "both") else gd, labels=bad_vector(rng) if where in ("labels", "both") else gl)
    name, fn, more = pick(rng, [("gap_statistic", gap_statistic, dict(nb=2)), ("silhouette_tstat", silhouette_tstat, {})])
    style = pick(rng, ["position", "name", "mixed"])
    args, kwargs = {"position": ([vals["dist"], vals["labels"]], {}), "name": ([], dict(labels=vals["labels"], dist=vals["dist"])), "mixed": ([vals["dist"]], dict(labels=vals["labels"]))}[style]
    run(mon, name, fn, args, {**kwargs, **more}, where == "none", (where, style, type(vals["dist"]).__name__, type(vals["labels"]).__name__))


STAGES = [("decorators", decorators, 4000, 40000), ("vectors", vectors, 3000, 30000), ("tables", tables, 1500, 15000), ("measures", measures, 1000, 10000)]
