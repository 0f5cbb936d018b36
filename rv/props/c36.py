"""C36: purity of library calls."""

import copy
import warnings

import numpy as np
import pandas as pd

from rv import purity
from rv.core import Captured, describe, snapshot
from rv.gens import coin, pick

RULE = "distinct (function, argument containers, read-only or not, kind of surrounding settings) with arguments, output and process state compared around the call"
REQUIRED = ["repeated", "refused_call", "result_reused", "hostile_settings", "read_only_arguments", "result_modified", "containers_reused"] + ["op " + k for k in sorted(purity.OPS)]


def flat(x, out):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        out.append(("labels", snapshot([x.index, list(getattr(x, "columns", []))])))
        out.append(("values", np.asarray(x.to_numpy())))
    elif isinstance(x, np.ndarray):
        out.append(("values", x))
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            out.append(("key", repr(k)))
            flat(x[k], out)
    elif isinstance(x, (list, tuple)):
        out.append(("len", len(x)))
        for v in x:
            flat(v, out)
    elif isinstance(x, (float, np.floating, int, np.integer)):
        out.append(("values", np.asarray(x)))
    else:
        out.append(("object", repr(x)))
    return out


def same(a, b):
    return same_flat(flat(a, []), flat(b, []))


def same_flat(a, b):
    if len(a) != len(b):
        return False
    for (ka, va), (kb, vb) in zip(a, b):
        if ka != kb:
            return False
        if ka == "values":
            if va.shape != vb.shape:
                return False
            if va.dtype.kind == "f" and va.size:
                fin = np.abs(va[np.isfinite(va)])
                if not np.allclose(va, vb, rtol=1e-9, atol=1e-11 * (fin.max() if fin.size else 0), equal_nan=True):
                    return False
            elif not np.array_equal(va, vb):
                return False
        elif va != vb:
            return False
    return True


def freeze(args):
    """Read-only arguments: a function that writes into them fails instead of succeeding silently."""
    for a in args:
        if isinstance(a, np.ndarray):
            a.setflags(write=False)
        elif isinstance(a, dict):
            freeze(a.values())


def scramble(x):
    """The caller changes a result in place."""
    if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.flags.writeable and x.size:
        x[...] = -7.25
    elif isinstance(x, (pd.Series, pd.DataFrame)) and x.size:
        try:
            x.iloc[:] = -7.25
        except Exception:
            pass
    elif isinstance(x, (list, tuple)):
        for v in x:
            scramble(v)


def history(mon, rng):
    purity.install()
    names = sorted(purity.OPS)
    tape = []
    opts = []
    hostile = coin(rng, 0.35)
    np_old, print_old = np.geterr(), np.get_printoptions()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if hostile:  # settings of the user, to be found unchanged after every call
                np.seterr(divide=pick(rng, ["ignore", "warn"]), invalid="warn", over=pick(rng, ["ignore", "warn"]), under=pick(rng, ["ignore", "warn"]))
                np.set_printoptions(precision=int(rng.integers(2, 12)), suppress=coin(rng))
                pd.set_option("display.precision", int(rng.integers(2, 9)))
                opts.append("display.precision")
                warnings.filterwarnings(pick(rng, ["ignore", "default", "always"]), message="my own filter")
                warnings.filterwarnings("ignore")
                mon.seen("hostile_settings")
            for step in range(int(rng.integers(3, 8))):
                if tape and coin(rng, 0.45):
                    name, seed, want, failed = pick(rng, tape)
                    again = True
                else:
                    name, seed, again = pick(rng, names), int(rng.integers(1 << 40)), False
                draws = purity.OPS[name][1]
                fn, args = purity.OPS[name][0](np.random.default_rng(seed))
                if coin(rng, 0.3):
                    freeze(args)
                    mon.seen("read_only_arguments")
                before = snapshot(args)
                purity.OPENED.clear()
                mon.note(function=name, argument_seed=seed, args=args, history=[t[0] for t in tape], repeated=again)
                s0 = purity.state()
                with Captured() as out:
                    purity._watch.on = True
                    try:
                        got, err = mon.attempt(purity.sequential, fn, args)
                    finally:
                        purity._watch.on = False
                s1 = purity.state()
                mon.check(snapshot(args) == before, lambda: f"{name} modified an argument: now {describe(args)}")
                mon.check(out.text == "", lambda: f"{name} printed {out.text[:200]!r}")
                mon.check(not purity.OPENED, f"{name} touched {purity.OPENED[:3]}")
                for k in s0:
                    if draws and k == "random":
                        continue
                    mon.check(s0[k] == s1[k], lambda: f"{name} changed {k}: {describe(s0[k], 150)} -> {describe(s1[k], 150)}")
                refused = name.startswith("refused")
                mon.check((err is not None) == refused, f"{name} raised {err!r}" if err else f"{name} was not refused")
                mon.seen("op " + name)
                mon.seen("refused_call", int(refused))
                mon.signature(name, tuple(type(a).__name__ for a in args), hostile)
                if refused:
                    continue
                if again:
                    if not draws:
                        mon.check(same(want, got), lambda: f"{name} repeated with equal arguments after {[t[0] for t in tape]} gives {describe(got)} instead of {describe(want)}")
                    mon.seen("repeated")
                else:
                    tape.append((name, seed, copy.deepcopy(got), False))
                if coin(rng, 0.3) and not name.startswith("to_numpy"):
                    after = snapshot(args)
                    scramble(got)
                    mon.seen("result_modified")
                    del after
                mon.seen("result_reused")
        finally:
            np.seterr(**np_old)
            np.set_printoptions(**print_old)
            for o in opts:
                pd.reset_option(o)


def turn(x, done):
    """The caller reverses the order of the values in place. Returns the number of changed containers."""
    if id(x) in done:
        return 0
    done[id(x)] = x
    if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable and x.size > 1:
        x[...] = x[(slice(None, None, -1),) * (2 if x.ndim == 2 and x.shape[0] == x.shape[1] else 1)].copy()
        return 1
    if isinstance(x, (pd.Series, pd.DataFrame)) and x.size > 1:
        v = x.to_numpy().copy()
        x.iloc[:] = v[(slice(None, None, -1),) * (2 if v.ndim == 2 and v.shape[0] == v.shape[1] else 1)]
        return 1
    if isinstance(x, dict):
        return sum(turn(v, done) for v in x.values())
    if isinstance(x, (list, tuple)):
        return sum(turn(v, done) for v in x)
    return 0


def reused(mon, rng):
    """The same containers passed again with other values."""
    name = pick(rng, [n for n, (_, draws) in sorted(purity.OPS.items()) if not draws and not n.startswith(("refused", "datasets"))])
    fn, args = purity.OPS[name][0](np.random.default_rng(int(rng.integers(1 << 40))))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(int(rng.integers(1, 3))):
            mon.attempt(purity.sequential, fn, args)
            if not turn(args, {}):
                return
        mon.note(function=name, args=args)
        got, e1 = mon.attempt(purity.sequential, fn, args)
        want, e2 = mon.attempt(purity.sequential, fn, copy.deepcopy(args))
    mon.check((e1 is None) == (e2 is None), f"{name}: {e1!r} for containers that were passed before with other values, {e2!r} for copies")
    if e1 is None:
        mon.check(same(got, want), lambda: f"{name}: {describe(got)} for containers that were passed before with other values, {describe(want)} for copies")
        mon.seen("containers_reused")
    mon.signature("reused", name, tuple(type(a).__name__ for a in args))


STAGES = [("reused_containers", reused, 3000, 30000), ("histories", history, 4000, 40000)]
