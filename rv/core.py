"""Verdict discipline shared by all monitors: events, oracles, witnesses, evidence.

A property module defines a list of *stages*.  A stage is a workload generator: it receives a Monitor and a
random generator that is a pure function of (VERIF_SEED, property, stage, case number), drives the real code in
/repo, and reports what it observes to the Monitor, whose checks are the oracle.  A case is therefore replayed
from four numbers.
"""

import hashlib
import io
import os
import signal
import sys
import traceback
import zlib

import numpy as np
import pandas as pd


class Violated(Exception):
    """An oracle rejected an observation."""


class OutOfTime(BaseException):
    """Raised asynchronously when one call into the code under test burns an absurd amount of CPU time."""


CALL_CPU_LIMIT_S = 150.0


def _on_prof(signum, frame):
    raise OutOfTime()


def describe(obj, limit=400):
    if isinstance(obj, np.ndarray):
        s = f"ndarray{obj.shape}{obj.dtype} {np.array2string(obj, threshold=24, precision=6)}"
    elif isinstance(obj, (pd.Series, pd.DataFrame, pd.Index)):
        s = f"{type(obj).__name__}{getattr(obj, 'shape', '')} " + " ".join(repr(obj).split())
    elif isinstance(obj, dict):
        s = "{" + ", ".join(f"{k}: {describe(v, limit)}" for k, v in obj.items()) + "}"
    elif isinstance(obj, (list, tuple)):
        s = "[" + ", ".join(describe(v, limit) for v in obj[:12]) + ("...]" if len(obj) > 12 else "]")
    else:
        s = repr(obj)
    return s if len(s) <= limit else s[: limit - 3] + "..."


class Monitor:
    """Collects the events of one worker and decides on them."""

    def __init__(self, prop, known):
        self.prop = prop
        self.known_open = known
        self.checks = 0
        self.cases = 0
        self.calls = 0
        self.events = {}
        self.signatures = set()
        self.samples = []
        self.violations = []
        self.known_seen = {}
        self.context = {}

    # -- bookkeeping --------------------------------------------------------------------------------------------
    def begin(self, stage, index, case_seed):
        self.cases += 1
        self.context = {}
        self._where = dict(stage=stage, index=index, case_seed=[int(v) for v in case_seed])

    def note(self, **kw):
        """Facts about the running case, kept for the witness."""
        self.context.update(kw)

    def seen(self, event, n=1):
        self.events[event] = self.events.get(event, 0) + n

    def signature(self, *parts):
        """A coarse abstraction of the state that was observed; counts as one distinct non-trivial observation."""
        self.signatures.add(zlib.crc32(repr(parts).encode()) | (hash(len(parts)) << 32))

    def sample(self):
        if len(self.samples) < 2:
            self.samples.append({**self._where, **{k: describe(v, 160) for k, v in self.context.items()}})

    # -- calling the code under test ------------------------------------------------------------------------------
    def call(self, fn, *args, **kwargs):
        """Call the code under test; in the domain of the property it may not raise and must return."""
        self.calls += 1
        name = getattr(fn, "__qualname__", repr(fn))
        signal.signal(signal.SIGPROF, _on_prof)
        signal.setitimer(signal.ITIMER_PROF, CALL_CPU_LIMIT_S)
        try:
            return fn(*args, **kwargs)
        except OutOfTime:
            self.fail(f"{name} did not terminate within {CALL_CPU_LIMIT_S} s of CPU time")
        except (KeyboardInterrupt, SystemExit, Violated):
            raise
        except BaseException as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
            self.fail(f"{name} raised {type(e).__name__}: {str(e)[:300]} [{where}]")
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def attempt(self, fn, *args, **kwargs):
        """Call the code under test where raising is one of the allowed outcomes: (value, None) or (None, error)."""
        self.calls += 1
        name = getattr(fn, "__qualname__", repr(fn))
        signal.signal(signal.SIGPROF, _on_prof)
        signal.setitimer(signal.ITIMER_PROF, CALL_CPU_LIMIT_S)
        try:
            return fn(*args, **kwargs), None
        except OutOfTime:
            self.fail(f"{name} did not terminate within {CALL_CPU_LIMIT_S} s of CPU time")
        except (KeyboardInterrupt, SystemExit, Violated):
            raise
        except BaseException as e:  # noqa
            return None, e
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def rejects(self, what, fn, *args, **kwargs):
        """The call has to be refused with an exception."""
        value, err = self.attempt(fn, *args, **kwargs)
        self.check(err is not None, f"{what}: expected to be rejected, returned {describe(value, 120)}")
        return err

    # -- oracles ----------------------------------------------------------------------------------------------------
    def fail(self, msg):
        raise Violated(msg)

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg)

    def known(self, key, msg):
        """A violation with a recognised mechanism: reported as known finding when listed, as violation otherwise."""
        self.checks += 1
        if key in self.known_open:
            self.known_seen[key] = self.known_seen.get(key, 0) + 1
        else:
            self.fail(f"[{key}] {msg}")

    def close(self, got, want, what, rtol=1e-8, atol=1e-12, equal_nan=True):
        """Numerical agreement, including agreement on which entries are NaN or infinite."""
        self.checks += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(f"{what}: shape {g.shape}, expected {w.shape}")
        if g.size == 0:
            return
        bad = ~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=equal_nan)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            self.fail(
                f"{what}: {int(bad.sum())} of {g.size} values differ, first at {i}: got {g[i]!r}, expected {w[i]!r}"
            )

    def equal(self, got, want, what):
        """Exact equality of arrays, NaN equal to NaN."""
        self.checks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(f"{what}: shape {g.shape}, expected {w.shape}")
        try:
            same = np.array_equal(g, w, equal_nan=True)
        except TypeError:
            same = np.array_equal(g, w)
        if not same:
            self.fail(f"{what}: got {describe(g, 200)}, expected {describe(w, 200)}")


def snapshot(obj):
    """A deep, comparable fingerprint of a user supplied object (used to see whether a call modified it)."""
    h = hashlib.sha1()

    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(str((o.dtype, o.shape)).encode())
            h.update(np.ascontiguousarray(o).tobytes() if o.dtype != object else repr(o.tolist()).encode())
        elif isinstance(o, pd.DataFrame):
            h.update(repr((type(o).__name__, list(map(repr, o.columns)), [str(t) for t in o.dtypes])).encode())
            feed(o.index)
            for i in range(o.shape[1]):
                feed(o.iloc[:, i].to_numpy())
        elif isinstance(o, pd.Series):
            h.update(repr((type(o).__name__, o.name, str(o.dtype))).encode())
            feed(o.index)
            feed(o.to_numpy())
        elif isinstance(o, pd.Index):
            h.update(repr((o.name, str(o.dtype))).encode())
            feed(o.to_numpy())
        elif isinstance(o, dict):
            for k in sorted(o, key=repr):
                h.update(repr(k).encode())
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(f"{type(o).__name__}{len(o)}".encode())
            for v in o:
                feed(v)
        else:
            h.update(repr(o).encode())

    feed(obj)
    return h.hexdigest()


def rng_state():
    """Fingerprint of the process wide random generators."""
    import random

    s = np.random.get_state()
    return snapshot([s[0], s[1], int(s[2]), int(s[3]), float(s[4])]), hash(random.getstate())


class Captured:
    """Captures what is printed on stdout while the code under test runs."""

    def __enter__(self):
        self._old = sys.stdout
        sys.stdout = self.buf = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self._old
        self.text = self.buf.getvalue()
