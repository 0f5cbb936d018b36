"""Child process of C48: runs catalogue calls in the surroundings described by a JSON file and writes the results."""
import json
import os
import pickle
import sys
import threading

spec = json.load(open(sys.argv[1]))
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("QFL_REPO", "/repo"), HERE]
env = spec["inside"]
if "clock" in env:
    import time

    _t, _n = time.time, time.time_ns
    time.time = lambda: _t() + env["clock"]
    time.time_ns = lambda: _n() + int(env["clock"]) * 10**9
if "cpus" in env:
    os.cpu_count = lambda: env["cpus"]
if "gc" in env:
    import gc

    gc.disable() if env["gc"] == "off" else gc.set_threshold(1, 1, 1) if env["gc"] == "often" else None
if "locale" in env:
    import locale

    locale.setlocale(locale.LC_ALL, env["locale"])
if "umask" in env:
    os.umask(env["umask"])
import warnings

warnings.simplefilter("ignore")
if env.get("random_state"):
    import random

    import numpy as np

    np.random.seed(env["random_state"])
    random.seed(env["random_state"])
import numpy as np
import pandas as pd

from rv import purity
from rv.core import rng_state, snapshot
from rv.props.c36 import flat

purity.BIG = spec["big"]
for o, v in env.get("pandas", {}).items():
    pd.set_option(o, v)
if "print" in env:
    np.set_printoptions(**env["print"])
if env.get("gone_directory"):
    os.rmdir(os.getcwd())


def state(draws):
    """The settings of the process that a call may not change."""
    filters = list(warnings.filters)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        options = [repr(pd.get_option(o)) for o in purity.OPTIONS]
    return dict(random=None if draws else rng_state(), environment=dict(os.environ), errors=np.geterr(), print=repr(np.get_printoptions()),
                pandas=options, filters=filters, threads=threading.active_count(),
                path=list(sys.path), recursion=sys.getrecursionlimit(), hook=sys.excepthook)


def run():
    out = []
    for name, seed, strict in spec["cases"]:
        fn, args = purity.OPS[name][0](np.random.default_rng(seed))
        before = snapshot(args)
        if purity.OPS[name][1]:
            np.random.seed(seed % 2**32)
        old = np.geterr()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if strict and env.get("strict"):
                    warnings.simplefilter("error")
                    np.seterr(divide="raise", invalid="raise", over="raise")
                elif "seterr" in env:
                    np.seterr(all=env["seterr"])
                first = state(purity.OPS[name][1])
                got = ("value", flat(purity.sequential(fn, args), []))
            except Exception as e:
                got = ("error", f"{type(e).__name__}: {e}"[:300])
            finally:
                last = state(purity.OPS[name][1])
                np.seterr(**old)
        out.append((before, got, [k for k in first if first[k] != last[k]]))
    return out


result = []
if env.get("thread"):
    t = threading.Thread(target=lambda: result.extend(run()))
    t.start()
    t.join()
else:
    result = run()
with open(spec["out"], "wb") as f:
    pickle.dump(result, f)
