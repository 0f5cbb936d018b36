"""C48: results do not depend on the surroundings of the process."""

import json
import os
import pickle
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from rv import purity
from rv.core import describe, snapshot
from rv.gens import coin, pick
from rv.props.c36 import flat, same_flat

RULE = "distinct (kind of surroundings, function) run in a fresh process with these surroundings and compared with the result in this process"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDS = ["hash_seed", "zone", "locale", "directory", "streams", "optimised", "numpy_errors", "strict", "pandas", "clock", "thread", "variables", "collector"]
REQUIRED = KINDS + ["together", "op_every_kind"]
NAMES = sorted(purity.OPS)


def surroundings(rng, kinds):
    """(arguments of the interpreter, environment variables, removed variables, settings inside, directory kind, closed streams)"""
    flags, env, inside, gone, closed = [], {}, {}, [], []
    for k in kinds:
        if k == "hash_seed":
            env["PYTHONHASHSEED"] = str(int(rng.integers(1, 2**31)))
        elif k == "zone":
            env["TZ"] = pick(rng, ["Asia/Tokyo", "America/New_York", "Pacific/Kiritimati", "XYZ+5:30", "UTC"])
        elif k == "locale":
            env["LC_ALL"] = pick(rng, ["C", "C.utf8", "POSIX"])
            env["PYTHONUTF8"] = pick(rng, ["0", "1"])
            env["PYTHONIOENCODING"] = pick(rng, ["ascii", "utf-8", "latin-1"])
            if coin(rng):
                inside["locale"] = pick(rng, ["", "C"])
        elif k == "directory":
            inside["umask"] = pick(rng, [0o077, 0o777, 0])
            if coin(rng):
                inside["gone_directory"] = True
            env["TMPDIR"] = pick(rng, ["/nonexistent", "."])
        elif k == "streams":
            closed = [s for s in (0, 1, 2) if coin(rng, 0.6)] or [1]
        elif k == "optimised":
            flags.append(pick(rng, ["-O", "-OO"]))
        elif k == "numpy_errors":
            inside["seterr"] = pick(rng, ["ignore", "warn"])
            inside["print"] = dict(precision=int(rng.integers(1, 12)), suppress=coin(rng), threshold=int(rng.integers(2, 1000)), linewidth=int(rng.integers(20, 200)))
        elif k == "strict":
            inside["strict"] = True
        elif k == "pandas":
            inside["pandas"] = {o: v for o, v in {
                "mode.copy_on_write": pick(rng, [True, False]), "compute.use_bottleneck": coin(rng), "compute.use_numexpr": coin(rng),
                "future.no_silent_downcasting": coin(rng), "display.max_rows": int(rng.integers(1, 60)), "display.precision": int(rng.integers(0, 9)),
                "display.width": int(rng.integers(20, 200)), "mode.chained_assignment": pick(rng, ["raise", "warn", None])}.items() if coin(rng)}
            inside["pandas"].setdefault("mode.copy_on_write", True)
        elif k == "clock":
            inside["clock"] = float(rng.integers(-10**9, 2 * 10**9))
            inside["cpus"] = int(pick(rng, [1, 2, 64, 1000]))
            inside["random_state"] = int(rng.integers(1, 10**6))
        elif k == "thread":
            inside["thread"] = True
        elif k == "variables":
            gone += [v for v in ("HOME", "USER", "LOGNAME", "SHELL", "LANG", "PWD", "TERM", "MPLBACKEND", "PYTHONHASHSEED") if coin(rng)]
            env.update({v: pick(rng, ["1", "", "true", "DEBUG", "0"]) for v in ("DEBUG", "SEED", "RANDOM_SEED", "QUANTFINLIB_SEED", "QUANTFINLIB_DEBUG", "LOGLEVEL", "LOG_LEVEL", "CI", "PYTEST_CURRENT_TEST") if coin(rng)})
        elif k == "collector":
            inside["gc"] = pick(rng, ["off", "often"])
    return flags, env, gone, inside, closed


def one(mon, rng):
    index = int(mon._where["index"])
    kinds = [KINDS[index % len(KINDS)]]
    if index % 3 == 2:
        kinds = sorted({pick(rng, KINDS) for _ in range(int(rng.integers(2, 7)))} | set(kinds))
        mon.seen("together")
    flags, env, gone, inside, closed = surroundings(rng, kinds)
    names = [NAMES[i] for i in rng.permutation(len(NAMES))]
    if any("-O" in f for f in flags):  # refusals written as assertions are switched off on purpose there
        names = [n for n in names if not n.startswith("refused")]
    cases, base = [], []
    purity.BIG = 0.3
    for name in names:
        seed = int(rng.integers(1 << 40))
        fn, args = purity.OPS[name][0](np.random.default_rng(seed))
        before = snapshot(args)
        if purity.OPS[name][1]:
            np.random.seed(seed % 2**32)
        with warnings.catch_warnings(record=True) as seen, np.errstate(divide="warn", invalid="warn", over="warn"):
            warnings.simplefilter("always")
            got, err = mon.attempt(purity.sequential, fn, args)
            got = flat(got, []) if err is None else None
        if err is not None and not name.startswith("refused"):
            mon.check(False, f"{name} raised {err!r}")
        cases.append((name, seed, not seen))
        base.append((before, got, args))
    mon.note(flags=flags, environment=env, without=gone, inside=inside, closed_streams=closed)
    with tempfile.TemporaryDirectory(prefix="rv_", dir=".") as d:
        d = os.path.abspath(d)
        os.mkdir(os.path.join(d, "cwd"))
        spec = dict(cases=cases, big=purity.BIG, inside=inside, out=os.path.join(d, "out"))
        with open(os.path.join(d, "spec"), "w") as f:
            json.dump(spec, f)
        full = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **env}
        for g in gone:
            full.pop(g, None)
        shut = "".join({0: " <&-", 1: " >&-", 2: " 2>&-"}[s] for s in closed)
        p = subprocess.run(["/bin/sh", "-c", f'exec "$@"{shut}', "sh", sys.executable, "-B", *flags, os.path.join(HERE, "env_child.py"), os.path.join(d, "spec")],
                           cwd=os.path.join(d, "cwd"), env=full, stdin=subprocess.DEVNULL, capture_output=True, timeout=200)
        mon.check(os.path.exists(spec["out"]), lambda: f"the process ended with {p.returncode}: {p.stderr.decode(errors='replace')[-500:]}")
        with open(spec["out"], "rb") as f:
            answers = pickle.load(f)
        mon.check(p.returncode == 0, f"exit status {p.returncode}")
        mon.check(p.stdout == b"", f"printed {p.stdout[:200]!r}")
    mon.check(len(answers) == len(cases), f"{len(answers)} answers to {len(cases)} calls")
    for (name, seed, quiet), (before, want, args), (theirs, (how, got), changed) in zip(cases, base, answers):
        if theirs != before:  # the generated arguments themselves differ: nothing to compare
            mon.seen("arguments_differ")
            continue
        mon.note(function=name, argument_seed=seed, args=args)
        if want is None:
            mon.check(how == "error", f"{name} is refused here, but not there")
        else:
            mon.check(how == "value", lambda: f"{name} fails there: {got}")
            mon.check(same_flat(want, got), lambda: f"{name} gives {describe([v for k, v in got if k == 'values'][:2], 200)} there and {describe([v for k, v in want if k == 'values'][:2], 200)} here")
        mon.check(not changed, f"{name} changes {changed} there")
        mon.seen("op_every_kind")
        for k in kinds:
            mon.seen(k)
            mon.signature(k, name)


STAGES = [("surroundings", one, 104, 1500)]
