"""C35: logging configuration."""

import io
import json
import logging
import locale
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import numpy as np

from quantfinlib.clustering import HC
from quantfinlib.datasets import load_vix
from quantfinlib.distance import get_corr_distance_matrix, get_info_distance_matrix
from quantfinlib.sim import BrownianMotion
from quantfinlib.util import configure_logger, logger
from rv.gens import coin, pick, size

RULE = "distinct (level, message level, file or not, length of the configuration history, action before the message) with the delivery of each message counted"
REQUIRED = ["to_file", "default_path", "delivered", "suppressed", "same_file_again", "replaced_file", "threads", "child_logger", "library_message",
            "appended", "fresh_process", "level_name", "default_level", "reconfigured", "library_use"]
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
UTF8 = locale.getpreferredencoding(False).lower().replace("-", "") == "utf8"


class Console(io.StringIO):
    closed_by_code = False

    def close(self):
        self.closed_by_code = True


def open_logs(base):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if t.startswith(base):
            out.append(os.path.relpath(t, base))
    return sorted(out)


def use_library(rng):
    x = rng.normal(size=(12, 4))
    k = int(rng.integers(5))
    if k == 0:
        get_corr_distance_matrix(x)
    elif k == 1:
        get_info_distance_matrix(x)
    elif k == 2:
        HC(X=x).get_clusters(2)
    elif k == 3:
        BrownianMotion().path_sample(num_steps=3)
    else:
        BrownianMotion().fit(x).aic(x)


def history(mon, rng):
    base = os.path.join(os.getcwd(), f"log{mon.cases}_{int(rng.integers(1 << 30))}")
    os.makedirs(base)
    home = os.getcwd()
    os.chdir(base)
    old = sys.stderr
    console = sys.stderr = Console()
    model = {}  # file name -> list of ids expected
    con = []
    level, current = None, None
    uid = [0]
    try:
        if coin(rng, 0.3):
            with open("a.log", "w") as f:
                f.write("earlier line\n")
            model["a.log"] = ["earlier"]
            mon.seen("appended")
        used = set()
        nconf = 0
        for step in range(size(rng, 3, 14)):
            k = int(rng.integers(5)) if step else 0
            if k <= 1:
                kw = {}
                level = logging.WARNING
                if coin(rng, 0.85):
                    level = kw["verbosity"] = pick(rng, LEVELS + [int(rng.integers(3, 58))])
                    if level in LEVELS and coin(rng, 0.25):
                        kw["verbosity"] = logging.getLevelName(level)
                        mon.seen("level_name")
                else:
                    mon.seen("default_level")
                previous, current = current, None
                if coin(rng, 0.6):
                    kw["log_to_file"] = True
                    current = "quantfinlib.log"
                    if coin(rng, 0.75):
                        current = pick(rng, ["a.log", "b.log", "c.log"])
                        kw["log_file_path"] = pick(rng, [current, Path(current), os.path.join(base, current)])
                    else:
                        mon.seen("default_path")
                    mon.seen("to_file")
                    mon.seen("same_file_again", int(current == previous))
                    model.setdefault(current, [])
                elif coin(rng, 0.3):
                    kw["log_to_file"] = False
                    if coin(rng):
                        kw["log_file_path"] = "never.log"
                mon.seen("replaced_file", int(previous not in (None, current)))
                mon.note(configuration={k: str(v) for k, v in kw.items()}, step=step)
                if "log_file_path" in kw and "log_to_file" in kw and "verbosity" in kw and coin(rng):
                    mon.call(configure_logger, kw["verbosity"], kw["log_to_file"], kw["log_file_path"])
                else:
                    mon.call(configure_logger, **kw)
                nconf += 1
                mon.seen("reconfigured", int(nconf > 1))
                mon.check(logger.getEffectiveLevel() == level, f"level {logger.getEffectiveLevel()}, configured {level}")
            elif k == 2:
                mon.call(use_library, rng)
                mon.seen("library_use")
            elif k == 3 and coin(rng, 0.5):
                ids = list(range(uid[0], uid[0] + 12))
                uid[0] += 12
                mon.note(threads=ids)
                with ThreadPoolExecutor(4) as ex:
                    list(ex.map(lambda i: logger.log(level, f"id={i}="), ids))
                con += ids
                if current:
                    model[current] += ids
                mon.seen("threads")
            elif coin(rng, 0.3):
                before = console.getvalue().count("Reading VIX index data")
                mon.call(load_vix)
                n = console.getvalue().count("Reading VIX index data") - before
                mon.check(n == (level <= logging.INFO), f"library message at level INFO appears {n} times on the console at level {level}")
                mon.seen("library_message")
            for m in range(size(rng, 0, 3)):
                i = uid[0]
                uid[0] += 1
                lv = pick(rng, LEVELS + [level, level - 1, level + 1, int(rng.integers(1, 60))])
                lg = logger
                if coin(rng, 0.2):
                    lg = logging.getLogger("quantfinlib" + pick(rng, ["", ".part", ".part.deep"]))
                    mon.seen("child_logger")
                if UTF8 and coin(rng, 0.2):
                    lg.log(lv, "id=%d= %s", i, pick(rng, ["Größe", "价格", "€ 5", "\U0001f4c8"]))
                    mon.seen("other_letters", int(lv >= level and current is not None))
                else:
                    lg.log(lv, "id=%d=", i)
                if lv >= level:
                    con.append(i)
                    if current:
                        model[current].append(i)
                mon.seen("delivered" if lv >= level else "suppressed")
                mon.signature(level, np.sign(lv - level), current is None, min(nconf, 4), k)
            decide(mon, base, console, con, model, current)
    finally:
        sys.stderr = old
        for h in logger.handlers[:]:
            logger.removeHandler(h)
            h.close()
        logger.setLevel(logging.WARNING)
        os.chdir(home)


def ids(text):
    return [int(v) for v in re.findall(r"\bid=(\d+)=", text)]


def decide(mon, base, console, con, model, current):
    got = sorted(ids(console.getvalue()))
    mon.check(got == sorted(con), lambda: f"messages on the console: missing {sorted(set(con) - set(got))[:5]}, unexpected {[i for i in got if i not in con][:5]}, repeated {sorted({i for i in got if got.count(i) > 1})[:5]}")
    mon.check(not console.closed_by_code, "the console stream was closed")
    have = sorted(os.listdir(base))
    mon.check(set(have) <= set(model), f"files {have}, requested {sorted(model)}")
    for name, want in model.items():
        text = open(os.path.join(base, name), errors="replace").read() if name in have else ""
        pre = ["earlier"] if text.startswith("earlier line\n") else []
        got = pre + sorted(ids(text))
        mon.check(got == want[: len(want) and want[0] == "earlier"] + sorted(v for v in want if v != "earlier"), lambda: f"messages in {name}: {got[-8:]}, expected {want[-8:]}")
    op = open_logs(base)
    mon.check(all(f == current for f in op) and len(op) <= 1, f"open log files {op}, current output {current}")


def fresh_process(mon, rng):
    level = pick(rng, LEVELS + [int(rng.integers(5, 55))])
    path = os.path.join(os.getcwd(), f"fresh{os.getpid()}_{mon.cases}.log")
    tag = f"{int(rng.integers(1 << 30))}" + pick(rng, ["e", "l"])
    mon.note(level=level, tag=tag)
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(__file__)), "log_child.py"), tag, str(level), path], capture_output=True, text=True, timeout=300)
    if "RESULT" not in p.stdout:
        raise RuntimeError(f"child process failed: {p.returncode} {p.stderr[-500:]}")
    r = json.loads(p.stdout.split("RESULT", 1)[1])
    mon.check("error" not in r, f"importing and using the library after configuration: {r.get('error', '')[-600:]}")
    mon.check(not r["changed"], f"level or outputs changed by {r['changed'][:4]}")
    for where in ("console", "file"):
        for i, n in (("first", 1), ("last", 1), ("below", 0)):
            mon.check(r[where].count(f"id={i}=") == n, f"{where}: message {i!r} appears {r[where].count(f'id={i}=')} times instead of {n}")
    mon.check(r["root"] == 0 and r["root_level"] == logging.WARNING and r["disable"] == 0, f"global logging changed: {r['root']} root handlers, root level {r['root_level']}, disabled {r['disable']}")
    mon.seen("fresh_process")
    mon.seen("modules_imported", r["imported"])
    mon.signature("fresh", level, tag[-1])


STAGES = [("histories", history, 1200, 15000), ("fresh_process", fresh_process, 12, 150)]
