"""Imports modules of the library in a given order and reports what that did to the process (one JSON line on fd 3)."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("QFL_REPO", "/repo"))
import builtins
import decimal
import gc
import locale
import logging
import multiprocessing
import random
import signal
import threading
import warnings

opened = []


def audit(event, args):
    if event == "open":
        path, mode, flags = args
        if isinstance(mode, str) and any(c in mode for c in "wax+"):
            opened.append(str(path))
    elif event in ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.putenv", "subprocess.Popen", "socket.connect", "os.system"):
        opened.append(event + " " + repr(args)[:80])


order, star, third = json.loads(sys.argv[1])
for m in third:  # libraries of other people are loaded beforehand, their effects are not at issue
    __import__(m)
import numpy as np
import pandas as pd

np.random.seed(5)
random.seed(5)


def umask():
    u = os.umask(0)
    os.umask(u)
    return u


def state():
    root = logging.getLogger()
    filters, options = repr(warnings.filters), []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        options = [repr(pd.get_option(o)) for o in sorted(pd._config.config._registered_options)]
    return dict(
        errors=repr(np.geterr()), printing=repr(np.get_printoptions()), options=options,
        filters=filters, random=repr(random.getstate())[:200], numpy_random=repr(np.random.get_state())[:200], environment=sorted(os.environ.items()),
        directory=os.getcwd(), files=sorted(os.listdir(".")), path=list(sys.path), root=[root.level, len(root.handlers), root.manager.disable],
        threads=threading.active_count(), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), hooks=[sys.excepthook is sys.__excepthook__, sys.stdout is sys.__stdout__],
        warn=[id(warnings.showwarning), id(warnings.formatwarning), id(warnings._showwarnmsg_impl), id(warnings.warn)], signals=[repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        logging=[logging.getLoggerClass().__name__, id(logging.getLogRecordFactory()), logging.raiseExceptions, id(logging.lastResort), sorted(logging._levelToName.items()), id(logging._warnings_showwarning)],
        more_hooks=[id(threading.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.breakpointhook), sys.getprofile() is None, sys.gettrace() is None, len(sys.meta_path), len(sys.path_hooks)],
        collector=[gc.isenabled(), gc.get_threshold(), gc.get_debug()], locale=locale.setlocale(locale.LC_ALL), umask=umask(), context=repr(decimal.getcontext().copy().prec), start=multiprocessing.get_start_method(allow_none=True),
        builtins=len(vars(builtins)), handlers=len(logging.getLogger("quantfinlib").handlers),
    )


sys.addaudithook(audit)
before = state()
sys.stderr.write("--from here--")
sys.stderr.flush()
rep = dict(names={}, errors=[], star={})
for m in order:
    try:
        __import__(m)
    except BaseException as e:
        rep["errors"].append(f"import of {m}: {type(e).__name__}: {e}"[:300])
for m in star:
    ns = {}
    try:
        exec(f"from {m} import *", ns)
        rep["star"][m] = sorted(k for k in ns if k != "__builtins__")
    except BaseException as e:
        rep["errors"].append(f"from {m} import *: {type(e).__name__}: {e}"[:300])
after = state()
rep["changed"] = {k: [str(before[k])[:200], str(after[k])[:200]] for k in before if before[k] != after[k]}
rep["opened"] = [o for o in opened if o != "/dev/null"]
for m in order:
    mod = sys.modules.get(m)
    if mod is not None:
        subs = set(sys.modules)
        rep["names"][m] = {k: f"{getattr(v, '__module__', '')}:{getattr(v, '__qualname__', type(v).__name__)}" for k, v in vars(mod).items()
                           if not k.startswith("__") and f"{m}.{k}" not in subs}
rep["loaded"] = sorted(m for m in sys.modules if m.split(".")[0] == "quantfinlib")
os.write(3, json.dumps(rep).encode())
