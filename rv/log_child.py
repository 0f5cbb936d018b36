"""Child process: configure the logger, then import and use the rest of the library.  argv: seed level logfile"""
import io
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("QFL_REPO", "/repo"))
import importlib
import json
import logging
import pkgutil
import random
import warnings

warnings.simplefilter("ignore")
out = {}
real, sys.stderr = sys.stderr, io.StringIO()
try:
    from quantfinlib.util import configure_logger, logger

    level, path = int(sys.argv[2]), sys.argv[3]
    early = sys.argv[1].endswith("e")  # import part of the library before configuring
    import quantfinlib

    names = [m.name for m in pkgutil.walk_packages(quantfinlib.__path__, "quantfinlib.")]
    random.Random(sys.argv[1]).shuffle(names)
    if early:
        for m in names[::3]:
            importlib.import_module(m)
    configure_logger(level, True, path)
    handlers = list(logger.handlers)
    logger.log(level, "id=first=")
    changed = []
    for m in names:
        importlib.import_module(m)
        if logger.level != level or logger.handlers != handlers or logger.disabled or any(h.level != level for h in handlers):
            changed.append(m)
    import numpy as np
    from quantfinlib.clustering import HC
    from quantfinlib.datasets import load_vix
    from quantfinlib.distance import get_corr_distance_matrix, get_info_distance_matrix
    from quantfinlib.sim import BrownianMotion

    x = np.random.RandomState(0).normal(size=(20, 4))
    get_corr_distance_matrix(x)
    get_info_distance_matrix(x)
    HC(X=x).get_clusters(2)
    load_vix()
    BrownianMotion().path_sample(num_steps=5)
    logger.log(level, "id=last=")
    logger.log(level - 1, "id=below=")
    if not (logger.level == level and logger.handlers == handlers and logging.getLogger("quantfinlib") is logger and not logger.disabled):
        changed.append("use of the library")
    out = dict(imported=len(names), changed=changed, console=sys.stderr.getvalue(), file=open(path).read(), root=len(logging.getLogger().handlers), root_level=logging.getLogger().level, disable=logging.root.manager.disable)
except BaseException as e:
    import traceback

    out = dict(error=traceback.format_exc())
print("RESULT" + json.dumps(out))
