"""Child process: rolling EDGE spreads under joblib's own default (process) backend.  stdin/stdout: pickles."""
import os
import pickle
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("QFL_REPO", "/repo"))
import warnings

warnings.simplefilter("ignore")
from quantfinlib.feature.micro_structure import get_edge_spread

jobs = pickle.load(sys.stdin.buffer)
out = []
for bars, kw in jobs:
    try:
        out.append(get_edge_spread(*bars, **kw))
    except Exception as e:
        out.append(f"{type(e).__name__}: {e}")
from joblib.externals.loky import get_reusable_executor

get_reusable_executor().shutdown(wait=True)
with open(sys.argv[1], "wb") as f:
    pickle.dump(out, f)
