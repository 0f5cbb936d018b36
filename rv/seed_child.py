"""Child process of C08: runs seeded requests read from stdin in an interpreter of its own and writes the paths."""
import os
import pickle
import sys

sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get("QFL_REPO", "/repo"), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
import warnings

warnings.simplefilter("ignore")
import numpy as np

from rv import sims

out = []
for kind, p, cor, seed, req in pickle.load(sys.stdin.buffer):
    out.append(np.array(sims.build_plain(kind, p, cor).path_sample(random_state=seed, **req)))
sys.stdout.buffer.write(pickle.dumps(out))
