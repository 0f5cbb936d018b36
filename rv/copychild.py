"""Serves a monitor of C39: unpickles an object in a fresh process, runs an observation on it and sends the result back."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("QFL_REPO", "/repo"), HERE]
import pickle
import struct
import warnings

warnings.simplefilter("ignore")
inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)  # prints of the code under test stay out of the answers
while True:
    head = inp.read(4)
    if len(head) < 4:
        break
    data = inp.read(struct.unpack("<I", head)[0])
    try:
        obj, kind, arg = pickle.loads(data)
        from rv.props.c39 import observe

        ans = ("ok", observe(kind, obj, arg))
    except BaseException as e:
        ans = ("error", f"{type(e).__name__}: {e}"[:400])
    data = pickle.dumps(ans)
    out.write(struct.pack("<I", len(data)) + data)
    out.flush()
