"""Process-wide state a library must leave alone."""
import gc
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np


def capture():
    st = np.random.get_state()
    out = {
        "numpy global generator": (st[0], st[1].tobytes(), st[2:]),
        "random global generator": hash(random.getstate()),
        "numpy error settings": sorted(np.geterr().items()),
        "numpy error callback": np.geterrcall(),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": tuple(repr(f) for f in warnings.filters),
        "environment": hash(tuple(sorted(os.environ.items()))),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "SIGINT handler": signal.getsignal(signal.SIGINT),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "numpy buffer size": np.getbufsize(),
        "threads": threading.active_count(),
        "stdout": (id(sys.stdout), id(sys.stderr)),
    }
    return out


def changed(a, b):
    return [k for k in a if a[k] != b[k]]
