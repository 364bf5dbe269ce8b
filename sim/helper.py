"""A second interpreter (other hash seed, clock, heap history) that repeats runs for C11."""
import hashlib
import json
import os
import sys


def digest(obs):
    out = []
    for o in obs:
        v = o[1]
        if hasattr(v, "tobytes"):
            h = hashlib.blake2b(v.tobytes(), digest_size=12)
            h.update(repr((v.dtype.str, v.shape)).encode())
            out.append([o[0], h.hexdigest()])
        else:
            out.append([o[0], repr(o[1:])])
    return out


def main():
    import random
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    from .checks.isolation import perform
    from .checks.repro import perturbed

    garbage = []
    for line in sys.stdin:
        m = json.loads(line)
        random.seed(m["salt"])
        np.random.seed(m["salt"] % (1 << 31))
        garbage.append(np.random.rand(m["salt"] % 5000))
        garbage[:-20] = []
        with perturbed(m["salt"], []):
            obs = perform(m["cfg"], m["ops"])
        sys.stdout.write(json.dumps(digest(obs)) + "\n")
        sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
