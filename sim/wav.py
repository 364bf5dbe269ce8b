"""Reference model of what a WAV file written by the library must read back as."""
import random

import numpy as np

KINDS = ["i2", "i1", "f4", "f8", "f2"]


def spec(rng, big=False):
    kind = rng.choice(["i2", "i2", "i1", "f4", "f8", "f2"])
    layout = rng.choice(["1d", "2d", "2d", "cf"])
    n_ch = 1 if layout == "1d" else rng.choice([1, 2, 2])
    r = rng.random()
    if r < 0.015:
        frames = rng.choice([32768, 32769, 40001, 65535, 65536, 65537, 100000, 131073])
    elif r < 0.08:
        frames = rng.choice([0, 1, 2])
    elif r < 0.75:
        frames = rng.randrange(1, 400)
    else:
        frames = rng.choice([2037, 2038, 2048, 4096, 5000, 8193, rng.randrange(1000, 20000)])
    return {"kind": kind, "layout": layout, "n_ch": n_ch, "frames": frames,
            "rate": rng.choice([8000, 16000, 44100, 48000, 7]), "seed": rng.randrange(1 << 30)}


def make(s):
    """-> array to hand to the writer, channels_first flag, expected frames (n, ch) as floats, tolerance."""
    g = np.random.Generator(np.random.PCG64(s["seed"]))
    shape = (s["frames"], s["n_ch"])
    if s["kind"].startswith("i"):
        bits = 8 * int(s["kind"][1])
        lim = 1 << (bits - 1)
        x = g.integers(-lim, lim, size=shape).astype(s["kind"])
        exp = x.astype(np.float64) / lim
        tol = 0.0
    else:
        x = g.uniform(-0.98, 0.98, size=shape)
        if s["seed"] % 3 == 0:  # full scale and beyond, as loud mixtures are
            loud = g.random(shape) < 0.1
            x[loud] = g.choice([1.0, -1.0, 1.25, -1.5], size=int(loud.sum()))
        x = x.astype(s["kind"])
        exp = np.clip(x.astype(np.float64), -1, 1 - 1 / (1 << 15))
        tol = 1.0 / (1 << 15)
    if s["layout"] == "1d":
        return np.ascontiguousarray(x[:, 0]), None, exp, tol
    if s["layout"] == "cf":
        return np.ascontiguousarray(x.T), True, exp, tol
    return x, (False if s["seed"] & 1 else None), exp, tol


def as_frames(a, ch, return_2d, channels_first):
    """Bring an array returned by the reader into (frames, channels), or None if its layout is wrong."""
    a = np.asarray(a)
    if ch == 1 and not return_2d:
        return a[:, None] if a.ndim == 1 else None
    if a.ndim != 2:
        return None
    if channels_first:
        a = a.T
    return a if a.shape[1] == ch else None


def same(got, exp, tol):
    return got is not None and got.shape == exp.shape and bool(np.all(np.abs(got - exp) <= tol + 1e-12))
