"""The other programs that share WAV files with the library: an independent, strict reader and writer of RIFF/WAVE."""
import random
import struct

import numpy as np

SUBTYPE = bytes.fromhex("000000001000800000aa00389b71")


class NotWave(Exception):
    pass


def read(b):
    """-> (frames as floats (n, channels), rate, bits). Raises NotWave on anything a careful player would refuse."""
    if len(b) < 12 or b[:4] != b"RIFF" or b[8:12] != b"WAVE":
        raise NotWave("no RIFF/WAVE header")
    size = struct.unpack("<I", b[4:8])[0]
    if size + 8 != len(b):
        raise NotWave("the RIFF size field says %d bytes, the file has %d" % (size + 8, len(b)))
    pos, fmt, data = 12, None, None
    while pos < len(b):
        if pos + 8 > len(b):
            raise NotWave("%d stray bytes after the last chunk" % (len(b) - pos))
        cid, n = b[pos:pos + 4], struct.unpack("<I", b[pos + 4:pos + 8])[0]
        body = b[pos + 8:pos + 8 + n]
        if len(body) != n:
            raise NotWave("chunk %r announces %d bytes, %d are there" % (cid, n, len(body)))
        if cid == b"fmt ":
            fmt = body
        elif cid == b"data":
            data = body
        pos += 8 + n + (n & 1 if pos + 8 + n < len(b) else 0)
    if fmt is None or data is None:
        raise NotWave("no fmt or no data chunk")
    tag, ch, rate, byte_rate, align, bits = struct.unpack("<HHIIHH", fmt[:16])
    if tag != 1 or bits not in (8, 16, 24, 32):
        raise NotWave("format %d with %d bits" % (tag, bits))
    if align != ch * bits // 8 or byte_rate != rate * align or ch < 1 or len(data) % align:
        raise NotWave("inconsistent header: %d channels, %d bits, alignment %d, %d bytes per second at %d Hz, %d data bytes"
                      % (ch, bits, align, byte_rate, rate, len(data)))
    return decode(data, bits).reshape(-1, ch), rate, bits


def decode(data, bits):
    if bits == 8:
        return (np.frombuffer(data, "u1").astype(float) - 128) / 128
    if bits == 24:
        a = np.frombuffer(data, "u1").reshape(-1, 3).astype(np.int64)
        v = a[:, 0] | a[:, 1] << 8 | a[:, 2] << 16
        return np.where(v >= 1 << 23, v - (1 << 24), v) / float(1 << 23)
    return np.frombuffer(data, "<i%d" % (bits // 8)) / float(1 << (bits - 1))


def spec(rng):
    s = {"bits": rng.choice([16, 16, 16, 8, 8, 32, 24]), "n_ch": rng.choice([1, 2, 2, 3, 4]), "form": "plain",
         "frames": rng.choice([0, 1, 2, rng.randrange(1, 60), rng.randrange(1, 400), 2048, 5000] if rng.random() > 0.015 else
                              [32769, 65536, 65537, 131073]),
         "rate": rng.choice([8000, 16000, 44100, 48000, 96000]), "seed": rng.randrange(1 << 30), "tail": 0}
    r = rng.random()
    if r < 0.3:
        s["form"] = rng.choice(["float", "ext", "fmt18", "lead"])
    if rng.random() < 0.4:
        s["tail"] = rng.choice([1, 2, 7, 26])
    return s


def must_read(s):
    """Plain PCM: format chunk of 16 bytes, then the samples; anything else the library may refuse."""
    return s["form"] == "plain" and s["bits"] in (8, 16, 32)


def write(s):
    """-> (bytes of the file, frames as floats)"""
    g = np.random.Generator(np.random.PCG64(s["seed"]))
    n, ch, bits = s["frames"], s["n_ch"], s["bits"]
    if s["form"] == "float":
        bits = 32
        x = g.uniform(-1, 1, size=(n, ch)).astype("<f4")
        data, exp = x.tobytes(), x.astype(float)
    else:
        raw = g.integers(0, 256, size=n * ch * bits // 8, dtype=np.uint8)
        data = raw.tobytes()
        exp = decode(data, bits).reshape(n, ch)
    align = ch * bits // 8
    tag = {"float": 3, "ext": 0xFFFE}.get(s["form"], 1)
    fmt = struct.pack("<HHIIHH", tag, ch, s["rate"], s["rate"] * align, align, bits)
    if s["form"] == "ext":
        fmt += struct.pack("<HHIH", 22, bits, 0, 1) + SUBTYPE
    elif s["form"] == "fmt18":
        fmt += struct.pack("<H", 0)

    def chunk(cid, body):
        return cid + struct.pack("<I", len(body)) + body + b"\0" * (len(body) & 1)

    body = b"WAVE"
    if s["form"] == "lead":
        body += chunk(b"LIST", b"INFOISFT" + struct.pack("<I", 4) + b"tool")
    body += chunk(b"fmt ", fmt) + chunk(b"data", data)
    if s["tail"]:
        body += chunk(b"LIST", bytes(random.Random(s["seed"]).randrange(256) for _ in range(s["tail"])))
    return b"RIFF" + struct.pack("<I", len(body)) + body, exp
