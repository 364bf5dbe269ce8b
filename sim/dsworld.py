"""The simulated dataset servers and the reference model of what a request must return."""
import io
import random
import wave
import zipfile

import numpy as np

TAGS = ["dev1_female3", "dev1_female4"]
REVS = [0.16, 0.36, 0.61]
DEGREES = [30, 345, 0, 60, 315]
MIC = [3, 4, 2, 5, 1, 6, 0, 7]
SISEC_URL = "http://www.irisa.fr/metiss/SiSEC10/underdetermined/dev1.zip"
MIRD_URL = ("https://www.iks.rwth-aachen.de/fileadmin/user_upload/downloads/forschung/tools-downloads/"
            "Impulse_response_Acoustic_Lab_Bar-Ilan_University__Reverberation_{:.3f}s__3-3-3-8-3-3-3.zip")


class Servers:
    """Archives with the member names of the real ones, small random contents, one variant per `seed`."""

    def __init__(self, seed):
        from scipy.io import savemat

        g = np.random.Generator(np.random.PCG64([77, seed]))
        r = random.Random(seed)
        self.src = {}
        members = []
        for tag, n in zip(TAGS, (3, 4)):
            for i in range(n):
                x = g.integers(-32768, 32768, size=int(g.integers(300, 2500))).astype("<i2")
                self.src[(tag, i)] = x.astype(np.float64) / 32768
                b = io.BytesIO()
                with wave.open(b, "wb") as f:
                    f.setnchannels(1)
                    f.setsampwidth(2)
                    f.setframerate(16000)
                    f.writeframes(x.tobytes())
                members.append(("%s_src_%d.wav" % (tag, i + 1), b.getvalue()))
            for extra in ("inst", "synthconv_130ms_1m"):
                members.append(("%s_%s_mix.wav" % (tag, extra), members[-1][1][: 44 + 200]))
            b = io.BytesIO()
            savemat(b, {"A": g.standard_normal((2, n))})
            members.append(("%s_inst_matrix.mat" % tag, b.getvalue()))
        self.urls = {SISEC_URL: self._zip(members, r)}
        self.rir = {}
        for rev in REVS:
            members = []
            for deg in DEGREES + [15, 90]:
                x = g.standard_normal((int(g.integers(90, 260)), 8)) * 0.3
                self.rir[(rev, deg)] = x
                b = io.BytesIO()
                savemat(b, {"impulse_response": x, "simpar": np.zeros((1, 1))})
                members.append((("Impulse_response_Acoustic_Lab_Bar-Ilan_University_(Reverberation_{:.3f}s)"
                                 "_3-3-3-8-3-3-3_1m_{:03d}.mat").format(rev, deg), b.getvalue()))
            self.urls[MIRD_URL.format(rev)] = self._zip(members, r)
        self._cache = {}

    def _zip(self, members, r):
        order = r.choice(["sorted", "shuffled", "reversed"])
        m = sorted(members)
        if order == "shuffled":
            r.shuffle(m)
        elif order == "reversed":
            m.reverse()
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if r.random() < 0.5 else zipfile.ZIP_STORED) as z:
            for name, data in m:
                z.writestr(zipfile.ZipInfo(name, (2010, 1, 1, 0, 0, 0)), data)
        return b.getvalue()

    def expected(self, req):
        """-> array, or None when the request must be refused (no such data)."""
        n, tag, rev, conv = req["n"], req["tag"], req["rev"], req["conv"]
        if n > 4 or n < 1 or (tag == TAGS[0] and n > 3):
            return None
        key = (n, tag, rev if conv else None, conv, req["dur"])
        if key in self._cache:
            return self._cache[key]
        m = int(16000 * req["dur"])
        cols = []
        if conv:
            from scipy.signal import resample_poly

            for i in range(n):
                s = self.src[(tag, i)][:m]
                h = resample_poly(self.rir[(rev, DEGREES[i])], 16000, 48000, axis=0).T
                h = h[MIC[:n], : int(16000 * rev)]
                cols.append(np.stack([np.convolve(s, h[c])[: len(s)] for c in range(n)]))
        else:
            a = np.random.default_rng(seed=42).standard_normal((n, n))
            for i in range(n):
                cols.append(a[:, i][:, None] * self.src[(tag, i)][:m])
        if len({c.shape for c in cols}) > 1:
            out = "ragged"
        else:
            out = np.stack(cols, axis=1)
        self._cache[key] = out
        return out


_servers = {}


def servers(seed):
    if seed not in _servers:
        _servers[seed] = Servers(seed)
    return _servers[seed]


N_VARIANTS = 6


def request(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    return {"n": n, "tag": rng.choice(TAGS), "rev": rng.choice(REVS), "dur": rng.choice([0.01, 0.01, 0.015]),
            "conv": rng.random() < 0.7}


def valid_request(rng):
    while True:
        r = request(rng)
        if not (r["tag"] == TAGS[0] and r["n"] > 3):
            return r


def perform(req, roots):
    from ssspy.utils.dataset import download_sample_speech_data

    return download_sample_speech_data(
        sisec2010_root=roots[0], mird_root=roots[1], n_sources=req["n"], sisec2010_tag=req["tag"],
        max_duration=req["dur"], reverb_duration=req["rev"], conv=req["conv"])


def matches(value, exp):
    data, rate = value
    return (rate == 16000 and isinstance(exp, np.ndarray) and np.shape(data) == exp.shape
            and bool(np.allclose(data, exp, rtol=1e-9, atol=1e-12)))
