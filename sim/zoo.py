"""Every separation method of the library behind one interface.

A configuration is plain JSON, so a case can be stored, shrunk and replayed:
  {"cls", "alg", "src", "C", "F", "T", "N", "kw": {...}, "floor", "user", "x": {...}, "rng": seed}
"""
import functools
import importlib
import random

import numpy as np

BIG = 1e-3
EPS = 1e-10

MODULE = {}


def _reg(mod, *names):
    for n in names:
        MODULE[n] = "ssspy.bss." + mod


_reg("ica", "GradICA", "NaturalGradICA", "FastICA", "GradLaplaceICA", "NaturalGradLaplaceICA")
_reg("fdica", "GradFDICA", "NaturalGradFDICA", "AuxFDICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA", "AuxLaplaceFDICA")
_reg("iva", "GradIVA", "NaturalGradIVA", "FastIVA", "FasterIVA", "AuxIVA", "PDSIVA", "ADMMIVA", "GradLaplaceIVA", "GradGaussIVA",
     "NaturalGradLaplaceIVA", "NaturalGradGaussIVA", "AuxLaplaceIVA", "AuxGaussIVA")
_reg("pdsbss", "PDSBSS", "MaskingPDSBSS")
_reg("admmbss", "ADMMBSS", "MaskingADMMBSS")
_reg("hva", "MaskingPDSHVA", "MaskingADMMHVA", "HVA")
_reg("ilrma", "GaussILRMA", "TILRMA", "GGDILRMA")
_reg("ipsdta", "GaussIPSDTA", "TIPSDTA")
_reg("mnmf", "GaussMNMF", "FastGaussMNMF")
_reg("cacgmm", "CACGMM")

ALL = sorted(MODULE)
ICA = [c for c in ALL if MODULE[c].endswith(".ica")]
FDICA = [c for c in ALL if MODULE[c].endswith(".fdica")]
AUXIVA = ["AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA"]
FASTIVA = ["FastIVA", "FasterIVA"]
GRADIVA = ["GradIVA", "NaturalGradIVA", "GradLaplaceIVA", "GradGaussIVA", "NaturalGradLaplaceIVA", "NaturalGradGaussIVA"]
PDS = ["PDSIVA", "PDSBSS", "MaskingPDSBSS", "MaskingPDSHVA", "HVA"]
ADMM = ["ADMMIVA", "ADMMBSS", "MaskingADMMBSS", "MaskingADMMHVA"]
HVAS = ["MaskingPDSHVA", "MaskingADMMHVA", "HVA"]
ILRMA = ["GaussILRMA", "TILRMA", "GGDILRMA"]
IPSDTA = ["GaussIPSDTA", "TIPSDTA"]
MNMF = ["GaussMNMF", "FastGaussMNMF"]
GRAD = [c for c in ICA if c != "FastICA"] + ["GradFDICA", "NaturalGradFDICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA"] + GRADIVA
# families drawn with equal weight, so that large families do not drown small ones
FAMILIES = {"ica": ICA, "fdica": FDICA, "gradiva": GRADIVA, "fastiva": FASTIVA, "auxiva": AUXIVA, "pds": PDS, "admm": ADMM,
            "ilrma": ILRMA, "ipsdta": IPSDTA, "mnmf": MNMF, "cacgmm": ["CACGMM"]}
WEIGHTS = {"ica": 2, "fdica": 3, "gradiva": 2, "fastiva": 1, "auxiva": 5, "pds": 2, "admm": 2, "ilrma": 7, "ipsdta": 2, "mnmf": 4,
           "cacgmm": 2}
SIGNAL_ALGS = ("ISS", "ISS1", "ISS2", "IPA")


def by_signal(cfg):
    """The separated signal, not the filter, is what is updated."""
    return cfg["cls"] in AUXIVA + ILRMA and cfg.get("alg") in SIGNAL_ALGS


def pairwise(cfg):
    return cfg.get("alg") in ("IP2", "ISS2")


def has_filter(cfg):
    return cfg["cls"] not in MNMF + ["CACGMM"]


def whitened(cfg):
    return cfg["cls"] in FASTIVA + ["FastICA"]


def uses_rng(cfg):
    return cfg["cls"] in ILRMA + IPSDTA + MNMF + ["CACGMM"]


def state_keys(cfg):
    c = cfg["cls"]
    keys = ["demix_filter"] if has_filter(cfg) else []
    if c in PDS:
        keys.append("dual")
    if c in ADMM:
        keys += ["auxiliary1", "auxiliary2", "dual1", "dual2"]
    if c in ILRMA + IPSDTA + MNMF:
        keys += ["basis", "activation"]
        if cfg["kw"].get("partitioning"):
            keys.append("latent")
    if c in MNMF:
        keys.append("spatial")
    if c == "FastGaussMNMF":
        keys.append("diagonalizer")
    if c == "CACGMM":
        keys += ["mixing", "covariance"]
    return keys


def records_loss(cfg):
    return cfg["cls"] not in HVAS and cfg.get("user") != "nopenalty"


# ---------------------------------------------------------------- inputs


def make_input(cfg):
    """A mixture of sparse, nonstationary sources, with injected dropouts and gains."""
    x = cfg["x"]
    g = np.random.default_rng(x["seed"])
    C, T = cfg["C"], cfg["T"]
    if cfg["cls"] in ICA:
        s = g.laplace(size=(C, T))
        a = g.normal(size=(C, C)) + 1.5 * np.eye(C)
        X = a @ s
    else:
        F = cfg["F"]
        env = g.gamma(0.6, size=(C, 1, T)) + 0.05
        prof = g.gamma(1.0, size=(C, F, 1)) + 0.1
        s = np.sqrt(env * prof) * (g.normal(size=(C, F, T)) + 1j * g.normal(size=(C, F, T)))
        a = g.normal(size=(F, C, C)) + 1j * g.normal(size=(F, C, C)) + 1.5 * np.eye(C)
        X = np.einsum("fij,jft->ift", a, s)
        X = X + 1e-3 * (g.normal(size=X.shape) + 1j * g.normal(size=X.shape))
    for kind, a, b in x.get("faults", ()):
        if kind == "dead_frame":
            X[..., a % T] = 0
        elif kind == "dead_bin" and X.ndim == 3:
            X[:, a % X.shape[1], :] = 0
        elif kind == "dead_channel_frames":
            X[a % C, ..., : 1 + b % (T // 2)] = 0
        elif kind == "burst":
            X[..., a % T] *= 10.0 ** (b % 4)
        elif kind == "gain":
            X = X * 10.0 ** b
        elif kind == "twin_bin" and X.ndim == 3:
            X[:, a % X.shape[1], :] = X[:, b % X.shape[1], :]
    if cfg["cls"] in PDS:  # step sizes of primal-dual splitting presume this (normalize_by_spectral_norm)
        norm = np.max(np.linalg.norm(X.transpose(1, 0, 2), ord=2, axis=(-2, -1)))
        X = X / (np.sqrt(2.0 if cfg.get("user") == "l1+l21" else 1.0) * max(norm, 1e-300))
    X = np.ascontiguousarray(X)
    how = x.get("layout")
    if how == "F":
        X = X.copy(order="F")
    elif how == "strided":
        buf = np.full(tuple(2 * n for n in X.shape), np.nan, X.dtype)
        buf[tuple(slice(1, None, 2) for _ in X.shape)] = X
        X = buf[tuple(slice(1, None, 2) for _ in X.shape)]
    elif how == "readonly":
        X.flags.writeable = False
    return X


# ---------------------------------------------------------------- random configurations


def gen(rng, classes=None, sizes=None, floors=("max", "max", "max", "add", "none"), scale=(True, False, "MDP", "projection_back")):
    if classes is None:
        fams = sorted(FAMILIES)
        fam = rng.choices(fams, weights=[WEIGHTS[f] for f in fams])[0]
        cls = rng.choice(FAMILIES[fam])
    else:
        fams = sorted(f for f in FAMILIES if any(c in classes for c in FAMILIES[f]))
        fam = rng.choices(fams, weights=[WEIGHTS[f] for f in fams])[0]
        cls = rng.choice([c for c in FAMILIES[fam] if c in classes])
    C = rng.choice([2, 2, 2, 3, 3, 4])
    cfg = {"cls": cls, "C": C, "F": rng.choice([2, 3, 4, 5]), "T": rng.choice([12, 16, 21]), "kw": {}, "floor": rng.choice(floors),
           "rng": rng.randrange(1 << 30), "x": {"seed": rng.randrange(1 << 30), "faults": []}}
    kw = cfg["kw"]
    r = random.Random(cfg["rng"] ^ 0xDED)
    if r.random() < 0.3:
        cfg["x"]["layout"] = r.choice(["F", "strided", "readonly"])
    if r.random() < 0.06 and cls not in HVAS + MNMF + ["CACGMM"]:
        cfg["F"] = 1
    if r.random() < 0.04:
        cfg["C"] = C = r.choice([4, 5, 5, 6])
        cfg["T"] = r.choice([24, 33])
        if cls in IPSDTA + MNMF + ["CACGMM"]:
            cfg["C"] = C = 4
    elif r.random() < 0.04 and cls not in IPSDTA:
        cfg["F"], cfg["T"] = r.choice([8, 9, 13]), r.choice([40, 65])
    elif r.random() < 0.02 and cls not in IPSDTA:
        cfg["C"] = C = 2
        cfg["F"], cfg["T"] = r.choice([(2, 130), (3, 257), (2, 513), (33, 16), (65, 20), (129, 12)])
    if cls == "AuxGaussIVA":  # few bins leave its likelihood unbounded
        cfg["F"], cfg["T"] = rng.choice([5, 6, 7]), rng.choice([24, 32])
    if cls in GRAD:
        kw["is_holonomic"] = rng.choice([True, False])
        kw["step_size"] = rng.choice([0.1, 0.05, 0.01])
    if cls in FDICA:
        kw["permutation_alignment"] = rng.choice([True, False])
    if cls in ("AuxFDICA", "AuxLaplaceFDICA"):
        cfg["alg"] = rng.choice(["IP", "IP1", "IP2", "IP2"])
    if cls in AUXIVA:
        cfg["alg"] = rng.choice(["IP", "IP1", "IP2", "IP2", "ISS", "ISS1", "ISS2", "ISS2", "IPA", "IPA"])
    if cls in ("PDSIVA", "ADMMIVA"):
        cfg["user"] = rng.choice(["default", "l21"])
    if cls in ("PDSBSS", "ADMMBSS"):
        cfg["user"] = rng.choice(["l1", "l21", "l1+l21", "nopenalty"])
    if cls in ("MaskingPDSBSS", "MaskingADMMBSS"):
        cfg["user"] = rng.choice(["nopenalty", "l21"])
    if cls in PDS:
        kw["relaxation"] = rng.choice([1, 1.5, 0.7])
        kw["mu1"], kw["mu2"] = rng.choice([(1, 1), (0.5, 1), (0.5, 2), (0.25, 2)])
    if cls in ADMM:
        kw["relaxation"] = rng.choice([1, 1.5, 0.7])
        kw["rho"] = rng.choice([1, 2.0])
    if cls in HVAS:
        kw["attenuation"] = rng.choice([None, 0.3])
        kw["mask_iter"] = rng.choice([1, 1, 2, 3])
    if cls in ILRMA:
        kw["n_basis"] = rng.choice([1, 2, 3])
        kw["partitioning"] = rng.choice([False, False, True])
        if kw["partitioning"]:  # one shared basis does not distinguish the sources
            kw["n_basis"] = rng.choice([2, 3, 4])
        kw["normalization"] = rng.choice([True, False, "power", "projection_back"])
        if kw["partitioning"] and kw["normalization"] == "projection_back":
            kw["normalization"] = "power"
        algs = ["IP", "IP1", "IP2", "IP2", "ISS", "ISS1", "ISS2", "ISS2"]
        if cls == "GaussILRMA":
            algs += ["IPA", "IPA"]
        cfg["alg"] = rng.choice(algs)
        cfg["src"] = "MM"
        kw["domain"] = rng.choice([2, 2, 1, 1.5])
        if cls == "TILRMA":
            kw["dof"] = rng.choice([1, 4, 100.0])
            cfg["src"] = rng.choice(["MM", "ME"])
        elif cls == "GGDILRMA":
            kw["beta"] = rng.choice([0.5, 1, 1.5, 1.99])
        else:
            cfg["src"] = rng.choice(["MM", "ME"])
        if cfg["src"] == "ME":
            kw["domain"] = 2
    if cls in IPSDTA:
        kw["n_basis"] = rng.choice([1, 2, 3])
        kw["n_blocks"] = rng.choice([b for b in (1, 2, 3) if b <= cfg["F"]])
        kw["source_normalization"] = rng.choice([True, True, False])
        if cls == "TIPSDTA":
            kw["dof"] = rng.choice([1, 4, 100.0])
    if cls in MNMF:
        kw["n_basis"] = rng.choice([1, 2, 3])
        cfg["N"] = rng.choice([None, None, 2, 3])
        kw["normalization"] = rng.choice([True, True, False])
        if cls == "GaussMNMF":
            kw["partitioning"] = rng.choice([False, False, True])
            if kw["partitioning"]:
                kw["n_basis"] = rng.choice([2, 3, 4])
        else:
            cfg["alg"] = rng.choice(["IP", "IP1", "IP2", "IP2"])
    if cls == "CACGMM":
        cfg["N"] = rng.choice([None, None, 2, 3])
        kw["normalization"] = rng.choice([True, True, False])
        kw["permutation_alignment"] = rng.choice([True, False, "posterior_score", "amplitude_score", "amplitude_correlation"])
    if kw.get("permutation_alignment") is True and cls in FDICA and r.random() < 0.4:
        kw["permutation_alignment"] = "spectrogram_correlation"
    if kw.get("normalization") is True and cls in ILRMA + ["GaussMNMF"] and r.random() < 0.3:
        kw["normalization"] = "power"
    if cfg.get("src") == "MM" and r.random() < 0.12:
        kw["domain"] = r.choice([0.5, 1.2, 1.7])
    if "n_basis" in kw and r.random() < 0.05:
        kw["n_basis"] = r.choice([4, 5])
    if cls == "CACGMM" and r.random() < 0.08:
        cfg["N"] = 1 if r.random() < 0.5 or C > 3 else C + 2
    if has_filter(cfg) and cls not in ICA:
        kw["scale_restoration"] = rng.choice(scale)
    if cls not in ICA:
        kw["reference_id"] = rng.randrange(C)
    if cfg.get("alg") == "IPA" and rng.random() < 0.5:
        kw["lqpqm_normalization"] = rng.choice([True, False])
        kw["newton_iter"] = rng.choice([1, 2, 3])
    if cls == "CACGMM" and kw["permutation_alignment"] in (True, "posterior_score", "amplitude_score") and rng.random() < 0.5:
        kw["global_iter"], kw["local_iter"] = rng.choice([1, 2]), rng.choice([1, 2])
    if cls in USER_CONTRAST and random.Random(cfg["rng"]).random() < 0.4:
        cfg["contrast"] = "heavy"
    if pairwise(cfg):
        cfg["pairs"] = gen_pairs(rng, C)
        if isinstance(cfg["pairs"], list) and kw.get("normalization") == "projection_back":
            kw["normalization"] = "power"  # a source not visited yet would be scaled to zero
    return cfg


def gen_pairs(rng, n):
    """A pair schedule: "default", a library selector, or explicit lists (one per iteration, cycled)."""
    r = rng.random()
    if r < 0.2:
        return "default"
    if r < 0.4:
        return rng.choice(["sequential", "combination", "sequential_sorted", "sequential_step2"])
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        lst = []
        for _ in range(rng.randrange(1, n + 3) if n > 2 else 1):
            m, k = rng.sample(range(n), 2)
            # visiting a pair twice in a row leaves the phase of its filters to rounding
            if not lst or {m, k} != set(lst[-1]):
                lst.append([m, k])
        out.append(lst)
    return out


# ---------------------------------------------------------------- user functions


USER_CONTRAST = ("GradICA", "NaturalGradICA", "FastICA", "GradFDICA", "NaturalGradFDICA", "AuxFDICA", "GradIVA", "NaturalGradIVA",
                 "FastIVA", "FasterIVA", "AuxIVA")


def contrast(cfg, r):
    """G, G', G'' of the magnitude (of the signed sample for time-domain ICA) for classes whose source model the caller chooses."""
    heavy = cfg["cls"] in USER_CONTRAST and cfg.get("contrast") == "heavy"
    if cfg["cls"] in ICA:
        if heavy:
            return np.log(1 + r**2), 2 * r / (1 + r**2), 2 * (1 - r**2) / (1 + r**2) ** 2
        return np.log(np.cosh(r)), np.tanh(r), 1 - np.tanh(r) ** 2
    if heavy:
        a = 2.0 if cfg["cls"] in FDICA else cfg["F"] + 1.0
        return a * np.log(1 + r**2), 2 * a * r / (1 + r**2), 2 * a * (1 - r**2) / (1 + r**2) ** 2
    return 2 * r, 2 * np.ones_like(r), np.zeros_like(r)


def flooring(name):
    return {"max": functools.partial(np.maximum, EPS), "add": lambda x: x + EPS, "none": None, "big": functools.partial(np.maximum, BIG)}[name]


def user_functions(cfg):
    """Callables the configuration hands to the library, by argument name."""
    from ssspy.linalg import prox

    c, u = cfg["cls"], {}
    if c in USER_CONTRAST:
        vec = c not in ICA + FDICA
        size = (lambda y: np.linalg.norm(y, axis=1)) if vec else (lambda y: y) if c in ICA else np.abs
        u["contrast_fn"] = lambda y: contrast(cfg, size(y))[0]
        if c in ("GradICA", "NaturalGradICA", "FastICA"):
            u["score_fn"] = lambda y: contrast(cfg, y)[1]
        if c == "FastICA":
            u["d_score_fn"] = lambda y: contrast(cfg, y)[2]
        if c in ("GradFDICA", "NaturalGradFDICA", "GradIVA", "NaturalGradIVA"):
            def score(y):
                r = np.maximum(np.linalg.norm(y, axis=1, keepdims=True) if vec else np.abs(y), EPS)
                return y * contrast(cfg, r)[1] / (2 * r)
            u["score_fn"] = score
        if c in ("AuxFDICA", "AuxIVA", "FastIVA", "FasterIVA"):
            u["d_contrast_fn"] = lambda y: contrast(cfg, y)[1]
        if c == "FastIVA":
            u["dd_contrast_fn"] = lambda y: contrast(cfg, y)[2]
    if c in ("PDSIVA", "ADMMIVA") and cfg["user"] != "default":
        u["contrast_fn"] = lambda y: np.linalg.norm(y, axis=1)
        u["prox_penalty"] = lambda y, step_size=1: prox.l21(y, step_size=step_size, axis2=1)
    if c in ("PDSBSS", "ADMMBSS"):
        pens = {"l1": lambda y: np.abs(y).sum(), "l21": lambda y: np.linalg.norm(y, axis=1).sum()}
        proxs = {"l1": lambda y, step_size=1: prox.l1(y, step_size=step_size),
                 "l21": lambda y, step_size=1: prox.l21(y, step_size=step_size, axis2=1)}
        names = {"l1": ["l1"], "l21": ["l21"], "l1+l21": ["l1", "l21"], "nopenalty": ["l21"]}[cfg["user"]]
        if cfg["user"] != "nopenalty":
            u["penalty_fn"] = [pens[n] for n in names]
        u["prox_penalty"] = [proxs[n] for n in names]
    if c in ("MaskingPDSBSS", "MaskingADMMBSS"):
        if cfg["user"] != "nopenalty":
            u["penalty_fn"] = lambda y: np.linalg.norm(y, axis=1).sum()
        u["mask_fn"] = lambda y: np.abs(y) ** 2 / np.maximum(np.sum(np.abs(y) ** 2, axis=0), EPS)
        if cfg["user"] == "proxmask":  # the mask that makes masking the proximal step of the penalty
            t = 1 / cfg["kw"].get("mu2", cfg["kw"].get("rho"))
            u["mask_fn"] = lambda y: np.maximum(1 - t / np.maximum(np.linalg.norm(y, axis=1, keepdims=True), EPS), 0) * np.ones_like(y, float)
    if c not in ICA + PDS + ADMM or c in HVAS:
        u["flooring_fn"] = flooring(cfg["floor"])
    return u


def pair_selector(cfg, log=None):
    """The caller's pair schedule as a callable; log collects what was asked and yielded."""
    from ssspy.utils import select_pair as sp

    p = cfg.get("pairs")
    if p is None or p == "default":
        return None
    if isinstance(p, str):
        base = {"sequential": sp.sequential_pair_selector, "combination": sp.combination_pair_selector,
                "sequential_sorted": functools.partial(sp.sequential_pair_selector, sort=True),
                "sequential_step2": functools.partial(sp.sequential_pair_selector, step=2)}[p]
        return base
    calls = [0]

    def select(n_sources):
        i = calls[0]
        calls[0] += 1
        if log is not None:
            log.append(("ask", n_sources))
        for m, n in p[i % len(p)]:
            if log is not None:
                log.append(("pair", m, n))
            yield m, n

    return select


# what the documentation says an option is when it is left out
DEFAULTS = {"reference_id": 0, "scale_restoration": True, "permutation_alignment": True, "relaxation": 1, "mu1": 1, "mu2": 1, "rho": 1,
            "domain": 2, "partitioning": False, "normalization": True, "source_normalization": True, "step_size": 0.1,
            "attenuation": None, "mask_iter": 1, "spatial_algorithm": "IP", "diagonalizer_algorithm": "IP", "source_algorithm": "MM"}


def set_defaults(cfg):
    """Gives every option of the configuration its documented default."""
    kw = cfg["kw"]
    for k, d in DEFAULTS.items():
        if k in kw:
            kw[k] = d
    if "is_holonomic" in kw:
        kw["is_holonomic"] = cfg["cls"] in GRADIVA
    if cfg.get("alg") == "IPA":
        kw["lqpqm_normalization"], kw["newton_iter"] = True, 1
    if "alg" in cfg and cfg["rng"] % 2:
        cfg["alg"] = "IP"
        kw.pop("lqpqm_normalization", None), kw.pop("newton_iter", None)
    if "src" in cfg:
        cfg["src"] = "MM"
    if "pairs" in cfg:
        cfg["pairs"] = "default"
    cfg["floor"] = "max"
    cfg.pop("N", None)


def leave_out(cfg, kw):
    """Some options whose value is the documented default are left to the library; some by their older name."""
    if cfg.get("leave") == "none":
        return
    if cfg.get("leave") == "all":
        for k in list(DEFAULTS) + ["is_holonomic", "lqpqm_normalization", "newton_iter", "flooring_fn"]:
            if k not in ("spatial_algorithm", "diagonalizer_algorithm") or kw.get(k) == "IP":
                kw.pop(k, None)
        return
    r = random.Random(cfg["rng"] ^ 0xDEF)
    for k, d in DEFAULTS.items():
        if r.random() < 0.4 and k in kw and kw[k] == d and isinstance(kw[k], bool) == isinstance(d, bool):
            del kw[k]
    if r.random() < 0.4 and cfg["floor"] == "max":
        kw.pop("flooring_fn", None)
    if r.random() < 0.3 and kw.get("relaxation", 1) != 1:
        kw["alpha"] = kw.pop("relaxation")


def get_class(name):
    return getattr(importlib.import_module(MODULE[name]), name)


def build(cfg, callbacks=None, record_loss=None, wrap=None, rng=None, extra=None, pair_log=None):
    """Construct the object. wrap(name, fn) may decorate every user function."""
    cls = get_class(cfg["cls"])
    kw = dict(cfg["kw"])
    u = user_functions(cfg)
    sel = pair_selector(cfg, pair_log)
    if sel is not None:
        u["pair_selector"] = sel
    if wrap is not None:
        for k, f in list(u.items()):
            if isinstance(f, list):
                u[k] = [wrap(k, g) for g in f]
            elif f is not None:
                u[k] = wrap(k, f)
    kw.update(u)
    if "alg" in cfg:
        kw["diagonalizer_algorithm" if cfg["cls"] == "FastGaussMNMF" else "spatial_algorithm"] = cfg["alg"]
    if "src" in cfg:
        kw["source_algorithm"] = cfg["src"]
    if cfg.get("N"):
        kw["n_sources"] = cfg["N"]
    if uses_rng(cfg):
        kw["rng"] = rng if rng is not None else np.random.default_rng(cfg["rng"])
    leave_out(cfg, kw)
    if record_loss is not None or cfg["cls"] == "ADMMBSS" or random.Random(cfg["rng"] ^ 0xDEE).random() < 0.6:
        kw["record_loss"] = records_loss(cfg) if record_loss is None else record_loss
    if callbacks is not None:
        kw["callbacks"] = callbacks
    if cfg.get("leave") == "all" and record_loss is not False and not (cfg["cls"] == "ADMMBSS" and not records_loss(cfg)):
        kw.pop("record_loss", None)
    kw.update(extra or {})
    return cls(**kw)


# ---------------------------------------------------------------- state


def cp(v):
    return tuple(x.copy() for x in v) if isinstance(v, tuple) else (v.copy() if isinstance(v, np.ndarray) else v)


def snap(obj, cfg, keys=None):
    out = {}
    for k in keys or state_keys(cfg):
        out[k] = cp(getattr(obj, k, None))
    return out


def flat(v):
    if v is None:
        return []
    return list(v) if isinstance(v, tuple) else [v]


def dist(a, b):
    """Largest difference relative to the size of the arrays; inf when shape or kind differ."""
    if a is None or b is None:
        return 0.0 if a is b else float("inf")
    worst = 0.0
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return float("inf")
    for x, y in zip(fa, fb):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return float("inf")
        if x.size == 0:
            continue
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            same = np.array_equal(x, y, equal_nan=True)
            worst = max(worst, 0.0 if same else float("inf"))
            continue
        s = max(float(np.max(np.abs(x))), float(np.max(np.abs(y))), 1e-300)
        worst = max(worst, float(np.max(np.abs(x - y))) / s)
    return worst


def dist_state(cfg, key, a, b, restored):
    """Like dist; the phase that a pairwise update leaves undetermined when a pair is visited twice is ignored."""
    if pairwise(cfg) and not restored and key in ("demix_filter", "diagonalizer", "output") and isinstance(b, np.ndarray) \
            and isinstance(a, np.ndarray) and a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
        c = np.sum(a * b.conj(), axis=-1, keepdims=True)
        b = b * np.where(np.abs(c) > 0, c / np.maximum(np.abs(c), 1e-300), 1)
    return dist(a, b)


def equal_bits(a, b):
    fa, fb = flat(a), flat(b)
    return len(fa) == len(fb) and all(
        np.asarray(x).dtype == np.asarray(y).dtype and np.asarray(x).shape == np.asarray(y).shape
        and np.asarray(x).tobytes() == np.asarray(y).tobytes() for x, y in zip(fa, fb))


def finite(v):
    return all(np.all(np.isfinite(np.asarray(x))) for x in flat(v))


def loss_dist(a, b):
    """Largest difference of two loss lists, relative to their size; nan equals nan."""
    if len(a) != len(b):
        return float("inf")
    worst = 0.0
    for x, y in zip(a, b):
        if np.isfinite(x) and np.isfinite(y):
            worst = max(worst, abs(x - y) / max(1.0, abs(x), abs(y)))
        elif not (x == y or (np.isnan(x) and np.isnan(y))):
            return float("inf")
    return worst


def recovered_filter(X, Y):
    """Filter of a method that updates signals, as its user would recover it."""
    Xf, Yf = X.transpose(1, 0, 2), Y.transpose(1, 0, 2)
    return np.stack([np.linalg.lstsq(x.T, y.T, rcond=None)[0].T for x, y in zip(Xf, Yf)])


def apply_filter(W, X):
    return W @ X if X.ndim == 2 else np.einsum("fnc,cft->nft", W, X)


def loses(W, X, Y):
    """A signal with values far below those of the mixture they are extracted from does not survive as a filter."""
    if W is None or Y is None or not np.all(np.isfinite(W)):
        return True
    Z = apply_filter(W, X)
    return bool(np.any(np.abs(Z - Y) > 1e-7 * np.abs(Y)))


def brief(cfg):
    return "%s(%s%s%s)" % (cfg["cls"], cfg.get("alg", "") or cfg.get("contrast", ""), "/" + cfg["src"] if "src" in cfg else "",
                          "".join(", %s=%s" % (k, v) for k, v in sorted(cfg["kw"].items())))


def shrink_cfg(case, key="cfg"):
    """Simpler configurations for minimisation."""
    c = case[key]

    def with_(**k):
        d = dict(c)
        d.update(k)
        return dict(case, **{key: d})

    for f in range(len(c["x"].get("faults", []))):
        fl = c["x"]["faults"]
        yield with_(x=dict(c["x"], faults=fl[:f] + fl[f + 1:]))
    if c["x"].get("layout"):
        yield with_(x=dict(c["x"], layout=None))
    if c["C"] > 2 and isinstance(c.get("pairs", "default"), str):
        kw = dict(c["kw"])
        if "reference_id" in kw:
            kw["reference_id"] = min(kw["reference_id"], c["C"] - 2)
        yield with_(C=c["C"] - 1, kw=kw)
    if c["F"] > 2 and c["kw"].get("n_blocks", 1) < c["F"]:
        yield with_(F=c["F"] - 1)
    if c["T"] > 8:
        yield with_(T=c["T"] - 4)
    if c.get("N"):
        yield with_(N=None)
    if c["kw"].get("n_basis", 1) > (2 if c["kw"].get("partitioning") else 1):
        yield with_(kw=dict(c["kw"], n_basis=c["kw"]["n_basis"] - 1))
    if isinstance(c.get("pairs"), list):
        p = c["pairs"]
        for i in range(len(p)):
            if len(p) > 1:
                yield with_(pairs=p[:i] + p[i + 1:])
            for j in range(len(p[i])):
                if len(p[i]) > 1:
                    yield with_(pairs=p[:i] + [p[i][:j] + p[i][j + 1:]] + p[i + 1:])
    for k, v in (("scale_restoration", False), ("permutation_alignment", False), ("reference_id", 0), ("normalization", False),
                 ("relaxation", 1), ("partitioning", False)):
        if k in c["kw"] and c["kw"][k] != v and not (k == "permutation_alignment" and "global_iter" in c["kw"]):
            yield with_(kw=dict(c["kw"], **{k: v}))


def light(cfg):
    """Cheap enough for runs of many iterations."""
    return cfg["T"] <= 65 and cfg["F"] <= 13 and cfg["cls"] not in IPSDTA + ["GaussMNMF"]


def late(rng, cfg, n, p=0.01):
    """Now and then a run is long enough to reach what an object does late only."""
    return rng.choice([25, 60, 110]) if rng.random() < p and light(cfg) else n
