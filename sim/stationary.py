"""What a plain descent could still gain on the objective a method reports, parameter block by parameter block.

The objective is treated as a black box (compute_loss); gradients are central differences in natural coordinates:
filters and positive definite matrices move by (I + G) A, nonnegative numbers by exp(g), weights stay on their simplex.
"""
import numpy as np

from . import zoo

STEPS = 10.0 ** np.arange(2.0, -5.5, -0.5)  # curvatures are about one per coordinate, or one per frame for activations
EPS = 1e-5


def unitary(G):
    """Cayley transform of the skew-Hermitian part."""
    A = (G - np.swapaxes(G, -1, -2).conj()) / 2
    E = np.eye(A.shape[-1])
    return np.linalg.solve(E - A / 2, E + A / 2)


def blocks(obj, cfg, offdiag=False):
    """Yield (name, direction shape, complex?, apply) where apply(direction) changes the object; restore by restoring the state."""
    c = cfg["cls"]
    out = []

    def floor(v):
        return np.maximum(v, zoo.EPS)

    def value():
        try:
            return obj.compute_loss()
        except np.linalg.LinAlgError:
            return float("nan")

    def put(name, shape, cplx, apply, loss=value):
        out.append((name, shape, cplx, apply, loss))

    if zoo.has_filter(cfg):
        signal = obj.demix_filter is None
        ica = c in zoo.ICA
        base = obj.output if signal else obj.demix_filter
        C = base.shape[0] if signal else base.shape[-2]
        F = () if ica else (cfg["F"],)
        ortho = zoo.whitened(cfg)

        def move(G, base=base, signal=signal):
            M = unitary(G) if ortho else np.eye(C) + G
            if signal:
                obj.output = np.einsum("fnm,mft->nft", M, base)
            else:
                obj.demix_filter = M @ base

        if c == "FastICA":  # sources are estimated one after another, each orthogonal to those before
            for n in range(C - 1):
                def rotate(g, n=n):
                    w = base[n] + g @ base[n + 1:]
                    obj.demix_filter = np.concatenate([base[:n], [w / np.linalg.norm(w)], base[n + 1:]])

                def one(n=n):
                    return float(np.mean(obj.contrast_fn(obj.demix_filter[n] @ obj.whitened_input)))
                put("filter of source %d" % n, (C - 1 - n,), False, rotate, one)
        elif ortho:
            put("filter", F + (C, C), not ica, move)
        else:
            for n in range(C):
                def row(g, n=n):
                    G = np.zeros(F + (C, C), dtype=complex if not ica else float)
                    G[..., n, :] = g
                    if offdiag:
                        G[..., n, n] = 0
                    move(G)
                put("filter of source %d" % n, F + (C,), not ica, row)
    if c in zoo.ILRMA + zoo.IPSDTA + zoo.MNMF:
        V = obj.activation
        part = bool(cfg["kw"].get("partitioning"))
        T = obj.basis
        for n in ([None] if part else range(V.shape[0])):
            def act(g, n=n):
                W = V.copy()
                if n is None:
                    W = floor(W * np.exp(g))
                else:
                    W[n] = floor(W[n] * np.exp(g))
                obj.activation = W
            put("activation" if n is None else "activation of source %d" % n, V.shape if n is None else V.shape[1:], False, act)
        if c in zoo.IPSDTA:
            parts = T if isinstance(T, tuple) else (T,)
            for b, P in enumerate(parts):
                def psd(G, b=b, P=P):
                    M = np.eye(P.shape[-1]) + G
                    Q = M @ P @ np.swapaxes(M, -1, -2).conj()
                    obj.basis = tuple(Q if i == b else p for i, p in enumerate(parts)) if isinstance(T, tuple) else Q
                put("basis (part %d)" % b, P.shape, True, psd)
        else:
            for n in ([None] if part else range(T.shape[0])):
                def bas(g, n=n):
                    W = T.copy()
                    if n is None:
                        W = floor(W * np.exp(g))
                    else:
                        W[n] = floor(W[n] * np.exp(g))
                    obj.basis = W
                put("basis" if n is None else "basis of source %d" % n, T.shape if n is None else T.shape[1:], False, bas)
            if part:
                Z = obj.latent

                def lat(g):
                    W = Z * np.exp(g)
                    obj.latent = W / W.sum(axis=0)
                put("latent", Z.shape, False, lat)
    if c == "GaussMNMF" or c == "CACGMM":
        key = "spatial" if c == "GaussMNMF" else "covariance"
        S = getattr(obj, key)

        def spat(G):
            M = np.eye(S.shape[-1]) + G
            setattr(obj, key, M @ S @ np.swapaxes(M, -1, -2).conj())
        put(key, S.shape, True, spat)
    if c == "FastGaussMNMF":
        D, Q = obj.spatial, obj.diagonalizer

        def dia(g):
            obj.spatial = floor(D * np.exp(g))

        def qmove(G):
            obj.diagonalizer = (np.eye(Q.shape[-1]) + G) @ Q
        put("spatial", D.shape, False, dia)
        put("diagonalizer", Q.shape, True, qmove)
    if c == "CACGMM":
        A = obj.mixing

        def mix(g):
            B = A * np.exp(g)
            obj.mixing = B / B.sum(axis=0)
        put("mixing", A.shape, False, mix)
    return out


KEYS = ("demix_filter", "output", "basis", "activation", "latent", "spatial", "diagonalizer", "covariance", "mixing")


def achievable(obj, cfg, offdiag=False):
    """-> (loss, {block: decrease found by steepest descent with line search})."""
    state = {k: zoo.cp(obj.__dict__[k]) for k in KEYS if k in obj.__dict__}

    def restore():
        for k, v in state.items():
            setattr(obj, k, zoo.cp(v))

    L0 = obj.compute_loss()
    out = {}
    for name, shape, cplx, apply, loss in blocks(obj, cfg, offdiag):
        start = loss()
        g = np.zeros(shape, dtype=complex if cplx else float)
        d = np.zeros(shape, dtype=g.dtype)
        flat, dflat = g.reshape(-1), d.reshape(-1)
        for i in range(flat.size):
            for u in ((1, 1j) if cplx else (1,)):
                v = []
                for s in (EPS, -EPS):
                    dflat[i] = s * u
                    apply(d)
                    v.append(loss())
                dflat[i] = 0
                flat[i] += u * (v[0] - v[1]) / (2 * EPS)
        m = np.max(np.abs(g))
        best = 0.0
        if np.isfinite(m) and m > 0:
            for t in STEPS:
                if t * m > 1:
                    continue
                apply(-g * t)
                L = loss()
                if np.isfinite(L):
                    best = max(best, start - L)
        out[name] = best
        restore()
    restore()
    return L0, out


def relative_gradient(obj, cfg):
    """Gradient of the objective in G, filters being (I + G) W: shape of the filters. Variances that depend on the filters follow."""
    W = obj.demix_filter.copy()
    C = W.shape[-1]
    G = np.zeros(W.shape, dtype=W.dtype)
    flat = G.reshape(-1)
    D = np.zeros_like(G)
    dflat = D.reshape(-1)
    follow = getattr(obj, "update_source_model", None)
    kept = zoo.cp(getattr(obj, "variance", None))
    for i in range(flat.size):
        for u in ((1, 1j) if np.iscomplexobj(W) else (1,)):
            v = []
            for s in (EPS, -EPS):
                dflat[i] = s * u
                obj.demix_filter = (np.eye(C) + D) @ W
                if follow is not None:
                    follow()
                v.append(obj.compute_loss())
            dflat[i] = 0
            flat[i] += u * (v[0] - v[1]) / (2 * EPS)
    obj.demix_filter = W
    if follow is not None:
        obj.variance = kept
    return G
