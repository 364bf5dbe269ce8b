"""Independent reference model of the objectives and of the outputs.

Written from the documented formulas with explicit loops over bins, sources and frames; nothing of the library is used.
"""
import math

import numpy as np

from . import zoo


def logabsdet(W):
    """log |det W| by Gaussian elimination with pivoting."""
    A = np.array(W, dtype=np.complex128)
    n = len(A)
    total = 0.0
    for k in range(n):
        p = k + int(np.argmax(np.abs(A[k:, k])))
        if A[p, k] == 0:
            return -math.inf
        if p != k:
            A[[k, p]] = A[[p, k]]
        total += math.log(abs(A[k, k]))
        for i in range(k + 1, n):
            A[i, k:] -= A[i, k] / A[k, k] * A[k, k:]
    return total


def filter_of(obj, cfg, X):
    W = obj.demix_filter
    return zoo.recovered_filter(X, obj.output) if W is None else W


def variances(obj, cfg):
    """Low-rank model, (n_sources, n_bins, n_frames)."""
    T, V = obj.basis, obj.activation
    if cfg["kw"].get("partitioning"):
        Z = obj.latent
        N, K = Z.shape
        F, J = T.shape[0], V.shape[1]
        L = np.zeros((N, F, J))
        for n in range(N):
            for k in range(K):
                L[n] += Z[n, k] * np.outer(T[:, k], V[k])
        return L
    return np.stack([sum(np.outer(T[n][:, k], V[n][k]) for k in range(T.shape[2])) for n in range(T.shape[0])])


def loss(obj, cfg, X, Z=None):
    """Objective of the state the object shows now. X input, Z whitened input where the method uses one."""
    c = cfg["cls"]
    if c in zoo.MNMF:
        return _mnmf(obj, cfg, X)
    if c == "CACGMM":
        return _cacgmm(obj, X)
    W = filter_of(obj, cfg, X)
    src = Z if zoo.whitened(cfg) else X
    if c in zoo.ICA:
        Y = W @ src
        total = 0.0
        for n in range(Y.shape[0]):
            if "Laplace" in c:
                total += np.mean(np.abs(Y[n]))
            else:
                total += np.mean(zoo.contrast(cfg, Y[n])[0])
        return total - (0.0 if zoo.whitened(cfg) else logabsdet(W))
    F, C, T = W.shape[0], W.shape[1], X.shape[-1]
    Y = np.stack([W[f] @ src[:, f] for f in range(F)], axis=1)
    logdet = sum(logabsdet(W[f]) for f in range(F))
    if c in zoo.FDICA:
        return float(sum(np.mean(zoo.contrast(cfg, np.abs(Y[n, f]))[0]) for n in range(C) for f in range(F)) - 2 * logdet)
    if c in zoo.PDS + zoo.ADMM:
        pen = 0.0
        user = cfg.get("user")
        l1 = float(np.sum(np.abs(Y)))
        l21 = float(sum(np.linalg.norm(Y[n, :, t]) for n in range(C) for t in range(T)))
        if c in ("PDSIVA", "ADMMIVA"):
            pen = (2 * l21 if user == "default" else l21)
            pen = _iva_penalty(cfg, l21)
        elif user == "l1":
            pen = l1
        elif user == "l21":
            pen = l21
        elif user == "l1+l21":
            pen = l1 + l21
        return pen - logdet
    if c in zoo.GRADIVA + zoo.FASTIVA + zoo.AUXIVA + zoo.PDS:
        total = 0.0
        for n in range(C):
            for t in range(T):
                r = np.linalg.norm(Y[n, :, t])
                if "Gauss" in c:
                    v = obj.variance[n, t]
                    total += (r * r / v + F * math.log(v)) / T
                else:
                    total += zoo.contrast(cfg, r)[0] / T
        return total - (0.0 if zoo.whitened(cfg) else 2 * logdet)
    if c in zoo.ILRMA:
        p = cfg["kw"]["domain"]
        L = variances(obj, cfg)
        total = 0.0
        for n in range(C):
            P = np.abs(Y[n]) ** 2
            if c == "GaussILRMA":
                e = P / L[n] ** (2.0 / p)
            elif c == "TILRMA":
                nu = cfg["kw"]["dof"]
                e = (1 + nu / 2.0) * np.log1p(2.0 / nu * P / L[n] ** (2.0 / p))
            else:
                b = cfg["kw"]["beta"]
                e = np.sqrt(P) ** b / L[n] ** (b / p)
            total += np.sum(np.mean(e + (2.0 / p) * np.log(L[n]), axis=1))
        return float(total) - 2 * logdet
    if c in zoo.IPSDTA:
        return _ipsdta(obj, cfg, Y, logdet)
    raise KeyError(c)


def _iva_penalty(cfg, l21):
    return l21


def _blocks(obj, cfg, F):
    """(start, stop, array (n_sources, n_basis, size, size)) of each frequency block."""
    nb = cfg["kw"]["n_blocks"]
    size, rest = F // nb, F % nb
    out = []
    at = 0
    U = obj.basis if isinstance(obj.basis, tuple) else (obj.basis,)
    # the first n_blocks - rest blocks have `size` bins, the others one more
    for b in range(nb - rest):
        out.append((at, at + size, U[0][:, :, b]))
        at += size
    for b in range(rest):
        out.append((at, at + size + 1, U[1][:, :, b]))
        at += size + 1
    return out


def _ipsdta(obj, cfg, Y, logdet):
    N, F, T = Y.shape
    V = obj.activation
    total = 0.0
    for t in range(T):
        for n in range(N):
            q = ld = 0.0
            for a, b, U in _blocks(obj, cfg, F):
                R = sum(U[n, k] * V[n, k, t] for k in range(V.shape[1]))
                y = Y[n, a:b, t]
                q += max(0.0, float(np.real(np.vdot(y, np.linalg.solve(R, y)))))
                ld += logabsdet(R)
            if cfg["cls"] == "GaussIPSDTA":
                total += q + ld
            else:
                nu = cfg["kw"]["dof"]
                total += (nu + 2 * F) / 2.0 * math.log(1 + 2.0 / nu * q) + ld
    return total / T - 2 * logdet


def model_covariances(obj, cfg):
    """(n_sources, n_bins, n_frames, C, C) covariances of the source images."""
    L = variances(obj, cfg)
    N, F, T = L.shape
    C = cfg["C"]
    out = np.zeros((N, F, T, C, C), dtype=np.complex128)
    for f in range(F):
        if cfg["cls"] == "GaussMNMF":
            H = [obj.spatial[n, f] for n in range(N)]
        else:
            A = np.linalg.inv(obj.diagonalizer[f])
            D = obj.spatial[f]  # (n_sources, n_channels)
            H = [sum(D[n, m] * np.outer(A[:, m], A[:, m].conj()) for m in range(C)) for n in range(N)]
        for n in range(N):
            for t in range(T):
                out[n, f, t] = L[n, f, t] * H[n]
    return out


def _mnmf(obj, cfg, X):
    R = model_covariances(obj, cfg).sum(axis=0)
    F, T = R.shape[:2]
    total = 0.0
    for f in range(F):
        for t in range(T):
            x = X[:, f, t]
            total += float(np.real(np.vdot(x, np.linalg.solve(R[f, t], x)))) + logabsdet(R[f, t])
    return total / T


def wiener(obj, cfg, X):
    Rn = model_covariances(obj, cfg)
    R = Rn.sum(axis=0)
    N, F, T = Rn.shape[:3]
    ref = cfg["kw"]["reference_id"]
    Y = np.zeros((N, F, T), dtype=np.complex128)
    for f in range(F):
        for t in range(T):
            u = np.linalg.solve(R[f, t], X[:, f, t])
            for n in range(N):
                Y[n, f, t] = Rn[n, f, t][ref] @ u
    return Y


def _log_component(obj, X):
    C, F, T = X.shape
    N = obj.mixing.shape[0]
    out = np.zeros((N, F, T))
    for f in range(F):
        for n in range(N):
            B = obj.covariance[n, f]
            inv = np.linalg.inv(B)
            ld = logabsdet(B)
            for t in range(T):
                z = X[:, f, t] / np.linalg.norm(X[:, f, t])
                q = float(np.real(np.vdot(z, inv @ z)))
                out[n, f, t] = math.log(obj.mixing[n, f]) - ld - C * math.log(q)
    return out


def _cacgmm(obj, X):
    L = _log_component(obj, X)
    m = L.max(axis=0)
    return float(-np.sum(np.mean(m + np.log(np.sum(np.exp(L - m), axis=0)), axis=-1)))


def posterior(obj, X):
    L = _log_component(obj, X)
    E = np.exp(L - L.max(axis=0))
    return E / E.sum(axis=0)
