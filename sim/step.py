"""Executable reference model of one iteration: the documented updates, written from the formulas.

step(cfg, S, X, roles) maps a visible state S (what the object shows; arrays by attribute name) to the state after the named
parts of an iteration. Nothing of the library is used.
"""
import itertools
import math

import numpy as np

from . import zoo


class Undetermined(Exception):
    """The formulas do not decide the next state (singular matrices, no finite values)."""


KEYS = {"demix_filter", "output", "basis", "activation", "latent", "spatial", "diagonalizer", "mixing", "covariance", "dual",
        "auxiliary1", "auxiliary2", "dual1", "dual2"}


def keys(cfg):
    out = list(zoo.state_keys(cfg))
    if zoo.by_signal(cfg):
        out[out.index("demix_filter")] = "output"
    return out


def visible(obj, cfg):
    return {k: zoo.cp(getattr(obj, k, None)) for k in keys(cfg)}


def floor(cfg):
    return {"max": lambda x: np.maximum(x, zoo.EPS), "big": lambda x: np.maximum(x, zoo.BIG), "add": lambda x: x + zoo.EPS,
            "none": lambda x: x}[cfg["floor"]]


def sep(W, X):
    return W @ X if X.ndim == 2 else np.einsum("fnc,cft->nft", W, X)


def sure(*Ms):
    """Raises unless the matrices can be inverted, and their products too, without losing more than half of the digits."""
    for M in Ms:
        if not (np.all(np.isfinite(M)) and np.max(np.linalg.cond(M)) < 3e4):
            raise Undetermined


def hermitian(A):
    return (A + np.swapaxes(A, -1, -2).conj()) / 2


def spectral(A, f):
    w, P = np.linalg.eigh(hermitian(A))
    return np.einsum("...ij,...j,...kj->...ik", P, f(w), P.conj())


def whiten(X):
    if X.ndim == 2:
        w, V = np.linalg.eigh(X @ X.T / X.shape[-1])
        return V.T @ X / np.sqrt(w)[:, None]
    return np.stack([np.linalg.eigh(X[:, f] @ X[:, f].conj().T / X.shape[-1])[1].conj().T @ X[:, f]
                     / np.sqrt(np.linalg.eigvalsh(X[:, f] @ X[:, f].conj().T / X.shape[-1]))[:, None] for f in range(X.shape[1])], axis=1)


# ---------------------------------------------------------------- gradient and fixed-point methods


def _gradient(cfg, S, X):
    """W <- W - step * (E[phi(y) y^H] - I) W^-H (or times W: natural gradient); without the diagonal when nonholonomic."""
    c, W = cfg["cls"], S["demix_filter"]
    Y = sep(W, X)
    T = X.shape[-1]
    C = W.shape[-1]
    if c in zoo.ICA:
        phi = np.sign(Y) if "Laplace" in c else zoo.contrast(cfg, Y)[1]
        M = phi @ Y.T / T
    else:
        if c in zoo.FDICA:
            r = np.maximum(np.abs(Y), zoo.EPS)
            phi = Y * zoo.contrast(cfg, r)[1] / (2 * r)
        elif "Gauss" in c:
            phi = Y / floor(cfg)(np.mean(np.abs(Y) ** 2, axis=1))[:, None, :]
        else:
            r = np.maximum(np.linalg.norm(Y, axis=1, keepdims=True), zoo.EPS)
            phi = Y * zoo.contrast(cfg, r)[1] / (2 * r)
        M = np.einsum("nft,mft->fnm", phi, Y.conj()) / T
    G = M - np.eye(C) if cfg["kw"]["is_holonomic"] else M * (1 - np.eye(C))
    right = W if c.startswith("Natural") else np.swapaxes(np.linalg.inv(W), -1, -2).conj()
    return {"demix_filter": W - cfg["kw"]["step_size"] * (G @ right)}


def _fastica(cfg, S, X):
    """One source after another: w <- E[g'(w z)] w - E[g(w z) z], orthogonal to the sources before it, of unit length."""
    Z = whiten(X)
    W = S["demix_filter"].copy()
    for n in range(len(W)):
        y = W[n] @ Z
        _, g, dg = zoo.contrast(cfg, y)
        w = np.mean(dg) * W[n] - (Z @ g) / len(y)
        w = w - sum((w @ W[m]) * W[m] for m in range(n))
        W[n] = w / np.linalg.norm(w)
    return {"demix_filter": W}


def _polar(W):
    """Nearest unitary matrix: (W W^H)^-1/2 W."""
    return np.einsum("fij,fjk->fik", spectral(W @ np.swapaxes(W, -1, -2).conj(), lambda v: 1 / np.sqrt(v)), W)


def _fastiva(cfg, S, X):
    Z = whiten(X)
    W = S["demix_filter"]
    N, F, T = Z.shape
    Y = sep(W, Z)
    r = np.linalg.norm(Y, axis=1)
    _, g, dg = zoo.contrast(cfg, r)
    fl = floor(cfg)
    a = g / fl(2 * r)  # first derivative of G(r^2) with respect to r^2
    if cfg["cls"] == "FasterIVA":
        U = np.einsum("nt,cft,dft->fncd", a, Z, Z.conj()) / T
        w, v = np.linalg.eigh(U)
        # eigenvectors are determined up to a phase of each source and bin, which survives the orthonormalisation as such
        return {"demix_filter": _polar(np.swapaxes(v[..., 0:1], -1, -2)[..., 0, :].conj())}
    b = (dg - 2 * a) / fl(4 * r**2)  # its second derivative
    new = np.zeros_like(W)
    for f in range(F):
        for n in range(N):
            y = Y[n, f]
            k = np.mean(a[n] + b[n] * np.abs(y) ** 2)
            new[f, n] = (k * W[f, n].conj() - (Z[:, f] * (a[n] * y.conj())).mean(axis=1)).conj()
    return {"demix_filter": _polar(new)}


# ---------------------------------------------------------------- iterative projection, source steering


def ip1(W, U, fl):
    """w_n <- (W U_n)^-1 e_n / sqrt(w_n^H U_n w_n), one source after another. W (F, N, C) rows w_n^H; U (F, N, C, C)."""
    sure(W[:, None] @ U)
    W = W.copy()
    F, N, _ = W.shape
    for n in range(N):
        for f in range(F):
            w = np.linalg.inv(W[f] @ U[f, n])[:, n]
            W[f, n] = w.conj() / fl(np.sqrt(np.real(np.vdot(w, U[f, n] @ w))))
    return W


def ip2_pair(W, Um, Un, m, n, fl):
    """Rows m, n jointly: h solves (P_m^H U_m P_m) h = mu (P_n^H U_n P_n) h; the larger mu belongs to m."""
    sure(W @ Um, W @ Un)
    W = W.copy()
    for f in range(len(W)):
        Pm = np.linalg.inv(W[f] @ Um[f])[:, (m, n)]
        Pn = np.linalg.inv(W[f] @ Un[f])[:, (m, n)]
        A, B = Pm.conj().T @ Um[f] @ Pm, Pn.conj().T @ Un[f] @ Pn
        mu, H = np.linalg.eig(np.linalg.solve(B, A))
        order = np.argsort(-mu.real)
        for P, V, k, row in ((Pm, A, order[0], m), (Pn, B, order[1], n)):
            h = H[:, k]
            h = h / fl(np.sqrt(np.real(np.vdot(h, V @ h))))
            W[f, row] = (P @ h).conj()
    return W


def iss1(Y, phi, fl):
    """Y <- Y - v_n y_n for each n; v as documented."""
    Y = Y.copy()
    for n in range(len(Y)):
        y = Y[n].copy()
        V = np.zeros(Y.shape[:2], dtype=complex)
        for k in range(len(Y)):
            d = fl(np.mean(phi[k] * np.abs(y) ** 2, axis=-1))
            V[k] = np.mean(phi[k] * Y[k] * y.conj(), axis=-1) / d if k != n else 1 - 1 / np.sqrt(d)
        Y = Y - V[:, :, None] * y
    return Y


def iss2(Y, phi, pairs, fl):
    Y = Y.copy()
    N, F, T = Y.shape
    phi = np.broadcast_to(phi, Y.shape)
    for m, n in pairs:
        new = Y.copy()
        for f in range(F):
            M = Y[[m, n], f]
            G = [(phi[k, f] * M) @ M.conj().T / T for k in range(N)]
            sure(*G)
            for k in range(N):
                if k not in (m % N, n % N):
                    q = -np.linalg.solve(G[k], (phi[k, f] * M) @ Y[k, f].conj() / T)
                    new[k, f] = Y[k, f] + q.conj() @ M
            mu, H = np.linalg.eig(np.linalg.solve(G[n], G[m]))
            order = np.argsort(mu.real)
            for k, j in ((m, order[0]), (n, order[1])):
                h = H[:, j]
                h = h / fl(np.sqrt(np.real(np.vdot(h, G[k] @ h))))
                new[k, f] = h.conj() @ M
        Y = new
    return Y


def _lqpqm(H, v, z, fl, iters):
    """Largest root of the secular equation by Newton's method from the cubic's largest root, and the vector it stands for."""
    p, s = np.linalg.eigh(H)
    zero = fl(np.float64(0))
    if np.linalg.norm(v) < zero or np.linalg.norm(v) == 0:
        raise Undetermined
    u = s.conj().T @ v
    keep = p * np.abs(u) ** 2 >= zero
    ph, uu = np.where(keep, p, 0), np.where(keep, u, 0)
    k = int(np.argmax(ph))
    top = fl(ph[k])
    a, zz = ph / top, z / top
    w2 = abs(uu[k]) ** 2
    roots = np.roots([1, -(w2 + 2 + zz), 1 + 2 * zz, -zz])
    real = roots.real[np.abs(roots.imag) < 1e-6 * np.maximum(1, np.abs(roots))]
    lam = max(real.max() if len(real) else -np.inf, -np.inf)
    if not lam > 1:
        lam = 1 + zero
    lam = max(lam, zz)
    for _ in range(iters):
        f = lam**2 * np.sum(a * np.abs(uu) ** 2 / (lam - a) ** 2) - lam + zz
        if abs(f) <= zero:
            break
        df = -2 * lam * np.sum(a**2 * np.abs(uu) ** 2 / (lam - a) ** 3) - 1
        mu = lam - f / df
        lam = mu if mu > 1 else (1 + lam) / 2
    lam *= top
    return s @ (p * u / (lam - p))


def ipa(Y, phi, normalization, iters, fl):
    """Iterative projection with adjustment: row n and column n of the update jointly."""
    Y = Y.copy()
    N, F, T = Y.shape
    phi = np.broadcast_to(phi, Y.shape)
    for n in range(N):
        new = Y.copy()
        rest = [k for k in range(N) if k != n]
        for f in range(F):
            U = [spectral((phi[k, f] * Y[:, f]) @ Y[:, f].conj().T / T, fl) for k in range(N)]
            sure(*U)
            a = np.array([U[k][n, n].real for k in rest])
            b = np.array([U[k][n, k] for k in rest])
            Ui = spectral(U[n], lambda w: 1 / fl(w)).conj()
            Cm, d = Ui[np.ix_(rest, rest)], Ui[rest, n]
            g = np.linalg.solve(Cm, d)
            z = Ui[n, n].real - np.vdot(d, g).real
            ra = np.sqrt(a)
            H, v = Cm / np.outer(ra, ra), -b / ra - ra * g
            if normalization:
                t = np.trace(H).real
                H, z = H / t, z / t
            q = _lqpqm(H, v, z, fl, iters) / ra - b / a
            full = np.zeros(N, dtype=complex)
            full[n] = 1
            full[rest] = -q.conj()
            x = np.linalg.solve(U[n], full)
            p = x / fl(np.sqrt(np.vdot(full, x).real))
            new[n, f] = p.conj() @ Y[:, f]
            for k, c in zip(rest, q.conj()):
                new[k, f] = Y[k, f] + c * Y[n, f]
        Y = new
    return Y


def gmean(A, B):
    """Geometric mean A # B."""
    r, i = spectral(A, np.sqrt), spectral(A, lambda w: 1 / np.sqrt(w))
    return r @ spectral(i @ B @ i, lambda w: np.sqrt(np.maximum(w, 0))) @ r


def pair_list(cfg, pairs, n):
    p = cfg.get("pairs")
    if isinstance(p, list):
        return [tuple(x) for x in pairs]
    seq = [(m, (m + 1) % n) for m in range(n)]
    if p in (None, "default", "sequential"):
        return seq
    if p == "combination":
        return list(itertools.combinations(range(n), 2))
    if p == "sequential_sorted":
        return [tuple(sorted(x)) for x in seq]
    return seq[::2]


# ---------------------------------------------------------------- source models


def low_rank(S, cfg):
    if cfg["kw"].get("partitioning"):
        return np.einsum("nk,fk,kt->nft", S["latent"], S["basis"], S["activation"])
    return np.einsum("nfk,nkt->nft", S["basis"], S["activation"])


def _signal(cfg, S, X):
    return S["output"] if zoo.by_signal(cfg) else sep(S["demix_filter"], X)


def _ilrma_ratio(cfg, L, Y):
    """(numerator, denominator) densities of the multiplicative updates, and their exponent."""
    p, c = cfg["kw"]["domain"], cfg["cls"]
    P = np.abs(Y) ** 2
    if c == "GGDILRMA":
        b = cfg["kw"]["beta"]
        return (b / 2) * np.abs(Y) ** b / L ** ((b + p) / p), 1 / L, p / (b + p)
    if c == "TILRMA":
        nu = cfg["kw"]["dof"]
        R = (nu * L ** (2 / p) + 2 * P) / (nu + 2)
        num = P / (R * L)
    else:
        num = P / L ** ((p + 2) / p)
    return num, 1 / L, (1.0 if cfg["src"] == "ME" else p / (p + 2))


def _mnmf_ratio(cfg, S, X):
    """(tr(R^-1 XX R^-1 H_n), tr(R^-1 H_n)) of each source, bin, frame; exponent 1/2."""
    L = low_rank(S, cfg)
    if cfg["cls"] == "FastGaussMNMF":
        P = np.abs(np.einsum("fmc,cft->fmt", S["diagonalizer"], X)) ** 2
        R = np.einsum("nft,fnm->fmt", L, S["spatial"])
        return (np.einsum("fnm,fmt->nft", S["spatial"], P / R**2), np.einsum("fnm,fmt->nft", S["spatial"], 1 / R), 0.5)
    fl = floor(cfg)
    R = spectral(np.einsum("nft,nfcd->ftcd", L, S["spatial"]), fl)
    XX = spectral(np.einsum("cft,dft->ftcd", X, X.conj()), fl)
    sure(R)
    Ri = np.linalg.inv(R)
    A = Ri @ XX @ Ri
    return (np.einsum("ftcd,nfdc->nft", A, S["spatial"]).real, np.einsum("ftcd,nfdc->nft", Ri, S["spatial"]).real, 0.5)


def _multiplicative(cfg, S, X, role):
    fl = floor(cfg)
    if cfg["cls"] in zoo.ILRMA:
        num, den, e = _ilrma_ratio(cfg, low_rank(S, cfg), _signal(cfg, S, X))
    else:
        num, den, e = _mnmf_ratio(cfg, S, X)
    T, V = S["basis"], S["activation"]
    if cfg["kw"].get("partitioning"):
        Z = S["latent"]
        eq = {"basis": ("nft,nk,kt->fk", (Z, V)), "activation": ("nft,nk,fk->kt", (Z, T)), "latent": ("nft,fk,kt->nk", (T, V))}[role]
    else:
        eq = {"basis": ("nft,nkt->nfk", (V,)), "activation": ("nft,nfk->nkt", (T,))}[role]
    new = S[role] * (np.einsum(eq[0], num, *eq[1]) / np.einsum(eq[0], den, *eq[1])) ** e
    if role == "latent":
        new = new / new.sum(axis=0)
    else:
        new = fl(new)
    return {role: new}


def _ilrma_weight(cfg, S, X):
    """1 / (weighted variance) that the spatial update of each model uses."""
    p, c = cfg["kw"]["domain"], cfg["cls"]
    L, Y = low_rank(S, cfg), _signal(cfg, S, X)
    if c == "GGDILRMA":
        b = cfg["kw"]["beta"]
        return (b / 2) / (floor(cfg)(np.abs(Y) ** (2 - b)) * L ** (b / p))
    if c == "TILRMA":
        nu = cfg["kw"]["dof"]
        return (nu + 2) / (nu * L ** (2 / p) + 2 * np.abs(Y) ** 2)
    return L ** (-2 / p)


def _contrast_weight(cfg, Y, S):
    fl = floor(cfg)
    if cfg["cls"] in zoo.FDICA:
        r = np.abs(Y)
        return zoo.contrast(cfg, r)[1] / fl(2 * r)
    r = np.linalg.norm(Y, axis=1)
    if cfg["cls"] == "AuxGaussIVA":
        w = 2 * r / S["variance"] / fl(2 * r)
    else:
        w = zoo.contrast(cfg, r)[1] / fl(2 * r)
    return np.broadcast_to(w[:, None, :], Y.shape)


def _covs(phi, X):
    return np.einsum("nft,cft,dft->fncd", phi, X, X.conj()) / X.shape[-1]


def _spatial(cfg, S, X, pairs):
    """Filters (or signals) given the source model."""
    fl, alg = floor(cfg), cfg["alg"]
    model = cfg["cls"] in zoo.ILRMA

    def weight(S):
        return _ilrma_weight(cfg, S, X) if model else _contrast_weight(cfg, _signal(cfg, S, X), S)

    if alg in ("ISS", "ISS1"):
        return {"output": iss1(S["output"], weight(S), fl)}
    if alg == "ISS2":
        return {"output": iss2(S["output"], weight(S), pairs, fl)}
    if alg == "IPA":
        n, k = cfg["kw"].get("lqpqm_normalization", True), cfg["kw"].get("newton_iter", 1)
        return {"output": ipa(S["output"], weight(S), n, k, fl)}
    W = S["demix_filter"]
    U = _covs(weight(S), X)
    if alg in ("IP", "IP1"):
        return {"demix_filter": ip1(W, U, fl)}
    for m, n in pairs:
        if not model:  # weights follow the filters
            U = _covs(weight(dict(S, demix_filter=W)), X)
        W = ip2_pair(W, U[:, m], U[:, n], m, n, fl)
    return {"demix_filter": W}


def _ilrma_normalize(cfg, S, X):
    p, kind = cfg["kw"]["domain"], cfg["kw"]["normalization"]
    Y = _signal(cfg, S, X)
    sig = zoo.by_signal(cfg)
    T = S["basis"]
    if kind == "projection_back":
        r = cfg["kw"]["reference_id"]
        if sig:
            scale = np.stack([np.linalg.lstsq(Y[:, f].T, X[r, f], rcond=None)[0] for f in range(X.shape[1])])
            out = {"output": Y * scale.T[:, :, None]}
        else:
            scale = np.linalg.inv(S["demix_filter"])[:, r, :]
            out = {"demix_filter": S["demix_filter"] * scale[:, :, None]}
        return dict(out, basis=T * np.abs(scale.T[:, :, None]) ** p)
    psi = floor(cfg)(np.sqrt(np.mean(np.abs(Y) ** 2, axis=(1, 2))))
    if sig:
        out = {"output": Y / psi[:, None, None]}
    else:
        out = {"demix_filter": S["demix_filter"] / psi[None, :, None]}
    if cfg["kw"].get("partitioning"):
        Z = S["latent"] / psi[:, None] ** p
        return dict(out, basis=T * Z.sum(axis=0), latent=Z / Z.sum(axis=0))
    return dict(out, basis=T / psi[:, None, None] ** p)


# ---------------------------------------------------------------- multichannel models


def _mnmf_spatial(cfg, S, X):
    fl = floor(cfg)
    L, H = low_rank(S, cfg), S["spatial"]
    if cfg["cls"] == "FastGaussMNMF":
        P = np.abs(np.einsum("fmc,cft->fmt", S["diagonalizer"], X)) ** 2
        R = np.einsum("nft,fnm->fmt", L, H)
        return {"spatial": H * np.sqrt(np.einsum("nft,fmt->fnm", L, P / R**2) / np.einsum("nft,fmt->fnm", L, 1 / R))}
    R = spectral(np.einsum("nft,nfcd->ftcd", L, H), fl)
    XX = spectral(np.einsum("cft,dft->ftcd", X, X.conj()), fl)
    sure(R)
    Ri = np.linalg.inv(R)
    P = spectral(np.einsum("nft,ftcd->nfcd", L, Ri), fl)
    Q = np.einsum("nft,ftcd->nfcd", L, Ri @ XX @ Ri)
    B = spectral(H @ Q @ H, fl)
    return {"spatial": spectral(gmean(np.linalg.inv(P), B), fl)}


def _diagonalizer(cfg, S, X, pairs):
    R = np.einsum("nft,fnm->fmt", low_rank(S, cfg), S["spatial"])
    U = np.einsum("fmt,cft,dft->fmcd", 1 / R, X, X.conj()) / X.shape[-1]
    Q, fl = S["diagonalizer"], floor(cfg)
    if cfg["alg"] in ("IP", "IP1"):
        return {"diagonalizer": ip1(Q, U, fl)}
    for m, n in pairs:
        Q = ip2_pair(Q, U[:, m], U[:, n], m, n, fl)
    return {"diagonalizer": Q}


def _mnmf_normalize(cfg, S, X):
    if cfg["cls"] == "FastGaussMNMF":
        Q = S["diagonalizer"]
        psi = floor(cfg)(np.sqrt(np.mean(np.abs(np.einsum("fmc,cft->fmt", Q, X)) ** 2, axis=(0, 2))))
        return {"diagonalizer": Q / psi[None, :, None], "spatial": S["spatial"] / psi**2}
    t = np.einsum("nfcc->nf", S["spatial"]).real
    out = {"spatial": S["spatial"] / t[:, :, None, None]}
    if not cfg["kw"].get("partitioning"):
        out["basis"] = S["basis"] * t[:, :, None]
    return out


def _em(cfg, S, X):
    """Posterior of each source, then mixing weights and covariances."""
    fl = floor(cfg)
    C = X.shape[0]
    Z = X / fl(np.linalg.norm(X, axis=0))
    B, A = S["covariance"], S["mixing"]
    q = fl(np.maximum(np.einsum("cft,nfcd,dft->nft", Z.conj(), np.linalg.inv(B), Z).real, 0))
    L = np.log(A)[:, :, None] - np.linalg.slogdet(B)[1][:, :, None] - C * np.log(q)
    g = np.exp(L - L.max(axis=0))
    g = g / g.sum(axis=0)
    new = C * np.einsum("nft,cft,dft->nfcd", g / q, Z, Z.conj()) / g.sum(axis=-1)[:, :, None, None]
    new = spectral(new, fl)
    if cfg["kw"]["normalization"]:
        new = new / np.einsum("nfcc->nf", new).real[:, :, None, None]
    return {"mixing": g.mean(axis=-1), "covariance": new}


# ---------------------------------------------------------------- IPSDTA


def _blocks(cfg, S):
    """[(first bin, last bin + 1, basis (N, K, size, size))]."""
    F, nb = cfg["F"], cfg["kw"]["n_blocks"]
    size, rest = divmod(F, nb)
    U = S["basis"] if isinstance(S["basis"], tuple) else (S["basis"],)
    out, at = [], 0
    for b in range(nb - rest):
        out.append((at, at + size, U[0][:, :, b]))
        at += size
    for b in range(rest):
        out.append((at, at + size + 1, U[1][:, :, b]))
        at += size + 1
    return out


def _pack(cfg, S, new):
    if isinstance(S["basis"], tuple):
        k = S["basis"][0].shape[2]
        return np.stack(new[:k], axis=2), np.stack(new[k:], axis=2)
    return np.stack(new, axis=2)


def _ipsdta_parts(cfg, S, X):
    """Per block: inverse covariances (N, T, s, s); and the frame weights of the source model."""
    Y = sep(S["demix_filter"], X)
    V = S["activation"]
    fl = lambda w: np.maximum(w, zoo.EPS)
    inv = [np.linalg.inv(spectral(np.einsum("nkij,nkt->ntij", U, V), fl)) for _, _, U in _blocks(cfg, S)]
    w = np.ones(V.shape[::2])
    if cfg["cls"] == "TIPSDTA":
        nu = cfg["kw"]["dof"]
        q = sum(np.maximum(np.einsum("nit,ntij,njt->nt", Y[:, a:b].conj(), Ri, Y[:, a:b]).real, 0)
                for (a, b, _), Ri in zip(_blocks(cfg, S), inv))
        w = (nu + 2 * cfg["F"]) / (nu + 2 * q)
    return Y, inv, w


def _ipsdta_basis(cfg, S, X):
    fl = floor(cfg)
    Y, inv, w = _ipsdta_parts(cfg, S, X)
    V, T = S["activation"], X.shape[-1]
    new = []
    for (a, b, U), Ri in zip(_blocks(cfg, S), inv):
        y = np.einsum("ntij,njt->nit", Ri, Y[:, a:b])
        P = np.einsum("nkt,ntij->nkij", V, Ri) / T
        Q = np.einsum("nkt,nt,nit,njt->nkij", V, w, y, y.conj()) / T
        # the positive definite solution of T' P T' = T Q T
        new.append(spectral(gmean(np.linalg.inv(spectral(P, fl)), spectral(U @ Q @ U, fl)), fl))
    return {"basis": _pack(cfg, S, new)}


def _ipsdta_activation(cfg, S, X):
    Y, inv, w = _ipsdta_parts(cfg, S, X)
    num = den = 0
    for (a, b, U), Ri in zip(_blocks(cfg, S), inv):
        y = np.einsum("ntij,njt->nit", Ri, Y[:, a:b])
        num = num + np.einsum("nt,nit,nkij,njt->nkt", w, y.conj(), U, y).real
        den = den + np.einsum("ntij,nkji->nkt", Ri, U).real
    return {"activation": floor(cfg)(S["activation"] * np.sqrt(num / den))}


def _ipsdta_normalize(cfg, S, X):
    t = sum(np.einsum("nkii->nk", U).real for _, _, U in _blocks(cfg, S))
    new = [U / t[:, :, None, None] for _, _, U in _blocks(cfg, S)]
    return {"basis": _pack(cfg, S, new), "activation": S["activation"] * t[:, :, None]}


def _vcd(cfg, S, X):
    """Vectorwise coordinate descent: each filter minimises the objective, the others fixed."""
    Y, inv, wt = _ipsdta_parts(cfg, S, X)
    W = S["demix_filter"].copy()
    N, T = W.shape[1], X.shape[-1]
    zero = floor(cfg)(np.float64(0))
    for (a, b, _), Ri in zip(_blocks(cfg, S), inv):
        for i in range(a, b):
            for n in range(N):
                r = wt[n] * Ri[n, :, :, i - a].T  # weighted elements (k, i) of the inverse, over frames
                U = (r[i - a] * X[:, i]) @ X[:, i].conj().T / T
                g = sum((r[k - a] * X[:, i]) @ X[:, k].conj().T / T @ W[k, n].conj() for k in range(a, b) if k != i)
                g = g + np.zeros(N, dtype=complex)
                sure(W[i] @ U, U)
                eta = np.linalg.solve(W[i] @ U, np.eye(N)[n])
                hat = np.linalg.solve(U, g)
                xi, xh = np.vdot(eta, U @ eta).real, np.vdot(eta, U @ hat)
                if abs(xh) < zero or abs(xh) < 1e-9 * xi:
                    if not np.all(g == 0) and abs(xh) > 0:
                        raise Undetermined
                    c = 1 / math.sqrt(xi)
                else:
                    c = xh / (2 * xi) * (1 - math.sqrt(1 + 4 * xi / abs(xh) ** 2))
                W[i, n] = (c * eta - hat).conj()
    return {"demix_filter": W}


# ---------------------------------------------------------------- proximal splitting


def prox_neg_logdet(A, t):
    u, s, v = np.linalg.svd(A)
    return np.einsum("fij,fj,fjk->fik", u, (s + np.sqrt(s**2 + 4 * t)) / 2, v)


def prox_penalty(name, x, t):
    if name == "l1":
        r = np.abs(x)
    else:
        r = np.sqrt(np.sum(np.abs(x) ** 2, axis=1, keepdims=True))
    return x * np.where(r > t, 1 - t / np.maximum(r, 1e-300), 0)


def hva_mask(cfg, y):
    n = y.shape[1]
    z = np.log(floor(cfg)(np.abs(y)))
    mean = z.mean(axis=1, keepdims=True)
    nu = np.fft.irfft(z - mean, axis=1)[:, :n]
    s = np.minimum(1, nu)
    for _ in range(cfg["kw"].get("mask_iter", 1)):
        s = (1 - np.cos(np.pi * s)) / 2
    xi = np.fft.irfft(s * nu, axis=1, norm="forward")[:, :n]
    v = np.exp(2 * (xi + mean))
    g = cfg["kw"].get("attenuation")
    return (v / v.sum(axis=0)) ** (1 / len(y) if g is None else g)


def _shrink(cfg):
    """[function (array, step)] applied to each penalty's variable."""
    c, u = cfg["cls"], cfg.get("user")
    if c in zoo.HVAS:
        return [lambda x, t: hva_mask(cfg, x) * x]
    if c.startswith("Masking"):
        m = zoo.user_functions(cfg)["mask_fn"]
        return [lambda x, t: m(x) * x]
    names = {"l1": ["l1"], "l1+l21": ["l1", "l21"]}.get(u, ["l21"])
    return [lambda x, t, k=k: prox_penalty(k, x, t) for k in names]


def _stacked(cfg, A):
    """Masking variants have no axis of penalties."""
    return A[None] if cfg["cls"].startswith("Masking") or cfg["cls"] == "HVA" else A


def _pds(cfg, S, X):
    kw = cfg["kw"]
    a, m1, m2 = kw["relaxation"], kw["mu1"], kw["mu2"]
    W, Y = S["demix_filter"], _stacked(cfg, S["dual"])
    back = np.einsum("qnft,cft->fnc", Y, X.conj())
    Wt = prox_neg_logdet(W - m1 * m2 * back, m1)
    Z = Y + sep(2 * Wt - W, X)
    Yt = np.stack([z - f(z, 1 / m2) for z, f in zip(Z, _shrink(cfg))])
    new = a * Yt + (1 - a) * Y
    return {"demix_filter": a * Wt + (1 - a) * W, "dual": new.reshape(S["dual"].shape)}


def _admm(cfg, S, X):
    kw = cfg["kw"]
    a, rho = kw["relaxation"], kw["rho"]
    V, Vt, Y, Yt = S["auxiliary1"], _stacked(cfg, S["auxiliary2"]), S["dual1"], _stacked(cfg, S["dual2"])
    F, N, C = S["demix_filter"].shape
    q = len(Vt)
    W = np.zeros((F, N, C), dtype=complex)
    for f in range(F):  # least squares: rows of W fit V - Y, and W X fits V~ - Y~ of every penalty
        x = X[:, f]
        A = np.concatenate([np.eye(C)] + [x.T] * q)
        B = np.concatenate([(V - Y)[f].T] + [(Vt - Yt)[k, :, f].T for k in range(q)])
        W[f] = np.linalg.lstsq(A, B, rcond=None)[0].T
    U = a * W + (1 - a) * V
    Ut = a * sep(W, X) + (1 - a) * Vt
    Vn = prox_neg_logdet(U + Y, 1 / rho)
    Vtn = np.stack([f(u, 1 / rho) for u, f in zip(Ut + Yt, _shrink(cfg))])
    sh = S["auxiliary2"].shape
    return {"demix_filter": W, "auxiliary1": Vn, "auxiliary2": Vtn.reshape(sh), "dual1": Y + U - Vn, "dual2": (Yt + Ut - Vtn).reshape(sh)}


# ---------------------------------------------------------------- one iteration


def iteration(cfg):
    """The parts of one iteration, in their order."""
    c, kw = cfg["cls"], cfg["kw"]
    if c in zoo.ILRMA:
        out = ["latent"] if kw.get("partitioning") else []
        return out + ["basis", "activation", "spatial"] + (["normalize"] if kw["normalization"] else [])
    if c in zoo.IPSDTA:
        return ["basis", "activation"] + (["normalize"] if kw["source_normalization"] else []) + ["spatial"]
    if c == "GaussMNMF":
        out = ["basis", "activation", "spatial"] + (["normalize"] if kw["normalization"] else [])
        return out + (["latent"] if kw.get("partitioning") else [])
    if c == "FastGaussMNMF":
        return ["basis", "activation", "diagonalizer", "spatial"] + (["normalize"] if kw["normalization"] else [])
    return ["all"]


def step(cfg, S, X, roles=None, pairs=()):
    S = dict(S)
    c = cfg["cls"]
    for role in roles or iteration(cfg):
        if c in zoo.GRAD:
            d = _gradient(cfg, S, X)
        elif c == "FastICA":
            d = _fastica(cfg, S, X)
        elif c in zoo.FASTIVA:
            d = _fastiva(cfg, S, X)
        elif c in zoo.PDS:
            d = _pds(cfg, S, X)
        elif c in zoo.ADMM:
            d = _admm(cfg, S, X)
        elif c == "CACGMM":
            d = _em(cfg, S, X)
        elif c in zoo.AUXIVA or c in ("AuxFDICA", "AuxLaplaceFDICA"):
            if c == "AuxGaussIVA":
                S["variance"] = floor(cfg)(np.mean(np.abs(_signal(cfg, S, X)) ** 2, axis=1))
            d = _spatial(cfg, S, X, pair_list(cfg, pairs, cfg["C"]))
        elif c in zoo.ILRMA:
            if role == "spatial":
                d = _spatial(cfg, S, X, pair_list(cfg, pairs, cfg["C"]))
            elif role == "normalize":
                d = _ilrma_normalize(cfg, S, X)
            else:
                d = _multiplicative(cfg, S, X, role)
        elif c in zoo.MNMF:
            if role == "spatial":
                d = _mnmf_spatial(cfg, S, X)
            elif role == "diagonalizer":
                d = _diagonalizer(cfg, S, X, pair_list(cfg, pairs, cfg["C"]))
            elif role == "normalize":
                d = _mnmf_normalize(cfg, S, X)
            else:
                d = _multiplicative(cfg, S, X, role)
        elif c in zoo.IPSDTA:
            d = {"basis": _ipsdta_basis, "activation": _ipsdta_activation, "normalize": _ipsdta_normalize, "spatial": _vcd}[role](cfg, S, X)
        else:
            raise KeyError(c)
        S.update(d)
    S.pop("variance", None)
    if not all(zoo.finite(v) for v in S.values()):
        raise Undetermined
    return S


HERMITIAN = ("covariance",)


def nudge(cfg, S, g, eps):
    """S changed by about eps, relatively, without leaving the set of admissible states."""
    out = {}
    for k, v in S.items():
        def one(a):
            if k == "covariance" or (k == "spatial" and cfg["cls"] == "GaussMNMF") or (k == "basis" and cfg["cls"] in zoo.IPSDTA):
                M = np.eye(a.shape[-1]) + eps * (g.standard_normal(a.shape) + 1j * g.standard_normal(a.shape))
                return M @ a @ np.swapaxes(M, -1, -2).conj()
            e = g.standard_normal(a.shape)
            if np.iscomplexobj(a):
                e = e + 1j * g.standard_normal(a.shape)
                m = np.max(np.abs(a)) if a.size else 0
                return a + eps * m * e
            if k == "demix_filter":
                return a + eps * np.max(np.abs(a)) * e
            return a * (1 + eps * e)
        out[k] = tuple(one(a) for a in v) if isinstance(v, tuple) else one(v)
        if k in ("latent", "mixing"):
            out[k] = out[k] / out[k].sum(axis=0)
    return out


def phase_free(cfg, k):
    """Rows determined up to a phase only."""
    if k in ("demix_filter", "output", "diagonalizer"):
        return zoo.pairwise(cfg) or cfg["cls"] == "FasterIVA"
    return False


def distance(cfg, k, a, b):
    """Largest difference relative to the size of each bin's matrix or of the array."""
    if phase_free(cfg, k) and isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        c = np.sum(a * b.conj(), axis=-1, keepdims=True)
        b = b * np.where(np.abs(c) > 0, c / np.maximum(np.abs(c), 1e-300), 1)
    return zoo.dist(a, b)
