"""C29: covariance, correlation and eigen forms."""

import numpy as np

from quantfinlib.math import cov as M
from rv import gens
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (operation, dimension, matrix regime, k) whose algebraic identities were all checked"
REQUIRED = ["cov_to_cor", "cor_to_cov", "floor", "clipped", "cor_to_eig", "sorted", "unsorted", "largest_k", "eig_to_cor", "eig_complete", "complete_full", "singular", "single_asset"]


def matrix(mon, rng, d):
    k = int(rng.integers(4))
    if k == 0 or d == 1:
        return gens.correlation(rng, d)
    if k == 1:  # singular: fewer observations than assets
        x = rng.normal(size=(max(2, d // 2), d))
        mon.seen("singular")
        return np.atleast_2d(np.corrcoef(x.T)) if len(x) > 2 else np.outer(np.sign(x[0]), np.sign(x[0]))
    if k == 2:
        return np.eye(d)
    return M._cor_block_diagonal([max(1, d // 2), d - max(1, d // 2)], list(rng.uniform(-0.2, 0.9, 2) if d <= 3 else rng.uniform(0, 0.9, 2)))


def covariance(mon, rng):
    d = size(rng, 1, 10, 150)
    c = matrix(mon, rng, d)
    c = (c + c.T) / 2
    std = 10.0 ** rng.uniform(-2.5, 2.5, d)
    over = coin(rng, 0.2)
    if over:  # covariances from elsewhere may imply correlations slightly (or far) beyond one
        i, j = int(rng.integers(d)), int(rng.integers(d))
        if i != j:
            c[i, j] = c[j, i] = pick(rng, [1, -1]) * (1 + 10.0 ** rng.uniform(-12, 0))
            mon.seen("clipped")
    s = c * np.outer(std, std)
    kw, reg = {}, 1e-6
    if coin(rng, 0.4):
        kw["cov_reg"] = reg = 10.0 ** rng.uniform(-8, 0)
    if coin(rng, 0.15):
        i = int(rng.integers(d))
        s[i, :] = s[:, i] = 0.0
    before = snapshot(s)
    mon.note(cov=s, args=kw)
    cor, sd = mon.call(M._cov_to_cor, s, **kw)
    mon.check(snapshot(s) == before, "covariance modified")
    raised = np.diag(s) < reg
    mon.seen("floor", int(raised.any()))
    want_sd = np.sqrt(np.where(raised, reg, np.diag(s)))
    mon.close(sd, want_sd, "standard deviations", rtol=1e-12, atol=0)
    mon.check(cor.shape == (d, d) and (np.abs(cor) <= 1).all(), lambda: f"correlations outside [-1, 1]: {np.abs(cor).max()}")
    mon.check((cor == cor.T).all() or np.abs(cor - cor.T).max() < 1e-14, "correlation not symmetric")
    want = np.clip(s / np.outer(want_sd, want_sd), -1, 1)
    mon.close(cor, want, "correlations", rtol=1e-10, atol=1e-14)
    b2 = snapshot([cor, sd])
    back = mon.call(M._cor_to_cov, cor, sd)
    mon.check(snapshot([cor, sd]) == b2, "correlation or deviations modified")
    keep = ~(raised[:, None] | raised[None, :]) & (np.abs(s) <= np.outer(want_sd, want_sd) * (1 + 1e-13))
    np.fill_diagonal(keep, False)
    mon.close(np.asarray(back)[keep], s[keep], "covariance recombined", rtol=1e-10, atol=0)
    mon.close(np.diag(back), np.where(raised, np.diag(s), np.diag(s)), "variances recombined", rtol=1e-10, atol=0) if not raised.any() else None
    mon.close(back, cor * np.outer(sd, sd), "covariance from correlations", rtol=1e-12, atol=0)
    mon.seen("cov_to_cor")
    mon.seen("cor_to_cov")
    mon.seen("single_asset", int(d == 1))
    mon.signature("cov", d, bool(raised.any()), over, reg == 1e-6)


def eigen(mon, rng):
    d = size(rng, 1, 12, 150)
    c = matrix(mon, rng, d)
    c = (c + c.T) / 2
    before = snapshot(c)
    mode = pick(rng, ["sorted", "unsorted", "k", "default"])
    k = size(rng, 1, d) if mode == "k" else None
    mon.note(cor=c, mode=mode, k=k)
    if mode == "k":
        v, e = mon.call(M._cor_to_eig, c, k=k) if coin(rng) else mon.call(M._cor_to_eig, c, sort=coin(rng), k=k)
        mon.seen("largest_k")
    else:
        v, e = mon.call(M._cor_to_eig, c) if mode == "default" else mon.call(M._cor_to_eig, c, sort=mode == "sorted")
        mon.seen("unsorted" if mode == "unsorted" else "sorted")
    mon.check(snapshot(c) == before, "correlation modified")
    m = k or d
    v, e = np.asarray(v), np.asarray(e)
    mon.check(v.shape == (m,) and e.shape == (d, m), f"shapes {v.shape} and {e.shape}, expected {m} pairs")
    mon.check(np.isrealobj(v) and np.isrealobj(e), "complex eigen decomposition")
    full = np.sort(np.linalg.eigvalsh(c))[::-1]
    order = v if mode != "unsorted" else np.sort(v)[::-1]
    if mode == "k":
        order = np.sort(v)[::-1]
    mon.close(order, full[:m], "eigenvalues", rtol=1e-9, atol=1e-10 * d)
    if mode in ("sorted", "default"):
        mon.check((np.diff(v) <= 1e-12 * d).all(), f"eigenvalues not decreasing: {v}")
    mon.close(c @ e, e * v, "matrix times eigenvectors", rtol=1e-8, atol=1e-9 * d)
    mon.close(e.T @ e, np.eye(m), "orthonormality of the eigenvectors", rtol=0, atol=1e-9)
    mon.seen("cor_to_eig")
    mon.signature("eig", d, mode, k)
    if m == d:
        b = snapshot([v, e])
        back = mon.call(M._eig_to_cor, v, e)
        mon.check(snapshot([v, e]) == b, "eigen decomposition modified")
        mon.check((np.diag(back) == 1).all(), "diagonal of the recombined matrix")
        mon.close(back, c, "recombined correlation matrix", rtol=0, atol=1e-9 * d)
        mon.seen("eig_to_cor")
    # completion
    k = size(rng, 1, d)
    v, e = mon.call(M._cor_to_eig, c, sort=True, k=k)
    v, e = np.array(v), np.array(e)
    b = snapshot([v, e])
    v2, e2 = mon.call(M._eig_complete, v, e)
    mon.check(snapshot([v, e]) == b, "partial decomposition modified")
    v2, e2 = np.asarray(v2), np.asarray(e2)
    mon.check(v2.shape == (d,) and e2.shape == (d, d), f"completed shapes {v2.shape}, {e2.shape}")
    mon.close(v2[:k], v, "given eigenvalues", rtol=1e-12, atol=0)
    mon.close(e2[:, :k], e, "given eigenvectors", rtol=1e-12, atol=1e-14)
    mon.close(e2.T @ e2, np.eye(d), "orthonormality of the completed basis", rtol=0, atol=1e-8)
    if k < d:
        mon.close(v2[k:], np.full(d - k, (d - v.sum()) / (d - k)), "completed eigenvalues", rtol=1e-9, atol=1e-10)
        mon.check(abs(v2.sum() - d) <= 1e-8 * d, f"completed eigenvalues sum to {v2.sum()}")
        mon.seen("eig_complete")
    else:
        mon.seen("complete_full")
    mon.signature("complete", d, k)
    # any orthonormal partial basis, not only of a correlation matrix
    if d > 1 and coin(rng, 0.3):
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        k = size(rng, 1, d - 1)
        w = np.sort(rng.uniform(0, 2, k))[::-1]
        v2, e2 = mon.call(M._eig_complete, w, q[:, :k])
        mon.close(e2.T @ e2, np.eye(d), "orthonormality of the completed basis", rtol=0, atol=1e-8)
        mon.close(v2, np.append(w, np.full(d - k, (d - w.sum()) / (d - k))), "completed eigenvalues", rtol=1e-9, atol=1e-10)


STAGES = [("covariance", covariance, 4000, 40000), ("eigen", eigen, 4000, 40000)]
