"""C30: denoising."""

import numpy as np

from quantfinlib.math import cov as M
from rv import gens, mp
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (entry point, dimension, observations class, retained number given or fitted) recomputed from an independent eigen decomposition"
REQUIRED = ["correlation", "covariance", "eigenvalues", "given_k", "fitted_k", "shorter_than_dimension", "nothing_retained", "everything_noise_mean", "refused"]


def data(mon, rng):
    N = size(rng, 2, 14, 120)
    T = size(rng, 2, N - 1) if N > 3 and coin(rng, 0.2) else N + size(rng, 0, 120, 1500)
    mon.seen("shorter_than_dimension", int(T < N))
    f = size(rng, 0, 3)
    x = rng.normal(size=(T, N))
    if f:
        x = x + rng.normal(size=(T, f)) @ rng.normal(size=(f, N)) * rng.uniform(0.2, 2)
    s = x.T @ x / T
    sd = np.sqrt(np.diag(s))
    c = s / np.outer(sd, sd)
    c = (c + c.T) / 2
    np.fill_diagonal(c, 1.0)
    return N, T, c


def leading(c, k):
    w, v = np.linalg.eigh(c)
    w, v = w[::-1], v[:, ::-1]
    return w, v


def rebuilt(w, v, k, N, rest):
    low = v[:, :k] * w[:k] @ v[:, :k].T
    out = low + rest * (np.eye(N) - v[:, :k] @ v[:, :k].T)
    out = np.clip(out, -1, 1)
    np.fill_diagonal(out, 1.0)
    return out


def one(mon, rng):
    N, T, c = data(mon, rng)
    given = coin(rng)
    k = size(rng, 1, N) if given else None
    cov = coin(rng)
    std = 10.0 ** (rng.uniform(-2, 1, N) if coin(rng, 0.7) else rng.uniform(-2.9, 3, N))
    arg = c * np.outer(std, std) if cov else c.copy()
    before = snapshot(arg)
    mon.note(N=N, T=T, k=k, matrix=arg, covariance=cov)
    if cov:
        out, info = mon.call(M._cov_denoise, arg, T, k) if coin(rng) else mon.call(M._cov_denoise, cov=arg, num_timesteps=T, k=k)
    else:
        out, vec, info = mon.call(M._cor_denoise, arg, T, k) if coin(rng) else mon.call(M._cor_denoise, cor=arg, num_timesteps=T, k=k)
        if given:
            vec = np.asarray(vec)
            mon.close(vec.T @ vec, np.eye(N), "orthonormality of the reported eigenvectors", rtol=0, atol=1e-8)
    mon.check(snapshot(arg) == before, "input matrix modified")
    out = np.asarray(out)
    mon.check(out.shape == (N, N), f"shape {out.shape}")
    scale = np.outer(std, std) if cov else 1.0
    d = out / scale
    mon.check(np.abs(d - d.T).max() <= 1e-12, "denoised matrix is not symmetric")
    mon.close(np.diag(d), np.ones(N), "variances of the denoised matrix", rtol=0, atol=1e-12 if cov else 0.0)
    mon.check(np.abs(d).max() <= 1 + 1e-12, f"correlation {np.abs(d).max()}")
    w, v = leading(c, k)
    mon.check(bool(info["fitted"]) == (not given), f"report {info}")
    if given:
        mon.check(info["k"] == k, f"reported {info['k']}, given {k}")
        mon.seen("given_k")
        used = w
    else:
        used = w.copy()
        if N > T:
            used[T:] = 0.0
        fitted_report(mon, info, used, T, N, np.r_[w[:-1] - w[1:], np.inf].min())
        k = int(info["k"])
        mon.seen("fitted_k")
        mon.seen("nothing_retained", int(k == 0))
    if k < N and k > 0 and w[k - 1] - w[k] < 1e-8:
        return  # the leading eigenpairs are not unique
    rest = used[k:].mean() if k < N else 0.0
    want = rebuilt(used, v, k, N, rest)
    mon.close(d, want, f"denoised matrix with {k} retained eigenvalues", rtol=0, atol=1e-8)
    mon.seen("everything_noise_mean", int(k <= 1))
    mon.seen("covariance" if cov else "correlation")
    mon.signature("covariance" if cov else "correlation", N, T < N, given, k)


def fitted_report(mon, info, used, T, N, gap):
    var, top, k = float(info["var"]), float(info["max_noise"]), int(info["k"])
    mon.close(top, mp.bounds(var, T, N)[1], "reported noise bound", rtol=1e-9)
    sure, unsure = int((used > top + 1e-9).sum()), int((used >= top - 1e-9).sum())
    mon.check(sure <= k <= unsure, f"retained {k} eigenvalues, {sure} are above the bound {top}: {used}")
    if T >= N:
        grid, ll, edge = mp.fit(T, N, used)
        i = int(np.argmin(np.abs(grid - var)))
        ok = ~edge
        mon.check(abs(grid[i] - var) < 1e-9, f"fitted variance {var} is not on the grid")
        if ok.any() and not edge[i]:
            mon.check(ll[i] >= ll[ok].max() - 1e-6 * (1 + abs(ll[i])), f"fitted variance {var} has log likelihood {ll[i]}, the best is {ll[ok].max()}")


def values(mon, rng):
    N, T, c = data(mon, rng)
    T = max(T, N)
    w = leading(c, 0)[0].copy()
    given = coin(rng)
    k = size(rng, 0, N - 1) if given else None
    before = snapshot(w)
    mon.note(T=T, k=k, eigenvalues=w)
    out, info = mon.call(M._eigen_values_denoise, w, T, k) if coin(rng) else mon.call(M._eigen_values_denoise, eigen_values=w, num_timesteps=T, k=k)
    mon.check(snapshot(w) == before, "eigenvalues modified")
    if not given:
        fitted_report(mon, info, w, T, N, 0)
        k = int(info["k"])
    mon.check(bool(info["fitted"]) == (not given) and int(info["k"]) == k, f"report {info}")
    out = np.asarray(out, float)
    want = w.copy()
    if k < N:
        want[k:] = w[k:].mean()
    mon.close(out, want, "denoised eigenvalues", rtol=1e-10, atol=1e-12)
    mon.check(abs(out.sum() - w.sum()) <= 1e-9 * N, "total variance changed")
    mon.seen("eigenvalues")
    mon.signature("values", N, k, given)


def refusals(mon, rng):
    N, T, c = data(mon, rng)
    if coin(rng, 0.3):  # zero is a number as well
        fn = pick(rng, [M._cor_denoise, M._cov_denoise])
        mon.note(function=fn.__name__, k=0)
        got, err = mon.attempt(fn, c, T, k=0)
        mon.check(err is not None or (int(got[-1]["k"]) == 0 and not got[-1]["fitted"]), f"zero retained eigenvalues: {got and got[-1]}")
        mon.seen("zero_retained")
        return
    bad = pick(rng, [c.tolist(), c[:, :-1] if N > 2 else c[0], c[0], None])
    mon.note(bad=bad)
    mon.rejects("denoising of something else than a square matrix", M._cor_denoise, bad, T)
    mon.rejects("denoising of something else than an array", M._cov_denoise, c.tolist(), T)
    mon.seen("refused")
    mon.signature("refuse", N)


STAGES = [("matrices", one, 1500, 12000), ("eigenvalues", values, 700, 6000), ("refusals", refusals, 100, 500)]
