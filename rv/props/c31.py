"""C31: Marchenko-Pastur distribution."""

import math

import numpy as np
from scipy.integrate import quad

from quantfinlib.math import cov as M
from rv import gens, mp
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (operation, observations, assets, variance class, eigenvalue kind)"
REQUIRED = ["support", "density", "integrated", "integers", "outside", "fit", "square", "wide", "rescaled", "refused", "bounds", "many_large_eigenvalues"]


def shape(mon, rng):
    N = size(rng, 1, 60, 400)
    k = int(rng.integers(4))
    T = N if k == 0 else (N + size(rng, 1, 400, 3000) if k < 3 else size(rng, 1, max(1, N)))
    mon.seen("square", int(T == N))
    mon.seen("wide", int(T < N))
    return T, N


def density(mon, rng):
    T, N = shape(mon, rng)
    var = 10.0 ** rng.uniform(-2, 1.5) if coin(rng, 0.8) else pick(rng, [1, 1.0, 2, 0.5])
    lo, hi = mon.call(M._marcenko_pastur_support, var, T, N)
    wl, wh = mp.bounds(var, T, N)
    mon.close([lo, hi], [wl, wh], "noise bounds", rtol=1e-10, atol=1e-14 * wh)
    mon.seen("support")
    x = np.concatenate([rng.uniform(0.01 * wh, 1.4 * wh, 20), rng.uniform(wl + 1e-3 * (wh - wl), wh - 1e-3 * (wh - wl), 10)])
    x = x[(x > 0) & (np.abs(x - wl) > 1e-6 * wh) & (np.abs(x - wh) > 1e-6 * wh)]
    if coin(rng, 0.3):
        x = rng.permutation(np.arange(1, max(3, int(wh) + 3)))[:20]
        x = x[(np.abs(x - wl) > 1e-6 * wh) & (np.abs(x - wh) > 1e-6 * wh)].astype(pick(rng, [np.int64, np.int32]))
        mon.seen("integers")
    before = snapshot(x)
    mon.note(T=T, N=N, var=var, x=x)
    got = np.asarray(mon.call(M._marchenko_pastur_pdf, var, T, N, x), float)
    mon.check(snapshot(x) == before, "arguments modified")
    want = mp.pdf(var, T, N, x)
    mon.close(got, want, "density", rtol=1e-6, atol=1e-9 * (want.max() if len(want) else 0))
    mon.check((got >= 0).all(), "negative density")
    out = (x < wl) | (x > wh)
    mon.check((got[out] == 0).all(), "density outside the bounds")
    mon.seen("outside", int(out.any()))
    mon.seen("density")
    if coin(rng, 0.3):  # at the bounds and without any variance
        e = np.asarray(mon.call(M._marchenko_pastur_pdf, var, T, N, np.array([0.0, wl, wh, wh * 2])), float)
        mon.check(np.isfinite(e).all() and (e >= 0).all() and e[-1] == 0, f"density {e} at 0, the bounds {wl, wh} and beyond")
        mon.check(e[0] == 0 or wl <= 0, f"density {e[0]} at 0")
        mon.seen("bounds")
    f = 10.0 ** rng.uniform(-1, 1)
    g = np.asarray(mon.call(M._marchenko_pastur_pdf, var * f, T, N, x * f), float)
    mon.close(g * f, got, "density after rescaling the variance", rtol=1e-6, atol=1e-8 * (want.max() if len(want) else 0))
    mon.seen("rescaled")
    mon.signature("pdf", T, N, round(math.log10(var), 1), x.dtype.kind)
    if T >= N and coin(rng, 0.15):
        # substitute x = lo + (hi-lo) sin^2(a): removes the square root ends
        fn = lambda a: float(M._marchenko_pastur_pdf(var, T, N, np.array([wl + (wh - wl) * math.sin(a) ** 2]))[0]) * (wh - wl) * 2 * math.sin(a) * math.cos(a)
        mass = mon.call(quad, fn, 0, math.pi / 2, limit=200, epsabs=1e-7)[0]
        mon.check(abs(mass - 1) <= 1e-4, f"the density integrates to {mass}")
        mon.seen("integrated")


def fitting(mon, rng):
    T, N = shape(mon, rng)
    N, T = max(N, 2), max(T, 2)
    x = rng.normal(size=(T, N)) * 10 ** rng.uniform(-0.5, 0.2)
    if coin(rng):
        x += rng.normal(size=(T, 1)) * rng.uniform(0, 2)
    eig = np.linalg.eigvalsh(x.T @ x / T)[::-1]
    eig = eig[eig > 1e-9]
    if coin(rng, 0.2):
        eig = np.abs(rng.normal(1, 0.5, size(rng, 1, 20))) + 0.01
    if coin(rng, 0.04):  # hundreds of assets whose factors are far above the noise
        N = int(rng.integers(150, 900))
        T = int(N * rng.uniform(1.0, 3.0))
        top = 10.0 ** rng.uniform(0.5, 4)
        eig = np.sort(pick(rng, [np.linspace(top, 0.1, N), top ** rng.random(N), np.abs(rng.normal(top, top / 5, N)) + 0.01]))[::-1].copy()
        mon.seen("many_large_eigenvalues")
    before = snapshot(eig)
    mon.note(T=T, N=N, eigenvalues=eig)
    got = float(mon.call(M._marchenko_pastur_fit, T, N, eig))
    mon.check(snapshot(eig) == before, "eigenvalues modified")
    grid, ll, edge = mp.fit(T, N, eig)
    i = int(np.argmin(np.abs(grid - got)))
    mon.check(abs(grid[i] - got) <= 1e-9, f"fitted variance {got} is not on the grid")
    ok = ~edge
    if ok.any() and not edge[i]:
        best = ll[ok].max()
        mon.check(ll[i] >= best - 1e-7 * (1 + abs(best)), f"fitted variance {got} has log likelihood {ll[i]}, {grid[ok][np.argmax(ll[ok])]} has {best}")
    mon.seen("fit")
    mon.signature("fit", T, N, len(eig), round(got, 1))


def refusals(mon, rng):
    T, N = shape(mon, rng)
    var = pick(rng, [0.0, -1.0, -1e-9, 0, -3])
    mon.rejects(f"variance {var}", M._marchenko_pastur_pdf, var, T, N, np.array([0.5, 1.0]))
    mon.seen("refused")
    mon.signature("refuse", var)


STAGES = [("density", density, 3000, 30000), ("fit", fitting, 500, 5000), ("refusals", refusals, 100, 500)]
