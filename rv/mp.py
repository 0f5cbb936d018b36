"""Reference Marchenko-Pastur distribution."""

import math

import numpy as np


def bounds(var, T, N):
    r = math.sqrt(N / T)
    return var * (1 - r) ** 2, var * (1 + r) ** 2


def pdf(var, T, N, x):
    lo, hi = bounds(var, T, N)
    out = []
    for v in x:
        v = float(v)
        out.append(T / N / (2 * math.pi * var * v) * math.sqrt((hi - v) * (v - lo)) if lo < v < hi else 0.0)
    return np.array(out)


def fit(T, N, eig):
    """(grid, log likelihood on the grid)"""
    eig = np.asarray(eig, float)
    grid = np.linspace(0.01, 4, 1000)
    lo, hi = grid * (1 - math.sqrt(N / T)) ** 2, grid * (1 + math.sqrt(N / T)) ** 2
    ll = np.zeros(1000)
    edge = np.zeros(1000, bool)
    out = -math.log(eig.max())
    for e in eig:
        inside = (e > lo) & (e < hi)
        with np.errstate(all="ignore"):
            dens = T / N / (2 * math.pi * grid * e) * np.sqrt((hi - e) * (e - lo))
        ll += np.where(inside & (dens > 0), np.log(np.where(inside & (dens > 0), dens, 1.0)), out)
        edge |= (np.abs(e - lo) < 1e-11) | (np.abs(e - hi) < 1e-11)
    return grid, ll, edge
