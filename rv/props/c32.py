"""C32: generated matrices."""

import numpy as np

from quantfinlib.math import cov as M
from rv.gens import coin, pick, size

RULE = "distinct (generator, dimension or block layout) whose structure was checked entry by entry"
REQUIRED = ["blocks", "no_blocks", "single_block", "random_cov", "random_cor", "default_arguments", "refused", "average_variance", "small_integer_types"]


def blocks(mon, rng):
    k = size(rng, 0, 6)
    sizes = [size(rng, 0 if coin(rng, 0.3) else 1, 8, 60) for _ in range(k)]
    cors = [float(rng.uniform(-1, 1)) for _ in range(k)]
    wrap = pick(rng, [list, np.array, tuple]) if k else list
    mon.note(sizes=sizes, correlations=cors)
    if coin(rng, 0.05):
        got = mon.call(M._cor_block_diagonal)
        sizes, cors = [10, 10, 20, 24, 64], [0.5, 0.2, 0.3, 0.5, 0.3]
        mon.seen("default_arguments")
    else:
        got = mon.call(M._cor_block_diagonal, wrap(sizes), wrap(cors)) if coin(rng) else mon.call(M._cor_block_diagonal, block_cors=wrap(cors), block_sizes=wrap(sizes))
    got = np.asarray(got, float)
    n = sum(sizes)
    mon.check(got.shape == (n, n), f"shape {got.shape} for blocks {sizes}")
    which = np.repeat(np.arange(len(sizes)), sizes)
    want = np.array([[1.0 if i == j else (cors[which[i]] if which[i] == which[j] else 0.0) for j in range(n)] for i in range(n)]).reshape(n, n)
    mon.equal(got, want, "block matrix")
    mon.seen("blocks")
    mon.seen("no_blocks", int(k == 0))
    mon.seen("single_block", int(k == 1))
    mon.signature("blocks", tuple(sizes))
    bad = [cors + [0.5], cors[:-1]][int(rng.integers(2)) if k else 0]
    mon.rejects(f"{len(sizes)} sizes and {len(bad)} correlations", M._cor_block_diagonal, sizes[:k], bad if len(bad) != len(sizes[:k]) else bad + [0.1])
    mon.seen("refused")


def small_types(mon, rng):
    # block sizes that each fit in a small integer type, and whose total does not
    dtype = pick(rng, [np.uint8, np.int8, np.int8, np.uint16, np.int32])
    k = size(rng, 2, 4)
    sizes = np.array([size(rng, 0, 60, 127 if dtype == np.int8 else 250) for _ in range(k)], dtype)
    cors = rng.uniform(-1, 1, k)
    mon.note(sizes=sizes, dtype=dtype.__name__, correlations=cors)
    counts = [int(n) for n in sizes]
    before = sizes.copy()
    got = np.asarray(mon.call(M._cor_block_diagonal, sizes, cors), float)
    which = np.repeat(np.arange(k), counts)
    want = np.where(which[:, None] == which[None, :], cors[which][:, None] if len(which) else 0.0, 0.0)
    np.fill_diagonal(want, 1.0)
    mon.equal(got, want, f"block matrix for sizes of type {dtype.__name__}")
    mon.equal(sizes, before, "sizes after the call")
    mon.seen("small_integer_types", int(sum(counts) > np.iinfo(dtype).max))
    mon.signature("small types", dtype.__name__, tuple(counts))


def random(mon, rng):
    d = size(rng, 1, 30, 120)
    np.random.seed(int(rng.integers(2**31)))
    for name in ("random_cov", "random_cor"):
        fn = getattr(M, "_" + name)
        m = np.asarray(mon.call(fn, d) if coin(rng) else mon.call(fn, dim=d), float)
        mon.note(generator=name, dim=d, m=m)
        mon.check(m.shape == (d, d), f"shape {m.shape} for dimension {d}")
        mon.check(np.abs(m - m.T).max() <= 1e-15, "not symmetric")
        mon.check(np.linalg.eigvalsh(m).min() > 0, f"smallest eigenvalue {np.linalg.eigvalsh(m).min()}")
        if name == "random_cor":
            mon.close(np.diag(m), np.ones(d), "diagonal", rtol=0, atol=1e-12)
            mon.check(np.abs(m).max() <= 1, f"correlation {np.abs(m).max()}")
        mon.seen(name)
        mon.signature(name, d)


def average(mon, rng):
    d = size(rng, 1, 12)
    np.random.seed(int(rng.integers(2**31)))
    n = 600
    tr = [float(np.trace(mon.call(M._random_cov, d))) for _ in range(n)]
    # the trace is (a chi square variable with 2 d^2 degrees of freedom) / (2 d^2)
    sd = np.sqrt(1.0 / (d * d) / n)
    mon.note(dim=d, mean=np.mean(tr))
    mon.check(abs(np.mean(tr) - 1) <= 6 * sd + 0.02, f"average total variance {np.mean(tr)} in dimension {d}")
    mon.seen("average_variance")
    mon.signature("average", d)


STAGES = [("blocks", blocks, 2000, 20000), ("small_types", small_types, 200, 2000), ("random", random, 1500, 15000), ("average", average, 30, 200)]
