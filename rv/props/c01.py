"""C01: K-fold test sets."""

from quantfinlib.train_test_split import TimeAwareKFold
from rv import refs, splits

RULE = "distinct (samples, folds, group layout class, look-forward, boundaries moved) observed on produced splits"
REQUIRED = ["boundary_moved", "boundary_kept", "remainder", "datetime", "look_forward"]


def run(mon, rng):
    case = splits.kfold_case(mon, rng)
    if case is None:
        mon.seen("outside_domain")
        return
    kind, freq, groups, unit, n, folds, e, p, lf, want = case
    e = p = 0  # only the test sets matter here; nothing is removed, so every split is feasible
    want = refs.kfold(groups, folds, 0, 0, lf)
    cv = TimeAwareKFold(n_folds=splits.number(rng, folds), n_embargo=0, n_purge=0, look_forward=lf, freq=freq)
    before = mon.call(cv.get_n_splits)
    got = mon.call(lambda: splits.as_lists(cv.split(splits.features(rng, n), splits.target(rng, n),
                                                    splits.container(rng, kind, groups))))
    mon.check(len(got) == before == (folds - 1 if lf else folds),
              f"{len(got)} splits produced, get_n_splits says {before}, {folds} folds")
    bounds = refs.fold_bounds(groups, folds)
    # the statement itself, independent of the reference model
    flat = [i for _, t in got for i in t]
    mon.check(flat == list(range(bounds[1] if lf else 0, n)), lambda: f"test sets do not tile the samples in order: {flat}")
    for (_, a), (_, b) in zip(got, got[1:]):
        mon.check(groups[a[-1]] < groups[b[0]], f"a time group is cut between {a[-1]} and {b[0]}")
    mon.check([t for _, t in got] == [t for _, t in want],
              lambda: f"test blocks {[(t[0], t[-1]) for _, t in got]}, expected {[(t[0], t[-1]) for _, t in want]}")
    mon.check(mon.call(cv.get_n_splits) == before, "get_n_splits changed by splitting")
    base, extra = divmod(n, folds)
    plain = [0]
    for k in range(folds - 1):
        plain.append(plain[-1] + base + (k < extra))
    moved = sum(a != b for a, b in zip(plain, bounds[:-1]))
    mon.seen("boundary_moved", moved)
    mon.seen("boundary_kept", folds - 1 - moved)
    mon.seen("remainder", int(extra > 0))
    mon.seen(kind)
    mon.seen("look_forward", int(lf))
    mon.signature(n, folds, kind, lf, moved)


def with_limits(mon, rng):
    """The same test sets come out when purging and embargoing are active."""
    case = splits.kfold_case(mon, rng)
    if case is None:
        return
    kind, freq, groups, unit, n, folds, e, p, lf, want = case
    cv = TimeAwareKFold(n_folds=splits.number(rng, folds), n_embargo=splits.number(rng, e), n_purge=splits.number(rng, p), look_forward=lf, freq=freq)
    it = cv.split(splits.features(rng, n), None, splits.container(rng, kind, groups))
    for k, (train, test) in enumerate(want):
        if not train:
            mon.seen("infeasible_split")
            return
        _, got = mon.call(next, it)
        mon.check([int(v) for v in got] == test, f"test set {k}: {list(got)}, expected {test}")
    mon.check(mon.call(next, it, None) is None, "more splits than expected")
    mon.signature(n, folds, kind, lf, "limits", e > 0, p > 0)


STAGES = [("test_blocks", run, 3000, 60000), ("test_blocks_with_limits", with_limits, 1500, 30000)]
