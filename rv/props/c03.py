"""C03: walk-forward splits."""

from quantfinlib.train_test_split import WalkForward
from rv import refs, splits
from rv.gens import coin, pick

RULE = "distinct (samples, layout class, windows, embargo, split type, number of splits, gap at boundary) observed"
REQUIRED = ["gap_between_train_and_test", "embargo_removed", "rolling", "expanding", "datetime", "several_splits",
            "infeasible_refused", "short_last_test"]


def draw(mon, rng):
    kind, freq, groups, unit, n = splits.problem(rng)
    span = (groups[-1] - groups[0]) // unit
    if span < 1:
        return None
    tw = int(rng.integers(1, max(1, min(span, 60 if coin(rng, 0.2) else 12)) + 1))
    sw = int(rng.integers(1, 13)) if coin(rng, 0.9) else int(rng.integers(1, 200))
    e = int(rng.integers(0, 5)) if coin(rng, 0.6) else 0
    if groups[0] + tw * unit - unit >= groups[-1]:  # nothing to test
        return None
    st = pick(rng, ["expanding", "rolling"])
    mon.note(kind=kind, freq=freq, groups=groups, train_window=tw, test_window=sw, n_embargo=e, split_type=st)
    return kind, freq, groups, unit, n, tw, sw, e, st


def one(mon, rng):
    case = draw(mon, rng)
    if case is None:
        mon.seen("outside_domain")
        return
    kind, freq, groups, unit, n, tw, sw, e, st = case
    want = refs.walk_forward(groups, tw * unit, sw * unit, e * unit, st, unit)
    cv = WalkForward(n_embargo=splits.number(rng, e), train_window=splits.number(rng, tw), test_window=splits.number(rng, sw), split_type=st, freq=freq)
    it = cv.split(splits.features(rng, n), splits.target(rng, n), splits.container(rng, kind, groups))
    tested = []
    for k, (train, test) in enumerate(want):
        if not train:
            mon.rejects(f"split {k} leaves no training sample", next, it)
            mon.seen("infeasible_refused")
            return
        got = mon.call(next, it, None)
        mon.check(got is not None, f"only {k} splits produced, expected {len(want)}")
        a, b = ([int(v) for v in x] for x in got)
        # the statement itself
        mon.check(len(b) > 0 and len(a) > 0, f"split {k}: empty set")
        mon.check(max(groups[i] for i in a) < min(groups[i] for i in b), f"split {k}: training reaches into the test set")
        mon.check(groups[b[-1]] - groups[b[0]] <= (sw - 1) * unit, f"split {k}: test set longer than the test window")
        mon.check(a == sorted(set(a)) and b == sorted(set(b)), f"split {k}: indices not sorted and unique")
        mon.check(b == test, f"split {k}: test set {b}, expected {test}")
        mon.check(a == train, f"split {k}: training set {a}, expected {train}")
        tested += b
        mon.seen("gap_between_train_and_test", int(groups[b[0]] - groups[b[0] - 1] > unit))
        mon.seen("embargo_removed", int(a[-1] < b[0] - 1))
        mon.seen("short_last_test", int(k == len(want) - 1 and groups[b[-1]] - groups[b[0]] < (sw - 1) * unit))
    mon.check(mon.call(next, it, None) is None, f"more than {len(want)} splits are produced")
    mon.check(tested == list(range(want[0][1][0], n)), "the test sets do not tile the samples after the train window")
    mon.seen(st)
    mon.seen(kind)
    mon.seen("several_splits", int(len(want) > 2))
    mon.signature(n, kind, tw, sw, e, st, min(len(want), 9))


STAGES = [("walk_forward", one, 6000, 120000)]
