"""C02: K-fold training sets."""

from quantfinlib.train_test_split import TimeAwareKFold
from rv import splits

RULE = "distinct (samples, folds, layout class, embargo, purge, look-forward, removed counts) over produced training sets"
REQUIRED = ["embargo_removed", "purge_removed", "limit_hit_exactly", "datetime", "look_forward", "infeasible_refused"]


def one(mon, rng, small=False):
    case = splits.kfold_case(mon, rng)
    if case is None:
        mon.seen("outside_domain")
        return
    kind, freq, groups, unit, n, folds, e, p, lf, want = case
    cv = TimeAwareKFold(n_folds=splits.number(rng, folds), n_embargo=splits.number(rng, e), n_purge=splits.number(rng, p), look_forward=lf, freq=freq)
    it = cv.split(splits.features(rng, n), splits.target(rng, n), splits.container(rng, kind, groups))
    for k, (train, test) in enumerate(want):
        if not train:
            mon.rejects(f"split {k} leaves no training sample", next, it)
            mon.seen("infeasible_refused")
            return
        a, b = mon.call(next, it)
        a = [int(v) for v in a]
        mon.check(a == sorted(set(a)), f"split {k}: training indices not sorted and unique: {a}")
        mon.check([int(v) for v in b] == test, f"split {k}: test set {list(b)}, expected {test}")
        extra, lost = sorted(set(a) - set(train)), sorted(set(train) - set(a))
        mon.check(not extra and not lost,
                  f"split {k} (test {test[0]}..{test[-1]}): wrongly in training {extra[:10]}, wrongly left out {lost[:10]}")
        first, last = groups[test[0]], groups[test[-1]]
        emb = sum(1 for g in groups if first - e * unit <= g < first)
        pur = 0 if lf else sum(1 for g in groups if last < g <= last + p * unit)
        mon.seen("embargo_removed", emb)
        mon.seen("purge_removed", pur)
        mon.seen("limit_hit_exactly", int((first - e * unit) in groups and e > 0) + int((last + p * unit) in groups and p > 0))
        mon.seen("nothing_removed", int(emb + pur == 0))
        mon.signature(n, folds, kind, e, p, lf, min(emb, 5), min(pur, 5))
    mon.seen(kind)
    mon.seen("look_forward", int(lf))


STAGES = [("training_sets", one, 5000, 100000)]
