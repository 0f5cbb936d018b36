"""C40: splitters inside scikit-learn."""

import warnings

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator
from sklearn.model_selection import GridSearchCV, check_cv, cross_val_predict, cross_val_score, cross_validate

from quantfinlib.train_test_split import TimeAwareKFold, WalkForward
from rv import splits
from rv.core import snapshot
from rv.gens import coin, pick, size

RULE = "distinct (splitter, scikit-learn tool, group container, feature container, settings) with the rows of every fit and score recorded"
REQUIRED = ["kfold", "walk_forward", "cross_validate", "cross_val_score", "grid_search", "cross_val_predict", "frame", "datetime_groups", "check_cv", "reused", "classifier"]

LOG = []


class Recorder(BaseEstimator):
    """Records which rows it is trained and scored on; the first feature is the row number."""

    def __init__(self, a=0):
        self.a = a

    def fit(self, X, y=None):
        rows = np.asarray(X)[:, 0].astype(int)
        LOG.append(("fit", self.a, tuple(rows.tolist()), tuple(np.asarray(y).tolist())))
        self.n_ = len(rows)
        return self

    def score(self, X, y=None):
        rows = np.asarray(X)[:, 0].astype(int)
        LOG.append(("score", self.a, tuple(rows.tolist()), tuple(np.asarray(y).tolist())))
        return float(rows.sum()) + self.a

    def predict(self, X):
        rows = np.asarray(X)[:, 0].astype(int)
        LOG.append(("predict", self.a, tuple(rows.tolist()), ()))
        return rows + 0.5


class Classifier(Recorder):
    _estimator_type = "classifier"

    def __sklearn_tags__(self):
        t = super().__sklearn_tags__()
        t.estimator_type = "classifier"
        return t


def one(mon, rng):
    kind, freq, groups, unit, n = splits.problem(rng, 40)
    if n < 12 or len(set(groups)) < 10:
        return
    container = splits.container(rng, kind, groups)
    X = np.column_stack([np.arange(n), rng.normal(size=n)]).astype(float)
    if coin(rng):
        X = pd.DataFrame(X, columns=["row", "f"], index=pick(rng, [None, np.arange(n)[::-1], pd.date_range("2003-01-01", periods=n), splits.layout(rng, n), pd.Timestamp("2003-01-01") + pd.to_timedelta(splits.layout(rng, n), unit="h")]))
        mon.seen("frame")
    y = np.arange(n) % 3 if coin(rng) else np.arange(n) * 1.0
    if coin(rng, 0.4):
        y = pd.Series(y, index=getattr(X, "index", None))
    fold = coin(rng, 0.6)
    if fold:
        args = dict(n_folds=size(rng, 2, 4, 9), n_embargo=size(rng, 0, 2), n_purge=size(rng, 0, 2), look_forward=coin(rng), freq=freq)
        cls = TimeAwareKFold
    else:
        span = (groups[-1] - groups[0]) // unit
        args = dict(n_embargo=size(rng, 0, 2), train_window=int(max(2, span // pick(rng, [2, 3]))), test_window=int(max(1, span // pick(rng, [3, 4, 6]))), split_type=pick(rng, ["expanding", "rolling"]), freq=freq)
        cls = WalkForward
    mon.note(splitter=cls.__name__, args=args, groups=container, n=n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want, err = mon.attempt(lambda: [(tuple(a.tolist()), tuple(b.tolist())) for a, b in cls(**args).split(np.zeros((n, 1)), None, container)])
        if err is not None or not want or any(not a or not b for a, b in want):
            return  # refused: nothing to plug in (decided by C01-C04)
        cv = mon.call(cls, **args)
        before = snapshot([np.asarray(X), np.asarray(y), container])
        if fold:
            ann = {mon.call(cv.get_n_splits, *a) for a in [(), (X,), (X, y), (X, y, container), (None, None, container)]}
            mon.check(ann == {len(want)}, f"{ann} splits announced, {len(want)} produced")
        if coin(rng, 0.3):
            list(cv.split(X, y, container))
            mon.seen("reused")
        est = Classifier() if coin(rng, 0.3) else Recorder()
        mon.seen("classifier", int(isinstance(est, Classifier)))
        mon.check(mon.call(check_cv, cv, y, classifier=coin(rng)) is cv, "check_cv does not take the splitter as it is")
        mon.seen("check_cv")
        tool = pick(rng, ["cross_validate", "cross_val_score", "grid_search", "cross_val_predict"])
        if tool == "grid_search" and not fold:
            list(cv.split(X, y, container))  # walk-forward knows its number of splits after a pass
        if tool == "cross_val_predict":
            # needs a partition of all rows
            if not fold or args["look_forward"]:
                return
        mon.note(tool=tool)
        LOG.clear()
        yy = np.asarray(y).tolist()
        expected = []
        if tool == "cross_validate":
            r = mon.call(cross_validate, est, X, y, groups=container, cv=cv, return_indices=True, error_score="raise")
            idx = [(tuple(a.tolist()), tuple(b.tolist())) for a, b in zip(r["indices"]["train"], r["indices"]["test"])]
            mon.check(idx == want, "indices used by cross_validate are not those of the splitter")
            scores = r["test_score"]
        elif tool == "cross_val_score":
            scores = mon.call(cross_val_score, est, X, y, groups=container, cv=cv, error_score="raise")
        elif tool == "grid_search":
            gs = GridSearchCV(est, {"a": [1, 2]}, cv=cv, refit=False, error_score="raise")
            mon.call(gs.fit, X, y, groups=container)
            mon.check(gs.n_splits_ == len(want), f"grid search sees {gs.n_splits_} splits instead of {len(want)}")
            scores = [gs.cv_results_[f"split{i}_test_score"][j] for j in (0, 1) for i in range(len(want))]
        else:
            pred = mon.call(cross_val_predict, est, X, y, groups=container, cv=cv)
            mon.check(list(pred) == [i + 0.5 for i in range(n)], "predictions are not aligned with the rows")
            scores = None
        values = [0] if tool != "grid_search" else [1, 2]
        for a in values:
            for tr, te in want:
                expected.append(("fit", a, tr, tuple(yy[i] for i in tr)))
                expected.append(("predict", a, te, ()) if tool == "cross_val_predict" else ("score", a, te, tuple(yy[i] for i in te)))
        mon.check(sorted(LOG) == sorted(expected), lambda: f"rows used for training and scoring: {len(LOG)} operations, {len(expected)} expected; first difference {next((e for e in expected if e not in LOG), None)}")
        if scores is not None:
            mon.check(list(scores) == [float(sum(te)) + a for a in values for _, te in want], f"scores {list(scores)[:5]}")
        mon.check(mon.call(cv.get_n_splits, X, y, container) == len(want), f"number of splits {cv.get_n_splits(X, y, container)}, {len(want)} produced")
        mon.check(snapshot([np.asarray(X), np.asarray(y), container]) == before, "data modified")
    mon.seen(tool)
    mon.seen("kfold" if fold else "walk_forward")
    mon.seen("datetime_groups", int(kind == "datetime"))
    mon.signature(cls.__name__, tool, type(container).__name__, type(X).__name__, len(want), n)


STAGES = [("scikit_learn", one, 3000, 30000)]
