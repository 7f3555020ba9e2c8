# -*- coding: utf-8 -*-
import itertools
import numpy as np
from .base import clone


class GridSearchCV(object):
    """Records, per candidate and fold, what the folds select; scores with the given scorer."""

    def __init__(self, estimator, param_grid, *, scoring=None, n_jobs=None, refit=True, cv=None, verbose=0,
                 pre_dispatch="2*n_jobs", **k):
        self.estimator, self.param_grid, self.scoring = estimator, param_grid, scoring
        self.n_jobs, self.cv, self.refit = n_jobs, cv, refit
        self.folds_ = []

    def fit(self, X, y=None):
        keys = sorted(self.param_grid)
        cands = [dict(zip(keys, v)) for v in itertools.product(*(self.param_grid[k] for k in keys))]
        folds = list(self.cv.split(X, y))
        self.folds_ = folds
        res = {"params": cands, "mean_test_score": []}
        for c in cands:
            sc = []
            for tr, te in folds:
                est = clone(self.estimator).set_params(**c)
                Xtr = X[tr] if not isinstance(X, list) else [X[i] for i in tr]
                Xte = X[te] if not isinstance(X, list) else [X[i] for i in te]
                est.fit(Xtr, y[tr])
                sc.append(self.scoring(est, Xte, y[te]))
            for i, s in enumerate(sc):
                res.setdefault("split%d_test_score" % i, []).append(s)
            res["mean_test_score"].append(float(np.mean(sc)))
        self.cv_results_ = {k: (v if k == "params" else np.asarray(v)) for k, v in res.items()}
        return self


def cross_validate(*a, **k):
    raise NotImplementedError
