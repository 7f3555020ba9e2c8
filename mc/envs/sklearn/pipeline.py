# -*- coding: utf-8 -*-
from collections import defaultdict
from .base import BaseEstimator


class Pipeline(BaseEstimator):
    def __init__(self, steps, *, memory=None, verbose=False):
        self.steps = steps
        self.memory = memory
        self.verbose = verbose

    @property
    def named_steps(self):
        return dict(self.steps)

    def __len__(self):
        return len(self.steps)

    def __getitem__(self, ind):
        if isinstance(ind, slice):
            return Pipeline(self.steps[ind])
        if isinstance(ind, str):
            return dict(self.steps)[ind]
        return self.steps[ind][1]

    def get_params(self, deep=True):
        out = {"steps": self.steps, "memory": self.memory, "verbose": self.verbose}
        for n, s in self.steps:
            out[n] = s
            if deep and hasattr(s, "get_params"):
                for k, v in s.get_params(deep=True).items():
                    out["%s__%s" % (n, k)] = v
        return out

    def set_params(self, **kw):
        for k, v in kw.items():
            if k in ("steps", "memory", "verbose"):
                setattr(self, k, v)
                continue
            n, d, sub = k.partition("__")
            d0 = dict(self.steps)
            if n not in d0:
                raise ValueError("Invalid parameter %r" % n)
            if d:
                d0[n].set_params(**{sub: v})
            else:
                self.steps = [(a, v if a == n else b) for a, b in self.steps]
        return self

    @property
    def _final(self):
        return self.steps[-1][1]

    @property
    def classes_(self):
        return self._final.classes_

    def _fit(self, X, y):
        # scikit-learn clones a transformer only when memory caches; with memory=None it is fitted in place
        for n, t in self.steps[:-1]:
            if t is None or t == "passthrough":
                continue
            if hasattr(t, "fit_transform"):
                X = t.fit_transform(X, y)
            else:
                X = t.fit(X, y).transform(X)
        return X

    def fit(self, X, y=None, **kw):
        X = self._fit(X, y)
        if self._final != "passthrough":
            self._final.fit(X, y)
        return self

    def fit_transform(self, X, y=None):
        X = self._fit(X, y)
        t = self._final
        if hasattr(t, "fit_transform"):
            return t.fit_transform(X, y)
        return t.fit(X, y).transform(X)

    def _pre(self, X):
        for n, t in self.steps[:-1]:
            if t is None or t == "passthrough":
                continue
            X = t.transform(X)
        return X

    def transform(self, X):
        return self._final.transform(self._pre(X))

    def predict(self, X, **kw):
        return self._final.predict(self._pre(X))

    def predict_proba(self, X, **kw):
        return self._final.predict_proba(self._pre(X))

    def decision_function(self, X):
        return self._final.decision_function(self._pre(X))

    def score(self, X, y=None):
        return self._final.score(self._pre(X), y)


def _name_estimators(estimators):
    names = [e if isinstance(e, str) else type(e).__name__.lower() for e in estimators]
    counts = defaultdict(int)
    for n in names:
        counts[n] += 1
    counts = {k: v for k, v in counts.items() if v > 1}
    for i in reversed(range(len(estimators))):
        n = names[i]
        if n in counts:
            names[i] += "-%d" % counts[n]
            counts[n] -= 1
    return list(zip(names, estimators))


def make_pipeline(*steps, memory=None, verbose=False):
    return Pipeline(_name_estimators(steps), memory=memory, verbose=verbose)
