# -*- coding: utf-8 -*-
import numpy as np


def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
    a, b = np.asarray(y_true), np.asarray(y_pred)
    a, b = _squeeze(a), _squeeze(b)
    if a.shape[0] != b.shape[0]:
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(a), len(b)))
    if a.dtype.kind in "US" and b.dtype.kind not in "USO" or b.dtype.kind in "US" and a.dtype.kind not in "USO":
        raise ValueError("Mix of label input types (string and number)")
    score = (a == b)
    return float(np.mean(score)) if normalize else int(np.sum(score))


def _squeeze(a):
    if a.ndim == 2 and a.shape[1] == 1:
        return a.ravel()
    if a.ndim != 1:
        raise ValueError("bad label shape %r" % (a.shape,))
    return a


def f1_score(y_true, y_pred, *, average="binary", **k):
    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
    labels = np.unique(np.concatenate((y_true, y_pred)))
    f, sup = [], []
    for c in labels:
        tp = np.sum((y_true == c) & (y_pred == c))
        d = np.sum(y_true == c) + np.sum(y_pred == c)
        f.append(2.0 * tp / d if d else 0.0)
        sup.append(np.sum(y_true == c))
    if average == "binary":
        return f[-1]
    if average == "weighted":
        return float(np.average(f, weights=sup))
    return float(np.mean(f))


class _Scorer(object):
    def __init__(self, f, sign, kw):
        self._score_func, self._sign, self._kwargs = f, sign, kw

    def __call__(self, estimator, X, y_true, sample_weight=None):
        return self._sign * self._score_func(y_true, estimator.predict(X), **self._kwargs)


def make_scorer(score_func, *, greater_is_better=True, needs_proba=False, needs_threshold=False, **kwargs):
    return _Scorer(score_func, 1 if greater_is_better else -1, kwargs)
