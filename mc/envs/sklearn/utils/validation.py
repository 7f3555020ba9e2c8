# -*- coding: utf-8 -*-
import numbers
import numpy as np
from ..exceptions import NotFittedError  # noqa


class _GlobalState(object):
    """numpy's global generator, seen through the (patched) module functions."""

    def __getattr__(self, name):
        return getattr(np.random, name)


def check_random_state(seed):
    if seed is None or seed is np.random:
        from mc import rt
        if rt.rng is not None:
            return _GlobalState()
        return np.random.mtrand._rand
    if isinstance(seed, numbers.Integral):
        return np.random.RandomState(seed)
    if isinstance(seed, (np.random.RandomState, _GlobalState)) or type(seed).__name__ in ("ModelState",):
        return seed
    raise ValueError("%r cannot be used to seed a numpy.random.RandomState instance" % seed)


def check_is_fitted(estimator, attributes=None, *, msg=None, all_or_any=all):
    if isinstance(estimator, type):
        raise TypeError("%s is a class, not an instance." % estimator)
    if not hasattr(estimator, "fit"):
        raise TypeError("%s is not an estimator instance." % estimator)
    if attributes is not None:
        if not isinstance(attributes, (list, tuple)):
            attributes = [attributes]
        fitted = all_or_any([hasattr(estimator, a) for a in attributes])
    else:
        fitted = [v for v in vars(estimator) if v.endswith("_") and not v.startswith("__")]
    if not fitted:
        raise NotFittedError("This %s instance is not fitted yet." % type(estimator).__name__)


def check_array(a, **k):
    return np.asarray(a)


def check_X_y(X, y, **k):
    return np.asarray(X), np.asarray(y)


def _num_samples(x):
    return len(x)


def check_consistent_length(*arrays):
    if len(set(len(a) for a in arrays if a is not None)) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples")


def column_or_1d(y, **k):
    return np.ravel(np.asarray(y))
