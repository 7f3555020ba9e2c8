# -*- coding: utf-8 -*-
import numbers
import numpy as np
from . import validation  # noqa
from .validation import check_random_state, check_array, check_X_y  # noqa


class Bunch(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def shuffle(*arrays, random_state=None, n_samples=None):
    return resample(*arrays, replace=False, n_samples=n_samples, random_state=random_state)


def _approximate_mode(class_counts, n_draws, rng):
    class_counts = np.asarray(class_counts)
    continuous = class_counts / class_counts.sum() * n_draws
    floored = np.floor(continuous)
    need = int(n_draws - floored.sum())
    if need > 0:
        rem = continuous - floored
        values = np.sort(np.unique(rem))[::-1]
        for value in values:
            (inds,) = np.where(rem == value)
            add_now = min(len(inds), need)
            inds = rng.choice(inds, size=add_now, replace=False)
            floored[inds] += 1
            need -= add_now
            if need == 0:
                break
    return floored.astype(int)


def _index(a, ix):
    if isinstance(a, (list, tuple)):
        return [a[i] for i in ix]
    if hasattr(a, "iloc"):
        return a.iloc[ix]
    return np.asarray(a)[ix]


def resample(*arrays, replace=True, n_samples=None, random_state=None, stratify=None):
    """sklearn.utils.resample (1.2), including the stratified branches (StratifiedShuffleSplit when without
    replacement).  With random_state=None the draws come from numpy's global generator, hence from the explorer."""
    if len(arrays) == 0:
        return None
    random_state = check_random_state(random_state)
    first = arrays[0]
    n = first.shape[0] if hasattr(first, "shape") else len(first)
    m = n if n_samples is None else n_samples
    if m > n and not replace:
        raise ValueError("Cannot sample %d out of arrays with dim %d when replace is False" % (m, n))
    if len(set(len(a) for a in arrays)) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples")
    if stratify is None:
        if replace:
            indices = random_state.randint(0, n, size=(m,))
        else:
            indices = np.arange(n)
            random_state.shuffle(indices)
            indices = indices[:m]
    else:
        y = np.asarray(stratify)
        if len(y) != n:
            raise ValueError("Found input variables with inconsistent numbers of samples")
        if y.ndim == 2:
            y = np.array([" ".join(row.astype("str")) for row in y])
        classes, y_indices = np.unique(y, return_inverse=True)
        n_classes = classes.shape[0]
        class_counts = np.bincount(y_indices)
        class_indices = np.split(np.argsort(y_indices, kind="mergesort"), np.cumsum(class_counts)[:-1])
        n_i = _approximate_mode(class_counts, m, random_state)
        out = []
        for i in range(n_classes):
            ind_i = random_state.choice(class_indices[i], n_i[i], replace=replace)
            out.extend(list(ind_i))
        indices = random_state.permutation(out)
    indices = np.asarray(indices).astype(int)
    res = [_index(a, indices) for a in arrays]
    return res[0] if len(res) == 1 else res
