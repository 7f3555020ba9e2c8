# -*- coding: utf-8 -*-
import numpy as np
from .base import BaseEstimator, TransformerMixin
from .utils.validation import check_is_fitted


def _scale(s):
    s = np.array(s, dtype=float)
    s[s < 10 * np.finfo(float).eps] = 1.0
    return s


def _check2d(X):
    X = np.array(X, dtype=float)
    if X.ndim != 2:
        raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
    if X.shape[0] < 1:
        raise ValueError("Found array with 0 sample(s) while a minimum of 1 is required.")
    if X.shape[1] < 1:
        raise ValueError("Found array with 0 feature(s) (shape=%r) while a minimum of 1 is required." % (X.shape,))
    if np.isinf(X).any():
        raise ValueError("Input contains infinity")
    return X


class StandardScaler(BaseEstimator, TransformerMixin):
    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.with_mean = with_mean
        self.with_std = with_std
        self.copy = copy

    def fit(self, X, y=None, sample_weight=None):
        X = _check2d(X)
        self.n_features_in_ = X.shape[1]
        self.n_samples_seen_ = X.shape[0]
        self.mean_ = X.mean(axis=0)
        self.var_ = X.var(axis=0)
        # sklearn treats columns whose deviation is rounding noise as constant
        upper = X.shape[0] * np.finfo(float).eps * self.var_ + (
            X.shape[0] * self.mean_ * np.finfo(float).eps) ** 2
        s = np.sqrt(self.var_)
        s[self.var_ <= upper] = 1.0
        s[s == 0.0] = 1.0
        self.scale_ = s if self.with_std else None
        return self

    def _chk(self, X):
        check_is_fitted(self)
        X = _check2d(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("X has %d features, but %s is expecting %d features as input" % (
                X.shape[1], type(self).__name__, self.n_features_in_))
        return X

    def transform(self, X, copy=None):
        X = self._chk(X)
        if self.with_mean:
            X = X - self.mean_
        if self.with_std:
            X = X / self.scale_
        return X

    def inverse_transform(self, X, copy=None):
        X = np.array(X, dtype=float)
        if self.with_std:
            X = X * self.scale_
        if self.with_mean:
            X = X + self.mean_
        return X


class MinMaxScaler(BaseEstimator, TransformerMixin):
    def __init__(self, feature_range=(0, 1), *, copy=True, clip=False):
        self.feature_range = feature_range
        self.copy = copy
        self.clip = clip

    def fit(self, X, y=None):
        X = _check2d(X)
        self.n_features_in_ = X.shape[1]
        self.data_min_, self.data_max_ = X.min(axis=0), X.max(axis=0)
        self.data_range_ = self.data_max_ - self.data_min_
        lo, hi = self.feature_range
        self.scale_ = (hi - lo) / _scale(self.data_range_)
        self.min_ = lo - self.data_min_ * self.scale_
        return self

    def transform(self, X):
        check_is_fitted(self)
        X = _check2d(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("X has %d features, but %s is expecting %d features as input" % (
                X.shape[1], type(self).__name__, self.n_features_in_))
        X = X * self.scale_ + self.min_
        if self.clip:
            X = np.clip(X, self.feature_range[0], self.feature_range[1])
        return X


class LabelEncoder(BaseEstimator, TransformerMixin):
    def fit(self, y):
        self.classes_ = np.unique(np.asarray(y))
        return self

    def fit_transform(self, y):
        return self.fit(y).transform(y)

    def transform(self, y):
        y = np.asarray(y)
        if y.shape[0] == 0:
            return np.array([])
        diff = np.setdiff1d(y, self.classes_)
        if len(diff):
            raise ValueError("y contains previously unseen labels: %s" % str(diff))
        return np.searchsorted(self.classes_, y)

    def inverse_transform(self, y):
        return self.classes_[np.asarray(y)]


class LabelBinarizer(BaseEstimator, TransformerMixin):
    def __init__(self, *, neg_label=0, pos_label=1, sparse_output=False):
        self.neg_label, self.pos_label = neg_label, pos_label

    def fit(self, y):
        self.classes_ = np.unique(np.asarray(y))
        return self

    def fit_transform(self, y):
        return self.fit(y).transform(y)

    def transform(self, y):
        y = np.asarray(y)
        Y = np.full((y.shape[0], len(self.classes_)), self.neg_label)
        for i, c in enumerate(self.classes_):
            Y[y == c, i] = self.pos_label
        if len(self.classes_) == 2:
            Y = Y[:, 1:]
        elif len(self.classes_) == 1:
            Y = np.full((y.shape[0], 1), self.neg_label)
        return Y
