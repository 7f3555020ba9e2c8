# -*- coding: utf-8 -*-
"""Model of RidgeClassifierCV as in scikit-learn 1.2 with cv=None (generalised leave-one-out).

decision: closed-form ridge on centred data; LOO predictions by the hat matrix.  With `scoring`, cv_values_ holds the LOO
*predictions* (the estimator sees y through an identity regressor); without, the squared LOO errors.  With a class-label
scorer the (n, n_y) targets are arg-maxed over axis 1, as scikit-learn's _IdentityClassifier does (for binary problems
n_y == 1, where sklearn 1.2 compares the argmax of a single column, so that the first alpha always wins)."""
import numpy as np
from mc import rt
from ..base import BaseEstimator, ClassifierMixin
from ..preprocessing import LabelBinarizer
from ..utils.validation import check_is_fitted
from ..metrics import accuracy_score


class RidgeClassifierCV(ClassifierMixin, BaseEstimator):
    def __init__(self, alphas=(0.1, 1.0, 10.0), *, fit_intercept=True, scoring=None, cv=None, class_weight=None,
                 store_cv_values=False):
        self.alphas = alphas
        self.fit_intercept = fit_intercept
        self.scoring = scoring
        self.cv = cv
        self.class_weight = class_weight
        self.store_cv_values = store_cv_values

    def fit(self, X, y, sample_weight=None):
        X = np.asarray(X, dtype=float)
        y = np.asarray(y)
        if X.ndim != 2 or X.shape[0] != y.shape[0]:
            raise ValueError("Found input variables with inconsistent numbers of samples")
        if X.shape[1] == 0:
            raise ValueError("Found array with 0 feature(s)")
        if not np.isfinite(X).all():
            raise ValueError("Input X contains NaN or infinity.")
        lb = LabelBinarizer(neg_label=-1, pos_label=1)
        Y = lb.fit_transform(y).astype(float)
        self._label_binarizer = lb
        sw = np.ones(len(y))
        if self.class_weight is not None:
            cw = self.class_weight
            if isinstance(cw, str):
                if cw != "balanced":
                    raise ValueError("class_weight")
                cnt = np.array([np.sum(y == c) for c in lb.classes_], dtype=float)
                cw = dict(zip(lb.classes_.tolist(), len(y) / (len(cnt) * cnt)))
            sw = np.array([cw.get(v, 1.0) for v in y.tolist()], dtype=float)
        alphas = np.asarray(self.alphas, dtype=float)
        if np.any(alphas <= 0):
            raise ValueError("alphas must be strictly positive")
        n = X.shape[0]
        if self.fit_intercept:
            xm = np.average(X, axis=0, weights=sw)
            ym = np.average(Y, axis=0, weights=sw)
        else:
            xm, ym = np.zeros(X.shape[1]), np.zeros(Y.shape[1])
        s = np.sqrt(sw)[:, None]
        Xc, Yc = (X - xm) * s, (Y - ym) * s
        K = Xc.dot(Xc.T)
        ones = s if self.fit_intercept else np.zeros_like(s)
        best, best_score, store = None, None, np.empty((n, Y.shape[1], len(alphas)))
        for i, a in enumerate(alphas):
            G = np.linalg.inv(K + a * np.eye(n))
            H = K.dot(G) + ones.dot(ones.T) / np.sum(sw) * (1.0 if self.fit_intercept else 0.0)
            fit_ = H.dot(Yc + s * ym if self.fit_intercept else Yc)
            resid = (Yc + s * ym if self.fit_intercept else Yc) - fit_
            loo = resid / (1.0 - np.diag(H))[:, None]
            if self.scoring is None:
                err = loo ** 2
                store[:, :, i] = err
                score = -err.mean()
            else:
                pred = Y - loo / s
                if rt.ridge_cv is not None:
                    pred = np.array(rt.ridge_cv(self, X, Y, i), dtype=float).reshape(Y.shape)
                store[:, :, i] = pred
                score = self._score(Y, pred)
            if best is None or score > best_score:
                best, best_score, coef = a, score, Xc.T.dot(G).dot(Yc)
        self.alpha_ = np.float64(best)
        self.best_score_ = best_score
        self.coef_ = coef.T
        self.intercept_ = ym - xm.dot(coef)
        self.n_features_in_ = X.shape[1]
        if self.store_cv_values:
            self.cv_values_ = store
        if rt.ridge_log is not None:
            rt.ridge_log.append(("fit", self, X.copy(), np.array(y)))
        return self

    def _score(self, Y, pred):
        class _Id(object):
            def predict(self, z):
                return z.argmax(axis=1)
        return self.scoring(_Id(), pred, Y.argmax(axis=1))

    @property
    def classes_(self):
        return self._label_binarizer.classes_

    def decision_function(self, X):
        check_is_fitted(self, ["coef_"])
        X = np.asarray(X, dtype=float)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("X has %d features, but %s is expecting %d features as input" % (
                X.shape[1], type(self).__name__, self.n_features_in_))
        d = X.dot(self.coef_.T) + self.intercept_
        d = d.ravel() if d.shape[1] == 1 else d
        if rt.ridge_decide is not None:
            d = np.array(rt.ridge_decide(self, X), dtype=float)
        if rt.ridge_log is not None:
            rt.ridge_log.append(("decide", self, X.copy(), d.copy()))
        return d

    def predict(self, X):
        d = self.decision_function(X)
        if d.ndim == 1:
            return self.classes_[(d > 0).astype(int)]
        return self.classes_[d.argmax(axis=1)]
