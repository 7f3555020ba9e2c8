# -*- coding: utf-8 -*-
import copy
import inspect


def clone(estimator, safe=True):
    if isinstance(estimator, (list, tuple, set, frozenset)):
        return type(estimator)([clone(e, safe=safe) for e in estimator])
    if not hasattr(estimator, "get_params") or isinstance(estimator, type):
        if not safe:
            return copy.deepcopy(estimator)
        raise TypeError("Cannot clone object '%s' (type %s)" % (repr(estimator), type(estimator)))
    klass = estimator.__class__
    params = estimator.get_params(deep=False)
    params = {k: clone(v, safe=False) for k, v in params.items()}
    new = klass(**params)
    got = new.get_params(deep=False)
    for name in params:
        if params[name] is not got[name]:
            raise RuntimeError("Cannot clone object %s, as the constructor either does not set or modifies parameter %s" % (
                estimator, name))
    return new


class BaseEstimator(object):
    @classmethod
    def _get_param_names(cls):
        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
        if init is object.__init__:
            return []
        sig = inspect.signature(init)
        ps = [p for p in sig.parameters.values() if p.name != "self" and p.kind != p.VAR_KEYWORD]
        for p in ps:
            if p.kind == p.VAR_POSITIONAL:
                raise RuntimeError("scikit-learn estimators should always specify their parameters in the signature")
        return sorted(p.name for p in ps)

    def get_params(self, deep=True):
        out = {}
        for key in self._get_param_names():
            value = getattr(self, key)
            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                out.update((key + "__" + k, v) for k, v in value.get_params().items())
            out[key] = value
        return out

    def set_params(self, **params):
        if not params:
            return self
        valid = self.get_params(deep=True)
        nested = {}
        for key, value in params.items():
            key, delim, sub = key.partition("__")
            if key not in valid:
                raise ValueError("Invalid parameter %r for estimator %s." % (key, self))
            if delim:
                nested.setdefault(key, {})[sub] = value
            else:
                setattr(self, key, value)
                valid[key] = value
        for key, sub in nested.items():
            valid[key].set_params(**sub)
        return self

    def __repr__(self, N_CHAR_MAX=700):
        return "%s()" % type(self).__name__

    def _more_tags(self):
        return {}


class TransformerMixin(object):
    def fit_transform(self, X, y=None, **fit_params):
        if y is None:
            return self.fit(X, **fit_params).transform(X)
        return self.fit(X, y, **fit_params).transform(X)


class ClassifierMixin(object):
    _estimator_type = "classifier"

    def score(self, X, y, sample_weight=None):
        from .metrics import accuracy_score
        return accuracy_score(y, self.predict(X))


class RegressorMixin(object):
    _estimator_type = "regressor"
