import numpy as np


def softmax(X, copy=True):
    X = np.array(X, dtype=float, copy=True)
    m = np.max(X, axis=1).reshape((-1, 1))
    X -= m
    np.exp(X, X)
    X /= np.sum(X, axis=1).reshape((-1, 1))
    return X


def row_norms(X, squared=False):
    n = (np.asarray(X) ** 2).sum(axis=1)
    return n if squared else np.sqrt(n)
