# -*- coding: utf-8 -*-
"""Environment model of joblib.Parallel.  rt.joblib_runner, when set, executes the tasks (under a controlled scheduler);
otherwise tasks run in order.  Results always come back in submission order, as joblib guarantees."""
from mc import rt


def cpu_count():
    import os
    return os.cpu_count()


def delayed(function):
    def f(*a, **k):
        return function, a, k
    return f


class Parallel(object):
    def __init__(self, n_jobs=None, backend=None, prefer=None, require=None, **kw):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        self.n_jobs, self.prefer, self.require = n_jobs, prefer, require

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __call__(self, iterable):
        tasks = list(iterable)
        if rt.joblib_runner is not None:
            return rt.joblib_runner(tasks, self.n_jobs)
        return [f(*a, **k) for f, a, k in tasks]
