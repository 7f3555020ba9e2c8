# -*- coding: utf-8 -*-
"""Model of numba: njit is the identity (functions run as Python); the outermost prange loop of a parallel=True function
is scheduled by mc.rt.  As in numba: nested prange loops, and prange in functions that are not parallel=True, are
sequential; variables assigned in a parallel loop are private to a thread, except reductions."""
import numpy as _np
from mc import rt as _rt
from mc import parfor as _parfor

__version__ = "0.58.1"

prange = range
float64 = _np.float64
float32 = _np.float32
int64 = _np.int64
int32 = _np.int32
uint64 = _np.uint64
boolean = _np.bool_
COMPILED = []


class config(object):
    NUMBA_NUM_THREADS = _rt.NUMBA_NUM_THREADS
    NUMBA_DEFAULT_NUM_THREADS = _rt.NUMBA_NUM_THREADS


def _decorate(func, options):
    _rt.JIT_CODE.add(getattr(func, "__code__", None))
    if options.get("parallel"):
        func = _parfor.parallel_function(func)
    try:
        func.py_func = getattr(func, "__wrapped__", func)
        func.targetoptions = dict(options, nopython=True)
    except Exception:
        pass
    COMPILED.append((func.__module__, func.__name__, options))
    return func


def njit(*args, **options):
    if len(args) == 1 and callable(args[0]) and not options and not isinstance(args[0], str):
        return _decorate(args[0], {})
    return lambda f: _decorate(f, options)


jit = njit
generated_jit = njit


def vectorize(*args, **options):
    if len(args) == 1 and callable(args[0]):
        return _np.vectorize(args[0])
    return lambda f: _np.vectorize(f)


def set_num_threads(n):
    if not isinstance(n, (int, _np.integer)):
        raise TypeError("The number of threads specified must be an integer")
    if n > _rt.NUMBA_NUM_THREADS or n < 1:
        raise ValueError("The number of threads must be between 1 and {}".format(_rt.NUMBA_NUM_THREADS))
    _rt.num_threads = int(n)
    _rt.num_threads_log.append(int(n))


def get_num_threads():
    return _rt.num_threads if _rt.num_threads is not None else _rt.NUMBA_NUM_THREADS


def literally(x):
    return x


from . import types, extending, typed  # noqa
