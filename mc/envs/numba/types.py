class _T(object):
    pass


class Optional(_T):
    def __init__(self, t):
        self.type = t


class Integer(_T):
    pass


class NoneType(_T):
    pass


class Boolean(_T):
    pass


class Float(_T):
    pass


class Array(_T):
    def __init__(self, ndim):
        self.ndim = ndim


class IntegerLiteral(Integer):
    pass


none = NoneType()
import numpy as _np
int64 = _np.int64
float64 = _np.float64
boolean = _np.bool_
