"""Stand-in for the isinstance tests of checks_utils under CPython (the checks that need data frames run on PyPy with the
real pandas)."""


class DataFrame(object):
    def __init__(self, *a, **k):
        raise NotImplementedError("no pandas here")


class Series(object):
    def __init__(self, *a, **k):
        raise NotImplementedError("no pandas here")
