import numpy as np


def periodogram(x, fs=1.0, window="boxcar", nfft=None, detrend="constant", **k):
    raise NotImplementedError
