import numpy as np


def unique_labels(*ys):
    return np.unique(np.concatenate([np.ravel(y) for y in ys]))
