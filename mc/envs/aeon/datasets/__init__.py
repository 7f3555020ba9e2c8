"""The archive: rt.archive(name, split) answers."""
from mc import rt


def load_classification(name, split=None, extract_path=None, return_metadata=True, **k):
    X, y = rt.archive(name, split)
    return (X, y, {}) if return_metadata else (X, y)
