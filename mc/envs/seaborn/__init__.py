from matplotlib.pyplot import LOG, _cp, Rec


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    def call(*a, **k):
        LOG.append(("sns", name, _cp(a), {q: _cp(v) for q, v in k.items()}))
        return Rec("sns." + name)
    return call
