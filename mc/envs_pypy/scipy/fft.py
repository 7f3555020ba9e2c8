def fht(*a, **k):
    raise NotImplementedError


def fhtoffset(*a, **k):
    raise NotImplementedError
