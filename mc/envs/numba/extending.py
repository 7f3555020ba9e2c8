OVERLOADS = []


def overload(target, *a, **k):
    def deco(f):
        OVERLOADS.append((target, f))
        return f
    return deco


def register_jitable(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def overload_method(*a, **k):
    return lambda f: f


overload_attribute = overload_method
intrinsic = register_jitable
