def use(*a, **k):
    pass


rcParams = {}
