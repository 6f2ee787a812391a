"""Declaring harnesses."""


class Harness:
    def __init__(self, fn, name, quick, thorough, path_timeout, needs, weight):
        self.fn, self.name = fn, name
        self.params = {'quick': quick, 'thorough': thorough if thorough is not None else quick}
        self.path_timeout = path_timeout
        self.needs = needs
        self.weight = weight


class Registry(list):
    def __call__(self, quick=None, thorough=None, name=None, path_timeout=30,
                 needs=('end',), weight=1.0):
        """quick/thorough: list of parameter dicts, one exploration each."""
        def dec(fn):
            self.append(Harness(fn, name or fn.__name__, quick or [{}], thorough,
                                path_timeout, needs, weight))
            return fn
        return dec
