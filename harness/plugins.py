"""Filter plugins used by the generated configurations."""


class Swap:
    def __call__(self, values):
        return list(reversed(values))


class Add:
    def __init__(self, n=1):
        self.n = n

    def __call__(self, values):
        return [v + self.n if isinstance(v, int) else v for v in values]


class Mark:
    def __call__(self, values):
        return ["m" + str(v) for v in values]


class Boom:
    def __call__(self, values):
        raise RuntimeError("filter failed")
