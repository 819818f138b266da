"""Shared pieces of the contracts."""
import thetis  # noqa
from pyvc import core, loops, shim, symdate


class OptView:
    """The real options object with symbolic overrides."""
    def __init__(self, base, **over):
        object.__setattr__(self, '_b', base)
        object.__setattr__(self, '_o', dict(over))

    def __getattr__(self, k):
        o = object.__getattribute__(self, '_o')
        if k in o:
            return o[k]
        return getattr(object.__getattribute__(self, '_b'), k)

    def __setattr__(self, k, val):
        self._o[k] = val

    def update(self, d):
        self._o.update(d)


def raises(fn, *a, **k):
    """(exception or None, result)"""
    try:
        return None, fn(*a, **k)
    except (core.PathEnd, core.Unsupported, core.z3.Z3Exception):
        raise
    except Exception as ex:
        return ex, None


def covering(strength=3, **factors):
    """rows (dicts) such that every combination of values of any `strength` factors occurs in one of them"""
    import itertools
    import random
    names = sorted(factors)
    rng = random.Random(1)
    need = {(c, vals) for c in itertools.combinations(range(len(names)), strength)
            for vals in itertools.product(*(range(len(factors[names[i]])) for i in c))}
    rows = []

    def covers(r):
        return {(c, tuple(r[i] for i in c)) for c in itertools.combinations(range(len(names)), strength)}
    while need:
        best, score = None, -1
        seed = min(need)
        for _ in range(30):
            r = [rng.randrange(len(factors[n])) for n in names]
            for i, x in zip(*seed):
                r[i] = x
            k = len(covers(r) & need)
            if k > score:
                best, score = r, k
        need -= covers(best)
        rows.append({n: factors[n][i] for n, i in zip(names, best)})
    return rows
