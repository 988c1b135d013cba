"""helpers shared by the semantic property modules"""
import numpy as np
from sx.core import Semantic


def pick(tier, small, usual, deep):
    """bounds of a run: check.py asks for "small" (quick runs of the slowest properties), "usual" or "deep" (thorough runs)"""
    return {"quick": small, "thorough": usual, "deep": deep}[tier]


def total(xs):
    xs = np.asarray(xs).reshape(-1)
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def dotp(a, b):
    return total(np.asarray(a).reshape(-1) * np.asarray(b).reshape(-1))


def flat(x):
    return np.asarray(x).reshape(-1)


def mk(name, fn, **kw):
    return Semantic(name, fn, **kw)


def counted():
    """segment lists: every subset counted, in order and not"""
    import itertools

    for names in (("x",), ("a", "b"), ("a", "b", "c")):
        yield names, None
        for k in range(len(names) + 1):
            for cnt in itertools.combinations(names, k):
                yield names, cnt
    for cnt in (None, ("b", "c"), ("a", "b", "c"), ("a", "d"), ("d", "b")):
        yield ("a", "b", "c", "d"), cnt
    yield ("climb", "cruise", "climb2"), ("climb2", "cruise")
