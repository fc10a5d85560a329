"""Three-valued conditions for concrete runs: a comparison too close to call in floating point is None."""
import numpy as np


def t_not(a):
    return None if a is None else (not a)


def t_and(xs):
    r = True
    for x in xs:
        if x is None:
            r = None
        elif not x:
            return False
    return r


def t_or(xs):
    r = False
    for x in xs:
        if x is None:
            r = None
        elif x:
            return True
    return r


def fl(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError("scalar expected")
        x = x.ravel()[0]
    return float(x)
