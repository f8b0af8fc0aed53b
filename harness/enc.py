"""Encoding of floating-point data as the exact rationals of RatPure.tla."""
import functools
import math

import numpy as np

NAN = [2, [], []]


def limbs(a):
    out = []
    while a:
        out.append(a & 32767)
        a >>= 15
    return out


@functools.lru_cache(maxsize=200000)
def _rat(x):
    if not math.isfinite(x):
        return NAN
    n, d = x.as_integer_ratio()
    if n == 0:
        return [0, [], [1]]
    return [1 if n > 0 else -1, limbs(abs(n)), limbs(d)]


def rat(x):
    return _rat(float(x))


def ratio(n, d=1):
    """Exact rational of two Python integers."""
    g = math.gcd(n, d)
    n, d = n // g, d // g
    if n == 0:
        return [0, [], [1]]
    return [1 if n > 0 else -1, limbs(abs(n)), limbs(d)]


def enc(a):
    """Nested lists of rationals for an array of any shape."""
    a = np.asarray(a)
    if a.ndim == 0:
        return rat(a)
    return [enc(x) for x in a]


def unrat(r):
    """float value of an encoded rational (exact for the dyadic ones used)."""
    s, n, d = r
    if s == 2:
        return float("nan")
    v = lambda l: sum(x << (15 * i) for i, x in enumerate(l))
    return s * v(n) / v(d)


def dec(a):
    """Inverse of enc for regular nested lists."""
    if len(a) == 3 and isinstance(a[0], int):
        return unrat(a)
    return [dec(x) for x in a]
