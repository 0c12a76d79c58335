"""math, with the integer functions rendered in Python so that they accept symbolic integers."""
from math import *          # noqa: F401,F403
import math as _math
import functools as _functools
from . import engine as _E


def gcd(*xs):
    if all(type(x) is int for x in xs):
        return _math.gcd(*xs)

    def two(a, b):
        a, b = abs(a), abs(b)
        while b != 0:
            a, b = b, a % b
        return a
    return _functools.reduce(two, xs, 0)


def lcm(*xs):
    if all(type(x) is int for x in xs):
        return _math.lcm(*xs)

    def two(a, b):
        return 0 if a == 0 or b == 0 else abs(a // gcd(a, b) * b)
    return _functools.reduce(two, xs, 1)


def copysign(x, y):
    if type(y) is _E.SymInt:
        y = -1 if y < 0 else 1
    if type(x) is _E.SymInt:
        x = _E.true_divide(x, 1)
        return abs(x) if y > 0 else -abs(x)
    return _math.copysign(x, y)


def fabs(x):
    return abs(_E.true_divide(x, 1)) if type(x) is _E.SymInt else _math.fabs(x)


def fmod(x, y):
    if type(x) is _E.SymInt or type(y) is _E.SymInt:
        q = _E.true_divide(x, y)
        if type(q) is _E.SymFrac:
            return _E.true_divide(x - y * q.__trunc__(), 1)
        return _math.fmod(_E.ENG.sample(x), _E.ENG.sample(y))
    return _math.fmod(x, y)


def isqrt(n):
    return _math.isqrt(n.__index__())
