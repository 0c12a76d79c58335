"""operator, accepting symbolic integers."""
from operator import *      # noqa: F401,F403
import operator as _operator
from . import engine as _E


def index(x):
    if type(x) is _E.SymInt:
        return x
    if type(x) is _E.SymBool:
        return x._n()
    return _operator.index(x)


def getitem(a, b):
    from .loader import sx_get
    return sx_get(a, b)


def contains(a, b):
    from .loader import sx_in
    return sx_in(b, a)


def is_(a, b):
    from .loader import sx_is
    return sx_is(a, b)


def is_not(a, b):
    return not is_(a, b)
