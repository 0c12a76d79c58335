"""Connectives that work on plain bools and on symbolic ones (no forking).

No z3 import unless a symbolic value shows up, so replays run in any Python."""


def _sym(xs):
    return any(type(x).__name__ == 'SymBool' for x in xs)


def _connect(op, xs):
    import z3
    from . import engine as E
    k = (op,) + tuple(x.i if type(x) is E.SymBool else bool(x) for x in xs)
    r = E._memo.get(k)
    if r is None:
        es = [x.e if type(x) is E.SymBool else z3.BoolVal(bool(x)) for x in xs]
        r = E._memo[k] = E.mk_bool(z3.And(es) if op == 'and' else z3.Or(es))
    return r


def AND(*xs):
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    if _sym(xs):
        return _connect('and', xs)
    return all(xs)


def OR(*xs):
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    if _sym(xs):
        return _connect('or', xs)
    return any(xs)


def NOT(x):
    if _sym([x]):
        from . import engine as E
        return E.sx_not(x)
    return not x


def IMPLIES(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def ITE(c, a, b):
    """Conditional integer / element value."""
    if not _sym([c]):
        return a if c else b
    import z3
    from . import engine as E
    if a is b:
        return a
    k = ('ite', c.i, E.operand_key(a), E.operand_key(b))
    r = E._memo.get(k, E)
    if r is E:
        if E._int(a) is not None and E._int(b) is not None:
            r = E.mk_int(z3.If(c.e, E._int(a), E._int(b)))
        else:
            x, y = E.Val.code(a), E.Val.code(b)
            if x is None or y is None:      # no term for this kind of object: fork
                return a if c else b
            r = E.mk_val(z3.If(c.e, x, y))
        E._memo[k] = r
    return r


def SELECT(items, i, default=None):
    """items[i] without forking, for 0 <= i < len(items)."""
    if type(i) is int:
        return items[i]
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = ITE(i == j, items[j], r)
    return r


def EQ(a, b):
    """Deep equality of tuples/lists/scalars, without forking."""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
            return False
        if len(a) != len(b):
            return False
        return AND(*[EQ(x, y) for x, y in zip(a, b)])
    r = a == b
    return r if type(r) is bool or type(r).__name__ == 'SymBool' else bool(r)
