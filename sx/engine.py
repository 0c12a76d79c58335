"""Path-exhaustive symbolic execution of real Python code over z3.

The code under test (see loader.py) runs in CPython on proxy values:
``SymInt`` (a mathematical integer term), ``SymBool`` (a formula) and ``Val``
(an opaque element value: an integer or None).  A branch on a symbolic
condition asks the solver which outcomes are feasible and forks; the
exploration is exhaustive (depth first, by re-execution), so when it
completes, every input within the stated bounds lies on an explored path and
every assertion was decided by the solver for all inputs of its path.
"""
import time
import z3

NONE_CODE = -(10 ** 9)      # integer code of None inside Val terms


class Stop(BaseException):
    """Ends the current path (infeasible assumption)."""


class EngineLimit(BaseException):
    """The engine cannot decide: inconclusive, never success."""


class Violation(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


ENG = None     # the engine that is executing


def _int(x):
    """z3 term of an int-like object, or None."""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is int:
        return z3.IntVal(x)
    if t is bool:
        return z3.IntVal(int(x))
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return None


_simp = {}      # ast id -> (ast, simplified proxy or constant): keeps the ast alive
_intern = {}    # ast id of a simplified integer term -> SymInt
_internb = {}
_memo = {}      # (operation, operand keys) -> result
_texts = {}     # ast id -> digits that stand for the decimal text of the integer
_numbers = {}   # those digits -> SymInt


def reset_memo():
    for d in (_simp, _intern, _internb, _memo, _texts, _numbers):
        d.clear()


def mk_int(e):
    hit = _simp.get(e.get_id())
    if hit is not None:
        return hit[1]
    s = z3.simplify(e)
    if z3.is_int_value(s):
        r = s.as_long()
    else:
        i = s.get_id()
        r = _intern.get(i)
        if r is None:
            r = _intern[i] = SymInt(s)
        _simp[i] = (s, r)
    _simp[e.get_id()] = (e, r)
    return r


def mk_bool(e):
    hit = _simp.get(e.get_id())
    if hit is not None:
        return hit[1]
    s = z3.simplify(e)
    if z3.is_true(s):
        r = True
    elif z3.is_false(s):
        r = False
    else:
        i = s.get_id()
        r = _internb.get(i)
        if r is None:
            r = _internb[i] = SymBool(s)
        _simp[i] = (s, r)
    _simp[e.get_id()] = (e, r)
    return r


def text(x):
    """Decimal text of a non-negative integer: for a symbolic one, digits that int() turns
    back into it, and that formatting it gives again."""
    if type(x) is not SymInt:
        return str(x)
    t = _texts.get(x.i)
    if t is None:
        t = _texts[x.i] = str(731 * 10 ** 9 + len(_texts))
        _numbers[t] = x
    return t


def operand_key(x):
    """Hashable identity of an operand in a memo key."""
    t = type(x)
    return (t, x.i) if t is SymInt or t is Val or t is SymBool else (t, x)


def memoized(fn):
    """Binary operation on proxies: the same operands give the same result object
    (re-execution then costs a dictionary lookup instead of term construction)."""
    name = fn.__name__

    def op(self, o):
        t = type(o)
        if t is int or t is bool:
            key = (name, self.i, o, 0)
        elif t is SymInt or t is SymBool or t is Val:
            key = (name, self.i, o.i, 1)
        else:
            return fn(self, o)
        r = _memo.get(key)
        if r is None:
            r = _memo[key] = fn(self, o)
        return r
    op.__name__ = name
    return op


class SymBool:
    __slots__ = ('e', 'i')

    def __init__(self, e):
        self.e = e
        self.i = e.get_id()

    def __bool__(self):
        return ENG.branch_on(self)

    def _b(self, other):
        if type(other) is bool:
            return z3.BoolVal(other)
        if type(other) is SymBool:
            return other.e
        return None

    def __and__(self, other):
        o = self._b(other)
        if o is None:
            return mk_int(_int(self)) & other
        return mk_bool(z3.And(self.e, o))
    __rand__ = __and__

    def __or__(self, other):
        o = self._b(other)
        if o is None:
            return mk_int(_int(self)) | other
        return mk_bool(z3.Or(self.e, o))
    __ror__ = __or__

    def __xor__(self, other):
        o = self._b(other)
        if o is None:
            return NotImplemented
        return mk_bool(z3.Xor(self.e, o))
    __rxor__ = __xor__

    def __invert__(self):
        return -mk_int(_int(self)) - 1

    def __eq__(self, other):
        o = self._b(other)
        if o is not None:
            return mk_bool(self.e == o)
        o = _int(other)
        if o is None:
            return NotImplemented
        return mk_bool(_int(self) == o)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else sx_not(r)

    def __hash__(self):
        return hash(bool(self))

    __class__ = property(lambda self: bool)

    def __index__(self):
        return int(bool(self))
    __int__ = __index__
    __trunc__ = __index__

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self):
        return '<symbool>'

    def _n(self):
        return mk_int(_int(self))

    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    def __rmul__(self, o): return o * self._n()
    def __neg__(self): return -self._n()
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o


def sx_not(x):
    if type(x) is SymBool:
        k = ('not', x.i)
        r = _memo.get(k)
        if r is None:
            r = _memo[k] = mk_bool(z3.Not(x.e))
        return r
    return not x


class SymInt:
    __slots__ = ('e', 'i')

    def __init__(self, e):
        self.e = e
        self.i = e.get_id()

    # arithmetic ---------------------------------------------------------
    @memoized
    def __add__(self, o):
        o = _int(o)
        return NotImplemented if o is None else mk_int(self.e + o)
    __radd__ = __add__

    @memoized
    def __sub__(self, o):
        o = _int(o)
        return NotImplemented if o is None else mk_int(self.e - o)

    @memoized
    def __rsub__(self, o):
        o = _int(o)
        return NotImplemented if o is None else mk_int(o - self.e)

    @memoized
    def __mul__(self, o):
        o = _int(o)
        return NotImplemented if o is None else mk_int(self.e * o)
    __rmul__ = __mul__

    def __neg__(self): return self * -1
    def __pos__(self): return self
    def __invert__(self): return mk_int(-self.e - 1)

    def __abs__(self):
        return -self if self < 0 else self

    def __floordiv__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        o = _int(o)
        return NotImplemented if o is None else divide(o, self.e)[0]

    def __mod__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[1]

    def __rmod__(self, o):
        o = _int(o)
        return NotImplemented if o is None else divide(o, self.e)[1]

    def __divmod__(self, o):
        if type(o) is int and o:
            k = ('divmod', self.i, o)
            r = _memo.get(k)
            if r is None:
                r = _memo[k] = divide(self.e, z3.IntVal(o))
            return r
        o = _int(o)
        return NotImplemented if o is None else divide(self.e, o)

    def __rdivmod__(self, o):
        o = _int(o)
        return NotImplemented if o is None else divide(o, self.e)

    def __pow__(self, n, m=None):
        if type(n) is int and n >= 0 and m is None:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        if m is None:
            return self.__index__() ** n
        return pow(self.__index__(), n, m)

    def __rpow__(self, o): return o ** self.__index__()
    def __truediv__(self, o): return true_divide(self, o)
    def __rtruediv__(self, o): return true_divide(o, self)
    def __lshift__(self, o): return self * (1 << o.__index__())
    def __rshift__(self, o): return self // (1 << o.__index__())
    def __rlshift__(self, o): return o << self.__index__()
    def __rrshift__(self, o): return o >> self.__index__()

    def __and__(self, o):
        if type(o) is int and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        return self.__index__() & o
    __rand__ = __and__

    def __round__(self, n=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __or__(self, o): return self.__index__() | o
    def __ror__(self, o): return o | self.__index__()
    def __xor__(self, o): return self.__index__() ^ o
    def __rxor__(self, o): return o ^ self.__index__()

    # comparison ---------------------------------------------------------
    @memoized
    def __eq__(self, o):
        if type(o) is Val:
            return mk_bool(self.e == o.e)
        o = _int(o)
        return NotImplemented if o is None else mk_bool(self.e == o)

    @memoized
    def __ne__(self, o):
        if type(o) is Val:
            return mk_bool(self.e != o.e)
        o = _int(o)
        return NotImplemented if o is None else mk_bool(self.e != o)

    @memoized
    def __lt__(self, o):
        o = _int(o)
        return NotImplemented if o is None else mk_bool(self.e < o)

    @memoized
    def __le__(self, o):
        o = _int(o)
        return NotImplemented if o is None else mk_bool(self.e <= o)

    @memoized
    def __gt__(self, o):
        o = _int(o)
        return NotImplemented if o is None else mk_bool(self.e > o)

    @memoized
    def __ge__(self, o):
        o = _int(o)
        return NotImplemented if o is None else mk_bool(self.e >= o)

    # conversion: forks over every feasible value ---------------------------
    def __index__(self): return ENG.concretize(self.e)
    __int__ = __index__
    def __trunc__(self): return self
    def __float__(self): return float(self.__index__())
    def __hash__(self): return ENG.hash_of(self)
    def __bool__(self): return bool(self != 0)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return _texts.get(self.i) or '<symint %d>' % self.i
    __str__ = __repr__
    def __format__(self, spec): return repr(self)
    # isinstance(x, int), also inside C code and class patterns
    __class__ = property(lambda self: int)

    # int attributes
    real = property(lambda self: self)
    numerator = property(lambda self: self)
    imag = 0
    denominator = 1
    def conjugate(self): return self
    def bit_length(self): return self.__index__().bit_length()


class Val:
    """Opaque element value: an integer, or None when e == NONE_CODE."""
    __slots__ = ('e', 'i')

    def __init__(self, e):
        self.e = e
        self.i = e.get_id()

    @staticmethod
    def code(x):
        if x is None:
            return z3.IntVal(NONE_CODE)
        if type(x) is Val:
            return x.e
        return _int(x)

    @memoized
    def __eq__(self, o):
        c = Val.code(o)
        return NotImplemented if c is None else mk_bool(self.e == c)

    @memoized
    def __ne__(self, o):
        c = Val.code(o)
        return NotImplemented if c is None else mk_bool(self.e != c)

    # int or NoneType: decided by a fork
    __class__ = property(lambda self: type(None) if ENG.branch(self.e == NONE_CODE) else int)

    def __hash__(self):
        raise EngineLimit('hash of an element value')

    def __bool__(self):
        # None and 0 are false
        return ENG.branch(z3.And(self.e != 0, self.e != NONE_CODE))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return '<val %d>' % self.i
    __str__ = __repr__
    def __format__(self, spec): return repr(self)


FLOAT_EXACT = 1 << 26


def true_divide(a, b):
    """a / b.  Exact for magnitudes below 2**26, where rounding a quotient, or one more
    operation on it, down or up to an integer agrees with exact arithmetic.  For larger
    magnitudes the float is computed for a few chosen operands only, and the exploration
    counts as incomplete."""
    if _int(a) is None or _int(b) is None:
        return NotImplemented
    if b == 0:
        raise ZeroDivisionError('division by zero')
    if b < 0:
        a, b = -a, -b
    if a < FLOAT_EXACT and -a < FLOAT_EXACT and b < FLOAT_EXACT:
        return SymFrac(a, b)
    q, r = divmod(a, b)
    for big, rest in ((1 << 60, b - 1), (1 << 60, 1), (-(1 << 60), b - 1), (-(1 << 60), 1)):
        if ENG.branch(_bool((q > big) if big > 0 else (q < big))) and ENG.branch(
                _bool(r == rest)):
            break
    return ENG.sample(a) / ENG.sample(b)


def _bool(x):
    return x.e if type(x) is SymBool else z3.BoolVal(bool(x))


class SymFrac:
    """A float holding the quotient of two small integers (the divisor positive)."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d

    __class__ = property(lambda self: float)

    def __floor__(self): return self.n // self.d
    def __ceil__(self): return -(-self.n // self.d)
    def __trunc__(self): return self.n // self.d if self.n >= 0 else -(-self.n // self.d)
    def __floordiv__(self, o): return SymFrac((self / o).__floor__(), 1)
    def is_integer(self): return self.n % self.d == 0
    def __neg__(self): return SymFrac(-self.n, self.d)
    def __pos__(self): return self
    def __abs__(self): return SymFrac(abs(self.n), self.d)
    def __bool__(self): return bool(self.n != 0)

    def __round__(self, nd=None):
        if nd is not None:
            return round(self._conc(), nd)
        q, r = divmod(self.n, self.d)
        if 2 * r == self.d:
            return q + q % 2
        return q + 1 if 2 * r > self.d else q

    def _conc(self):
        return _index(self.n) / _index(self.d)

    def __float__(self): return self._conc()
    def __hash__(self): return hash(self._conc())
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return '<symfloat>'
    def __str__(self): return repr(self)
    def __format__(self, spec): return repr(self)

    @staticmethod
    def _pair(o):
        if type(o) is SymFrac:
            return o.n, o.d
        if type(o) is float:
            n, d = o.as_integer_ratio()
            return n, d
        return (o, 1) if _int(o) is not None else None

    def _op(self, o, f):
        p = self._pair(o)
        return NotImplemented if p is None else f(self.n, self.d, *p)

    def __add__(self, o): return self._op(o, lambda a, b, c, d: SymFrac(a * d + c * b, b * d))
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b, c, d: SymFrac(a * d - c * b, b * d))
    def __rsub__(self, o): return self._op(o, lambda a, b, c, d: SymFrac(c * b - a * d, b * d))
    def __mul__(self, o): return self._op(o, lambda a, b, c, d: SymFrac(a * c, b * d))
    __rmul__ = __mul__

    @staticmethod
    def _div(a, b, c, d):
        if c == 0:
            raise ZeroDivisionError('float division by zero')
        return SymFrac(a * d, b * c) if c > 0 else SymFrac(-a * d, -b * c)

    def __truediv__(self, o): return self._op(o, self._div)
    def __rtruediv__(self, o):
        return self._op(o, lambda a, b, c, d: self._div(c, d, a, b))
    def __eq__(self, o): return self._op(o, lambda a, b, c, d: a * d == c * b)
    def __ne__(self, o): return self._op(o, lambda a, b, c, d: a * d != c * b)
    def __lt__(self, o): return self._op(o, lambda a, b, c, d: a * d < c * b)
    def __le__(self, o): return self._op(o, lambda a, b, c, d: a * d <= c * b)
    def __gt__(self, o): return self._op(o, lambda a, b, c, d: a * d > c * b)
    def __ge__(self, o): return self._op(o, lambda a, b, c, d: a * d >= c * b)


def _index(x):
    return x if type(x) is int else x.__index__()


def mk_val(e):
    r = mk_int(e)
    if type(r) is int:
        return None if r == NONE_CODE else r
    v = _memo.get(('val', r.i))
    if v is None:
        v = _memo['val', r.i] = Val(r.e)
    return v


def eq_const(e, v):
    """The formula e == v, for a term e that is not a constant."""
    k = ('eqc', e.get_id(), v)
    r = _memo.get(k)
    if r is None:
        r = mk_bool(e == v)
        if type(r) is bool:         # kept symbolic: the trail needs an entry
            r = SymBool(z3.BoolVal(r))
        _memo[k] = r
    return r


def simp(e):
    """Memoized simplification of a term."""
    i = ('s', e.get_id())
    hit = _memo.get(i)
    if hit is None:
        hit = _memo[i] = (z3.simplify(e), e)
    return hit[0]


def divide(a, b):
    """Python floor division and modulo of z3 terms."""
    a, b = simp(a), simp(b)
    if not z3.is_int_value(b):
        if ENG.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ENG.div_mode == 'enum':
            b = z3.IntVal(ENG.concretize(b))
    if z3.is_int_value(b):
        n = b.as_long()
        if n == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        k = ('div', a.get_id(), n)
        r = _memo.get(k)
        if r is None:
            if n > 0:
                r = mk_int(a / b), mk_int(a % b)
            else:
                r = mk_int((-a) / z3.IntVal(-n)), mk_int(-((-a) % z3.IntVal(-n)))
            _memo[k] = r
        return r
    neg = not ENG.branch(b > 0)
    if neg:
        a, b = simp(-a), simp(-b)
    key = (a.get_id(), b.get_id())
    hit = ENG.div_cache.get(key)
    if hit is None:
        q, r = ENG.fresh('q'), ENG.fresh('r')
        ENG.define(z3.And(a == b * q + r, r >= 0, r < b))
        ENG.div_cache[key] = (q, r, a, b)
    else:
        q, r = hit[:2]
    return SymInt(q), mk_int(-r) if neg else SymInt(r)


class Entry:
    __slots__ = ('cond', 'i', 'taken', 'other', 'payload')

    def __init__(self, cond, taken, other, payload=None):
        self.cond, self.taken, self.other, self.payload = cond, taken, other, payload
        self.i = cond.get_id()


class Engine:
    """Depth-first exhaustive exploration of one harness."""

    def __init__(self, div_mode='enum', timeout_ms=30000, concretize_cap=200,
                 deadline=None, max_paths=None):
        self.div_mode = div_mode
        self.timeout_ms = timeout_ms
        self.cap = concretize_cap
        self.deadline = deadline
        self.max_paths = max_paths
        self.solver = z3.Solver()
        self.quick_ms = 2000
        self.stuck = 0
        self.solver.set('timeout', self.quick_ms)
        self.trail = []
        self.pos = 0
        self.model = None
        self.queries = 0
        self.checks = 0
        self.decisions = 0
        self.solver_s = 0.0
        self.paths = 0
        self.unknown_branches = 0
        self.inputs = {}
        self.nfresh = 0
        self.div_cache = {}
        self.hashes = {}
        self.incomplete = False

    # solver ---------------------------------------------------------------
    def _check(self, *extra):
        self.queries += 1
        t = time.monotonic()
        r = self.solver.check(*extra)
        self.solver_s += time.monotonic() - t
        if r == z3.unknown:
            # the incremental solver can get stuck where a fresh one answers at once
            self.stuck += 1
            self.solver = z3.Solver()
            self.solver.set('timeout', self.quick_ms)
            self.solver.set('random_seed', self.stuck)
            for x in self.trail:
                self.solver.push()
                self.solver.add(x.cond if x.taken else z3.Not(x.cond))
        return r

    def _fresh_check(self, extra):
        """Second attempt in non-incremental solvers, for a query left unknown."""
        nia = lambda: z3.SolverFor('QF_NIA')
        for make, part in ((nia, 8), (z3.SimpleSolver, 2), (nia, 1), (z3.SimpleSolver, 1)):
            self.queries += 1
            t = time.monotonic()
            s = make()
            s.set('timeout', self.timeout_ms // part)
            s.add(self.solver.assertions())
            s.add(extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
            self.solver_s += time.monotonic() - t
            if r != z3.unknown:
                break
        return r, m

    def tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise EngineLimit('time budget exhausted')

    def fresh(self, tag):
        self.nfresh += 1
        return z3.Int('!%s%d' % (tag, self.nfresh))

    def _push(self, e, cond):
        self.decisions += 1
        self.trail.append(e)
        self.pos += 1
        self.solver.push()
        self.solver.add(cond)

    def _replay(self, i):
        e = self.trail[self.pos]
        if e.i != i:
            raise EngineLimit('execution is not deterministic')
        self.pos += 1
        return e

    def define(self, cond):
        """Assert a constraint that holds on this path (no alternative)."""
        if self.pos < len(self.trail):
            self._replay(cond.get_id())
            return
        self._push(Entry(cond, True, False), cond)
        self.model = None

    def assume(self, cond):
        if type(cond) is bool:
            if not cond:
                raise Stop()
            return
        e = cond.e
        if self.pos < len(self.trail):
            self._replay(cond.i)
            return
        r = self._check(e)
        if r == z3.unknown:
            r, _ = self._fresh_check(e)
        if r == z3.unsat:
            raise Stop()
        self._push(Entry(e, True, False), e)
        self.model = None

    def _get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise Stop()
            else:
                r, m = self._fresh_check(z3.BoolVal(True))
                if r == z3.sat:
                    self.model = m
                elif r == z3.unsat:
                    raise Stop()
        return self.model

    def branch(self, cond, payload=None):
        b = mk_bool(cond)
        return b if type(b) is bool else self.branch_on(b, payload)

    def branch_on(self, b, payload=None):
        if self.pos < len(self.trail):
            return self._replay(b.i).taken
        cond = b.e
        self.tick()
        m = self._get_model()
        if m is None:
            # could not decide the path itself: keep both sides (sound)
            self.unknown_branches += 1
            self._push(Entry(cond, True, True, payload), cond)
            return True
        side = z3.is_true(m.eval(cond, model_completion=True))
        here, other = (cond, z3.Not(cond)) if side else (z3.Not(cond), cond)
        r = self._check(other)
        if r == z3.unknown:
            r, _ = self._fresh_check(other)
        feasible = r != z3.unsat
        if r == z3.unknown:
            self.unknown_branches += 1
        self._push(Entry(cond, side, feasible, payload), here)
        return side

    def concretize(self, e):
        e = simp(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            if self.pos < len(self.trail):
                v = self.trail[self.pos].payload
            else:
                m = self._get_model()
                if m is None:
                    raise EngineLimit('no model for a value that must be concrete')
                v = m.eval(e, model_completion=True).as_long()
            if self.branch_on(eq_const(e, v), payload=v):
                return v
            n += 1
            if n > self.cap:
                raise EngineLimit('more than %d values for a loop bound or key' % self.cap)

    def hash_of(self, x):
        """Hash of a dictionary key.  A term with few values forks over them.  A term that can
        be arbitrarily large gets a constant hash, so that keys are told apart by ==.  (Keys
        that are equal on some values but hashed differently - a constant and an unbounded
        term - count as different.)"""
        h = self.hashes.get(x.i)
        if h is not None:
            return h
        if self.pos < len(self.trail) and self.trail[self.pos].payload != 'large':
            return hash(self.concretize(x.e))
        if self.pos < len(self.trail):
            self.pos += 1
        else:
            far = z3.Or(x.e > 1000, x.e < -1000)
            if self._check(far) == z3.unsat:
                return hash(self.concretize(x.e))
            true = z3.BoolVal(True)
            self._push(Entry(true, True, False, 'large'), true)
        h = self.hashes[x.i] = 1000003
        return h

    def sample(self, x):
        """One value of x: its other values stay unexplored."""
        if type(x) is int:
            return x
        self.incomplete = True
        if self.pos < len(self.trail):
            v = self.trail[self.pos].payload
        else:
            m = self._get_model()
            if m is None:
                raise EngineLimit('no model for a value that must be concrete')
            v = m.eval(x.e, model_completion=True).as_long()
        if self.pos < len(self.trail):
            self._replay(eq_const(x.e, v).e.get_id())
        else:
            self._push(Entry(eq_const(x.e, v).e, True, False, v), x.e == v)
            self.model = None
        return v

    def check(self, cond, msg):
        """Property assertion: decided by the solver for all inputs of this path."""
        self.checks += 1
        if type(cond) is bool:
            if cond:
                return
            self._get_model()
            raise Violation(msg)
        if self.pos < len(self.trail):
            return      # decided on an earlier path sharing this prefix
        self.tick()
        neg = simp(z3.Not(cond.e))
        if z3.is_false(neg):
            return
        r = self._check(neg)
        m = None
        if r == z3.sat:
            m = self.solver.model()
        elif r == z3.unknown:
            r, m = self._fresh_check(neg)
        if r == z3.unsat:
            return
        if r == z3.sat:
            self.model = m
            raise Violation(msg)
        raise EngineLimit('solver unknown on assertion: ' + msg)

    def input_values(self):
        m = self._get_model()
        if m is None:
            raise EngineLimit('no model for the path')
        return {k: m.eval(v, model_completion=True).as_long() for k, v in self.inputs.items()}

    # exploration ------------------------------------------------------------
    def start_path(self):
        self.inputs = {}
        self.pos = 0
        self.nfresh = 0
        self.div_cache = {}
        self.hashes = {}
        if not self.trail:
            self.model = None

    def backtrack(self):
        """Flip the last decision with an unexplored side. False when done."""
        while self.trail:
            e = self.trail.pop()
            self.solver.pop()
            if e.other:
                e.taken = not e.taken
                e.other = False
                self.solver.push()
                self.solver.add(e.cond if e.taken else z3.Not(e.cond))
                self.trail.append(e)
                self.model = None
                return True
        return False
