"""Loads /repo's Python sources for symbolic execution.

The sources are read from /repo's working tree on every run, their AST gets a
thin instrumentation (below), and the result runs in CPython.  Only points
where CPython would insist on a concrete ``int`` are redirected:

  isinstance(x, T) type(x) int(x) len(x) range(..)    know the proxy types
  x[i], x[i] = v   with symbolic i on a list/tuple     if-then-else over items
  i in range(..)   with symbolic i                     arithmetic
  s.indices(n)     on a slice                          Python rendering of it
  x[i] op= v       with symbolic i                     as x[i] = x[i] op v
  x is y           on element values                   equality
  'text' % x                                           a placeholder for x
  math, operator   gcd, isqrt, index, ...              Python renderings

Everything else (any other C function) calls __index__ on a proxy, which forks
over all feasible values, so an unanticipated construct costs paths, not
soundness.
"""
import ast
import os
import re
import sys
import types
import warnings
import z3
from . import engine as E

warnings.simplefilter('ignore', SyntaxWarning)     # of the sources under test

REPO = os.environ.get('GCS_REPO', '/repo')
PREFIX = 'sx_'
TOP = ('gcs', 'gcs_basics')
SHIMMED = ('math', 'operator')

_code = {}         # module name -> (code, is_package)
functions_run = set()


def find_source(name):
    """name: real dotted module name; returns (path, is_package) or None."""
    base = os.path.join(REPO, *name.split('.'))
    p = os.path.join(base, '__init__.py')
    if os.path.isfile(p):
        return p, True
    if os.path.isfile(base + '.py'):
        return base + '.py', False
    return None


class Transform(ast.NodeTransformer):
    CALLS = {'isinstance': '__sx_isinstance__', 'int': '__sx_int__', 'len': '__sx_len__',
             'range': '__sx_range__'}

    def __init__(self):
        self.stack = []

    def _call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        hook = ast.Expr(self._call('__sx_enter__', ast.Constant(qual)))
        at = 1 if (node.body and isinstance(node.body[0], ast.Expr)
                   and isinstance(node.body[0].value, ast.Constant)) else 0
        node.body.insert(at, hook)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in self.CALLS:
                f.id = self.CALLS[f.id]
            elif f.id == 'type' and len(node.args) == 1 and not node.keywords:
                f.id = '__sx_type__'
        elif (isinstance(f, ast.Attribute) and f.attr == 'indices'
              and len(node.args) == 1 and not node.keywords):
            return self._call('__sx_indices__', f.value, node.args[0])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._call('__sx_get__', node.value, self._index(node.slice))
        return node

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return self._call('slice', s.lower or none, s.upper or none, s.step or none)
        if isinstance(s, ast.Tuple):
            s.elts = [self._index(e) if isinstance(e, ast.Slice) else e for e in s.elts]
        return s

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(self._call('__sx_set__', self.visit(node.value), self.visit(t.value),
                                       self._index(self.visit(t.slice))))
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Subscript):
            return ast.Expr(self._call('__sx_aug__', t.value, self._index(t.slice), ast.Constant(
                type(node.op).__name__), node.value))
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('__sx_mod__', node.left, node.right)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            for yes, no, helper in ((ast.In, ast.NotIn, '__sx_in__'),
                                    (ast.Is, ast.IsNot, '__sx_is__')):
                if isinstance(node.ops[0], (yes, no)):
                    c = self._call(helper, node.left, node.comparators[0])
                    return c if isinstance(node.ops[0], yes) else ast.UnaryOp(ast.Not(), c)
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            top = a.name.split('.')[0]
            if top not in TOP:
                if a.name in SHIMMED:
                    a = ast.alias('sx.shim_' + a.name, a.asname or a.name)
                out.append(ast.Import([a]))
            elif a.asname:
                out.append(ast.Import([ast.alias(PREFIX + a.name, a.asname)]))
            else:
                if a.name != top:
                    out.append(ast.Import([ast.alias(PREFIX + a.name, '__sx_module__')]))
                out.append(ast.Import([ast.alias(PREFIX + top, top)]))
        return out

    def visit_ImportFrom(self, node):
        if not node.level and node.module:
            if node.module.split('.')[0] in TOP:
                node.module = PREFIX + node.module
            elif node.module in SHIMMED:
                node.module = 'sx.shim_' + node.module
        return node


# runtime helpers ------------------------------------------------------------

def _flat(t):
    if isinstance(t, tuple):
        for u in t:
            yield from _flat(u)
    elif isinstance(t, types.UnionType):
        yield from _flat(t.__args__)
    else:
        yield t


def sx_isinstance(x, t):
    k = type(x)
    if k is E.SymInt:
        return any(issubclass(int, u) for u in _flat(t))
    if k is E.SymBool:
        return any(issubclass(bool, u) for u in _flat(t))
    if k is E.Val:
        # an integer or None: decided by a fork when the answer differs
        a = any(issubclass(int, u) for u in _flat(t))
        b = any(issubclass(type(None), u) for u in _flat(t))
        if a == b:
            return a
        return E.ENG.branch(x.e == E.NONE_CODE) == b
    if k is SymRange:
        return any(issubclass(range, u) for u in _flat(t))
    return isinstance(x, t)


def sx_type(x):
    k = type(x)
    if k is E.SymInt:
        return int
    if k is E.SymBool:
        return bool
    if k is SymRange:
        return range
    if k is E.SymFrac:
        return float
    if k is E.Val:
        return type(None) if E.ENG.branch(x.e == E.NONE_CODE) else int
    return k


def sx_int(*args):
    if len(args) == 1:
        if type(args[0]) is E.SymInt:
            return args[0]
        if type(args[0]) is E.SymBool:
            return E.mk_int(E._int(args[0]))
        if type(args[0]) is E.SymFrac:
            return args[0].__trunc__()
        if type(args[0]) is str and args[0].strip() in E._numbers:
            return E._numbers[args[0].strip()]
    return int(*args)


def sx_len(x):
    f = getattr(type(x), '__sx_len__', None)
    if f is not None:
        return f(x)
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):       # user class: may return a SymInt
        return f(x)
    return len(x)


def symbolic(x):
    return type(x) is E.SymInt or type(x) is E.SymBool


class SymRange:
    """range(start, stop, step) over symbolic integers."""

    def __init__(self, *args):
        if len(args) == 1:
            args = (0,) + args
        self.start, self.stop = args[:2]
        self.step = args[2] if len(args) > 2 else 1
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')

    __class__ = property(lambda self: range)

    def _conc(self):
        return range(self.start.__index__(), self.stop.__index__(), self.step.__index__())

    def __iter__(self): return iter(self._conc())
    def __len__(self): return self.__sx_len__().__index__()
    def __bool__(self): return bool(self.__sx_len__() > 0)

    def __sx_len__(self):
        d, step = self.stop - self.start, self.step
        if step < 0:
            d, step = -d, -step
        if not d > 0:
            return 0
        return d if type(step) is int and step == 1 else (d + (step - 1)) // step

    def __getitem__(self, i):
        n = self.__sx_len__()
        if isinstance(i, slice):
            start, stop, step = py_indices(i, n)
            return SymRange(self.start + start * self.step, self.start + stop * self.step,
                            self.step * step)
        return self.start + _position(i, n) * self.step

    def __reversed__(self): return iter(self[::-1])

    def __eq__(self, o):
        if type(o) not in (range, SymRange):
            return NotImplemented
        n, m = self.__sx_len__(), sx_len(o)
        if not n == m:
            return False
        return bool(n == 0) or (bool(self.start == o.start)
                                and (bool(n == 1) or bool(self.step == o.step)))

    def __hash__(self): return hash(self._conc())

    def __contains__(self, x):
        if type(x) is not int and not symbolic(x):
            return False
        lo, hi, step = self.start, self.stop, self.step
        if step > 0:
            if not (lo <= x and x < hi):
                return False
        elif not (hi < x and x <= lo):
            return False
        return bool((x - lo) % step == 0)

    def index(self, x):
        if x not in self:
            raise ValueError('not in range')
        return (x - self.start) // self.step

    def count(self, x): return int(x in self)
    def __repr__(self): return '<symrange>'


def sx_range(*args):
    if any(map(symbolic, args)):
        return SymRange(*args)
    return range(*args)


def sx_in(x, c):
    if symbolic(x) and type(c) is range:
        return x in SymRange(c.start, c.stop, c.step)
    return x in c


_PROXY = (E.SymInt, E.SymBool, E.Val)


def sx_is(a, b):
    """Identity.  None and equal integers in -5..256 are identical; two equal integers beyond
    that may or may not be the same object."""
    if type(a) in _PROXY or type(b) in _PROXY:
        if a is b:
            return True
        if all(type(x) in _PROXY or type(x) in (int, bool, type(None)) for x in (a, b)):
            if E.Val not in (type(a), type(b)) and (a is None or b is None):
                return False
            x, y = E.Val.code(a), E.Val.code(b)
            if not E.ENG.branch(x == y):
                return False
            if E.ENG.branch(z3.Or(x == E.NONE_CODE, z3.And(x >= -5, x <= 256))):
                return True
            return E.ENG.branch(E.ENG.fresh('same') == 0)
        return False
    return a is b


def sx_aug(obj, idx, op, value):
    import operator
    f = {'Add': 'iadd', 'Sub': 'isub', 'Mult': 'imul', 'Div': 'itruediv', 'Mod': 'imod',
         'FloorDiv': 'ifloordiv', 'Pow': 'ipow', 'LShift': 'ilshift', 'RShift': 'irshift',
         'BitOr': 'ior', 'BitXor': 'ixor', 'BitAnd': 'iand', 'MatMult': 'imatmul'}[op]
    sx_set(getattr(operator, f)(sx_get(obj, idx), value), obj, idx)


def sx_mod(a, b):
    if type(a) is str and any(type(x) in _PROXY for x in (b if type(b) is tuple else (b,))):
        a = re.sub(r'%(\(\w+\))?[-+ #0-9.]*[diouxXeEfFgGs]', r'%\1s', a)
    return a % b


def _position(idx, n):
    """Non-negative symbolic position, Python semantics."""
    if idx >= 0:
        if idx < n:
            return idx
    elif idx >= -n:
        return idx + n
    raise IndexError('index out of range')


FORK = object()


def ite_items(idx, items):
    """items[idx] for 0 <= idx < len(items), or FORK when one term cannot hold it."""
    k = ('items', idx.i) + tuple(map(E.operand_key, items)) if len(items) < 64 and all(
        type(v) in _SCALARS for v in items) else None
    if k is not None and k in E._memo:
        return E._memo[k]
    r = _ite_items(idx, items)
    if k is not None:
        E._memo[k] = r
    return r


_SCALARS = (int, bool, type(None), E.SymInt, E.Val, E.SymBool)


def _ite_items(idx, items):
    if items and all(E._int(v) is not None for v in items):
        conv, mk = E._int, E.mk_int
    elif any(type(v) is E.Val for v in items) and all(E.Val.code(v) is not None for v in items):
        conv, mk = E.Val.code, E.mk_val
    else:
        return FORK
    e = conv(items[-1])
    for j in range(len(items) - 2, -1, -1):
        e = z3.If(idx.e == j, conv(items[j]), e)
    return mk(e)


def sx_get(obj, idx):
    if type(idx) is E.SymInt and type(obj) in (list, tuple):
        pos = _position(idx, len(obj))
        if type(pos) is E.SymInt:
            r = ite_items(pos, obj)
            if r is not FORK:
                return r
        return obj[pos]
    if type(idx) is slice and type(obj) in (list, tuple, range, str) and any(
            map(symbolic, (idx.start, idx.stop, idx.step))):
        if type(obj) is range:
            return SymRange(obj.start, obj.stop, obj.step)[idx]
        idx = conc_slice(idx, len(obj))
    elif type(idx) is E.SymInt and type(obj) is range:
        return SymRange(obj.start, obj.stop, obj.step)[idx]
    return obj[idx]


def conc_slice(s, n):
    """A slice with concrete bounds that selects the same of n items."""
    start, stop, step = (x.__index__() for x in py_indices(s, n))
    return slice(start, None if stop < 0 else stop, step) if start >= 0 else slice(0, 0, 1)


def sx_set(value, obj, idx):
    if type(idx) is E.SymInt and type(obj) is list:
        pos = _position(idx, len(obj))
        if type(pos) is E.SymInt:
            new = []
            for j, old in enumerate(obj):
                if value is old:
                    new.append(old)
                elif E._int(value) is not None and E._int(old) is not None:
                    new.append(E.mk_int(z3.If(pos.e == j, E._int(value), E._int(old))))
                elif E.Val.code(value) is not None and E.Val.code(old) is not None:
                    new.append(E.mk_val(z3.If(pos.e == j, E.Val.code(value), E.Val.code(old))))
                else:
                    obj[pos] = value
                    return
            obj[:] = new
            return
        idx = pos
    elif type(idx) is slice and type(obj) is list and any(
            map(symbolic, (idx.start, idx.stop, idx.step))):
        start, stop, step = (x.__index__() for x in py_indices(idx, len(obj)))
        idx = conc_slice(idx, len(obj)) if step != 1 else slice(start, max(start, stop))
    obj[idx] = value


def sx_indices(obj, n):
    if isinstance(obj, slice):
        if any(map(symbolic, (obj.start, obj.stop, obj.step, n))):
            return py_indices(obj, n)
    return obj.indices(n)


def py_indices(s, n):
    step = 1 if s.step is None else s.step
    if step == 0:
        raise ValueError('slice step cannot be zero')
    if n < 0:
        raise ValueError('length should not be negative')
    lower, upper = (0, n) if step > 0 else (-1, n - 1)

    def clip(v, default):
        if v is None:
            return default
        if v < 0:
            v = v + n
            return lower if v < lower else v
        return upper if v > upper else v
    return (clip(s.start, lower if step > 0 else upper),
            clip(s.stop, upper if step > 0 else lower), step)


HELPERS = {
    '__sx_isinstance__': sx_isinstance, '__sx_type__': sx_type, '__sx_int__': sx_int,
    '__sx_len__': sx_len, '__sx_range__': sx_range, '__sx_in__': sx_in, '__sx_get__': sx_get,
    '__sx_set__': sx_set, '__sx_indices__': sx_indices, '__sx_is__': sx_is, '__sx_aug__': sx_aug,
    '__sx_mod__': sx_mod,
}


def compiled(name):
    if name not in _code:
        found = find_source(name)
        if found is None:
            raise ImportError(name)
        path, pkg = found
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        tree = ast.fix_missing_locations(Transform().visit(tree))
        _code[name] = compile(tree, path, 'exec', dont_inherit=True), pkg
    return _code[name]


class Finder:
    """Imports sx_gcs..., sx_gcs_basics from /repo's sources, instrumented."""

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split('.')[0] not in tuple(PREFIX + t for t in TOP):
            return None
        import importlib.machinery
        name = fullname[len(PREFIX):]
        if name != 'gcs._version' and find_source(name) is None:
            return None
        pkg = name != 'gcs._version' and find_source(name)[1]
        return importlib.machinery.ModuleSpec(fullname, self, is_package=pkg)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__[len(PREFIX):]
        if name == 'gcs._version':      # runs git at import: irrelevant to these properties
            module.get_versions = lambda: {'version': '0+stub'}
            return
        instrument(module, name)


_finder = Finder()


def load_symbolic():
    """Fresh instrumented modules (fresh, so no state survives between paths)."""
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    for k in [k for k in sys.modules if k.split('.')[0] in ('sx_gcs', 'sx_gcs_basics')]:
        del sys.modules[k]
    import importlib
    return Modules(importlib.import_module)


def load_alone(name):
    """A module without its package (whose import gets a stand-in for gcs._version)."""
    m = types.ModuleType(PREFIX + name)
    m.__file__ = find_source(name)[0]
    instrument(m, name)
    return m


def instrument(module, name):
    code, _ = compiled(name)
    module.__dict__.update(HELPERS)

    def enter(qual, name=name):
        functions_run.add(name + ':' + qual)
    module.__dict__['__sx_enter__'] = enter
    exec(code, module.__dict__)


class Modules:
    """Lazy module access: M.storage, M.slice_tools, M.basics."""
    NAMES = {'storage': 'gcs.storage', 'slice_tools': 'gcs.slice_tools', 'basics': 'gcs_basics',
             'version': 'gcs._version', 'versioneer': 'versioneer'}
    ALONE = ('version', 'versioneer')

    def __init__(self, imp, prefix=PREFIX):
        self._imp, self._prefix = imp, prefix

    def __getattr__(self, n):
        name = self.NAMES[n]
        m = load_alone(name) if n in self.ALONE else self._imp(self._prefix + name)
        setattr(self, n, m)
        return m
