"""Shared pieces of the harnesses: arrays with symbolic content, symbolic indexing, oracles."""
import itertools
from sx.ops import AND, OR, NOT, ITE, IMPLIES, IFF, EQ, SELECT

def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def cstrides(shape):
    return tuple(prod(shape[i + 1:]) for i in range(len(shape)))


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def indices(shape):
    return list(itertools.product(*map(range, shape)))


# slices ---------------------------------------------------------------------

def ref_slice(start, stop, step, size):
    """(first, limit) of Python's slice semantics: positions first + i*step,
    strictly before limit in the direction of step.  step is non-zero."""
    if step > 0:
        lo, hi = 0, size
    else:
        lo, hi = -1, size - 1

    def clip(v):
        v = ITE(v < 0, v + size, v)
        return ITE(v < lo, lo, ITE(v > hi, hi, v))
    first = (lo if step > 0 else hi) if start is None else clip(start)
    limit = (hi if step > 0 else lo) if stop is None else clip(stop)
    return first, limit


def is_count(n, first, limit, step):
    """n is the number of positions first, first+step, ... before limit."""
    length = limit - first if step > 0 else first - limit
    mag = step if step > 0 else -step
    return OR(AND(length <= 0, n == 0),
              AND(length > 0, n >= 1, (n - 1) * mag < length, n * mag >= length))


def axis_index(ctx, name, kind, size=None):
    """The index item of one axis.  kind: 'int'; 'nat' (non-negative int); None;
    (start?, stop?, step): a bound is absent (0), an arbitrary integer (1) or an arbitrary
    one in range(size + 1) ('r'); step is None, a constant, 'pos' or 'neg'; a constant integer;
    ('at', start, stop, step), constants."""
    if kind in ('int', 'nat'):
        return ctx.int('k' + name, 0 if kind == 'nat' else None)
    if kind is None:
        return None
    if type(kind) is int:
        return kind
    if kind[0] == 'at':
        return slice(*kind[1:])
    step = kind[2]
    if step == 'pos':
        step = ctx.int('step' + name, 1)
    elif step == 'neg':
        step = ctx.int('step' + name, None, -1)

    def bound(given, n):
        if not given:
            return None
        return ctx.int(n + name, 0, size) if given == 'r' else ctx.int(n + name)
    return slice(bound(kind[0], 'start'), bound(kind[1], 'stop'), step)


class Axis:
    """One indexed axis: oracle for the mapping from result to source positions."""

    def __init__(self, ctx, item, size):
        self.item, self.size = item, size
        self.kept = not (item is not None and not isinstance(item, slice))
        if not self.kept:
            ctx.assume(AND(-size <= item, item < size))
            self.first = ITE(item < 0, item + size, item)
        elif item is None:
            self.first, self.limit, self.step = 0, size, 1
        else:
            self.step = 1 if item.step is None else item.step
            self.first, self.limit = ref_slice(item.start, item.stop, self.step, size)

    def count_is(self, n):
        return is_count(n, self.first, self.limit, self.step)

    def at(self, i):
        """Source position of result position i."""
        return self.first + i * self.step

    def has(self, i):
        """i is a result position."""
        p = self.at(i)
        return AND(i >= 0, p < self.limit if self.step > 0 else p > self.limit)

    def inverse(self, p):
        """(position p is selected, its position in the result); constant step."""
        d = p - self.first
        ok = p < self.limit if self.step > 0 else p > self.limit
        return AND(d % self.step == 0, d * self.step >= 0, ok), d // self.step


def sym_index(ctx, tag, kinds, shape):
    """Symbolic index and its axes for an array of the given shape."""
    items = [axis_index(ctx, '%s%d' % (tag, k), kind, n)
             for k, (kind, n) in enumerate(zip(kinds, shape))]
    return tuple(items), [Axis(ctx, it, n) for it, n in zip(items, shape)]


def check_shape(ctx, r, axes, msg='shape of the slice is wrong'):
    kept = [a for a in axes if a.kept]
    ctx.check(len(r.shape) == len(kept), 'dimensionality of the slice is wrong')
    ctx.check(AND(*[a.count_is(n) for a, n in zip(kept, r.shape)]), msg)


def pick(ctx, tag, axes):
    """A symbolic result index; returns it and the source index it denotes."""
    ridx, full = [], []
    for k, a in enumerate(axes):
        if a.kept:
            if getattr(ctx, 'listed', False):
                i = (0, 1, 5, 8, 64, 128)[ctx.choose('%s%d' % (tag, k), 6)]
            else:
                i = ctx.int('%s%d' % (tag, k), 0)
            ctx.assume(a.has(i))
            ridx.append(i)
            full.append(a.at(i))
        else:
            full.append(a.first)
    return tuple(ridx), tuple(full)


# arrays with symbolic content -------------------------------------------------
#
# An array is described by a dict:
#   fmt    'Buffer' 'Strided' 'COO' 'FlatCOO' 'CSR' or 'DM'
#   shape  concrete sizes
#   U      value of unspecified elements (None, an int, or 'any': arbitrary)
#   nse    sparse formats: number of specified elements, at arbitrary positions
#   at     sparse formats: number of specified elements, at constant scattered positions
#   rows   CSR: the rows of the specified elements
#   cells  'any' (default): arbitrary values, None included; 'distinct': constants; 'func':
#          constants, in a memory that is a function (large shapes; cannot be copied);
#          'mixed': constants of several types
#   dims, part, data   DM: axis order, cuts, and the description of its storage (no shape)
#   window 'entries': also, the indices of a COO array are stored entry by entry
#   window True: the buffers of the array are windows of larger memories
#   listed True: element indices of the harness are listed ones instead of arbitrary ones
#   strides  of a strided array (default: row-major)
#   view   list of (start, stop, step) or None per axis: the array is this view of a larger one

SPARSE = ('COO', 'FlatCOO', 'CSR')


# elements need not be integers
MIXED = ('ab', 2.5, '', True, -1.5, 10 ** 30, frozenset(), 'None', 0.25, b'x')


def mixed(n):
    return MIXED[n % len(MIXED)]


def nest(shape, f, pre=()):
    if not shape:
        return f(pre)
    return [nest(shape[1:], f, pre + (i,)) for i in range(shape[0])]


def get(seq, index):
    for i in index:
        seq = seq[i]
    return seq


def unravel(n, shape):
    index = ()
    for d in reversed(shape):
        index = (n % d,) + index
        n //= d
    return index


def ravel(index, shape):
    return dot(index, cstrides(shape))


def same(a, b):
    return AND(len(a) == len(b), *[x == y for x, y in zip(a, b)])


def groups_of(dims, part):
    cuts = (0,) + tuple(part) + (len(dims),)
    return tuple(tuple(dims[a:b]) for a, b in zip(cuts, cuts[1:]))


class Ref:
    """Oracle of an array: at(index) is the element, specified(index) whether it is stored."""

    def __init__(self, shape, U, at, specified):
        self.shape, self.U, self.at, self.specified = shape, U, at, specified


def choose_U(ctx, U, tag):
    if U == 'any':
        return ctx.val(tag + 'U')
    return U


def array(ctx, desc, tag=''):
    """The array and its oracle."""
    if desc.get('listed'):
        ctx.listed = True
    U = choose_U(ctx, desc.get('U'), tag)
    return _array(ctx, desc, tuple(desc['shape']), U, tag)


def _array(ctx, desc, shape, U, tag):
    S = ctx.m.storage
    fmt = desc['fmt']
    if desc.get('view'):
        return _viewed(ctx, desc, shape, U, tag)
    if fmt == 'DM':
        dims = desc.get('dims') or tuple(range(len(shape)))
        part = desc.get('part', ())
        gs = groups_of(dims, part)
        gshapes = [tuple(shape[d] for d in g) for g in gs]
        rshape = tuple(prod(g) for g in gshapes)
        data, ref = _array(ctx, desc['data'], rshape, U, tag)
        dm = S.DM(shape, gs, tuple(cstrides(g) for g in gshapes), (0,) * len(gs), data)

        def red(index):
            return tuple(ravel([index[d] for d in g], sh) for g, sh in zip(gs, gshapes))
        return dm, Ref(shape, U, lambda i: ref.at(red(i)), lambda i: ref.specified(red(i)))
    if fmt in SPARSE:
        s, elems = sym_sparse(ctx, fmt, shape, desc.get('nse'), U, tag, desc.get('window'),
                              desc.get('at'), desc.get('rows'), desc.get('cells'))
        return s, Ref(shape, U, lambda i: lookup(elems, i, U),
                      lambda i: OR(*[same(i, j) for j, _ in elems]))
    if desc.get('strides'):
        return _laid_out(ctx, desc, shape, U, tag)
    size = prod(shape)
    if desc.get('cells') == 'func':
        buf = S.Buffer(size, 0, ctx.func(tag + 'mem', size), unspecified=U)
        s = buf if fmt == 'Buffer' else S.Strided(shape, cstrides(shape), buf)
        return s, Ref(shape, U, lambda i: 1000 + ravel(i, shape), lambda i: True)
    if desc.get('cells', 'any') == 'distinct':
        vals = [100 + k for k in range(size)]
    elif desc.get('cells') == 'mixed':
        vals = [mixed(k) for k in range(size)]
    else:
        vals = [ctx.val('%sc%d' % (tag, k)) for k in range(size)]
    mem = list(vals)
    if desc.get('window'):
        buf = S.Buffer(size, 2, [-1, -2] + mem + [-3], unspecified=U)
    else:
        buf = S.Buffer(size, 0, mem, unspecified=U)
    s = buf if fmt == 'Buffer' else S.Strided(shape, cstrides(shape), buf)

    def at(i):
        return SELECT(vals, ravel(i, shape))

    def specified(i):
        return at(i) != U
    return s, Ref(shape, U, at, specified)


def _laid_out(ctx, desc, shape, U, tag):
    """A strided array with the given strides, e.g. column-major or with gaps between rows."""
    S = ctx.m.storage
    strides = tuple(desc['strides'])
    size = 1 + dot(strides, [n - 1 for n in shape]) if all(shape) else 0
    vals = [100 + k if desc.get('cells') == 'distinct' else
            mixed(k) if desc.get('cells') == 'mixed' else ctx.val('%sc%d' % (tag, k))
            for k in range(size)]
    mem = list(vals)
    if desc.get('window'):
        buf = S.Buffer(size, 2, [-1, -2] + mem + [-3], unspecified=U)
    else:
        buf = S.Buffer(size, 0, mem, unspecified=U)

    def at(i):
        return SELECT(vals, dot(i, strides))
    return S.Strided(shape, strides, buf), Ref(shape, U, at, lambda i: at(i) != U)


def _viewed(ctx, desc, shape, U, tag):
    """A view given by constant slices of a larger array."""
    views = desc['view']
    base = {k: v for k, v in desc.items() if k != 'view'}
    s, ref = _array(ctx, base, shape, U, tag)
    ranges = [range(n)[v] if v is not None else range(n)
              for v, n in zip([slice(*v) if isinstance(v, tuple) else v for v in views], shape)]
    items = tuple(slice(*v) if isinstance(v, tuple) else v for v in views)
    keep = [r for r in ranges if isinstance(r, range)]
    v = s[items]

    def full(i):
        i = list(i)
        return tuple(r.start + i.pop(0) * r.step if isinstance(r, range) else r for r in ranges)
    return v, Ref(tuple(map(len, keep)), U, lambda i: ref.at(full(i)),
                  lambda i: ref.specified(full(i)))


def scatter(shape, n):
    """n positions spread irregularly, in increasing order."""
    found, x, total = set(), 5, prod(shape)
    while len(found) < n:
        x = (x * 1103515245 + 12345) % (1 << 31)
        found.add((x >> 8) % total)
    return [tuple(p // t % k for k, t in zip(shape, cstrides(shape))) for p in sorted(found)]


def sym_sparse(ctx, fmt, shape, nse, U=None, tag='', window=False, at=None, rows=None,
               cells=None):
    """An arbitrary valid sparse array with nse specified elements, built from its parts:
    strictly increasing positions, values different from U and None.
    Returns the storage and the list of (index, value)."""
    elems = []
    prev = None
    if at is not None:
        at = scatter(shape, at)
    for e in range(nse if at is None else len(at)):
        if at is not None:
            idx = at[e]
        else:
            idx = tuple(ctx.int('%sx%d_%d' % (tag, e, k), 0, n - 1) for k, n in enumerate(shape))
            if rows is not None:
                ctx.assume(idx[0] == rows[e])
                idx = (rows[e],) + idx[1:]
            elif fmt == 'CSR':
                idx = (ctx.conc(idx[0]),) + idx[1:]
            if prev is not None:
                ctx.assume(ravel(prev, shape) < ravel(idx, shape))
        prev = idx
        if cells == 'mixed':
            v = mixed(e)
        else:
            v = ctx.val('%sv%d' % (tag, e))
            ctx.assume(AND(v != U, v != None))      # noqa: E711
        elems.append((idx, v))
    return make_sparse(ctx.m.storage, fmt, shape, elems, U, window), elems


def make_sparse(S, fmt, shape, elems, U=None, window=False):
    def buffer(seq, before, after, **kw):
        seq = list(seq)
        if window:
            return S.Buffer(len(seq), len(before), before + seq + after, **kw)
        return S.Buffer(len(seq), 0, seq, **kw)
    data = buffer([v for _, v in elems], [-1], [-2, -3], unspecified=U)
    if fmt == 'COO' and window == 'entries':        # the indices entry by entry
        flat = [x for idx, _ in elems for x in idx]
        indices = S.Strided((len(shape), len(elems)), (1, len(shape)), buffer(flat, [0, 0], [0]))
        return S.COO(shape, indices, data)
    if fmt == 'COO':
        flat = [idx[k] for k in range(len(shape)) for idx, _ in elems]
        ish = (len(shape), len(elems))
        return S.COO(shape, S.Strided(ish, (len(elems), 1), buffer(flat, [0, 0], [0])), data)
    if fmt == 'FlatCOO':
        f = [ravel(idx, shape) for idx, _ in elems]
        return S.FlatCOO(shape, buffer(f, [0], [0, 1]), data)
    assert fmt == 'CSR'
    crow = []
    for r in range(shape[0] + 1):
        c = 0
        for idx, _ in elems:
            c = c + ITE(idx[0] < r, 1, 0)
        crow.append(c)
    cols = [idx[1] for idx, _ in elems]
    return S.CSR(shape, buffer(crow, [0], [len(elems)]), buffer(cols, [0, 0], [0]), data)


def lookup(elems, index, U):
    v = U
    for idx, w in elems:
        v = ITE(same(idx, index), w, v)
    return v


def any_index(ctx, shape, name='j'):
    """An arbitrary in-range index; one of many listed ones for large arrays."""
    if getattr(ctx, 'listed', False):
        n = prod(shape)
        at = sorted({x % n for x in [0, 1, 63, 64, 100, 128, 129, n // 2, n - 2, n - 1, 256, 257,
                                     n - 30] + [n * k // 17 + k for k in range(17)]}
                    if name == 'j' else {0, 65 % n, n // 3, n - 1})
        return unravel(at[ctx.choose(name, len(at))], shape)
    return tuple(ctx.int('%s%d' % (name, k), 0, n - 1) for k, n in enumerate(shape))


def key(index):
    """Index for reading: a Buffer takes plain integers too."""
    return tuple(index)


# nested sequences as sources ----------------------------------------------------

def source(ctx, shape, cells='any', tag='', as_tuple=False):
    """A nested list and a dict of its cells.  cells: 'any' arbitrary values (None included);
    'distinct' constants; 'mixed' constants of several types; ('scatter', k) None except k arbitrary values at constant scattered
    positions; ('pick', k) None except k arbitrary values at arbitrary positions;
    ('holes', k) distinct constants except None at k arbitrary positions."""
    idx = indices(shape)
    if cells == 'any':
        vals = {i: ctx.val(tag + 'c' + '_'.join(map(str, i))) for i in idx}
    elif cells == 'distinct':
        vals = {i: 100 + ravel(i, shape) for i in idx}
    elif cells == 'mixed':
        vals = {i: mixed(ravel(i, shape)) for i in idx}
    elif cells[0] == 'scatter':
        vals = {i: None for i in idx}
        for n, i in enumerate(scatter(shape, cells[1])):
            vals[i] = ctx.val('%sv%d' % (tag, n))
            ctx.assume(vals[i] != None)     # noqa: E711
    else:
        kind, k = cells
        vals = {i: None if kind == 'pick' else 100 + ravel(i, shape) for i in idx}
        prev = -1
        for e in range(k):
            p = ctx.int('%sp%d' % (tag, e), 0, len(idx) - 1)
            ctx.assume(prev < p)
            prev = p
            v = None
            if kind == 'pick':
                v = ctx.val('%sv%d' % (tag, e))
                ctx.assume(v != None)       # noqa: E711
            for n, i in enumerate(idx):
                vals[i] = ITE(p == n, v, vals[i])
    seq = nest(shape, lambda i: vals[i])
    return (totuple(seq) if as_tuple else seq), vals


def totuple(x):
    return tuple(totuple(y) for y in x) if isinstance(x, list) else x


def cell(vals, index):
    """vals[index] for a symbolic in-range index."""
    keys = list(vals)
    r = vals[keys[-1]]
    for k in keys[:-1]:
        r = ITE(same(k, index), vals[k], r)
    return r


def classes(S, fmt):
    """fmt: 'COO' ..., or 'DM:COO' ...: (class, storage class or None)."""
    if fmt.startswith('DM'):
        return S.DM, getattr(S, fmt[3:]) if fmt != 'DM' else None
    return getattr(S, fmt), None


def build(ctx, fmt, seq, dm=None, **kw):
    """fromobject in the given format; kw: unspecified."""
    cls, storage = classes(ctx.m.storage, fmt)
    if storage is not None:
        return cls.fromobject(seq, storage_class=storage, **(dm or {}), **kw)
    return cls.fromobject(seq, **(dm or {}), **kw)


def convert(ctx, s, fmt, dm=None, **kw):
    S = ctx.m.storage
    if fmt.startswith('DM'):
        return s.as_DM(storage_class=classes(S, fmt)[1], **(dm or {}), **kw)
    return getattr(s, 'as_' + fmt)(**kw)


# well-formedness of stored parts --------------------------------------------------

def wellformed(ctx, s):
    """Structural invariants of a storage, recursively."""
    kind = type(s).__name__
    U = s.unspecified
    if kind == 'DM':
        wellformed(ctx, s.data)
        return
    if kind not in SPARSE:
        return
    values = list(s.data)
    n = len(values)
    ctx.check(AND(s.size == n, len(s.data) == n), 'size is not the number of stored values')
    ctx.check(AND(*[v != U for v in values]), 'an unspecified element is stored')
    shape = s.shape
    if kind == 'COO':
        ctx.check(same(s.indices.shape, (len(shape), n)), 'wrong shape of the indices')
        idx = [tuple(s.indices[k, e] for k in range(len(shape))) for e in range(n)]
    elif kind == 'FlatCOO':
        f = list(s.findices)
        ctx.check(len(f) == n, 'wrong number of indices')
        total = prod(shape)
        ctx.check(AND(*[AND(0 <= x, x < total) for x in f]), 'an index is out of range')
        ctx.check(AND(*[a < b for a, b in zip(f, f[1:])]), 'indices are not increasing')
        return
    else:
        crow, cols = list(s.crow_indices), list(s.col_indices)
        ctx.check(AND(len(cols) == n, len(crow) == shape[0] + 1), 'wrong number of indices')
        ctx.check(AND(crow[0] == 0, crow[-1] == n, *[a <= b for a, b in zip(crow, crow[1:])]),
                  'row pointers are not monotone from 0 to the number of elements')
        idx, row = [], 0
        for e, c in enumerate(cols):
            row = 0
            for r in range(1, len(crow)):
                row = ITE(crow[r] <= e, r, row)
            idx.append((row, c))
    for i in idx:
        ctx.check(AND(*[AND(0 <= x, x < m) for x, m in zip(i, shape)]), 'an index is out of range')
    for a, b in zip(idx, idx[1:]):
        ctx.check(before(a, b), 'indices are not in increasing order')


def before(a, b):
    """Lexicographic order."""
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = OR(x < y, AND(x == y, r))
    return r
