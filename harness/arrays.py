"""Array formats: storing, conversion, indexing, slicing, assignment, aliasing, comparison."""
from sx.ops import AND, OR, NOT, ITE, IMPLIES, IFF, EQ, SELECT
from harness.lib import *           # noqa: F401,F403


# storing and conversion ----------------------------------------------------------

def store(ctx, fmt, shape, cells='any', U='default', dm=None, as_tuple=False, check=('read',)):
    """Every element of a nested sequence is read back; None and U read as unspecified."""
    S = ctx.m.storage
    seq, vals = source(ctx, shape, cells, as_tuple=as_tuple)
    kw = {} if U == 'default' else dict(unspecified=choose_U(ctx, U, ''))
    U = kw.get('unspecified')
    s = build(ctx, fmt, seq, dm, **kw)
    ctx.check(type(s) is classes(S, fmt)[0], 'wrong class')
    ctx.check(same(tuple(s.shape), shape), 'wrong shape')
    ctx.check(len(s) == shape[0], 'wrong length')
    ctx.check(s.unspecified == U, 'wrong value of unspecified elements')
    if 'wellformed' in check:
        wellformed(ctx, s)
    if 'read' in check and all(shape):
        j = any_index(ctx, shape)
        v = cell(vals, j)
        got = s[j]
        ctx.observe(got)
        ctx.check(got == ITE(v == None, U, v), 'a stored element reads differently')    # noqa


def conversion(ctx, arr, to, dm=None, U2='default', check=('read',)):
    """Conversion to another format keeps every element; unspecified ones get the new value."""
    S = ctx.m.storage
    s, ref = array(ctx, arr)
    kw = {} if U2 == 'default' else dict(unspecified=choose_U(ctx, U2, '2'))
    t = convert(ctx, s, to, dm, **kw)
    U2 = kw.get('unspecified', ref.U)
    shape = ref.shape
    ctx.check(type(t) is classes(S, to)[0], 'wrong class')
    if to == 'Buffer':
        ctx.check(len(t) == prod(shape), 'wrong length')
    else:
        ctx.check(same(tuple(t.shape), shape), 'wrong shape')
    ctx.check(t.unspecified == U2, 'wrong value of unspecified elements')
    if 'wellformed' in check:
        wellformed(ctx, t)
    if 'read' in check and all(shape):
        j = any_index(ctx, shape)
        v = ref.at(j)
        got = t[ravel(j, shape)] if to == 'Buffer' else t[j]
        ctx.observe(got)
        ctx.check(got == ITE(v == ref.U, U2, v), 'conversion changes an element')
        ctx.check(s[j] == v, 'conversion changes its source')


def copying(ctx, arr, U2='default', check=('read',)):
    s, ref = array(ctx, arr)
    kw = {} if U2 == 'default' else dict(unspecified=choose_U(ctx, U2, '2'))
    c = s.copy(**kw)
    U2 = kw.get('unspecified', ref.U)
    ctx.check(type(c) is type(s), 'the copy has another class')
    ctx.check(same(tuple(c.shape), ref.shape), 'the copy has another shape')
    ctx.check(c.unspecified == U2, 'wrong value of unspecified elements in the copy')
    ctx.check(s.unspecified == ref.U, 'copying changes the value of unspecified elements')
    if all(ref.shape):
        j = any_index(ctx, ref.shape)
        v = ref.at(j)
        got = c[key(j)]
        ctx.observe(got)
        ctx.check(got == ITE(v == ref.U, U2, v), 'an element of the copy differs')
        ctx.check(s[key(j)] == v, 'copying changes its source')


# reading -------------------------------------------------------------------------

def complete(kinds, n):
    return tuple(kinds) + (None,) * (n - len(kinds))


def indexed(ctx, tag, kinds, shape, bare=False):
    """Index object (possibly shorter than the dimensionality, or a bare item) and its axes."""
    index, axes = sym_index(ctx, tag, kinds, shape)
    axes = axes + [Axis(ctx, None, n) for n in shape[len(axes):]]
    return (index[0] if bare else index), axes


def slicing(ctx, arr, kinds, kinds2=None, bare=False, check=('read',), twin=None):
    """Indexing with slices and integers selects what Python's slices select; kinds2: a slice
    of the slice; twin: the same index was used on another array of that shape before."""
    s, ref = array(ctx, arr)
    index, axes = indexed(ctx, 'a', kinds, ref.shape, bare)
    if twin is not None:
        other, oref = array(ctx, twin, 'w')
        r = other[index]
        if hasattr(r, 'shape'):
            check_shape(ctx, r, axes)
            ridx, full = pick(ctx, 'w', axes)
            ctx.check(r[ridx] == oref.at(full), 'an element of the slice is wrong')
    r = s[index]
    if not any(a.kept for a in axes):
        j = [a.first for a in axes]
        ctx.observe(r)
        ctx.check(r == ref.at(j), 'wrong element')
        return
    check_shape(ctx, r, axes)
    ctx.check(r.unspecified == ref.U, 'the slice has another value of unspecified elements')
    if 'wellformed' in check:
        wellformed(ctx, r)
    if kinds2 is not None:
        index2, axes2 = indexed(ctx, 'b', kinds2, r.shape)
        r2 = r[index2]
        if any(a.kept for a in axes2):
            check_shape(ctx, r2, axes2, 'shape of the slice of the slice is wrong')
            ridx2, ridx = pick(ctx, 'i', axes2)
            got = r2[ridx2]
            if 'wellformed' in check:
                wellformed(ctx, r2)
        else:
            ridx, got = [a.first for a in axes2], r2
        todo = list(ridx)
        full = [a.at(todo.pop(0)) if a.kept else a.first for a in axes]
    elif 'read' in check:
        ridx, full = pick(ctx, 'i', axes)
        got = r[ridx]
    else:
        return
    ctx.observe(got)
    ctx.check(got == ref.at(full), 'an element of the slice is wrong')


def view_any(ctx, kinds, strides=None, hi=None, kinds2=None):
    """Slicing a strided array over arbitrary memory: arbitrary sizes and strides."""
    S = ctx.m.storage
    n = len(kinds)
    shape = tuple(ctx.int('n%d' % k, 1, hi) for k in range(n))
    if strides is None:
        strides = tuple(ctx.int('t%d' % k, 0) for k in range(n))
    L = ctx.int('len', 1)
    last = 0
    for t, m in zip(strides, shape):
        last = last + t * (m - 1)
    ctx.assume(last < L)
    s = S.Strided(shape, strides, S.Buffer(L, 0, ctx.func('mem', L)))
    index, axes = sym_index(ctx, 'a', kinds, shape)
    r = s[index]
    if not any(a.kept for a in axes):
        ctx.check(r == 1000 + dot([a.first for a in axes], strides), 'wrong element')
        return
    check_shape(ctx, r, axes)
    if kinds2 is not None:
        index2, axes2 = indexed(ctx, 'b', kinds2, r.shape)
        r2 = r[index2]
        if any(a.kept for a in axes2):
            check_shape(ctx, r2, axes2, 'shape of the slice of the slice is wrong')
            ridx2, ridx = pick(ctx, 'i', axes2)
            got = r2[ridx2]
        else:
            ridx, got = [a.first for a in axes2], r2
        todo = list(ridx)
        full = [a.at(todo.pop(0)) if a.kept else a.first for a in axes]
    else:
        ridx, full = pick(ctx, 'i', axes)
        got = r[ridx]
    ctx.observe(got)
    ctx.check(got == 1000 + dot(full, strides), 'an element of the slice is wrong')


def integer_index(ctx, arr, axis, others=None, write=False):
    """One arbitrary integer on an axis: in range (negative counts from the end) or IndexError.
    others: what the other axes have: None (integers), 'slices', 'none', 'nothing' (slices that
    select nothing), 'short' (no items), 'bare' (no items, and the integer alone)."""
    s, ref = array(ctx, arr)
    n = ref.shape[axis]
    k = ctx.int('k')
    rest = any_index(ctx, ref.shape)
    item = {'slices': slice(None), 'none': None, 'nothing': slice(1, 1)}
    index = tuple(k if a == axis else item.get(others, x) for a, x in enumerate(rest))
    if others in ('bare', 'short'):
        index = k if others == 'bare' else (k,)
    part = others is not None and len(ref.shape) > 1
    valid = AND(-n <= k, k < n)
    left = [m for a, m in enumerate(ref.shape) if a != axis]
    if others == 'nothing':
        left = [0] * len(left)
    try:
        if write:
            s[index] = nest(left, lambda i: 7) if part else 7
            got = None
        else:
            got = s[index]
            if part:
                ctx.check(same(tuple(got.shape), left), 'wrong shape')
                if all(left):
                    got = got[tuple(x for a, x in enumerate(rest) if a != axis)]
    except IndexError:
        ctx.check(NOT(valid), 'IndexError for an index in range')
        return
    ctx.check(valid, 'no IndexError for an index out of range')
    full = tuple(ITE(k < 0, k + n, k) if a == axis else x for a, x in enumerate(rest))
    if part and not all(left):
        ctx.check(s[full] == ref.at(full), 'an element has changed')
    elif write:
        ctx.check(IMPLIES(ref.specified(full), s[full] == 7), 'another element was assigned')
    else:
        ctx.check(got == ref.at(full), 'another element was read')


def integer_of_empty(ctx, arr, axis, item='none', write=False):
    """One arbitrary integer on an axis of an array without elements."""
    s, ref = array(ctx, arr)
    n = ref.shape[axis]
    k = ctx.int('k')
    other = {'none': None, 'slices': slice(None), 'back': slice(None, None, -1)}[item]
    index = tuple(k if a == axis else other for a in range(len(ref.shape)))
    left = tuple(m for a, m in enumerate(ref.shape) if a != axis)
    valid = AND(-n <= k, k < n)
    got = None
    try:
        if write:
            s[index] = nest(left, lambda i: 7)
        else:
            got = s[index]
    except IndexError:
        ctx.check(NOT(valid), 'IndexError for an index in range')
        return
    ctx.check(valid, 'no IndexError for an index out of range')
    if not write:
        ctx.check(same(tuple(got.shape), left), 'wrong shape')


def search(ctx, fmt, shape, nse, rows=None, window=False):
    """Finding one element among many specified ones, at arbitrary increasing positions."""
    S = ctx.m.storage
    elems, prev = [], None
    for e in range(nse):
        idx = any_index(ctx, shape, 'x%d_' % e)
        if rows is not None:
            ctx.assume(idx[0] == rows[e])
            idx = (rows[e],) + idx[1:]
        if prev is not None:
            ctx.assume(before(prev, idx))
        prev = idx
        elems.append((idx, 100 + e))
    s = make_sparse(S, fmt, shape, elems, None, window)
    j = any_index(ctx, shape)
    got = s[j]
    ctx.observe(got)
    hit = False
    for idx, v in elems:
        h = same(idx, j)
        ctx.check(IMPLIES(h, got == v), 'a specified element is not found')
        hit = OR(hit, h)
    if got is None:
        ctx.check(NOT(hit), 'a specified element is not found')
    else:
        ctx.check(hit, 'an unspecified element is found')


def lookups(ctx, arr):
    """Every element of an array with listed structure and arbitrary values."""
    s, ref = array(ctx, arr)
    got = [(i, s[key(i)]) for i in indices(ref.shape)]
    ctx.observe([v for _, v in got])
    ctx.check(AND(*[v == ref.at(i) for i, v in got]), 'an element reads differently')
    ctx.check(AND(*[s[tuple(x - n for x, n in zip(i, ref.shape))] == ref.at(i)
                    for i, _ in got[::5]]), 'an element reads differently from the back')


def enumeration(ctx, arr, kinds=None):
    """elements(): in index order, each index once, every specified element included."""
    s, ref = array(ctx, arr)
    out = list(s.elements())
    out = [((i,) if not isinstance(i, tuple) else i, v) for i, v in out]
    ctx.observe([i for i, _ in out], [v for _, v in out])
    shape = ref.shape
    for i, v in out:
        ctx.check(len(i) == len(shape), 'wrong dimensionality of an index')
        ctx.check(AND(*[AND(0 <= x, x < n) for x, n in zip(i, shape)]), 'index out of range')
        ctx.check(v == ref.at(i), 'wrong value of an enumerated element')
    for (a, _), (b, _) in zip(out, out[1:]):
        ctx.check(before(a, b), 'elements are not in increasing index order')
    if all(shape):
        j = any_index(ctx, shape)
        listed = OR(*[same(i, j) for i, _ in out])
        ctx.check(IMPLIES(ref.specified(j), listed), 'a specified element is not enumerated')
        if arr['fmt'] in SPARSE:
            ctx.check(IMPLIES(listed, ref.specified(j)), 'an unspecified element is enumerated')
        else:
            ctx.check(listed, 'an element is not enumerated')


def fullness(ctx, arr):
    """is_full() and size of arrays that store only specified elements."""
    s, ref = array(ctx, arr)
    want = AND(*[ref.specified(i) for i in indices(ref.shape)])
    got = s.is_full()
    ctx.observe(got)
    ctx.check(IFF(got, want), 'is_full is wrong')
    if arr['fmt'] in SPARSE:
        n = 0
        for i in indices(ref.shape):
            n = n + ITE(ref.specified(i), 1, 0)
        ctx.check(s.size == n, 'size is not the number of specified elements')


# assignment ------------------------------------------------------------------------

def base_format(arr):
    while arr['fmt'] == 'DM':
        arr = arr['data']
    return arr['fmt']


def assign_element(ctx, arr, negative=False, value=None):
    s, ref = array(ctx, arr)
    sparse = base_format(arr) in SPARSE
    k = any_index(ctx, ref.shape, 'k')
    raw = tuple(x - n for x, n in zip(k, ref.shape)) if negative else k
    v = ctx.val('new') if value is None else value
    s[raw if len(raw) > 1 or arr['fmt'] != 'Buffer' else raw[0]] = v
    j = any_index(ctx, ref.shape)
    got, old = s[key(j)], ref.at(j)
    ctx.observe(got)
    hit = same(j, k)
    ctx.check(IMPLIES(NOT(hit), got == old), 'assignment changes another element')
    if not sparse:
        ctx.check(IMPLIES(hit, got == v), 'the assigned element reads differently')
        return
    ctx.check(IMPLIES(AND(hit, ref.specified(k)), got == v),
              'the assigned element reads differently')
    ctx.check(IMPLIES(hit, got == v), 'assignment to an unspecified element is lost',
              site='sparse-unspecified')


def assign_slice(ctx, arr, kinds, value='list', negative=False):
    """A slice assigned from a nested list or from another array of the same shape."""
    S = ctx.m.storage
    s, ref = array(ctx, arr)
    sparse = base_format(arr) in SPARSE
    index, axes = indexed(ctx, 'a', kinds, ref.shape)
    counts = []
    for k, a in enumerate(axes):
        if a.kept:
            n = ctx.int('m%d' % k, 0, a.size)
            ctx.assume(a.count_is(n))
            counts.append(ctx.conc(n))
    if not all(counts):
        s[index] = nest(counts, lambda i: 0)
        new = None
    elif value in ('list', 'tuple', 'Strided', 'mixed'):
        new = {i: mixed(3 + ravel(i, counts)) if value == 'mixed' else 500 + ravel(i, counts)
               for i in indices(counts)}
        seq = nest(counts, lambda i: new[i])
        s[index] = (totuple(seq) if value == 'tuple' else
                    S.Strided.fromobject(seq) if value == 'Strided' else seq)
    else:       # a sparse right-hand side: one element specified
        p = tuple(n - 1 for n in counts)
        new = {i: None for i in indices(counts)}
        new[p] = 500
        s[index] = getattr(S, value).fromobject(nest(counts, lambda i: new[i]))
    j = any_index(ctx, ref.shape)
    got, old = s[j], ref.at(j)
    ctx.observe(got)
    sel, ridx = True, []
    for a, x in zip(axes, j):
        if a.kept:
            ok, i = a.inverse(x)
            sel = AND(sel, ok)
            ridx.append(i)
        else:
            sel = AND(sel, a.first == x)
    ctx.check(IMPLIES(NOT(sel), got == old), 'assignment changes an element outside the slice')
    if new is None:
        ctx.check(NOT(sel), 'harness: nothing selected')
        return
    want = cell(new, ridx)
    if not sparse:
        ctx.check(IMPLIES(sel, got == want), 'an assigned element reads differently')
        return
    ctx.check(IMPLIES(AND(sel, ref.specified(j)), got == want),
              'an assigned element reads differently')
    ctx.check(IMPLIES(sel, got == want), 'assignment to unspecified elements of a slice is lost',
              site='sparse-unspecified-slice')


def failed_assignment(ctx, arr, kinds, bad):
    """An assignment that raises an error leaves the array as it was."""
    S = ctx.m.storage
    s, ref = array(ctx, arr)
    index, axes = indexed(ctx, 'a', kinds, ref.shape)
    counts = []
    for k, a in enumerate(axes):
        if a.kept:
            n = ctx.int('m%d' % k, 0, a.size)
            ctx.assume(a.count_is(n))
            counts.append(ctx.conc(n))
    value = nest(counts, lambda i: 500 + ravel(i, counts))
    if bad == 'integer':            # one of the integers is out of range
        axis = ctx.choose('axis', len(ref.shape))
        k, n = ctx.int('k'), ref.shape[axis]
        ctx.assume(OR(k < -n, n <= k))
        index = tuple(index) + (None,) * (len(ref.shape) - len(index))
        index = index[:axis] + (k,) + index[axis + 1:]
    elif bad == 'many':             # an index for an axis that is not there
        index = tuple(index) + (None,) * (len(ref.shape) - len(index)) + (0,)
    elif not counts or not all(counts):
        return
    elif bad == 'scalar':           # one value instead of a list
        value = 500
    elif bad == 'array':            # an array that is too small
        axis = ctx.choose('axis', len(counts))
        small = tuple(n - (d == axis) for d, n in enumerate(counts))
        value = S.Strided(small, cstrides(small),
                          S.Buffer(prod(small), 0, [500 + i for i in range(prod(small))]))
    else:                           # a list that is too short, or a number in its place
        depth = ctx.choose('depth', len(counts))
        at = [ctx.choose('at%d' % d, counts[d]) for d in range(depth)]
        if depth == 0:
            value = value[:-1] if bad == 'short' else 500
        else:
            part = value
            for i in at[:-1]:
                part = part[i]
            part[at[-1]] = part[at[-1]][:-1] if bad == 'short' else 500
    try:
        s[index] = value
    except (IndexError, TypeError, ValueError, AssertionError):
        j = any_index(ctx, ref.shape)
        got = s[j]
        ctx.observe(got)
        ctx.check(got == ref.at(j), 'a failed assignment has changed the array')
        return
    ctx.check(base_format(arr) in SPARSE or bad == 'many',
              'an assignment without a value for each selected element succeeds')


# aliasing -------------------------------------------------------------------------

def view_writes(ctx, arr, kinds, kinds2=None):
    """A slice is a view: writes are visible both ways."""
    s, ref = array(ctx, arr)
    index, axes = indexed(ctx, 'a', kinds, ref.shape)
    r = s[index]
    check_shape(ctx, r, axes)
    if kinds2 is None:
        ridx, full = pick(ctx, 'i', axes)
    else:
        index2, axes2 = indexed(ctx, 'b', kinds2, r.shape)
        r = r[index2]
        ridx, mid = pick(ctx, 'i', axes2)
        todo = list(mid)
        full = [a.at(todo.pop(0)) if a.kept else a.first for a in axes]
    r[ridx] = 901
    j = any_index(ctx, ref.shape)
    want = ITE(same(j, full), 901, ref.at(j))
    ctx.check(s[j] == want, 'a write through a slice is not a write to that element')
    s[tuple(full)] = 902
    got = r[ridx]
    ctx.observe(got)
    ctx.check(got == 902, 'a slice does not show a later write to the array')


def independence(ctx, arr, to=None, dm=None):
    """A copy (or a conversion to another class) shares no elements with its source."""
    s, ref = array(ctx, arr)
    c = s.copy() if to is None else convert(ctx, s, to, dm)
    k = any_index(ctx, ref.shape, 'k')
    ctx.assume(ref.specified(k))
    s[key(k)] = 901
    j = any_index(ctx, ref.shape)

    def read(t, i):
        return t[ravel(i, ref.shape)] if to == 'Buffer' and t is c else t[key(i)]
    got = read(c, j)
    ctx.observe(got)
    ctx.check(got == ref.at(j), 'writing to an array changes its copy')
    if to == 'Buffer':
        c[ravel(k, ref.shape)] = 902
    else:
        c[key(k)] = 902
    ctx.check(s[key(j)] == ITE(same(j, k), 901, ref.at(j)), 'writing to a copy changes its source')
    ctx.check(read(c, k) == 902, 'writing to a copy is lost')


# comparison ------------------------------------------------------------------------

def contents_equal(a, b):
    if tuple(a.shape) != tuple(b.shape):
        return False
    r = True
    for i in indices(a.shape):
        x, y = a.at(i), b.at(i)
        ua, ub = x == a.U, y == b.U
        r = AND(r, OR(AND(ua, ub), AND(NOT(ua), NOT(ub), x == y)))
    return r


def equality(ctx, arr, other, structural=False):
    """equal() is element-wise equality, whatever the formats."""
    a, ra = array(ctx, arr)
    b, rb = array(ctx, other, 'o')
    want = contents_equal(ra, rb)
    got = a.equal(b)
    ctx.observe(bool(got))
    ctx.check(IFF(got, want), 'equal() is not element-wise equality')
    if structural:
        eq = a == b
        ctx.check(IMPLIES(eq, want), 'arrays that compare equal differ in an element')
        ne = a != b
        ctx.check(IFF(ne, NOT(eq)), '!= is not the negation of ==')


def equality_list(ctx, arr, shape=None):
    a, ra = array(ctx, arr)
    seq, vals = source(ctx, shape or ra.shape, 'any', tag='o')
    want = shape is None or tuple(shape) == tuple(ra.shape)
    if want:
        for i in indices(ra.shape):
            v = ITE(vals[i] == None, ra.U, vals[i])     # noqa: E711
            want = AND(want, ra.at(i) == v)
    got = a.equal(seq)
    ctx.check(IFF(got, want), 'equal() to a nested list is not element-wise equality')


def equality_copy(ctx, arr):
    a, ra = array(ctx, arr)
    c = a.copy()
    ctx.check(AND(a.equal(c), c.equal(a), a.equal(a)), 'a copy is not equal to its source')
    ctx.check(a == a, 'an array does not compare equal to itself')
    if arr['fmt'] != 'DM' and not arr.get('view'):
        ctx.check(a == c, 'a copy does not compare equal to its source')
        ctx.check(NOT(a != c), 'a copy compares unequal to its source')


# dimension mapping ------------------------------------------------------------------

def dm_layout(ctx, shape, storage='Strided', perm=None, part='any', cells='distinct', via=None,
              default=False):
    """DM.fromobject over every axis order and partition: the documented mapping."""
    S = ctx.m.storage
    N = len(shape)
    seq, vals = source(ctx, shape, cells)
    if default:
        perm = tuple(range(N))
        part = (N - 1,) if N > 1 and storage != 'Buffer' else ()
    if perm is None:
        left, perm = list(range(N)), []
        for k in range(N):
            perm.append(left.pop(ctx.choose('perm%d' % k, len(left))))
        perm = tuple(perm)
    if part == 'any':
        part = tuple(k for k in range(1, N) if ctx.choose('cut%d' % k, 2))
    dm = dict(dimensions=perm, partitioning=part)
    if default:
        dm = {}
    cls = getattr(S, storage)
    if via is None:
        s = S.DM.fromobject(seq, storage_class=cls, **dm)
    else:
        s = getattr(S, via).fromobject(seq).as_DM(storage_class=cls, **dm)
    gs = groups_of(perm, (part,) if isinstance(part, int) else part)
    gshapes = [tuple(shape[d] for d in g) for g in gs]
    ctx.check(same(tuple(s.data.shape), tuple(prod(g) for g in gshapes)),
              'wrong shape of the reduced array')
    ctx.check(same(tuple(s.shape), shape), 'wrong shape')
    j = any_index(ctx, shape)
    want = 100 + ravel(j, shape) if cells == 'distinct' else cell(vals, j)
    got = s[j]
    ctx.observe(got)
    ctx.check(got == want, 'an element reads differently')
    r = tuple(ravel([j[d] for d in g], sh) for g, sh in zip(gs, gshapes))
    ctx.check(s.data[r] == want, 'an element is not stored at its documented place')


def dm_from(ctx, arr, dims, part, storage='Strided', U2='default'):
    """A dimension mapping made of another array has the documented layout."""
    S = ctx.m.storage
    a, ref = array(ctx, arr)
    kw = {} if U2 == 'default' else dict(unspecified=choose_U(ctx, U2, '2'))
    U2 = kw.get('unspecified', ref.U)
    s = a.as_DM(dimensions=dims, partitioning=part, storage_class=getattr(S, storage), **kw)
    gs = groups_of(dims, part)
    gshapes = [tuple(ref.shape[d] for d in g) for g in gs]
    ctx.check(same(tuple(s.data.shape), tuple(prod(g) for g in gshapes)),
              'wrong shape of the reduced array')
    ctx.check(type(s.data).__name__ == storage, 'wrong class of the reduced array')
    ctx.check(same(tuple(s.shape), ref.shape), 'wrong shape')
    j = any_index(ctx, ref.shape)
    want = ref.at(j)
    want = ITE(want == ref.U, U2, want)
    got = s[j]
    ctx.observe(got)
    ctx.check(got == want, 'an element reads differently')
    r = tuple(ravel([j[d] for d in g], sh) for g, sh in zip(gs, gshapes))
    ctx.check(s.data[r] == want, 'an element is not stored at its documented place')


def row_major(ctx, arr, how, U2='default'):
    """A strided array or buffer made of another array lists all elements row by row."""
    a, ref = array(ctx, arr)
    kw = {} if U2 == 'default' else dict(unspecified=choose_U(ctx, U2, '2'))
    U2 = kw.get('unspecified', ref.U)
    c = getattr(a, how)(**kw)
    size = prod(ref.shape)
    buf = c
    if type(c).__name__ == 'Strided':
        ctx.check(same(tuple(c.strides), cstrides(ref.shape)), 'the strides are not row-major')
        ctx.check(same(tuple(c.shape), ref.shape), 'wrong shape')
        buf = c.data
    ctx.check(type(buf).__name__ == 'Buffer', 'no buffer')
    ctx.check(AND(buf.size == size, len(buf) == size), 'the buffer has not one place per element')
    values = list(buf)
    ctx.check(len(values) == size, 'the buffer has not one place per element')
    if size:
        j = any_index(ctx, ref.shape)
        v = ref.at(j)
        k = ravel(j, ref.shape)
        got = buf[k]
        ctx.observe(got)
        ctx.check(got == ITE(v == ref.U, U2, v), 'an element is not at its row-major place')
        ctx.check(EQ(SELECT(values, k), got), 'the buffer enumerates something else')


def all_ranges(n):
    """Every non-empty selection that a slice can make of an axis."""
    out = {}
    for step in list(range(1, n + 1)) + list(range(-1, -n - 1, -1)):
        for start in range(n):
            for stop in [None] + list(range(n + 1)):
                r = range(n)[start:stop:step]
                if len(r):
                    out.setdefault((r[0], len(r), r.step if len(r) > 1 else step),
                                   slice(start, stop, step))
    return list(out.items())


def copy_of_slices(ctx, shape, how='copy', U2='default'):
    """Copies of every slice of a strided array are row-major."""
    S = ctx.m.storage
    data = S.Buffer(prod(shape), 0, [100 + k for k in range(prod(shape))], unspecified=-1)
    a = S.Strided(shape, cstrides(shape), data)
    items, first, steps, counts = [], [], [], []
    for k, n in enumerate(shape):
        rs = all_ranges(n)
        (f, c, st), sl = rs[ctx.choose('axis%d' % k, len(rs))]
        items.append(sl)
        first.append(f)
        steps.append(st)
        counts.append(c)
    v = a[tuple(items)]
    c = getattr(v, how)(**({} if U2 == 'default' else dict(unspecified=U2)))
    ctx.check(same(tuple(c.shape), tuple(counts)), 'wrong shape')
    ctx.check(same(tuple(c.strides), cstrides(tuple(counts))), 'the strides are not row-major')
    ctx.check(c.data.size == prod(counts), 'the buffer has not one place per element')
    j = any_index(ctx, tuple(counts))
    want = 100 + ravel([f + st * i for f, st, i in zip(first, steps, j)], shape)
    got = c.data[ravel(j, tuple(counts))]
    ctx.observe(got)
    ctx.check(got == want, 'an element is not at its row-major place')
    ctx.check(c[key(j)] == want, 'an element of the copy differs')


# buffers -----------------------------------------------------------------------------

def buffer_window(ctx, total, chain=False):
    """Windows of a buffer share its memory; bounds are relative to the window."""
    S = ctx.m.storage
    mem = [ctx.val('c%d' % k) for k in range(total)]
    vals = list(mem)
    off = ctx.int('off', 0, total)
    size = ctx.int('size', 0)
    ctx.assume(off + size <= total)
    b = S.Buffer(size, off, mem)
    x, y = ctx.int('x', 0), ctx.int('y')
    ctx.assume(AND(x <= y, y <= size))
    w = b[x:y]
    at = off + x
    n = y - x
    if chain:
        x2, y2 = ctx.int('x2', 0), ctx.int('y2')
        ctx.assume(AND(x2 <= y2, y2 <= n))
        w = w[slice(x2, y2)]
        at, n = at + x2, y2 - x2
    ctx.check(len(w) == n, 'wrong length of the window')
    i = ctx.int('i', 0)
    ctx.assume(i < n)
    got = w[i]
    ctx.observe(got)
    ctx.check(got == SELECT(vals, at + i), 'wrong element of the window')
    w[i] = 901
    p = ctx.int('p', 0)
    ctx.assume(p < size)
    ctx.check(b[p] == ITE(off + p == at + i, 901, SELECT(vals, off + p)),
              'a write to a window is not a write to that element')


def buffer_edges(ctx, total):
    """Open bounds, iteration, enumeration, copy, and bounds outside the memory."""
    S = ctx.m.storage
    mem = [ctx.val('c%d' % k) for k in range(total)]
    vals = list(mem)
    off, size = ctx.choose('off', total + 1), None
    size = ctx.choose('size', total - off + 1)
    U = ctx.val('U')
    b = S.Buffer(size, off, mem, unspecified=U)
    want = vals[off:off + size]
    ctx.check(EQ(list(b), want), 'iteration yields other elements')
    els = list(b.elements())
    ctx.check(AND(len(els) == size, *[AND(i == k, v == want[k]) for k, (i, v) in enumerate(els)]),
              'enumeration yields other elements')
    ctx.check(EQ(list(b.copy()), want), 'the copy has other elements')
    x = ctx.int('x', -total - 2, total + 2)
    for open_end in (True, False):
        try:
            w = b[x:] if open_end else b[:x]
        except IndexError:
            ctx.check(OR(x + off < 0, x + off > total), 'IndexError for a bound in the memory')
            continue
        ctx.check(AND(x + off >= 0, x + off <= total), 'no IndexError for a bound outside')
        if open_end:
            ctx.check(IMPLIES(AND(0 <= x, x <= size), len(w) == size - x), 'wrong length')
        else:
            ctx.check(IMPLIES(AND(0 <= x, x <= size), len(w) == x), 'wrong length')
        ctx.check(w.unspecified == U, 'a window has another value of unspecified elements')


def buffer_equality(ctx, n, m):
    """Buffers compare by content, whatever their offsets."""
    S = ctx.m.storage
    xs, ys = [ctx.val('x%d' % k) for k in range(n)], [ctx.val('y%d' % k) for k in range(m)]
    a = S.Buffer(n, 1, [0] + list(xs) + [5], unspecified=None)
    b = S.Buffer(m, 0, list(ys) + [6], unspecified=None)
    want = EQ(xs, ys)
    ctx.check(IFF(a == b, want), '== of buffers is not equality of their contents')
    ctx.check(IFF(a != b, NOT(want)), '!= is not the negation of ==')


# arrays without elements -----------------------------------------------------------------

def empty(ctx, arr, kinds=None):
    """Arrays with an axis of size 0: every operation works and yields no elements."""
    s, ref = array(ctx, arr)
    shape = ref.shape

    def vacant(t, shape, what):
        ctx.check(same(tuple(t.shape), shape), 'wrong shape of the ' + what)
        ctx.check(list(t.elements()) == [], 'the %s has elements' % what)
    vacant(s, shape, 'array')
    c = s.copy()
    vacant(c, shape, 'copy')
    ctx.check(AND(s.equal(c), c.equal(s)), 'a copy is not equal to its source')
    for to in ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM'):
        if to == 'CSR' and len(shape) != 2:
            continue
        vacant(convert(ctx, s, to), shape, 'converted array')
    if kinds is not None:
        index, axes = indexed(ctx, 'a', kinds, shape)
        r = s[index]
        check_shape(ctx, r, axes)
        ctx.check(list(r.elements()) == [], 'a slice of an empty array has elements')
        s[index] = []
        ctx.observe(tuple(r.shape))


# histories -------------------------------------------------------------------------------

def history(ctx, arr, ops):
    """A sequence of writes, slices, copies and conversions, compared with a mapping from
    indices to values.  Views share memory with what they were taken from; copies do not.

    ops: ('set',)  write an arbitrary element of the current array
         ('fill', kinds)  assign a slice of the current array from a nested list
         ('view', kinds)  go on with a slice of the current array
         ('look', kinds)  read an element of a slice of the current array
         ('base',)  go on with the array the current view was taken from
         ('copy',)  keep a copy of the current array, to be compared at the end
         ('as', format)  go on with a conversion of the current array"""
    s, ref = array(ctx, arr)
    sparse = base_format(arr) in SPARSE
    shape, U = tuple(ref.shape), ref.U
    # read(b): the element at index b of the base array; stored(b): whether it is stored;
    # where(i): the index in the base array of element i of the current array
    read, stored, where = ref.at, ref.specified, tuple
    stack, kept = [], []

    def overwrite(read, stored, b, v):
        return lambda c: ITE(AND(same(c, b), stored(c)) if stored else same(c, b), v, read(c))

    def through(where, axes):
        def up(i):
            todo = list(i)
            return tuple(where([a.at(todo.pop(0)) if a.kept else a.first for a in axes]))
        return up

    for n, op in enumerate(ops):
        t = 'o%d' % n
        if op[0] in ('fill', 'view', 'look'):
            index, axes = indexed(ctx, t, op[1], shape)
            counts = []
            for k, a in enumerate(axes):
                if a.kept:
                    m = ctx.int('%sm%d' % (t, k), 1, a.size)
                    ctx.assume(a.count_is(m))
                    counts.append(ctx.conc(m))
            counts = tuple(counts)
        if op[0] == 'set':
            k = any_index(ctx, shape, t + 'k')
            v = ctx.val(t + 'v')
            if sparse:
                ctx.assume(AND(stored(where(k)), v != U))
            k = tuple(map(ctx.conc, k))
            s[k] = v
            read = overwrite(read, sparse and stored, where(k), v)
        elif op[0] == 'fill':
            up = through(where, axes)
            s[index] = nest(counts, lambda i: 1000 * (n + 1) + ravel(i, counts))
            for i in indices(counts):
                read = overwrite(read, sparse and stored, up(i),
                                 1000 * (n + 1) + ravel(i, counts))
        elif op[0] == 'view':
            stack.append((s, shape, where))
            s, shape, where = s[index], counts, through(where, axes)
            ctx.check(same(tuple(s.shape), shape), 'shape of the slice is wrong')
            if sparse:          # slices of sparse arrays are not writable views
                stack = []
        elif op[0] == 'look':
            r = s[index]
            ctx.check(same(tuple(r.shape), counts), 'shape of the slice is wrong')
            i = any_index(ctx, counts, t + 'i')
            ctx.check(r[i] == read(through(where, axes)(i)), 'an element of the slice is wrong')
            if sparse:
                # every element of the slice is enumerated from the right place
                for i, v in r.elements():
                    i = i if isinstance(i, tuple) else (i,)
                    ctx.check(v == read(through(where, axes)(i)), 'a slice enumerates a wrong '
                              'element')
        elif op[0] == 'base':
            s, shape, where = stack.pop()
        elif op[0] == 'copy':
            kept.append((s.copy(), shape, lambda i, r=read, w=where: r(w(i))))
        elif op[0] == 'as':
            kept.append((s, shape, lambda i, r=read, w=where: r(w(i))))
            s = convert(ctx, s, op[1])
            read, where, stack = kept[-1][2], tuple, []
            sparse = op[1].split(':')[-1] in SPARSE
            stored = (lambda c, r=read: r(c) != U)
    for n, (c, sh, at) in enumerate([(s, shape, lambda i: read(where(i)))] + kept):
        j = any_index(ctx, sh, 'j%d_' % n)
        got = c[j]
        ctx.observe(got)
        ctx.check(got == at(j), 'an element reads differently from what was last written there'
                  if n == 0 else 'an earlier copy does not keep its elements')


# sequences, purity, construction from parts ------------------------------------------------

def assign_overlap(ctx, arr, kinds, kinds2):
    """A slice assigned from another slice of the same array gets the elements that one had."""
    s, ref = array(ctx, arr)
    sparse = base_format(arr) in SPARSE
    index, axes = indexed(ctx, 'a', kinds, ref.shape)
    index2, axes2 = indexed(ctx, 'b', kinds2, ref.shape)
    kept, kept2 = [a for a in axes if a.kept], [a for a in axes2 if a.kept]
    for k, (a, b) in enumerate(zip(kept, kept2)):
        n = ctx.int('m%d' % k, 1, a.size)
        ctx.assume(AND(a.count_is(n), b.count_is(n)))
    s[index] = s[index2]
    j = any_index(ctx, ref.shape)
    sel, ridx = True, []
    for a, x in zip(axes, j):
        if a.kept:
            ok, i = a.inverse(x)
            sel = AND(sel, ok)
            ridx.append(i)
        else:
            sel = AND(sel, a.first == x)
    todo = list(ridx)
    full = [b.at(todo.pop(0)) if b.kept else b.first for b in axes2]
    want = ref.at([ITE(sel, x, 0) for x in full])
    got = s[j]
    ctx.observe(got)
    ctx.check(IMPLIES(NOT(sel), got == ref.at(j)),
              'assignment changes an element outside the slice')
    if sparse:
        sel = AND(sel, ref.specified(j))
    ctx.check(IMPLIES(sel, got == want), 'an assigned element reads differently')


def purity(ctx, arr, kinds):
    """Nothing but assignment changes an array."""
    s, ref = array(ctx, arr)
    shape = tuple(s.shape)
    index, axes = indexed(ctx, 'a', kinds, ref.shape)
    before_ = list(index)
    r = s[index]
    s.equal(s)
    s == s
    list(s.elements())
    s.is_full() if hasattr(s, 'size') else None
    len(s)
    c = s.copy()
    s.copy(unspecified=7)
    s.equal(c)
    c == s
    for to in ('Strided', 'COO', 'FlatCOO', 'DM') + (('CSR',) if len(shape) == 2 else ()):
        t = convert(ctx, s, to)
        t.equal(s)
        if hasattr(r, 'shape'):
            convert(ctx, r, 'COO' if to == 'CSR' else to)
    ctx.check(AND(same(tuple(s.shape), shape), s.unspecified == ref.U),
              'the shape or the value of unspecified elements has changed')
    ctx.check(AND(*[same_item(a, b) for a, b in zip(index, before_)]), 'the index has changed')
    j = any_index(ctx, ref.shape)
    got = s[key(j)]
    ctx.observe(got)
    ctx.check(got == ref.at(j), 'an element has changed')
    ctx.check(c[key(j)] == ref.at(j), 'an element of the copy has changed')
    if hasattr(r, 'shape'):
        ridx, full = pick(ctx, 'i', axes)
        ctx.check(r[ridx] == ref.at(full), 'an element of the slice has changed')
    wellformed(ctx, s)


def same_item(a, b):
    if isinstance(a, slice):
        return AND(*[EQ(x, y) for x, y in [(a.start, b.start), (a.stop, b.stop),
                                           (a.step, b.step)]])
    return EQ(a, b)


def source_isolation(ctx, fmt, shape, dm=None):
    """An array shares no memory with the nested list it was made from or assigned from."""
    seq, vals = source(ctx, shape, 'distinct')
    s = build(ctx, fmt, seq, dm)
    k, j = any_index(ctx, shape, 'k'), any_index(ctx, shape)
    k = tuple(map(ctx.conc, k))
    for i in indices(shape):
        ctx.check(get(seq, i) == vals[i], 'the list has changed')
    get(seq, k[:-1])[k[-1]] = 901
    ctx.check(s[j] == cell(vals, j), 'changing the list changes the array')
    s[k] = 902
    ctx.check(get(seq, k) == 901, 'changing the array changes the list')
    new = nest(shape, lambda i: 500 + ravel(i, shape))
    if fmt == 'Buffer':
        return
    s[(None,) * len(shape)] = new
    get(new, k[:-1])[k[-1]] = 903
    got = s[j]
    ctx.observe(got)
    ctx.check(got == 500 + ravel(j, shape), 'changing an assigned list changes the array')
    s[k] = 904
    ctx.check(get(new, k) == 903, 'changing the array changes an assigned list')


def rows(ctx, arr):
    """An array is the sequence of its rows: length, iteration and chained indexing."""
    s, ref = array(ctx, arr)
    shape = ref.shape
    out = list(iter(s))
    ctx.check(AND(len(s) == shape[0], len(out) == shape[0]), 'wrong number of rows')
    j = any_index(ctx, shape)
    want = ref.at(j)
    for n, row in enumerate(out):
        if len(shape) == 1:
            ctx.check(IMPLIES(j[0] == n, row == want), 'iteration yields another element')
        else:
            ctx.check(same(tuple(row.shape), shape[1:]), 'wrong shape of a row')
            ctx.check(IMPLIES(j[0] == n, row[j[1:]] == want), 'an element of a row is wrong')
    t = s
    for k, i in enumerate(j):
        i = i - shape[k] if k % 2 and arr['fmt'] != 'Buffer' else i
        t = t[i]
        if k + 1 < len(shape):
            ctx.check(same(tuple(t.shape), shape[k + 1:]), 'wrong shape of a row')
    ctx.observe(t)
    ctx.check(t == want, 'chained indexing reads another element')


def from_rows(ctx, arr, to):
    """An array rebuilt from the list of its rows has the same elements."""
    s, ref = array(ctx, arr)
    r = build(ctx, to, [s[n] for n in range(ref.shape[0])])
    ctx.check(same(tuple(r.shape), ref.shape), 'wrong shape')
    j = any_index(ctx, ref.shape)
    got = r[j]
    ctx.observe(got)
    ctx.check(got == ref.at(j), 'an element reads differently')


def parts(ctx, kind, N=4):
    """Constructors accept the parts that fit together and refuse others."""
    S = ctx.m.storage

    def buf(name):
        n = ctx.int(name, 0, N)
        return S.Buffer(n, 0, [0] * N), n
    if kind == 'Buffer':
        n, off = ctx.int('n', 0), ctx.int('off', 0)
        fits = off + n <= N

        def make():
            return S.Buffer(n, off, [0] * N)
    elif kind == 'FlatCOO':
        (a, n), (b, m) = buf('n'), buf('m')
        fits = n == m

        def make():
            return S.FlatCOO((5, 5), a, b)
    elif kind == 'COO':
        n = ctx.int('n', 0, N // 2)
        b, m = buf('m')
        fits = n == m

        def make():
            return S.COO((5, 5), S.Strided((2, n), (n, 1), S.Buffer(N, 0, [0] * N)), b)
    elif kind == 'CSR':
        (a, k), (c, n), (b, m) = buf('k'), buf('n'), buf('m')
        r = ctx.int('r', 0, N)
        fits = AND(k == r + 1, n == m)

        def make():
            return S.CSR((r, 5), a, c, b)
    elif kind == 'C2SR':
        (a, k), (d, l), (c, n) = buf('k'), buf('l'), buf('n')
        r = ctx.int('r', 0, N)
        fits = AND(k == l, k == r)

        def make():
            return S.C2SR((r, 5), 1, a, d, c, S.Buffer(n, 0, [0] * N))
    elif kind == 'axes':
        d = ctx.choose('d', 5)
        fits = d == 2
        rows = ctx.choose('format', 2)

        def make():
            none, shape = S.Buffer(0, 0, []), (1,) * d
            if rows:
                one = S.Buffer(1, 0, [0])
                return S.C2SR(shape, 1, one, one, none, none)
            return S.CSR(shape, S.Buffer(2, 0, [0, 0]), none, none)
    elif kind == 'Strided':
        n, m = ctx.choose('n', N), ctx.choose('m', N)
        fits = n == m

        def make():
            return S.Strided((1,) * n, (1,) * m, S.Buffer(N, 0, [0] * N))
    elif kind == 'part':
        p, q = ctx.int('p', -2, 5), ctx.int('q', -2, 5)
        fits = AND(0 < p, p < q, q < 3)
        # p == q is not checked: it leaves a group without axes
        ctx.assume(p != q)

        def make():
            return S.DM.fromobject([[[1, 2], [3, 4]]], partitioning=(p, q))
    elif kind == 'cut':
        p = ctx.int('p')
        fits = AND(0 < p, p < 3)

        def make():
            return S.DM.fromobject([[[1, 2], [3, 4]]], partitioning=(p,))
    else:
        assert kind == 'DM'
        a, b, c = (ctx.choose(x, 3) for x in 'abc')
        fits = {a, b, c} == {0, 1, 2}
        gs = ((a,), (b, c))

        def make():
            return S.DM((2, 2, 2), gs, ((1,), (2, 1)), (0, 0),
                        S.Strided((2, 4), (4, 1), S.Buffer(8, 0, [0] * 8)))
    try:
        make()
    except AssertionError:
        ctx.check(NOT(fits), 'parts that fit are refused')
        return
    ctx.check(fits, 'parts that do not fit are accepted')


def shortened(line):
    return line if len(line) <= 100 else line[:40] + '.....' + line[-40:]


def buffer_text(b):
    before, size = b.offset, b.size
    after = len(b.data) - before - size
    return 'Buffer(%d, %d, %s%s%s, unspecified=%s)' % (
        size, before, '*' * (before // 10) + '.' * (before % 10),
        shortened(str(b.data[before:before + size])),
        '.' * (after % 10) + '*' * (after // 10), b.unspecified)


def printing(ctx, arr, kinds):
    """Text of an array, and of a slice of it."""
    s, ref = array(ctx, arr)
    index, axes = indexed(ctx, 'a', kinds, ref.shape)

    def conc(x):
        if isinstance(x, slice):
            return slice(conc(x.start), conc(x.stop), conc(x.step))
        return None if x is None else ctx.conc(x)
    # constants, so that they have a text
    r = s[tuple(map(conc, index))]
    if not hasattr(r, 'shape'):
        return
    sizes = [ctx.conc(n) for n in r.shape]
    kept = [a for a in axes if a.kept]
    places = [[ctx.conc(a.at(i)) for i in range(n)] for a, n in zip(kept, sizes)]
    where = {id(a): k for k, a in enumerate(kept)}

    def element(i):
        return ref.at([places[where[id(a)]][i[where[id(a)]]] if a.kept else ctx.conc(a.first)
                       for a in axes])
    for x in (s, r):
        text, long = str(x), repr(x)
        ctx.check(str(x) == text and repr(x) == long, 'printing again gives another text')
        ctx.check(long.startswith(type(x).__name__ + '('), 'the text does not name the class')
        memory = x
        while not hasattr(memory, 'offset'):
            memory = memory.data
        ctx.check(buffer_text(memory) in long, 'the text does not show the memory')
        ctx.check(x is not r or arr['fmt'] == 'Strided' or text == long,
                  'str is not repr for a format other than strided')
    if arr['fmt'] == 'Strided':
        def line(pre, n):
            return '[%s]' % shortened(', '.join(str(element(pre + (i,))) for i in range(n)))
        if len(sizes) == 1:
            ctx.check(text == line((), sizes[0]), 'the line shows other elements')
        elif len(sizes) == 2:
            rows = [line((i,), sizes[1]) for i in range(sizes[0])]
            ctx.check(text == '[ ' + '\n  '.join(rows) + '\n]', 'the rows show other elements')
        else:
            ctx.check(text == long, 'str is not repr for more axes')
    ctx.observe(text)
    if 0 not in ref.shape:
        j = any_index(ctx, ref.shape)
        ctx.check(s[key(j)] == ref.at(j), 'an element has changed')


def long_line(ctx, rows=None):
    """Lines of about 100 characters."""
    S = ctx.m.storage
    k = ctx.conc(ctx.int('k', 30, 45))
    line = ['a' * 40, 'b' * k, 'c' * 20]
    want = '[%s]' % shortened(', '.join(line))
    s = S.Strided.fromobject(line if rows is None else [line] * rows)
    if rows is not None:
        want = '[ ' + '\n  '.join([want] * rows) + '\n]'
    got = str(s)
    ctx.observe(got)
    ctx.check(got == want, 'wrong text')
    buffer = S.Buffer(3, 0, line)
    ctx.check(repr(buffer) == buffer_text(buffer), 'wrong text of the buffer')


def buffer_marks(ctx, N, n):
    """Text of a window of n at any place of a memory of N."""
    S = ctx.m.storage
    before = ctx.conc(ctx.int('before', 0, N - n))
    b = S.Buffer(n, before, list(range(500, 500 + N)), unspecified=7)
    got = repr(b)
    ctx.observe(got)
    ctx.check(got == buffer_text(b) and str(b) == got, 'wrong text of the buffer')
