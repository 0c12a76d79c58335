"""Index arithmetic: slices, dimension reduction, row compression, Diophantine equations."""
from math import gcd
from sx.ops import AND, OR, NOT, IMPLIES, EQ, ITE, SELECT
from harness.lib import ref_slice, is_count, dot, cstrides, prod, axis_index, Axis


# slices ---------------------------------------------------------------------

def slice_reduction(ctx, start, stop, step, item=False, after=None):
    """start/stop: None or an arbitrary integer; step: None, a constant, 'pos' or 'neg';
    arbitrary size >= 0.  Oracle: Python's definition of slice positions.  after: another slice
    ('same' slice, of another size) was normalised before."""
    st = ctx.m.slice_tools
    size = ctx.int('size', 0)
    s = axis_index(ctx, '', (start, stop, step))
    if after is not None:
        p, psize = (s, ctx.int('psize', 0)) if after == 'same' else (
            axis_index(ctx, 'p', after), size)
        st.reduced(p, psize)
        st.nitems(p, psize)
    step = 1 if s.step is None else s.step
    r = st.reduced(s, size)
    n = st.nitems(s, size)
    n2 = st.nitems(r, size, reduce=False)
    ctx.observe(r, n, n2)
    first, limit = ref_slice(s.start, s.stop, step, size)
    ctx.check(is_count(n, first, limit, step), 'nitems is not the number of selected items')
    ctx.check(n == n2, 'nitems differs on the reduced slice')
    rf, rl = ref_slice(r.start, r.stop, r.step, size)
    ctx.check(is_count(n, rf, rl, r.step), 'the reduced slice selects another number of items')
    ctx.check(IMPLIES(n > 0, rf == first), 'the reduced slice starts at another item')
    ctx.check(IMPLIES(n > 1, r.step == step), 'the reduced slice has another step')
    if n > 0:
        ctx.check(r.start % size == first, 'documented start of the reduced slice is wrong')
        if item:
            i = ctx.int('i', 0)
            ctx.assume(i < n)
            ctx.check((r.start + i * r.step) % size == first + i * step,
                      'documented item of the reduced slice is wrong')


def shapes_of_slices(ctx, kinds):
    """Shape, strides and offset of an indexed strided array, through every helper that
    computes them.  Sizes, strides and the offset are arbitrary."""
    st = ctx.m.slice_tools
    n = len(kinds)
    shape = tuple(ctx.int('n%d' % k, 1) for k in range(n))
    strides = tuple(ctx.int('t%d' % k) for k in range(n))
    items = tuple(axis_index(ctx, str(k), kind) for k, kind in enumerate(kinds))
    axes = [Axis(ctx, it, m) for it, m in zip(items, shape)]
    kept = [a for a in axes if a.kept]

    def expect(rshape, rstrides, roffset, base, what):
        ctx.check(AND(len(rshape) == len(kept), len(rstrides) == len(kept)),
                  what + ': dimensionality')
        ctx.check(AND(*[a.count_is(m) for a, m in zip(kept, rshape)]), what + ': shape')
        # the address of every selected element, linear in the position along each axis
        nonempty = AND(*[m > 0 for m in rshape])
        first = base
        for a, t in zip(axes, strides):
            first = first + a.first * t
        ctx.check(IMPLIES(nonempty, roffset == first), what + ': offset')
        strides_kept = [t for a, t in zip(axes, strides) if a.kept]
        ctx.check(IMPLIES(nonempty, AND(*[
            OR(m <= 1, rt == t * a.step)
            for a, m, t, rt in zip(kept, rshape, strides_kept, rstrides)])), what + ': strides')

    norm = st.normalize_index(items, shape)
    base = ctx.int('base')
    r = st.index_strided(norm, shape, strides, base)
    ctx.observe(r)
    expect(*r, base, 'index_strided')
    ctx.check(EQ(st.shape_strided(norm, shape), r[0]), 'shape_strided differs')
    r2 = st.apply_slices(items, shape, strides)
    expect(*r2, 0, 'apply_slices')


# dimension reduction ----------------------------------------------------------

def reduction_maps(ctx, shape, dims=None, part=None, hi=None):
    """shape: sizes, None for an arbitrary one.  dims/part None: every one (a choice)."""
    b = ctx.m.basics
    N = len(shape)
    if dims is None:
        dims = permutation(ctx, N)
    if part is None:
        part = partitioning(ctx, N)
    shape = tuple(ctx.int('n%d' % k, 1, hi) if s is None else s for k, s in enumerate(shape))
    md = b.create_reduction_metadata(shape, dims, part)
    idx = tuple(ctx.int('i%d' % k, 0) for k in range(N))
    ctx.assume(AND(*[i < s for i, s in zip(idx, shape)]))
    r = b.reduction(md, idx)
    ctx.observe(r)
    groups = split(dims, part)
    rshape = tuple(prod(shape[d] for d in g) for g in groups)
    ctx.check(EQ(tuple(md['reduction_shape']), rshape), 'wrong shape of the reduced array')
    # documented formula: row-major position within each group of axes
    want = tuple(dot([idx[d] for d in g], cstrides([shape[d] for d in g])) for g in groups)
    ctx.check(EQ(tuple(r), want), 'reduced index differs from the documented formula')
    back = b.promotion(md, r)
    ctx.check(len(back) == N, 'promoted index has a wrong dimensionality')
    for x, y in zip(back, idx):
        ctx.check(x == y, 'promotion does not invert reduction')


def reduction_pair(ctx, configs):
    """Two metadata objects, both in use: neither depends on the other.  configs: (shape, dims,
    part); every pair of them."""
    b = ctx.m.basics
    two = []
    for k in range(2):
        shape, dims, part = configs[ctx.choose('config%d' % k, len(configs))]
        two.append((shape, split(dims, part), b.create_reduction_metadata(shape, dims, part)))
    for k, (shape, groups, md) in enumerate(two):
        idx = tuple(ctx.int('i%d_%d' % (k, d), 0, n - 1) for d, n in enumerate(shape))
        r = b.reduction(md, idx)
        want = tuple(dot([idx[d] for d in g], cstrides([shape[d] for d in g])) for g in groups)
        ctx.observe(r)
        ctx.check(EQ(tuple(r), want), 'reduced index differs from the documented formula')
        ctx.check(EQ(tuple(b.promotion(md, r)), idx), 'promotion does not invert reduction')


def promotion_maps(ctx, shape, dims=None, part=None):
    """The other direction: every reduced index is the reduction of its promotion."""
    b = ctx.m.basics
    N = len(shape)
    if dims is None:
        dims = permutation(ctx, N)
    if part is None:
        part = partitioning(ctx, N)
    md = b.create_reduction_metadata(shape, dims, part)
    groups = split(dims, part)
    ridx = tuple(ctx.int('r%d' % k, 0, prod(shape[d] for d in g) - 1)
                 for k, g in enumerate(groups))
    idx = b.promotion(md, ridx)
    ctx.observe(idx)
    ctx.check(AND(*[AND(0 <= i, i < s) for i, s in zip(idx, shape)]),
              'promoted index is out of range')
    ctx.check(EQ(tuple(b.reduction(md, idx)), ridx), 'reduction does not invert promotion')


def permutation(ctx, N):
    left, out = list(range(N)), []
    for k in range(N):
        out.append(left.pop(ctx.choose('perm%d' % k, len(left))))
    return tuple(out)


def partitioning(ctx, N):
    return tuple(k for k in range(1, N) if ctx.choose('cut%d' % k, 2))


def split(dims, part):
    cuts = (0,) + tuple(part) + (len(dims),)
    return [tuple(dims[a:b]) for a, b in zip(cuts, cuts[1:])]


# row compression --------------------------------------------------------------

def compression(ctx, where, nse, size):
    """Arbitrary non-decreasing rows in range(size)."""
    m = ctx.m.basics if where == 'basics' else ctx.m.storage
    rows = [ctx.int('r%d' % k, 0, size - 1) for k in range(nse)]
    ctx.assume(AND(*[a <= b for a, b in zip(rows, rows[1:])]))
    c = m.compress_indices(list(rows), size)
    ctx.observe(c)
    ctx.check(len(c) == size + 1, 'wrong length of the compressed rows')
    for k in range(size + 1):
        below = 0
        for r in rows:
            below = below + ITE(r < k, 1, 0)
        ctx.check(c[k] == below, 'compressed[k] is not the number of entries in rows before k')
    if where != 'basics':
        ctx.check(EQ(list(m.uncompress_indices(c)), rows), 'uncompress does not invert compress')


def compression_large(ctx, where, counts):
    """Given numbers of entries in each row; arbitrary row and entry."""
    m = ctx.m.basics if where == 'basics' else ctx.m.storage
    rows = [r for r, n in enumerate(counts) for _ in range(n)]
    c = m.compress_indices(list(rows), len(counts))
    ctx.check(len(c) == len(counts) + 1, 'wrong length of the compressed rows')
    k = ctx.int('k', 0, len(counts))
    got = SELECT(list(c), k)
    ctx.observe(got)
    ctx.check(got == SELECT([sum(counts[:r]) for r in range(len(counts) + 1)], k),
              'compressed[k] is not the number of entries in rows before k')
    if where != 'basics':
        back = list(m.uncompress_indices(list(c)))
        ctx.check(len(back) == len(rows), 'uncompress does not invert compress')
        if rows:
            e = ctx.int('e', 0, len(rows) - 1)
            ctx.check(SELECT(back, e) == SELECT(rows, e), 'uncompress does not invert compress')


def expansion(ctx, nse, size):
    """Arbitrary valid compressed rows."""
    m = ctx.m.storage
    c = [0] + [ctx.int('c%d' % k, 0, nse) for k in range(1, size)] + [nse]
    ctx.assume(AND(*[a <= b for a, b in zip(c, c[1:])]))
    rows = m.uncompress_indices(list(c))
    ctx.observe(rows)
    ctx.check(len(rows) == nse, 'wrong number of expanded rows')
    ctx.check(EQ(list(m.compress_indices(rows, size)), c), 'compress does not invert uncompress')


# Diophantine equations ----------------------------------------------------------

def diophantine_two(ctx, vectors):
    """Two equations solved one after the other; both solutions stay sound, and unsolvability
    is reported exactly."""
    st = ctx.m.slice_tools
    two = []
    for k in range(2):
        a = vectors[ctx.choose('a%d' % k, len(vectors))]
        c = ctx.int('c%d' % k)
        two.append((k, a, c, st.diophantine(a, c)))
    for k, a, c, (x0, zs) in two:
        ctx.observe(x0, zs)
        if x0 is None:
            ctx.check(c % gcd(*a) != 0, 'a solvable equation is reported unsolvable')
            continue
        t = [ctx.int('t%d_%d' % (k, i)) for i in range(len(zs))]
        ctx.check(len(zs) == len(a) - 1, 'wrong number of free parameters')
        x = [x0[i] + dot(t, [z[i] for z in zs]) for i in range(len(a))]
        ctx.check(dot(a, x) == c, 'the parametrised solution does not satisfy the equation')


def kernel_coordinates(zs):
    """Integer matrix W with (t zs) W == t for every integer vector t, or None when the rows
    of zs do not generate all integer points of their span."""
    rows, n = [list(z) for z in zs], len(zs[0]) if zs else 0
    m = len(rows)
    U = [[int(i == j) for j in range(n)] for i in range(n)]     # column operations
    for i in range(m):
        while True:
            nz = [j for j in range(i, n) if rows[i][j]]
            if not nz:
                return None
            p = min(nz, key=lambda j: abs(rows[i][j]))
            for M in (rows, U):
                for row in M:
                    row[i], row[p] = row[p], row[i]
            done = True
            for j in range(i + 1, n):
                q = rows[i][j] // rows[i][i]
                if q:
                    for M in (rows, U):
                        for row in M:
                            row[j] -= q * row[i]
                if rows[i][j]:
                    done = False
            if done:
                break
        if abs(rows[i][i]) != 1:
            return None
    # rows is lower triangular with +-1 diagonal: t L = y, solve for t through L^-1
    L = [r[:m] for r in rows]
    inv = [[0] * m for _ in range(m)]
    for c in range(m):
        for r in range(c, m):
            acc = int(r == c) - sum(L[r][k] * inv[k][c] for k in range(c, r))
            inv[r][c] = acc * L[r][r]
    return [[sum(U[i][k] * inv[k][j] for k in range(m)) for j in range(m)] for i in range(n)]


def diophantine_solutions(ctx, n, B, coeffs=None):
    """Coefficients: every non-zero integer vector with |a[i]| <= B (forked), or the given one.
    The right-hand side, the parameters and the solution are arbitrary integers."""
    st = ctx.m.slice_tools
    if coeffs is None:
        coeffs = []
        for k in range(n):
            a = ctx.int('a%d' % k, -B, B)
            ctx.assume(a != 0)
            coeffs.append(ctx.conc(a))
    a = tuple(coeffs)
    c = ctx.int('c')
    x0, zs = st.diophantine(a, c)
    ctx.observe(x0, zs)
    x = [ctx.int('x%d' % k) for k in range(n)]
    if x0 is None:
        ctx.check(dot(a, x) != c, 'a solvable equation is reported unsolvable')
        return
    t = [ctx.int('t%d' % k) for k in range(len(zs))]
    ctx.check(len(zs) == n - 1, 'wrong number of free parameters')

    def at(t):
        return [x0[i] + dot(t, [z[i] for z in zs]) for i in range(n)]
    ctx.check(dot(a, at(t)) == c, 'the parametrised solution does not satisfy the equation')
    W = kernel_coordinates(zs)
    ctx.assume(dot(a, x) == c)
    if W is None:
        # some solution lies off the lattice: find it among the small ones
        import itertools
        for d in itertools.product(range(-2 * B, 2 * B + 1), repeat=n):
            if dot(a, d) == 0 and not in_lattice(d, zs):
                ctx.check(False, 'a solution is not generated by the parameters')
        ctx.check(False, 'a solution is not generated by the parameters (singular basis)')
    d = [x[i] - x0[i] for i in range(n)]
    tt = [dot(d, [W[i][j] for i in range(n)]) for j in range(n - 1)]
    ctx.check(EQ(at(tt), x), 'a solution is not generated by the parameters')


def in_lattice(d, zs):
    """d is an integer combination of the rows zs (Gaussian elimination over fractions)."""
    from fractions import Fraction
    m = len(zs)
    A = [[Fraction(z[i]) for z in zs] + [Fraction(d[i])] for i in range(len(d))]
    r = 0
    for col in range(m):
        p = next((i for i in range(r, len(A)) if A[i][col]), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        A[r] = [v / A[r][col] for v in A[r]]
        for i in range(len(A)):
            if i != r and A[i][col]:
                A[i] = [u - A[i][col] * v for u, v in zip(A[i], A[r])]
        r += 1
    return all(not row[m] for row in A[r:]) and all(row[m].denominator == 1 for row in A[:r])


# position -> index ---------------------------------------------------------------

def sliced_geometry(ctx, shape, axes, steps=None, negative=True, tag='g'):
    """Shape and strides of an arbitrary slice of a row-major array of the given shape; only
    the listed axes are kept.  Forks over every step and count."""
    full = cstrides(shape)
    rshape, rstrides = [], []
    for k in axes:
        n = shape[k]
        mags = steps or list(range(1, max(2, n)))
        signs = [1, -1] if negative else [1]
        options = [(g * s, c) for s in mags for g in signs
                   for c in range(1, (n - 1) // s + 2)]
        options = sorted(set(options))
        step, count = options[ctx.choose('%s%d' % (tag, k), len(options))]
        rshape.append(count)
        rstrides.append(full[k] * step)
    return tuple(rshape), tuple(rstrides)


def reorder(ctx, rshape, rstrides, perm):
    """The same geometry with its axes in another order ('any': every order)."""
    if perm is None:
        return rshape, rstrides
    if perm == 'any':
        perm = permutation(ctx, len(rshape))
    return tuple(rshape[i] for i in perm), tuple(rstrides[i] for i in perm)


def invert_position(ctx, shape, axes, steps=None, negative=True, data=False, perm=None):
    st = ctx.m.slice_tools
    rshape, rstrides = sliced_geometry(ctx, shape, axes, steps, negative)
    rshape, rstrides = reorder(ctx, rshape, rstrides, perm)
    pos = ctx.int('pos')
    if data:
        d = st.get_solve_index_data(rstrides, shape=rshape)
        r = st.solve_index(pos, rshape, rstrides, data=d)
    else:
        r = st.solve_index(pos, rshape, rstrides)
    ctx.observe(r)
    i = [ctx.int('i%d' % k, 0, n - 1) for k, n in enumerate(rshape)]
    at = dot(i, rstrides)
    if r is None:
        ctx.check(at != pos, 'a selected position is reported as not selected')
        return
    ctx.check(AND(len(r) == len(rshape), *[AND(0 <= x, x < n) for x, n in zip(r, rshape)]),
              'the index is outside the slice')
    ctx.check(dot(r, rstrides) == pos, 'the index denotes another position')
    ctx.check(IMPLIES(at == pos, EQ(list(r), i)), 'another index denotes the same position')


def invert_large(ctx, rshape, rstrides, data=True, perm=None, signs=False):
    """Positions of one given (large) slice."""
    st = ctx.m.slice_tools
    rshape, rstrides = reorder(ctx, rshape, rstrides, perm)
    if signs:       # in either direction along each axis
        rstrides = tuple(-x if ctx.choose('sign%d' % k, 2) else x for k, x in enumerate(rstrides))
    pos = ctx.int('pos')
    d = dict(data=st.get_solve_index_data(rstrides, shape=rshape)) if data else {}
    r = st.solve_index(pos, rshape, rstrides, **d)
    ctx.observe(r)
    i = [ctx.int('i%d' % k, 0, n - 1) for k, n in enumerate(rshape)]
    at = dot(i, rstrides)
    if r is None:
        ctx.check(at != pos, 'a selected position is reported as not selected')
        return
    ctx.check(AND(len(r) == len(rshape), *[AND(0 <= x, x < n) for x, n in zip(r, rshape)]),
              'the index is outside the slice')
    ctx.check(dot(r, rstrides) == pos, 'the index denotes another position')


def invert_two(ctx, shape, axes, steps, data=False, shape2=None, perm=None):
    """Positions in one slice are inverted the same after another slice was used."""
    st = ctx.m.slice_tools
    two = []
    for k, sh in enumerate((shape, shape2 or shape)):
        rshape, rstrides = sliced_geometry(ctx, sh, axes, steps, False, 'hg'[k])
        rshape, rstrides = reorder(ctx, rshape, rstrides, perm)
        two.append([rshape, rstrides, ctx.int('pos%d' % k),
                    st.get_solve_index_data(rstrides, shape=rshape) if data else None])
    for k, (rshape, rstrides, pos, d) in enumerate(two):
        r = st.solve_index(pos, rshape, rstrides, **(dict(data=d) if data else {}))
        ctx.observe(r)
        i = [ctx.int('i%d_%d' % (k, d), 0, n - 1) for d, n in enumerate(rshape)]
        if r is None:
            ctx.check(dot(i, rstrides) != pos, 'a selected position is reported as not selected')
            continue
        ctx.check(AND(len(r) == len(rshape), *[AND(0 <= x, x < n) for x, n in zip(r, rshape)]),
                  'the index is outside the slice')
        ctx.check(dot(r, rstrides) == pos, 'the index denotes another position')


def translate_index(ctx, shape, kinds):
    """Index of an array <-> index of its slice."""
    import warnings
    S, st = ctx.m.storage, ctx.m.slice_tools
    items = tuple(axis_index(ctx, str(k), kind) for k, kind in enumerate(kinds))
    axes = [Axis(ctx, it, n) for it, n in zip(items, shape)]
    strides = cstrides(shape)
    sshape, sstrides, soffset = st.index_strided(st.normalize_index(items, shape), shape, strides)
    idx = tuple(ctx.int('x%d' % k, 0, n - 1) for k, n in enumerate(shape))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = S.get_slice_index(idx, shape, strides, sshape, sstrides, soffset)
        ctx.observe(r)
        # is idx selected?
        want, sel = [], True
        for a, x, n in zip(axes, idx, shape):
            if not a.kept:
                sel = AND(sel, x == a.first)
                continue
            s, i = a.inverse(x)
            sel = AND(sel, s)
            want.append(i)
        if r is None:
            ctx.check(NOT(sel), 'a selected element is reported as outside the slice')
            return
        ctx.check(sel, 'an element outside the slice is reported as selected')
        ctx.check(EQ(list(r), want), 'wrong index in the slice')
        back = S.get_index_slice(r, shape, strides, sshape, sstrides, soffset)
        ctx.check(EQ(tuple(back), idx), 'the index in the slice denotes another element')
