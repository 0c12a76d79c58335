"""The jobs (harness, parameters, bounds) that decide each property."""
import itertools

COMMON_ASSUMPTIONS = [
    'Python integers are mathematical integers (exact); element values are integers or None, '
    'compared with == only.',
    'CPython executes the instrumented sources as it executes the originals (sampled paths are '
    'replayed on the uninstrumented code and must agree: traces_validated_against_impl).',
    'z3 4.x/5.x answers are trusted (unsat = holds); unknown counts as undecided, never as held.',
    'gcs/_version.py (git version strings) is stubbed at import, except in C27.',
]

NLA = dict(div_mode='nla')


def job(module, function, options=None, **params):
    return dict(module=module, function=function, params=params, options=options or {})


def arith(fn, **kw):
    return job('arith', fn, **kw)


def arrays(fn, **kw):
    return job('arrays', fn, **kw)


# array descriptions -------------------------------------------------------------

def strided(*shape, **kw):
    return dict(fmt='Strided', shape=shape, **kw)


def sp(fmt, shape, nse, **kw):
    return dict(fmt=fmt, shape=shape, nse=nse, **kw)


def fixed(fmt, shape, n, **kw):
    """Sparse array with n specified elements at listed positions, arbitrary values."""
    return dict(fmt=fmt, shape=shape, at=n, **kw)


def at(*a):
    """A slice with constant bounds and step."""
    return ('at',) + (a + (None,) * 3)[:3]


def dm(shape, dims, part, data, nse=None, **kw):
    d = dict(fmt=data) if isinstance(data, str) else data
    if nse is not None:
        d = dict(d, nse=nse)
    elif data == 'Strided':
        d = dict(d, cells='distinct')
    return dict(fmt='DM', shape=shape, dims=dims, part=part, data=d, **kw)


def nested(shape, dims, part, dims2, part2, data, nse=None):
    """DM over DM."""
    inner = dict(fmt=data) if nse is None else dict(fmt=data, nse=nse)
    if nse is None:
        inner['cells'] = 'distinct'
    return dict(fmt='DM', shape=shape, dims=dims, part=part,
                data=dict(fmt='DM', dims=dims2, part=part2, data=inner))


DISTINCT = dict(cells='distinct')


def windowed(arr):
    """The same array over windows of larger memories."""
    if arr['fmt'] == 'DM':
        return dict(arr, data=windowed(arr['data']))
    return dict(arr, window=True)


def mappings(shape, data, nse=None, **kw):
    """Every axis order and partition of a dimension mapping."""
    n = len(shape)
    return [dm(shape, d, p, data, nse, **kw) for d in itertools.permutations(range(n))
            for k in range(n) for p in itertools.combinations(range(1, n), k)
            if not ((data['fmt'] if isinstance(data, dict) else data) == 'CSR' and len(p) != 1)]


SOME_SLICES = [('int', None, ('r', 0, -1)), (('r', 0, -1), None, 'int'), (None, 'int', (0, 'r', 2))]


def mixed(arr, **kw):
    """The same array with elements of several types."""
    if arr['fmt'] == 'DM':
        return dict(arr, data=mixed(arr['data']), **kw)
    return dict(arr, cells='mixed', **kw)


SPARSE = ('COO', 'FlatCOO', 'CSR')


# C01 ------------------------------------------------------------------------------

def c01(tier):
    out = []
    steps = [None, 1, -1, 2, -2, 3, -3, 7, -7, 'pos', 'neg']
    if tier == 'thorough':
        steps += [s * k for k in (4, 5, 6, 8, 10, 16, 17, 64, 100) for s in (1, -1)]
    for step in steps:
        for start, stop in itertools.product((1, 0), repeat=2):
            out.append(arith('slice_reduction', options=NLA, start=start, stop=stop, step=step,
                             item=step not in ('pos', 'neg')))
    # results do not depend on what was computed before
    F = (1, 1)
    for step, after in [(2, 'same'), (-1, 'same'), (2, F + (3,)), (-1, F + (-2,)),
                        (1, F + (-1,)), (-2, F + (2,)), (None, (1, 0, None))]:
        out.append(arith('slice_reduction', options=NLA, start=1, stop=1, step=step,
                         after=after))
    return out


# C02 ------------------------------------------------------------------------------

def c02(tier):
    F = (1, 1)
    one = [F + (s,) for s in (None, 1, 2, -1, -2, 'pos', 'neg')]
    out = [arith('shapes_of_slices', options=NLA, kinds=(k,)) for k in one]
    out += [arith('shapes_of_slices', options=NLA, kinds=k) for k in [
        ('int',), (None,), ('int', 'int'), (None, 'int'), ('int', None),
        ('int', F + ('pos',)), (F + ('neg',), 'int'), (None, F + ('neg',)), (F + (3,), None),
        (F + (-1,), (0, 1, 2)), ((1, 0, 3), (1, 0, -1)), ((0, 1, 'pos'), (1, 0, 'neg')),
        ('int', (1, 0, 2), None), ((1, 0, -1), 'int', (0, 1, 2)), (None, (1, 1, -2), 'int'),
        ((1, 0, 2), None, 'int', None), ('int', None, (0, 1, -1), 'int')]]
    out += [arrays('view_any', options=NLA, kinds=(k,)) for k in one]
    out += [arrays('view_any', options=NLA, kinds=k) for k in [
        ('int',), (None,), ('int', 'int'), ('int', F + (2,)), (F + (-1,), 'int'),
        (None, F + (1,)), (F + (-3,), None), ('int', None, 'int'), (None, 'int', (1, 0, -1)),
        ((0, 1, 2), 'int', None), ('int', 'int', F + (-2,)), ('int',) * 4]]
    out += [arrays('view_any', options=NLA, strides=s, kinds=k) for s, k in [
        ((5, 1), (('r', 'r', 2), ('r', 0, -1))), ((7, 2), (('r', 0, -2), (0, 'r', 3))),
        ((1, 6), ((1, 0, -1), ('r', 'r', 1))),
        ((20, 5, 1), (('r', 0, 2), None, (0, 'r', -1)))]]
    out += [arrays('slicing', arr=strided(3, 4), kinds=k) for k in
            [(('r', 'r', 1), ('r', 'r', -1)), ('int', ('r', 'r', 2)), ('int', 'int')]]
    out += [arrays('slicing', arr=strided(*sh, cells='distinct'), kinds=k, bare=b)
            for sh, k, b in [
        ((7,), (F + (2,),), True), ((5,), ('int',), True), ((4, 3), (F + (-1,),), True),
        ((4, 3), ('int',), True), ((4, 3), (F + (2,),), False), ((4, 3), (None,), True),
        ((4,), (None,), True), ((4, 3), (), False),
        ((2, 3, 4), ('int', ('r', 'r', 2)), False), ((2, 3, 2, 2), (None, 'int', ('r', 0, -1)), False),
        ((2, 2, 2, 2, 2), ('int', None, ('r', 0, -1), 'int', (0, 'r', 1)), False)]]
    out += [arrays('slicing', arr=dict(a, **w), kinds=k, twin=t) for k in [
                ('int', ('r', 'r', -1)), (('r', 0, 2), None), (('r', 0, -1), 'int')]
            for a in [strided(2, 3, **DISTINCT)] for w in ({}, dict(window=True))
            for t in (None, dict(fmt='COO', shape=(2, 3), nse=1), strided(2, 3))]
    if tier == 'thorough':
        out += [arrays('view_any', options=NLA, kinds=k) for k in [
            (F + (1,), ('r', 'r', 1)), (F + (2,), (1, 0, -1)), ((0, 1, -2), F + (1,)),
            ((1, 0, 'pos'), 'int'), ('int', (0, 1, 'neg')), ('int', 'int', 'int', F + (-1,))]]
        out += [arith('shapes_of_slices', options=NLA, kinds=k) for k in [
            (F + ('pos',), F + (2,)), (F + (-2,), F + ('neg',)),
            (F + (1,), F + (-1,), 'int'), ((1, 0, 2), (0, 1, -1), (1, 0, 1))]]
    return out


# C03 ------------------------------------------------------------------------------

def c03(tier):
    out = []
    for shape in [(5,), (3, 4), (3, 4, 5), (1, 4, 3), (2, 3, 1), (3, 4, 2, 5)]:
        out += [arith('reduction_maps', shape=shape), arith('promotion_maps', shape=shape)]
    for n in (1, 2):
        out.append(arith('reduction_maps', options=NLA, shape=(None,) * n))
    out += [arith('reduction_maps', options=NLA, shape=(None,) * 3, part=p)
            for p in [(1,), (2,), (1, 2)]]
    out += [arith('reduction_maps', options=NLA, shape=(None,) * 4, part=p)
            for p in [(2,), (1, 2), (1, 3), (2, 3), (1, 2, 3)]]
    out += [arith('reduction_maps', options=NLA, shape=(None, 4, 3), dims=(0, 1, 2)),
            arith('reduction_maps', options=NLA, shape=(4, None, 3), dims=(1, 0, 2)),
            arith('reduction_maps', options=NLA, shape=(None, 2, 3, 5), dims=(0, 2, 1, 3), part=()),
            arith('reduction_maps', shape=(2, 3, 4, 5, 6), dims=(4, 0, 2, 1, 3)),
            arith('promotion_maps', shape=(2, 3, 4, 5, 6), dims=(3, 1, 4, 0, 2)),
            arith('reduction_maps', shape=(4, 3, 5, 2, 7, 6), dims=(5, 3, 1, 0, 2, 4)),
            arith('promotion_maps', shape=(4, 3, 5, 2, 7, 6), dims=(5, 3, 1, 0, 2, 4))]
    configs = [(s, d, p) for s in [(2, 3, 4), (4, 3, 2)] for d in itertools.permutations(range(3))
               for p in [(), (1,), (2,), (1, 2)]]
    out += [arith('reduction_pair', configs=configs[n::4]) for n in range(4)]
    out += [arith('reduction_pair', configs=configs[n::9]) for n in range(9)]
    out.append(arith('reduction_pair', configs=[
        (s, d, p) for s in [(2, 3), (3, 2), (6, 1), (2, 6)] for d in [(0, 1), (1, 0)]
        for p in [(), (1,)]]))
    if tier == 'thorough':
        out += [arith('reduction_maps', shape=(2, 3, 4, 5, 6)),
                arith('promotion_maps', shape=(2, 3, 4, 5, 6)),
                arith('reduction_maps', options=NLA, shape=(None,) * 3, part=())]
        out += [arith('reduction_maps', options=NLA, shape=(None,) * 5, part=p)
                for p in [(1, 3), (2, 4), (1, 2, 3, 4)]]
    return out


# C04 ------------------------------------------------------------------------------

def c04(tier):
    out = []
    N, M = (5, 6) if tier == 'quick' else (7, 8)
    for nse in range(N + 1):
        for size in range(0 if nse == 0 else 1, M + 1):
            if nse * size > 30 and tier == 'quick':
                continue
            for where in ('storage', 'basics'):
                out.append(arith('compression', where=where, nse=nse, size=size))
            if size:
                out.append(arith('expansion', nse=nse, size=size))
    out += [arith('compression', where=w, nse=2, size=30) for w in ('storage', 'basics')]
    out += [arith('compression', where=w, nse=10, size=2) for w in ('storage', 'basics')]
    out += [arith('expansion', nse=12, size=2)]
    # many entries and rows
    for w in ('storage', 'basics'):
        out += [arith('compression_large', where=w, counts=c) for c in [
            [3] * 40, [0, 0, 5, 0, 17, 0, 0, 0, 33, 1, 0], [0] * 70 + [4] + [0] * 30, [130],
            [n % 4 for n in range(101)], [0, 65, 0], [1] * 257, [0] * 300]]
    return out


# C05 ------------------------------------------------------------------------------

COEFFS = [(12, 18, 27), (4, 6, 15, 16, 12), (2, -2, 6, -12, 6, 4), (30, 42, 70, 105),
          (1, 1, 1, 1), (6, 10, 15), (7, -11, 13), (1000, 10, 1), (24, 6, 2, 1),
          (-100, 25, -5, 3), (60, -20, 5, 2, -1), (9, 9, 9), (64, 48, 36, 27)]

LARGE = [(10**18 + 9, 10**9 + 7), (2**53 + 1, 2**53 - 1), (3 * 2**60, 5 * 2**60, 7 * 2**59),
         (10**12, -10**6, 1), (2**31, 2**31 - 1, -2**16), (123456789, 987654321, 192837465, 6),
         (2**53 + 1,), (-(10**17 + 3), 2 * (10**17 + 3)), (3**40, 2**60)]


def c05(tier):
    out = [arith('diophantine_solutions', n=1, B=30), arith('diophantine_solutions', n=2, B=8),
           arith('diophantine_solutions', n=3, B=3)]
    out += [arith('diophantine_solutions', n=len(a), B=max(map(abs, a)), coeffs=a)
            for a in COEFFS]
    out += [arith('diophantine_two', vectors=v) for v in [
        [(2, 3), (3, 2), (-2, 3), (2, -3), (4, 6), (6, 4), (1, 1), (2, 4)],
        [(2, 3, 5), (3, 2, 5), (2, 5, 3), (-2, 3, 5), (4, 6, 10), (5, 2, 3), (1, 1, 1)],
        [(6, 10, 15), (6, 10), (10, 15, 6), (15,), (6, 10, 15, 30), (12, 20, 30)]]]
    if tier == 'thorough':
        out += [arith('diophantine_solutions', n=2, B=40),
                arith('diophantine_solutions', n=3, B=6),
                arith('diophantine_solutions', n=4, B=3)]
    out += [arith('diophantine_solutions', n=len(a), B=max(map(abs, a)), coeffs=a)
            for a in LARGE]
    return out


# C06 ------------------------------------------------------------------------------

def c06(tier):
    inv = [((12,), (0,)), ((1,), (0,)), ((4, 5), (0, 1)), ((5, 4), (0, 1)), ((4, 5), (0,)),
           ((4, 5), (1,)), ((1, 6), (0, 1)), ((6, 1), (0, 1)), ((2, 3, 2), (0, 1, 2)),
           ((3, 2, 2), (0, 1, 2)), ((4, 3, 3), (0, 1)), ((4, 3, 3), (0, 2)), ((3, 3, 4), (1, 2)),
           ((2, 2, 2, 2), (0, 1, 2, 3)), ((3, 2, 2, 2), (0, 2, 3))]
    out = [arith('invert_position', shape=s, axes=a, data=d)
           for n, (s, a) in enumerate(inv) for d in ((n % 2 == 0,) if n > 2 else (True, False))]
    out += [arith('invert_position', shape=s, axes=a, steps=st, negative=False)
            for s, a, st in [((3, 3, 4), (0, 1, 2), (1, 2)), ((2, 2, 2, 3), (0, 1, 2, 3), (1,)),
                             ((2, 2, 2, 2, 2), (0, 1, 2, 3, 4), (1,))]]
    out += [arith('invert_position', shape=s, axes=a, steps=(1,)) for s, a in [
        ((20, 30), (0, 1)), ((5, 6, 7), (0,))][1:]]
    out += [arith('invert_two', data=d, **k) for d in (True, False) for k in [
        dict(shape=(3, 3), axes=(0, 1), steps=(1, 2)), dict(shape=(5,), axes=(0,), steps=None),
        dict(shape=(3, 4), axes=(0,), steps=(1, 2)),
        dict(shape=(2, 2, 2), axes=(0, 1, 2), steps=(1,)),
        dict(shape=(2, 6), axes=(0, 1), steps=(1,), shape2=(6, 2)),
        dict(shape=(2, 6), axes=(0, 1), steps=(1,), shape2=(4, 6)),
        dict(shape=(3, 2, 2), axes=(0, 2), steps=(1,), shape2=(3, 4, 1))]]
    out += [arith('translate_index', shape=s, kinds=k) for s, k in [
        ((7,), ((1, 1, 2),)), ((7,), ((1, 1, -3),)), ((4, 5), ((1, 1, 2), 'int')),
        ((4, 5), ('int', (1, 1, -1))), ((3, 4), ((1, 1, 1), ('r', 'r', -2))),
        ((2, 3, 2), (None, ('r', 'r', 1), 'int'))]]
    if tier == 'thorough':
        out += [arith('invert_position', shape=s, axes=a, data=True) for s, a in [
            ((6, 7), (0, 1)), ((3, 3, 4), (0, 1, 2)), ((4, 3, 3), (0, 1, 2)),
            ((2, 3, 2, 2), (0, 1, 2, 3)), ((2, 2, 2, 2, 2), (0, 1, 2, 3, 4)), ((60,), (0,))]]
        out += [arith('translate_index', shape=s, kinds=k) for s, k in [
            ((3, 4), ((1, 1, 2), (1, 1, -1))), ((2, 3, 2), (('r', 'r', -1), ('r', 0, 1), None))]]
    out += [arith('invert_large', rshape=s, rstrides=t, data=d) for s, t in [
        ((1000,), (7,)), ((300, 400), (400, 1)), ((12, 29), (400 * 20, -13)),
        ((150, 200), (-800, 2)), ((15, 20, 25), (1000, 40, 1)), ((4, 7, 9), (6000, -120, 4)),
        ((10, 30, 20), (1200, 40, -2)), ((33,), (-2**40,)),
        ((6, 5, 7, 8), (280, 56, 8, 1)), ((2, 3, 3, 4), (-896, 112, -16, 3)),
        ((1000, 1000), (10**6, 10**3 - 999)), ((97, 1, 89), (89, 89, 1))] for d in (True, False)]
    out += [arith('invert_large', rshape=s, rstrides=t, signs=True, data=d) for s, t, d in [
        ((2, 2, 2, 2, 2), (16, 8, 4, 2, 1), True), ((2, 2, 2, 2, 2), (24, 12, 6, 3, 2), False),
        ((5, 1, 1, 2, 5), (480, 360, 90, 15, 1), True), ((3, 4, 2, 5, 3), (240, 60, 20, 4, 1), True),
        ((1, 2, 1, 1, 2), (16, 8, 4, 2, 1), False), ((1, 1, 1, 2, 1), (96, 48, 24, 12, 2), True),
        ((4, 1, 5, 3), (600, 120, 12, 4), True), ((20, 30, 7), (1260, 28, 3), False),
        ((2, 1, 2, 1, 2, 2), (128, 64, 16, 8, 4, 1), True)]]
    # the axes in another order (column-major arrays, swapped axes)
    out += [arith('invert_position', shape=s, axes=a, data=d, perm='any', **k)
            for d in (True, False) for s, a, k in [
        ((4, 5), (0, 1), {}), ((5, 4), (0, 1), {}), ((1, 6), (0, 1), {}), ((6, 1), (0, 1), {}),
        ((4, 3, 3), (0, 2), {}), ((2, 3, 2), (0, 1, 2), dict(negative=False)),
        ((3, 2, 2, 2), (0, 2, 3), dict(steps=(1, 2))),
        ((2, 2, 2, 2), (0, 1, 2, 3), dict(steps=(1,), negative=False))]]
    out += [arith('invert_two', shape=(2, 6), axes=(0, 1), steps=(1,), perm=(1, 0), data=d,
                  shape2=s) for d in (True, False) for s in [(6, 2), (4, 6)]]
    out += [arith('invert_large', rshape=s, rstrides=t, perm='any') for s, t in [
        ((300, 400), (400, 1)), ((150, 200), (-800, 2)), ((10, 30, 20), (1200, 40, -2)),
        ((97, 1, 89), (89, 89, 1)), ((6, 5, 7, 8), (280, 56, 8, 1))]]
    return out


# C07 ------------------------------------------------------------------------------

DMP = dict(dimensions=(2, 0, 1), partitioning=(1,))


def c07(tier):
    out = []
    fmts = ['Strided', 'COO', 'FlatCOO', 'CSR', 'DM:Strided', 'DM:COO', 'DM:CSR', 'DM:FlatCOO']
    for f in fmts:
        out.append(arrays('store', fmt=f, shape=(2, 2)))
        out.append(arrays('store', fmt=f, shape=(2, 2), U='any'))
        out.append(arrays('store', fmt=f, shape=(3, 4), cells=('pick', 2)))
        out.append(arrays('store', fmt=f, shape=(3, 4), cells=('holes', 1), U=0))
        out.append(arrays('store', fmt=f, shape=(1, 3), as_tuple=True, U=0))
        out.append(arrays('store', fmt=f, shape=(4, 1), cells=('pick', 1)))
    for f in ('Buffer', 'Strided', 'COO', 'FlatCOO', 'DM:Buffer', 'DM:Strided', 'DM:COO'):
        out.append(arrays('store', fmt=f, shape=(4,)))
        out.append(arrays('store', fmt=f, shape=(3,), U='any'))
    for f in ('Strided', 'COO', 'FlatCOO', 'DM:COO', 'DM:FlatCOO', 'DM:Buffer', 'DM:Strided'):
        out.append(arrays('store', fmt=f, shape=(2, 2, 2), cells=('pick', 2)))
        out.append(arrays('store', fmt=f, shape=(2, 1, 3, 2), cells=('pick', 1)))
        out.append(arrays('store', fmt=f, shape=(2, 3, 2), cells=('holes', 1)))
    for f in ('DM:Strided', 'DM:COO', 'DM:CSR'):
        out.append(arrays('store', fmt=f, shape=(2, 3, 2), cells=('pick', 1), dm=DMP))
    if tier == 'thorough':
        for f in fmts:
            out.append(arrays('store', fmt=f, shape=(2, 3)))
            out.append(arrays('store', fmt=f, shape=(3, 2), U='any'))
            out.append(arrays('store', fmt=f, shape=(4, 5), cells=('pick', 3)))
    for f in ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM:COO', 'DM:CSR'):
        for n in (9, 20, 33, 48):
            out.append(arrays('store', fmt=f, shape=(6, 8), cells=('scatter', n)))
        out.append(arrays('store', fmt=f, shape=(12, 3), cells=('scatter', 17)))
        if f != 'CSR':
            out += [arrays('store', fmt=f, shape=(3, 4, 2, 3), cells=('scatter', 20)),
                    arrays('store', fmt=f, shape=(2, 2, 3, 2, 2), cells=('scatter', 9)),
                    arrays('store', fmt=f, shape=(40,), cells=('scatter', 11))
                    if f != 'DM:CSR' else
                    arrays('store', fmt=f, shape=(3, 7, 2), cells=('scatter', 18), dm=DMP)]
    # elements that are not integers
    for f in ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM', 'DM:COO', 'DM:CSR', 'DM:FlatCOO'):
        out += [arrays('store', fmt=f, shape=(2, 5), cells='mixed'),
                arrays('store', fmt=f, shape=(3, 2), cells='mixed', U=''),
                arrays('store', fmt=f, shape=(3, 4), cells='mixed', U=2.5, as_tuple=True)]
    for f in ('Buffer', 'Strided', 'COO', 'FlatCOO', 'DM:Buffer', 'DM:COO'):
        out += [arrays('store', fmt=f, shape=(10,), cells='mixed'),
                arrays('store', fmt=f, shape=(3,), cells='mixed', U='ab')]
    for f in ('Strided', 'COO', 'FlatCOO', 'DM:CSR'):
        out.append(arrays('store', fmt=f, shape=(2, 2, 3), cells='mixed', U=0.25))
    return out


# C08 ------------------------------------------------------------------------------

def sources(tier='quick'):
    return [strided(2, 2), sp('COO', (2, 3), 2), sp('FlatCOO', (2, 3), 2), sp('CSR', (3, 2), 2),
            dm((2, 2), (1, 0), (1,), 'COO', 1), dm((2, 3), (1, 0), (1,), 'CSR', 1)]


VIEWS = [strided(3, 4, view=[(None, None, 2), (1, 3, None)]),
         strided(4, view=[(None, None, -1)]),
         strided(2, 3, view=[1, (None, None, -1)]),
         dict(fmt='COO', shape=(4, 3), nse=2, view=[(None, None, -2), (None, None, -1)]),
         dm((2, 2, 3), (2, 0, 1), (1,), 'COO', 1, view=[1, None, (None, None, -1)]),
         dm((3, 2, 2), (0, 1, 2), (1,), 'CSR', 1, view=[(1, None, None), 0, None]),
         dm((2, 2, 3), (2, 0, 1), (1,), 'Strided', view=[1, None, (None, None, 2)])]


def ndim(arr):
    n = len(arr['shape'])
    return n - sum(isinstance(v, int) for v in arr.get('view', ()))


def c08(tier):
    out = []
    targets = ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM', 'DM:COO', 'DM:CSR', 'DM:FlatCOO')
    for a, to in itertools.product(sources(), targets):
        out.append(arrays('conversion', arr=a, to=to))
        if tier == 'thorough' or to in ('Strided', 'COO', 'FlatCOO', 'CSR'):
            out.append(arrays('conversion', arr=dict(a, U=0), to=to, U2=7))
    for a in sources():
        out.append(arrays('conversion', arr=a, to='Buffer'))
        out.append(arrays('conversion', arr=dict(a, U='any'), to='COO', U2='any'))
    for a, to in itertools.product(VIEWS, targets):
        if to.endswith('CSR') and ndim(a) != 2:
            continue
        if tier == 'thorough' or to in ('Strided', 'COO', 'CSR', 'DM:COO'):
            out.append(arrays('conversion', arr=a, to=to))
    for f in ('COO', 'FlatCOO'):
        for to in ('Strided', 'COO', 'FlatCOO', 'DM:COO', 'DM', 'DM:Buffer'):
            out.append(arrays('conversion', arr=sp(f, (5,), 2), to=to))
            out.append(arrays('conversion', arr=sp(f, (2, 2, 2), 2), to=to))
    for to in ('Strided', 'COO', 'FlatCOO'):
        out.append(arrays('conversion', arr=dict(fmt='Buffer', shape=(3,), U=0), to=to, U2=5))
        out.append(arrays('conversion', arr=sp('COO', (2, 1, 2, 2), 1), to=to))
    for d in [dict(dimensions=(1, 0)), dict(dimensions=(1, 0), partitioning=()),
              dict(partitioning=(1,))]:
        for f in SPARSE:
            out.append(arrays('conversion', arr=sp(f, (2, 3), 2), to='DM:FlatCOO', dm=d))
    for a, to in itertools.product(sources(), ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM:COO')):
        out.append(arrays('conversion', arr=windowed(a), to=to))
    # many stored elements
    for f, to in [('COO', 'FlatCOO'), ('FlatCOO', 'COO'), ('COO', 'CSR'), ('CSR', 'COO')]:
        out.append(arrays('conversion', arr=sp(f, (2, 4), 5), to=to))
        out.append(arrays('conversion', arr=sp(f, (6, 2), 3), to=to))
        out.append(arrays('conversion', arr=sp(f, (3, 3), 0), to=to))
    for f in SPARSE:
        for to in ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM:COO', 'DM:CSR', 'Buffer'):
            for n in (9, 20, 33):
                out.append(arrays('conversion', arr=fixed(f, (6, 8), n), to=to))
            if to in ('Strided', 'COO', 'FlatCOO'):
                out.append(arrays('conversion', arr=dm((5, 3, 4), (2, 0, 1), (1,),
                                                       dict(fmt=f, at=25)), to=to))
        out.append(arrays('conversion', arr=fixed(f, (9, 4), 18, U=0), to='COO', U2=None))
    for to in ('COO', 'FlatCOO', 'DM:FlatCOO'):
        out.append(arrays('conversion', arr=fixed('COO', (2, 3, 2, 3), 14), to=to))
        out.append(arrays('conversion', arr=fixed('FlatCOO', (3, 2, 4, 2), 19), to=to))
        out.append(arrays('conversion', arr=strided(5, 7, **DISTINCT), to=to))
    for a in sources() + VIEWS:
        for to in ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM:COO', 'Buffer'):
            if to != 'CSR' or ndim(a) == 2:
                out.append(arrays('conversion', arr=mixed(a), to=to))
                out.append(arrays('conversion', arr=mixed(a, U=0.25), to=to, U2='None'))
    for f, n in [('Strided', None)] + [(f, 2) for f in SPARSE]:
        for a in mappings((2, 3), f, n):
            for to in ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM:COO', 'Buffer'):
                out.append(arrays('conversion', arr=a, to=to))
            out.append(arrays('conversion', arr=dict(a, U=0), to='COO' if f == 'CSR' else f))
            out.append(arrays('conversion', arr=a, to='COO' if f == 'CSR' else f, U2='any'))
        for a in mappings((2, 2, 3), f, n and 1):
            out.append(arrays('conversion', arr=a, to='FlatCOO' if f == 'CSR' else f))
    return out


# C09 ------------------------------------------------------------------------------

def c09(tier):
    out = []
    R = ('r', 'r')
    for f in ('COO', 'FlatCOO'):
        out += [arrays('slicing', arr=sp(f, s, n), kinds=k) for s, n, k in [
            ((7,), 2, ((1, 1, 2),)), ((7,), 2, ((1, 1, -3),)), ((6,), 3, ((1, 1, -1),)),
            ((6,), 2, ((1, 1, None),)), ((9,), 2, ('int',))]]
        out += [arrays('slicing', arr=sp(f, (2, 3, 2), 2), kinds=k) for k in [
            ('int', ('r', 0, 2), None), (('r', 0, -1), 'int', (0, 'r', 1)),
            (None, ('r', 'r', -1), 'int'), ('int', 'int', (1, 1, -1)), ('int', 'int', 'int')]]
        out.append(arrays('slicing', arr=sp(f, (2, 3, 2), 1),
                          kinds=(('r', 0, -1), (0, 'r', 2), ('r', 0, 1))))
        out.append(arrays('slicing', arr=sp(f, (2, 2, 2, 2), 1),
                          kinds=(('r', 0, -1), 'int', None, ('r', 0, 1))))
        out.append(arrays('slicing', arr=sp(f, (3, 4), 0), kinds=((1, 1, 2), ('r', 0, -1))))
    for f in SPARSE:
        out += [arrays('slicing', arr=sp(f, (4, 5), 2), kinds=k) for k in [
            ('int', R + (2,)), (R + (1,), 'int'), ('int', R + (-2,)), (R + (-1,), 'int'),
            ('int', 'int'), ('int', None), (None, 'int')]]
        out += [arrays('slicing', arr=sp(f, (3, 3), 2), kinds=k) for k in [
            ('int', (1, 1, 2)), ((1, 1, 1), 'int'), ('int', (1, 1, -2)), ((1, 1, -1), 'int')]]
        out += [arrays('slicing', arr=sp(f, (3, 4), 2), kinds=k) for k in [
            (R + (1,), ('r', 0, 2)), (('r', 0, -1), R + (1,)), (None, R + (-2,)),
            (R + (2,), (0, 'r', -1))]]
        out += [arrays('slicing', arr=sp(f, (4, 3), 1), kinds=k) for k in [
            ((1, 1, 1), ('r', 0, 1)), (('r', 0, -1), (1, 1, -1)), ((1, 1, 2), (0, 'r', -2))]]
        out += [arrays('slicing', arr=sp(f, (4, 3), 2), kinds=((1, 1, 2),), bare=b)
                for b in (True, False)]
        out += [arrays('slicing', arr=sp(f, (4, 3), 2), kinds=(), bare=False),
                arrays('slicing', arr=sp(f, (4, 3), 2), kinds=(None,), bare=True),
                arrays('slicing', arr=sp(f, (4, 3), 2), kinds=('int',), bare=True),
                arrays('slicing', arr=sp(f, (3, 3), 3, U=0), kinds=(R + (1,), 'int')),
                arrays('slicing', arr=sp(f, (1, 6), 2), kinds=(None, R + (-1,))),
                arrays('slicing', arr=sp(f, (6, 1), 2), kinds=(R + (2,), None))]
        for k in [(R + (1,), 'int'), ('int', ('r', 0, -1)), (None, ('r', 0, -2)), ('int', 'int')]:
            out += [arrays('slicing', arr=windowed(sp(f, (3, 3), 2)), kinds=k),
                    arrays('slicing', arr=sp(f, (2, 3), 1), twin=sp(f, (2, 3), 2), kinds=k),
                    arrays('slicing', arr=sp(f, (2, 4), 1), twin=sp(f, (2, 4), 1, U=0),
                           kinds=k)]
    if tier == 'thorough':
        for f in SPARSE:
            out += [arrays('slicing', arr=sp(f, (3, 4), 2), kinds=k) for k in [
                ((1, 1, 1), (1, 0, 2)), ((1, 1, -1), (0, 1, 1)), ((1, 0, 2), (1, 1, -1))]]
            out += [arrays('slicing', arr=sp(f, (4, 5), 1), kinds=k) for k in [
                ((1, 1, 1), (1, 1, 2)), ((1, 1, -2), (1, 1, -1))]]
            out += [arrays('slicing', arr=sp(f, (4, 5), 2), kinds=k) for k in [
                ('int', (1, 1, 2)), ((1, 1, 1), 'int'), ('int', (1, 1, -2)), ((1, 1, -1), 'int')]]
            out += [arrays('slicing', arr=sp(f, (4, 5), 3), kinds=k) for k in [
                ('int', R + (2,)), (R + (-1,), 'int')]]
        for f in ('COO', 'FlatCOO'):
            out += [arrays('slicing', arr=sp(f, (2, 3, 2), 2),
                           kinds=(('r', 'r', -1), ('r', 'r', 2), ('r', 0, 1))),
                    arrays('slicing', arr=sp(f, (12,), 3), kinds=((1, 1, 5),)),
                    arrays('slicing', arr=sp(f, (2, 2, 2, 2, 2), 1),
                           kinds=(None, 'int', ('r', 0, -1), 'int', (0, 'r', 1)))]
    # many specified elements, and large shapes
    for f in SPARSE:
        for n in (20, 40):
            out += [arrays('slicing', arr=fixed(f, (8, 9), n), kinds=k) for k in [
                (None, 'int'), ('int', at(None, None, -2)), (('r', 0, -2), at(7, 1, -3)),
                (at(6, 1, -2), (0, 'r', 2))]]
        out += [arrays('slicing', arr=dict(fmt='CSR', shape=(12, 30), nse=2, rows=r), kinds=k)
                for r in [(1, 5), (5, 5)] for k in [(at(10, None, -5), at(29, 5, -11)),
                                                    (5, at(None, None, -7))]]
    for f in ('COO', 'FlatCOO'):
        out += [arrays('slicing', arr=sp(f, (300, 400), 2), kinds=k) for k in [
            (at(10, 250, 7), at(390, 5, -11)), (17, at(None, None, -3)), (at(5), -4),
            (at(None, None, -2), None)]]
        out += [arrays('slicing', arr=sp(f, (20, 30, 40), 1), kinds=k) for k in [
            (at(10, 18, 3), 5, at(39, 5, -11)), (17, at(None, None, -3), at(2, None, 2)),
            (at(5, None, 2), at(None, None, -4), at(30, None, -1))]]
        out += [arrays('slicing', arr=fixed(f, (3, 4, 2, 3), 25), kinds=k) for k in [
            ('int', at(None, None, -1), 'int', ('r', 0, 1)), (('r', 0, -1), None, 1, at(2, 0, -1))]]
        out += [arrays('slicing', arr=fixed(f, (60,), 30), kinds=(k,))
                for k in [('r', 0, 4), ('r', 0, -3), (0, 'r', -1), (0, 1, 2)]]
    # five and six axes
    B = at(None, None, -1)
    for f in ('COO', 'FlatCOO'):
        out += [arrays('slicing', arr=fixed(f, (2, 2, 3, 2, 2), 25), kinds=k) for k in [
            (B, 1, None, B, 'int'), (None, B, at(None, None, 2), B, B),
            ('int', at(1, None, 1), 'int', None, B), (B, at(None, 1, 1), at(2, 0, -1), None, None),
            ('int', 'int', ('r', 'r', -1), 'int', 'int'), ('int',) * 5]]
        out += [arrays('slicing', arr=fixed(f, (2, 2, 1, 2, 2, 2), 21), kinds=k) for k in [
            (B, None, None, B, 'int', B), ('int', B, 'int', None, at(1, None, 1), B)]]
    # larger sizes
    for f in SPARSE:
        out += [arrays('slicing', arr=fixed(f, (20, 30), 90), kinds=k) for k in [
            (at(17, 2, -5), at(3, None, 4)), (7, at(None, None, -2)), (at(None, None, 9), 29),
            (at(11, 12), None), (at(2, None, 3), 'int')]]
    for f in SPARSE:
        out += [arrays('slicing', arr=mixed(sp(f, (3, 3), 2)), kinds=(('r', 0, -1), (1, 1, 2))),
                arrays('slicing', arr=mixed(sp(f, (3, 4), 2), U=''), kinds=('int', R + (-1,))),
                arrays('slicing', arr=mixed(sp(f, (4, 2), 3)), kinds=('int', 'int'))]
    return out


# C10 ------------------------------------------------------------------------------

def c10(tier):
    out = []
    for sh in [(5,), (2, 3), (2, 3, 4), (3, 1, 2), (2, 3, 2, 2)]:
        if sh != (2, 3, 2, 2) or tier == 'thorough':
            out.append(arrays('dm_layout', shape=sh))
    for p in itertools.permutations(range(4)):
        out.append(arrays('dm_layout', shape=(2, 3, 2, 2), perm=p))
    for st in ('COO', 'FlatCOO'):
        out.append(arrays('dm_layout', shape=(2, 3, 2), storage=st))
        for p in [(0, 1, 2), (2, 0, 1), (1, 0, 2), (2, 1, 0)]:
            out.append(arrays('dm_layout', shape=(2, 3, 2), storage=st, perm=p,
                              cells=('holes', 1), part=(1,)))
            out.append(arrays('dm_layout', shape=(2, 2, 2), storage=st, perm=p,
                              cells=('pick', 1), part=(2,)))
    for part in [(1,), (2,)]:
        out.append(arrays('dm_layout', shape=(2, 3, 2), storage='CSR', part=part))
        out.append(arrays('dm_layout', shape=(2, 2, 3), storage='CSR', part=part,
                          perm=(1, 2, 0), cells=('pick', 1)))
    out.append(arrays('dm_layout', shape=(2, 3, 2), storage='Buffer', part=()))
    for st in ('Strided', 'COO', 'CSR', 'FlatCOO', 'Buffer'):
        for sh in [(4,), (2, 3), (2, 3, 2), (2, 2, 2, 2)]:
            if st == 'CSR' and len(sh) < 2:
                continue
            out.append(arrays('dm_layout', shape=sh, storage=st, default=True))
    for via in ('COO', 'Strided', 'FlatCOO'):
        out.append(arrays('dm_layout', shape=(2, 3, 2), via=via, part=(1,)))
        out.append(arrays('dm_layout', shape=(2, 3, 2), via=via, storage='COO', part=(2,),
                          cells=('holes', 1), perm=(2, 0, 1)))
    out.append(arrays('dm_layout', shape=(2, 3), via='CSR', part=(1,)))
    out.append(arrays('dm_layout', shape=(2, 2, 2, 2, 2), perm=(4, 2, 0, 1, 3)))
    if tier == 'thorough':
        out += [arrays('dm_layout', shape=(3, 4, 5), storage=st) for st in ('COO', 'FlatCOO')]
        out += [arrays('dm_layout', shape=(2, 2, 2, 2, 2), perm=p) for p in
                [(0, 1, 2, 3, 4), (1, 0, 3, 2, 4), (4, 3, 2, 1, 0), (2, 4, 1, 3, 0)]]
        out += [arrays('dm_layout', shape=(2, 3, 2), storage=st, perm=p, cells=('holes', 2),
                       part=(1,)) for st in ('COO', 'FlatCOO', 'CSR')
                for p in itertools.permutations(range(3))]
    for f in ('Strided', 'COO', 'FlatCOO', 'CSR'):
        for sh, p, c in [((4, 3, 5), (2, 0, 1), (1,)), ((4, 3, 5), (1, 2, 0), (2,)),
                         ((6, 2, 4), (1, 0, 2), (2,)), ((3, 4, 2, 3), (3, 1, 2, 0), (2,)),
                         ((2, 3, 2, 2, 2), (4, 2, 0, 1, 3), (3,))]:
            out.append(arrays('dm_layout', shape=sh, storage=f, perm=p, part=c))
            out.append(arrays('dm_layout', shape=sh, storage=f, perm=p, part=c,
                              cells=('scatter', 13)))
    # made of other arrays, also of mappings with the same axis order and of their slices
    V = (1, None, None)
    for st in ('Strided', 'COO', 'FlatCOO', 'CSR'):
        n = None if st == 'Strided' else 2
        for dims, part in [((0, 1, 2), (2,)), ((2, 0, 1), (1,)), ((1, 0, 2), (1,))]:
            a = dm((3, 2, 3), dims, part, st, n)
            for view in (None, [V, None, None], [None, None, (None, None, -1)],
                         [(None, None, 2), (1, None, None), (None, None, -2)]):
                out.append(arrays('dm_from', arr=dict(a, view=view), dims=dims, part=part,
                                  storage=st))
            out.append(arrays('dm_from', arr=dict(a, view=[V, None, None]), dims=(0, 2, 1),
                              part=(2,), storage=st))
            out.append(arrays('dm_from', arr=dict(a, view=[V, None, None]), dims=dims,
                              part=part, storage='COO', U2=None))
        out.append(arrays('dm_from', arr=dict(dm((3, 2, 3), (0, 1, 2), (2,), st, n),
                                              view=[1, None, (None, None, -1)]),
                          dims=(0, 1), part=(1,), storage=st))
    out += [arrays('dm_from', arr=a, dims=d, part=(1,), storage=st, U2=u) for a, d in [
        (strided(3, 4, view=[(None, None, 2), (1, 3, None)]), (1, 0)),
        (dict(sp('COO', (4, 3), 2), view=[(None, None, -2), None]), (0, 1)),
        (dict(sp('CSR', (4, 3), 2), view=[(1, None, None), None]), (1, 0)),
        (sp('FlatCOO', (2, 3), 2), (1, 0))]
        for st in ('Strided', 'COO', 'CSR') for u in ('default', 5)]
    # a single cut given as an integer
    out += [arrays('dm_layout', shape=(2, 3, 2), storage=f, perm=(1, 2, 0), part=c)
            for f in ('Strided', 'COO', 'CSR') for c in (1, 2)]
    return out


# C11 ------------------------------------------------------------------------------

R = ('r', 'r')


def dm_slices(tier):
    out = []
    two = [(('r', 'r', 2), ('r', 0, -1)), ('int', (1, 1, -2)), ((1, 1, 1), 'int'),
           (('r', 0, -1), None), ('int', 'int'), ((1, 1, 2),)]
    for dims, part in [((0, 1), (1,)), ((1, 0), (1,)), ((0, 1), ()), ((1, 0), ())]:
        for k in two:
            out.append((dm((3, 4), dims, part, 'Strided'), k))
    three = [('int', R + (1,), ('r', 0, -1)), (('r', 0, -1), 'int', R + (2,)),
             (('r', 0, 2), (0, 'r', -1), 'int'), ('int', 'int', (1, 1, -1)),
             ('int', (1, 1, 1), 'int'), ((1, 1, -1), 'int', 'int'),
             (('r', 0, -1), None, (0, 'r', 1)), ('int', 'int', 'int'), ('int',)]
    for dims, part in [((0, 1, 2), (2,)), ((0, 1, 2), (1,)), ((2, 0, 1), (1,)),
                       ((1, 2, 0), (2,)), ((2, 1, 0), (1, 2)), ((1, 0, 2), ())]:
        for n, k in enumerate(three):
            out.append((dm((2, 3, 3), dims, part, 'Strided'), k))
    for dims, part, k in [
            ((0, 1, 2, 3), (2,), ('int', None, ('r', 0, -1), 'int')),
            ((3, 1, 0, 2), (2,), (None, 'int', ('r', 0, 1), ('r', 0, -1))),
            ((2, 0, 3, 1), (1, 3), (('r', 0, -1), 'int', (0, 'r', 1), 'int')),
            ((1, 0, 3, 2), (1, 2), ('int', 'int', None, ('r', 0, -1))),
            ((3, 2, 1, 0), (1, 2, 3), ('int', (0, 'r', 1), 'int', 'int'))]:
        out.append((dm((2, 3, 2, 3), dims, part, 'Strided'), k))
    for f in SPARSE:
        for dims, part in [((0, 1, 2), (2,)), ((2, 0, 1), (1,)), ((1, 0, 2), (2,))]:
            for k in [('int', R + (1,), None), (('r', 0, -1), 'int', ('r', 0, 1)),
                      (None, ('r', 0, -1), 'int'), ('int', 'int', (1, 1, -1)),
                      (('r', 0, -1), None, (0, 'r', 1))]:
                out.append((dm((2, 3, 2), dims, part, f, 1), k))
        out.append((dm((2, 3), (1, 0), (1,), f, 2), ('int', R + (-1,))))
        out.append((dm((2, 3), (1, 0), (1,), f, 2), (('r', 0, -1), 'int')))
        out.append((dm((3, 2), (1, 0), (1,), f, 2), ('int', 'int')))
    for f in ('COO', 'FlatCOO'):
        for dims, part in [((2, 0, 1), ()), ((2, 0, 1), (1, 2))]:
            for k in [('int', R + (1,), None), (None, ('r', 0, -1), 'int')]:
                out.append((dm((2, 3, 2), dims, part, f, 1), k))
    for f, n in [('Strided', None), ('COO', 1), ('CSR', 1)]:
        for k in [('int', ('r', 0, -1), None), (('r', 0, -1), 'int', ('r', 0, 1)),
                  (None, ('r', 'r', 1), 'int'), ('int', 'int', 'int')]:
            out.append((nested((2, 3, 2), (1, 0, 2), (1, 2), (2, 0, 1), (1,), f, n), k))
            out.append((nested((2, 2, 2), (2, 0, 1), (1,), (1, 0), (1,), f, n), k))
    B = at(None, None, -1)
    for f, n in [('Strided', None), ('COO', 1), ('CSR', 1)]:
        for dims, part in [((0, 1, 2, 3, 4), (2,)), ((4, 2, 0, 1, 3), (3,)),
                           ((1, 0, 3, 4, 2), (1,))]:
            for k in [(B, 1, None, B, 'int'), (None, B, at(None, None, 2), B, B),
                      ('int', at(1, None, 1), 'int', None, B),
                      ('int', 'int', at(2, 0, -1), 'int', 'int')]:
                out.append((dm((2, 2, 3, 2, 2), dims, part, f, n), k))
    for f in SPARSE:
        for dims, part in [((0, 1, 2), (2,)), ((2, 0, 1), (1,)), ((1, 0, 2), (2,))]:
            for k in [(at(3, 0, -2), 'int', at(1, None, 3)), (B, at(None, None, 2), 'int')]:
                out.append((dm((4, 5, 6), dims, part, dict(fmt=f, at=40)), k))
    for dims, part in [((0, 1, 2), (2,)), ((2, 0, 1), (1,)), ((1, 0, 2), ()),
                       ((2, 1, 0), (1, 2))]:
        for k in [(at(11, 2, -4), 'int', at(1, None, 3)), (B, at(None, None, 2), 'int'),
                  ('int', 'int', at(None, None, -5))]:
            out.append((dm((12, 9, 17), dims, part, dict(fmt='Strided', cells='func')), k))
    return out


def c11(tier):
    out = [arrays('slicing', arr=a, kinds=k) for a, k in dm_slices(tier)]
    out += [arrays('slicing', arr=dm((3, 4), (1, 0), (1,), 'Strided'), kinds=k, bare=True)
            for k in [((1, 1, 2),), ('int',), (None,)]]
    S, D2 = ('Strided', None), ((1, 0), (1,))
    for k in [('int', ('r', 0, -1)), (('r', 0, 1), 'int'), (None, ('r', 0, 2))]:
        for f, n in [S, ('COO', 1), ('CSR', 1)]:
            out.append(arrays('slicing', arr=windowed(dm((2, 3), *D2, f, n)), kinds=k))
            out.append(arrays('slicing', arr=dm((2, 3), *D2, f, n), kinds=k,
                              twin=dm((2, 3), (0, 1), (1,), f, n)))
            out.append(arrays('slicing', arr=dm((2, 3), *D2, f, n), kinds=k,
                              twin=dict(dm((2, 3), *D2, f, n), U=0)))
    # larger shapes
    for d, p in [((2, 0, 1), (1,)), ((1, 0, 2), (2,)), ((1, 2, 0), (1, 2)), ((2, 1, 0), ())]:
        out += [arrays('slicing', arr=dm((30, 20, 10), d, p, dict(fmt='Strided', cells='func')),
                       kinds=k) for k in [(at(3, 25, 4), at(None, None, -3), at(1, 9, 2)),
                                          (17, 'int', at(None, None, -1)),
                                          (at(5), at(3, None, 3), 7)]]
    for f in SPARSE:
        for k in [(('r', 0, 2), at(None, None, -1), at(1, 3)), ('int', None, 'int'),
                  (2, at(None, None, -1), ('r', 0, 1))]:
            out.append(arrays('slicing', arr=dm((5, 6, 4), (2, 0, 1), (1,), dict(fmt=f, at=40)),
                              kinds=k))
        out.append(arrays('slicing', arr=dm((3, 4, 2, 3, 2), (2, 4, 0, 1, 3), (2,),
                                            dict(fmt=f, at=40)),
                          kinds=(('r', 0, 2), at(None, None, -1), None, 'int', 1)))
    if tier == 'thorough':
        for f in SPARSE:
            for dims, part in [((0, 1, 2), (2,)), ((2, 0, 1), (1,)), ((2, 1, 0), (2,))]:
                for k in [('int', (1, 1, 2), None), ((1, 1, -1), 'int', ('r', 'r', 1)),
                          (('r', 'r', -1), ('r', 'r', 1), None)]:
                    out.append(arrays('slicing', arr=dm((2, 3, 3), dims, part, f, 2), kinds=k))
        for dims in itertools.permutations(range(3)):
            for part in [(), (1,), (2,), (1, 2)]:
                out.append(arrays('slicing', arr=dm((3, 2, 4), dims, part, 'Strided'),
                                  kinds=(R + (-1,), 'int', R + (2,))))
    for f in ('Strided',) + SPARSE:
        out += [arrays('slicing', arr=mixed(dm((2, 3, 2), (2, 0, 1), (1,), f, 2), U=v), kinds=k)
                for v, k in [(None, ('int', (1, 1, -1), None)), ('', (None, R + (2,), 'int'))]]
    for f, n in [('Strided', None)] + [(f, 1) for f in SPARSE]:
        out += [arrays('slicing', arr=a, kinds=k) for a in mappings((2, 2, 3), f, n)
                for k in SOME_SLICES]
    return out


# C12 ------------------------------------------------------------------------------

def c12(tier):
    F = (1, 1)
    out = []
    # arbitrary sizes, strides, and bounds
    for s1, s2 in [(1, 1), (2, -1), (-1, 2), (-2, -1), (-1, -1), (1, -3), (3, 2)]:
        out.append(arrays('view_any', options=NLA, kinds=(F + (s1,),), kinds2=(F + (s2,),)))
    out += [arrays('view_any', options=NLA, kinds=k, kinds2=k2) for k, k2 in [
        ((F + (2,), 'int'), (F + (-1,),)), (('int', F + (-1,)), ('int',)),
        ((None, F + (-2,)), ('int', None)), ((F + (-1,),), ('int',)),
        ((('r', 0, -1), None), (None, 'int'))]]
    out += [arrays('slicing', arr=a, kinds=k, kinds2=k2) for a, k, k2 in [
        (strided(3, 4), (R + (1,), ('r', 0, -1)), ('int', R + (-1,))),
        (strided(4, 3), (('r', 0, -1), None), ((0, 'r', -1), 'int'))]]
    for f in ('COO', 'FlatCOO'):
        out += [arrays('slicing', arr=sp(f, s, n), kinds=k, kinds2=k2) for s, n, k, k2 in [
            ((7,), 2, (R + (2,),), (R + (-1,),)), ((6,), 2, (('r', 0, -1),), ((1, 1, 1),)),
            ((2, 3, 2), 1, ('int', R + (1,), None), (('r', 0, -1), 'int'))]]
    for f in SPARSE:
        out += [arrays('slicing', arr=sp(f, (3, 4), 1), kinds=k, kinds2=k2) for k, k2 in [
            ((('r', 0, -1), ('r', 0, 1)), (('r', 0, 1), 'int')),
            ((('r', 0, 1), ('r', 0, -1)), ('int', ('r', 0, -1))),
            (('int', R + (2,)), ((1, 0, -1),)), ((R + (-1,), 'int'), ('int',)),
            ((R + (1,), None), (None, (0, 'r', -2)))]]
    for a, k, k2 in [
            (dm((3, 4), (1, 0), (1,), 'Strided'), (R + (1,), ('r', 0, -1)), ('int', (1, 0, -1))),
            (dm((3, 4), (0, 1), (1,), 'Strided'), (('r', 0, 1), ('r', 0, 2)), (('r', 0, -1), 'int')),
            (dm((3, 4), (1, 0), (), 'Strided'), (('r', 0, -1), R + (1,)), ('int', ('r', 0, 1))),
            (dm((2, 3, 3), (2, 0, 1), (1,), 'Strided'), ('int', ('r', 0, 1), ('r', 0, -1)),
             (('r', 0, 1), 'int')),
            (dm((2, 3, 3), (2, 0, 1), (1,), 'Strided'), (('r', 0, 1), ('r', 0, -1), None),
             ('int', None, ('r', 0, 1))),
            (dm((2, 3, 3), (0, 1, 2), (2,), 'Strided'), (('r', 0, 1), None, ('r', 0, -1)),
             (None, 'int', 'int')),
            (dm((2, 3, 3), (1, 2, 0), (1, 2), 'Strided'), (('r', 0, 1), None, ('r', 0, 1)),
             ('int', ('r', 0, -1), 'int')),
            (nested((2, 3, 2), (1, 0, 2), (1, 2), (2, 0, 1), (1,), 'Strided'),
             (('r', 0, 1), ('r', 0, -1), None), ('int', ('r', 0, 1), 'int'))]:
        out.append(arrays('slicing', arr=a, kinds=k, kinds2=k2))
    for f in SPARSE:
        for a, k, k2 in [
                (dm((3, 2), (1, 0), (1,), f, 1), (R + (1,), None), ('int', ('r', 0, -1))),
                (dm((2, 3, 2), (2, 0, 1), (1,), f, 1), (('r', 0, 1), ('r', 0, -1), None),
                 ('int', ('r', 0, 1), 'int')),
                (dm((2, 3, 2), (0, 1, 2), (2,), f, 1), (None, ('r', 0, 1), 'int'),
                 ('int', (0, 'r', 1)))]:
            out.append(arrays('slicing', arr=a, kinds=k, kinds2=k2))
    if tier == 'thorough':
        for s1, s2 in itertools.product((1, 2, -1, -3), (1, 3, -1, -2)):
            out.append(arrays('view_any', options=NLA, kinds=(F + (s1,),), kinds2=(F + (s2,),)))
        for f in ('COO', 'FlatCOO'):
            out.append(arrays('slicing', arr=sp(f, (7,), 2), kinds=((1, 1, 2),),
                              kinds2=((1, 1, -1),)))
        for f in SPARSE:
            out.append(arrays('slicing', arr=sp(f, (3, 4), 2),
                              kinds=(R + (1,), ('r', 0, -1)), kinds2=(('r', 0, -1), R + (1,))))
    for f in SPARSE:
        out.append(arrays('slicing', arr=fixed(f, (8, 9), 40), kinds=(at(7, 1, -1), at(1, None, 2)),
                          kinds2=(('r', 0, 2), at(None, None, -2))))
        out.append(arrays('slicing', arr=fixed(f, (7, 7), 18), kinds=(at(None, None, -2), None),
                          kinds2=('int', ('r', 0, -1))))
    for d, p in [((2, 0, 1), (1,)), ((1, 0, 2), (2,))]:
        out += [arrays('slicing', arr=dm((30, 20, 10), d, p, dict(fmt='Strided', cells='func')),
                       kinds=k, kinds2=k2) for k, k2 in [
            ((at(3, 25, 4), at(None, None, -1), 4), ('int', at(2, 15, 3))),
            ((at(4), at(1), at(None, None, -1)), (at(2), 'int', at(1)))]]
    for f, n in [('Strided', None), ('COO', 1)]:
        out += [arrays('slicing', arr=a, kinds=k, kinds2=k2) for a in mappings((2, 2, 3), f, n)
                for k, k2 in [((at(None, None, -1), None, ('r', 0, 1)), ('int', None, (0, 'r', -1))),
                              ((1, at(1), ('r', 0, -1)), (None, 'int'))]]
    return out


# C13 ------------------------------------------------------------------------------

def writable(tier):
    out = [strided(5), strided(2, 3), strided(2, 2, 2), strided(2, 1, 2, 2), dict(fmt='Buffer', shape=(4,))]
    for f in SPARSE:
        out += [sp(f, (3, 4), 2), sp(f, (3, 3), 3, U=0), sp(f, (1, 5), 2), sp(f, (4, 1), 2)]
    for f in ('COO', 'FlatCOO'):
        out += [sp(f, (6,), 3), sp(f, (2, 3, 2), 2), sp(f, (2, 2, 2, 2), 2)]
    for d, p in [((0, 1, 2), (2,)), ((2, 0, 1), (1,)), ((1, 0, 2), ()), ((2, 1, 0), (1, 2))]:
        out.append(dm((2, 3, 2), d, p, 'Strided'))
    for f in SPARSE:
        out.append(dm((2, 3, 2), (2, 0, 1), (1,), f, 2))
        out.append(dm((3, 2), (1, 0), (1,), f, 2))
    out.append(nested((2, 3, 2), (1, 0, 2), (1, 2), (2, 0, 1), (1,), 'Strided'))
    out.append(nested((2, 3, 2), (1, 0, 2), (1, 2), (2, 0, 1), (1,), 'CSR', 2))
    return out


STRIDED_VIEWS = [strided(4, 3, view=[(None, None, -1), (1, None, None)]),
                 strided(3, 4, view=[1, (None, None, 2)]),
                 strided(2, 3, 2, view=[(1, None, None), (None, None, -2), 1]),
                 dm((2, 3, 2), (2, 0, 1), (1,), 'Strided', view=[1, (None, None, -1), None]),
                 dm((3, 2, 2), (0, 2, 1), (2,), 'Strided', view=[(1, None, None), None, 0]),
                 dm((2, 2, 3), (0, 1, 2), (1,), 'Strided', view=[None, 1, (1, None, None)])]


def c13(tier):
    out = []
    for a in writable(tier):
        out.append(arrays('assign_element', arr=a))
        if a['fmt'] != 'Buffer':
            out.append(arrays('assign_element', arr=a, negative=True))
    for a in STRIDED_VIEWS:
        out.append(arrays('assign_element', arr=a))
    out += [arrays('assign_element', arr=windowed(a)) for a in [
        strided(2, 3), dict(fmt='Buffer', shape=(4,)), sp('COO', (2, 3), 2), sp('CSR', (2, 3), 2),
        sp('FlatCOO', (2, 3), 2), dm((2, 2, 2), (2, 0, 1), (1,), 'Strided'),
        dm((2, 3), (1, 0), (1,), 'COO', 2)]]
    if tier == 'thorough':
        for f in SPARSE:
            out.append(arrays('assign_element', arr=sp(f, (5, 6), 4)))
            out.append(arrays('assign_element', arr=sp(f, (40, 50), 3)))
    out += [arrays('assign_element', arr=fixed(f, (6, 8), n)) for f in SPARSE for n in (9, 33)]
    out += [arrays('assign_element', arr=strided(7, 8, **DISTINCT)),
            arrays('assign_element', arr=dm((5, 3, 4), (2, 0, 1), (1,), 'Strided'))]
    out += [arrays('assign_element', arr=dm((5, 3, 4), (2, 0, 1), (1,), dict(fmt=f, at=20)))
            for f in SPARSE]
    # elements and values that are not integers
    out += [arrays('assign_element', arr=mixed(a, U=v), value=n) for a in [
        strided(2, 3), dict(fmt='Buffer', shape=(4,)), sp('COO', (2, 3), 2), sp('CSR', (2, 3), 2),
        sp('FlatCOO', (2, 3), 2), dm((2, 2, 2), (2, 0, 1), (1,), 'Strided'),
        dm((2, 3), (1, 0), (1,), 'COO', 2)] for v, n in [(None, 'xy'), (0.25, ''), (0.25, 7.5)]]
    for a in mappings((2, 3), 'Strided') + mappings((2, 2, 3), 'Strided'):
        out.append(arrays('assign_element', arr=a))
    for a in mappings((2, 3), 'Strided') + STRIDED_VIEWS + [
            strided(2, 2), dict(fmt='Buffer', shape=(3,)), sp('COO', (2, 3), 2), sp('CSR', (2, 3), 2),
            sp('FlatCOO', (2, 3), 2), dm((2, 3), (1, 0), (1,), 'COO', 2)]:
        out.append(arrays('assign_element', arr=dict(a, U=0)))
        out.append(arrays('assign_element', arr=dict(a, U='any')))
    return out


# C14 ------------------------------------------------------------------------------

def c14(tier):
    out = []
    D = DISTINCT
    out += [arrays('assign_slice', arr=strided(*s, **D), kinds=k, value=v) for s, k, v in [
        ((6,), ((1, 1, 2),), 'list'), ((6,), ((1, 1, -1),), 'Strided'),
        ((3, 3), ((1, 1, 2), 'int'), 'list'), ((3, 4), ('int', (1, 1, -2)), 'tuple'),
        ((3, 4), (R + (1,), R + (-1,)), 'Strided'), ((3, 3), (('r', 0, -1),), 'list'),
        ((3, 3), (R + (1,), R + (2,)), 'COO'), ((2, 3, 2), ('int', R + (1,), None), 'list'),
        ((2, 3, 2), (('r', 0, -1), 'int', ('r', 0, 1)), 'Strided'),
        ((2, 2, 2, 2), ('int', None, ('r', 0, -1), 'int'), 'list')]]
    for f in ('COO', 'FlatCOO'):
        out += [arrays('assign_slice', arr=sp(f, s, n), kinds=k, value=v) for s, n, k, v in [
            ((6,), 2, ((1, 1, 2),), 'list'), ((5,), 3, ((1, 1, -1),), 'Strided'),
            ((2, 3, 2), 2, ('int', R + (1,), None), 'list'),
            ((2, 2, 2), 1, (('r', 0, -1), ('r', 0, 1), ('r', 0, -1)), 'list')]]
    for f in SPARSE:
        out += [arrays('assign_slice', arr=sp(f, (3, 4), 2), kinds=k, value=v) for k, v in [
            ((R + (1,), 'int'), 'list'), (('int', R + (2,)), 'Strided'),
            (('int', R + (-1,)), 'tuple'), ((('r', 0, -1), 'int'), 'list')]]
        out += [arrays('assign_slice', arr=sp(f, (3, 3), 1), kinds=k, value=v) for k, v in [
            ((R + (1,), ('r', 0, 2)), 'list'), ((('r', 0, -1), R + (1,)), 'Strided'),
            ((R + (2,), (0, 'r', -1)), 'list'), ((R + (1,), None), 'COO')]]
    for d, p in [((0, 1, 2), (2,)), ((2, 0, 1), (1,)), ((2, 1, 0), (1, 2)), ((1, 0, 2), ())]:
        out += [arrays('assign_slice', arr=dm((2, 3, 2), d, p, 'Strided'), kinds=k)
                for k in [('int', R + (1,), None), (('r', 0, -1), R + (1,), 'int'),
                          (None, ('r', 0, -2), ('r', 0, 1))]]
    for f in SPARSE:
        out += [arrays('assign_slice', arr=dm((2, 3, 2), (2, 0, 1), (1,), f, 1), kinds=k)
                for k in [('int', R + (1,), None), (('r', 0, -1), None, 'int')]]
    for a in STRIDED_VIEWS:
        k = (('r', 0, -1), 'int') if ndim(a) == 2 else (R + (-1,),)
        if 'DM' in a['fmt']:
            a = dict(a)
        out.append(arrays('assign_slice', arr=a, kinds=k[:ndim(a)]))
    out.append(arrays('assign_slice', arr=nested((2, 3, 2), (1, 0, 2), (1, 2), (2, 0, 1), (1,),
                                                'Strided'), kinds=('int', ('r', 0, -1), None)))
    if tier == 'thorough':
        out += [arrays('assign_slice', arr=strided(3, 4, **D),
                       kinds=((1, 1, 1), (1, 1, -1)))]
        for f in SPARSE:
            out += [arrays('assign_slice', arr=sp(f, (3, 3), 2), kinds=k) for k in [
                (R + (1,), R + (-1,)), ((1, 1, 2), ('r', 0, 1))]]
            out.append(arrays('assign_slice', arr=sp(f, (3, 4), 2), kinds=('int', (1, 1, 2)),
                              value='Strided'))
    out += [arrays('assign_slice', arr=fixed(f, (6, 8), n), kinds=k) for f in SPARSE
            for n in (20, 33) for k in [(('r', 0, 1), 2), (at(None, None, -2), at(1, 6, 3)),
                                        (3, ('r', 0, -1))]]
    out += [arrays('assign_slice', arr=a, kinds=k) for a, k in [
        (strided(8, 9, **D), (('r', 0, -3), at(1, None, 2))),
        (dm((5, 4, 3), (2, 0, 1), (1,), 'Strided'), (2, at(None, None, -1), ('r', 0, 1)))]]
    # the value shares memory with the slice
    out += [arrays('assign_overlap', arr=strided(5, **D), kinds=k, kinds2=k2) for k, k2 in [
        ((R + (1,),), (R + (1,),)), ((R + (1,),), (R + (-1,),)),
        ((('r', 0, -1),), (('r', 0, 1),)), ((R + (2,),), ((0, 'r', 1),))]]
    for a in [strided(3, 3, **D), dm((3, 3), (1, 0), (1,), 'Strided'),
              dm((3, 3), (1, 0), (), 'Strided')] + [sp(f, (3, 3), 2) for f in SPARSE]:
        out += [arrays('assign_overlap', arr=a, kinds=k, kinds2=k2) for k, k2 in [
            ((('r', 0, 1), None), ((0, 'r', 1), None)), (('int', None), (None, 'int')),
            ((None, at(None, None, -1)), (None, None))]]
    out += [arrays('assign_slice', arr=mixed(a), kinds=k, value='mixed') for a, k in [
        (strided(3, 4), (R + (-1,), 'int')), (sp('COO', (3, 4), 2), (R + (-1,), 'int')),
        (sp('FlatCOO', (6,), 2), ((1, 1, -2),)), (sp('CSR', (3, 3), 2), ('int', R + (2,))),
        (dm((2, 2, 2), (2, 0, 1), (1,), 'Strided'), ('int', R + (-1,), None))]]
    for a in mappings((2, 2, 3), 'Strided'):
        out.append(arrays('assign_slice', arr=a, kinds=('int', None, ('r', 0, -1))))
        out.append(arrays('assign_slice', arr=a, kinds=(at(None, None, -1), 'int', (0, 'r', 2)),
                          value='COO'))
    return out


# C15 ------------------------------------------------------------------------------

def c15(tier):
    D = DISTINCT
    out = [arrays('view_writes', arr=strided(*s, **D), kinds=k, kinds2=k2) for s, k, k2 in [
        ((6,), ((1, 1, 2),), None), ((6,), ((1, 1, -1),), None), ((5,), (R + (1,),), (R + (-1,),)),
        ((3, 4), ((1, 1, 2), None), None), ((3, 4), ('int', (1, 1, -2)), None),
        ((3, 4), (R + (-1,), R + (1,)), None), ((3, 4), (('r', 0, 1), None), ('int', ('r', 0, -1))),
        ((2, 3, 2), ('int', ('r', 0, -1), None), None), ((2, 3, 2), ('int', 'int', R + (1,)), None),
        ((2, 3, 2), (None, 'int'), (('r', 0, -1), 'int')[:1]),
        ((2, 2, 2, 2), (None, 'int', ('r', 0, -1)), None)]]
    for d, p in [((0, 1, 2), (2,)), ((0, 1, 2), (1,)), ((2, 0, 1), (1,)), ((2, 1, 0), (1, 2)),
                 ((1, 0, 2), ()), ((1, 2, 0), (2,))]:
        out += [arrays('view_writes', arr=dm((2, 3, 2), d, p, 'Strided'), kinds=k, kinds2=k2)
                for k, k2 in [(('int', R + (1,), None), None),
                              ((('r', 0, -1), 'int', ('r', 0, 1)), None),
                              ((None, ('r', 0, -1), 'int'), None),
                              (('int', 'int', ('r', 0, -1)), None),
                              ((None, ('r', 0, 1), None), ('int', ('r', 0, -1)))]]
    out.append(arrays('view_writes', arr=nested((2, 3, 2), (1, 0, 2), (1, 2), (2, 0, 1), (1,),
                                               'Strided'), kinds=('int', ('r', 0, -1), None)))
    if tier == 'thorough':
        out += [arrays('view_writes', arr=strided(4, 5, **D), kinds=k) for k in [
            ((1, 1, 1), (1, 1, -1)), ((1, 1, -2), (1, 1, 3))]]
        for d in itertools.permutations(range(3)):
            for p in [(), (1,), (2,), (1, 2)]:
                out.append(arrays('view_writes', arr=dm((3, 3, 2), d, p, 'Strided'),
                                  kinds=(R + (-1,), 'int', ('r', 0, 1))))
    out += [arrays('view_writes', arr=a, kinds=k) for a in mappings((2, 2, 3), 'Strided')
            for k in SOME_SLICES]
    return out


# C16 ------------------------------------------------------------------------------

def c16(tier):
    out = [arrays('independence', arr=a) for a in
           [strided(5), strided(2, 3), dict(fmt='Buffer', shape=(4,)), strided(2, 1, 2)]
           + STRIDED_VIEWS]
    for f in SPARSE:
        out += [arrays('independence', arr=sp(f, (3, 4), 2)),
                arrays('independence', arr=dm((2, 3, 2), (2, 0, 1), (1,), f,
                                              1 + (tier == 'thorough'))),
                arrays('independence', arr=dm((3, 2), (1, 0), (1,), f, 2))]
    for d, p in [((0, 1, 2), (2,)), ((2, 0, 1), (1,)), ((1, 0, 2), ())]:
        out.append(arrays('independence', arr=dm((2, 3, 2), d, p, 'Strided')))
    out.append(arrays('independence', arr=nested((2, 3, 2), (1, 0, 2), (1, 2), (2, 0, 1), (1,),
                                                'Strided')))
    for f, to in itertools.product(SPARSE + ('Strided',), SPARSE + ('Strided', 'DM', 'DM:COO',
                                                                    'DM:CSR')):
        if f != to:
            a = sp(f, (2, 3), 2) if f in SPARSE else strided(2, 2, cells='any')
            out.append(arrays('independence', arr=a, to=to))
    out += [arrays('independence', arr=windowed(a)) for a in [
        strided(2, 3), dict(fmt='Buffer', shape=(4,)), sp('COO', (2, 3), 2), sp('CSR', (2, 3), 2),
        sp('FlatCOO', (2, 3), 2), dm((2, 2, 2), (2, 0, 1), (1,), 'Strided')]]
    for to in ('COO', 'Strided', 'FlatCOO'):
        out.append(arrays('independence', arr=dm((2, 2, 2), (2, 0, 1), (1,), 'COO', 1), to=to))
        out.append(arrays('independence', arr=strided(2, 2, **DISTINCT), to='Buffer'))
    out += [arrays('independence', arr=fixed(f, (5, 6), 20)) for f in SPARSE]
    out += [arrays('independence', arr=fixed(f, (5, 6), 20), to=to) for f in SPARSE
            for to in ('Strided',) + SPARSE if to != f]
    for f, n in [('Strided', None)] + [(f, 2) for f in SPARSE]:
        for a in mappings((2, 3), f, n):
            out.append(arrays('independence', arr=a))
            out += [arrays('independence', arr=a, to=to)
                    for to in ('Strided',) + SPARSE + ('Buffer', )]
        for a in mappings((2, 1, 2), f, n and 1):
            out.append(arrays('independence', arr=a))
            out.append(arrays('independence', arr=a, to='FlatCOO' if f == 'CSR' else f))
    for a in VIEWS:
        out += [arrays('independence', arr=a, to=to) for to in ('Strided',) + SPARSE
                if to != a['fmt'] and (to != 'CSR' or ndim(a) == 2)]
    for v in (0, 'any'):
        out += [arrays('independence', arr=dict(a, U=v)) for a in [
            strided(2, 2, cells='any'), sp('COO', (2, 3), 2), dm((2, 2), (1, 0), (1,), 'COO', 1),
            dict(fmt='Buffer', shape=(3,))]]
    return out


# C17 ------------------------------------------------------------------------------

def c17(tier):
    out = []
    bases = [dict(fmt='Buffer', shape=(4,)), strided(4), strided(2, 2), strided(2, 1, 2)]
    for f in SPARSE:
        bases += [sp(f, (3, 4), 2), dm((2, 3), (1, 0), (1,), f, 2)]
    bases += [sp('COO', (6,), 3), sp('FlatCOO', (6,), 3), sp('COO', (2, 3, 2), 2),
              sp('FlatCOO', (2, 2, 2), 2)]
    bases += VIEWS
    bases += [dm((2, 3, 2), (2, 0, 1), (1,), 'Strided'), dm((2, 2, 2), (1, 0, 2), (2,), 'COO', 1)]
    for a in bases:
        out.append(arrays('copying', arr=a))
        out.append(arrays('copying', arr=a, U2=7))
        out.append(arrays('copying', arr=windowed(a)))
        out.append(arrays('copying', arr=windowed(a), U2=7))
        out.append(arrays('copying', arr=dict(a, U=0), U2=None))
        if tier == 'thorough' or a['fmt'] in ('Buffer', 'COO', 'CSR'):
            out.append(arrays('copying', arr=dict(a, U='any'), U2='any'))
    for f in SPARSE:
        for n in (9, 20, 33):
            out.append(arrays('copying', arr=fixed(f, (6, 8), n), U2=7))
            out.append(arrays('copying', arr=dict(fixed(f, (6, 8), n), U=0)))
        out.append(arrays('copying', arr=dm((5, 3, 4), (2, 0, 1), (1,), dict(fmt=f, at=25)), U2=7))
    for U2 in ('default', 7):
        out += [arrays('copying', arr=strided(6, 7, **DISTINCT), U2=U2),
                arrays('copying', arr=dict(fmt='Buffer', shape=(40,), **DISTINCT), U2=U2)]
    for a in sources() + VIEWS:
        out += [arrays('copying', arr=mixed(a)), arrays('copying', arr=mixed(a, U=0.25), U2=''),
                arrays('copying', arr=mixed(a), U2=0.25)]
    for f, n in [('Strided', None)] + [(f, 2) for f in SPARSE]:
        for a in mappings((2, 3), f, n) + (mappings((2, 1, 2), f, n and 1)):
            out += [arrays('copying', arr=a), arrays('copying', arr=dict(a, U=0), U2='any')]
    return out


# C18 ------------------------------------------------------------------------------

def c18(tier):
    W = ('wellformed',)
    out = []
    for f in SPARSE + ('DM:COO', 'DM:CSR'):
        out += [arrays('store', fmt=f, shape=(2, 2), check=W, U='any'),
                arrays('store', fmt=f, shape=(3, 4), cells=('pick', 2), check=W),
                arrays('store', fmt=f, shape=(3, 3), cells=('holes', 2), check=W, U=0),
                arrays('store', fmt=f, shape=(4, 1), check=W)]
    for f in ('COO', 'FlatCOO'):
        out += [arrays('store', fmt=f, shape=(5,), check=W),
                arrays('store', fmt=f, shape=(2, 2, 2), cells=('pick', 3), check=W)]
        out += [arrays('slicing', arr=sp(f, (7,), 3), kinds=((1, 1, s),), check=W)
                for s in (1, 2, -1, -3)]
        out += [arrays('slicing', arr=sp(f, (2, 3, 2), 2), kinds=k, check=W) for k in [
            (('r', 0, -1), None, ('r', 0, -1)), ('int', R + (-1,), None),
            (('r', 0, 1), (0, 'r', -1), 'int')]]
    for f in SPARSE:
        out += [arrays('slicing', arr=sp(f, (3, 4), 2), kinds=k, check=W) for k in [
            (R + (1,), ('r', 0, -1)), (('r', 0, -1), R + (1,)), (('r', 0, -2), (0, 'r', -1)),
            ('int', R + (-1,)), (R + (-1,), 'int')]]
        out.append(arrays('slicing', arr=sp(f, (5, 2), 3), kinds=(('r', 0, -1), None), check=W))
        out.append(arrays('slicing', arr=dm((2, 3, 2), (2, 0, 1), (1,), f, 2),
                          kinds=('int', ('r', 0, -1), None), check=W))
    for a, to in itertools.product(sources(), SPARSE + ('DM:COO', 'DM:CSR')):
        out.append(arrays('conversion', arr=dict(a, U=0), to=to, U2=7, check=W))
        out.append(arrays('conversion', arr=a, to=to, check=W))
    for f, to in [('COO', 'FlatCOO'), ('FlatCOO', 'COO'), ('COO', 'CSR'), ('CSR', 'COO')]:
        out.append(arrays('conversion', arr=sp(f, (2, 4), 5), to=to, check=W))
        out.append(arrays('conversion', arr=sp(f, (6, 2), 3), to=to, check=W))
        out.append(arrays('conversion', arr=sp(f, (3, 3), 0), to=to, check=W))
    if tier == 'thorough':
        for f in SPARSE:
            out += [arrays('slicing', arr=sp(f, (3, 4), 3), kinds=k, check=W) for k in [
                (R + (-1,), R + (-1,)), ((1, 1, 2), ('r', 0, -1))]]
            out += [arrays('store', fmt=f, shape=(2, 3), check=W, U='any'),
                    arrays('store', fmt=f, shape=(4, 5), cells=('pick', 3), check=W)]
    for f in SPARSE:
        for to in SPARSE + ('DM:COO', 'DM:CSR'):
            out.append(arrays('conversion', arr=fixed(f, (6, 8), 20), to=to, check=W))
        out += [arrays('store', fmt=f, shape=(6, 8), cells=('scatter', n), check=W)
                for n in (9, 33)]
        out += [arrays('slicing', arr=fixed(f, (8, 9), n), kinds=k, check=W) for n in (20, 40)
                for k in [(('r', 0, -2), at(7, 1, -3)), (at(6, 1, -2), (0, 'r', 2)),
                          ('int', at(None, None, -1)), (at(None, None, -1), 'int')]]
    return out


# C19 ------------------------------------------------------------------------------

def c19(tier):
    N = 12 if tier == 'quick' else 33
    out = [arrays('search', fmt='FlatCOO', shape=(1000,), nse=n) for n in range(N + 1)]
    out += [arrays('search', fmt='FlatCOO', shape=(1000,), nse=n) for n in (17, 20, 33, 40)]
    out += [arrays('search', fmt='COO', shape=(1000,), nse=n) for n in (17, 33)]
    out += [arrays('search', fmt='CSR', shape=(1, 1000), nse=n, rows=(0,) * n) for n in (17, 33)]
    out += [arrays('search', fmt='CSR', shape=(3, 1000), nse=n, rows=(0,) * 5 + (2,) * (n - 5))
            for n in (17, 26)]
    if tier == 'thorough':
        out += [arrays('search', fmt='FlatCOO', shape=(1000,), nse=n) for n in (65, 70, 129)]
        out += [arrays('search', fmt=f, shape=(1, 1000), nse=n, rows=(0,) * n)
                for f in ('COO', 'CSR') for n in (50, 65)]
    # listed positions
    out += [arrays('slicing', arr=fixed(f, (30, 40), n), kinds=('int', 'int'))
            for f in SPARSE for n in (15, 40, 70) + ((300,) if tier == 'thorough' else ())]
    out += [arrays('slicing', arr=fixed(f, (30, 40), 300), kinds=('int', 'int'))
            for f in ('COO', 'FlatCOO') if tier != 'thorough']
    out += [arrays('slicing', arr=fixed(f, (8, 9, 7), n), kinds=('int', 'int', 'int'))
            for f in ('COO', 'FlatCOO') for n in (40, 70)]
    out += [arrays('search', fmt='FlatCOO', shape=(100, 70), nse=n) for n in (1, 2, 5, 8, 9)]
    out += [arrays('search', fmt='FlatCOO', shape=(7, 20, 9), nse=n) for n in (1, 3, 4)]
    out += [arrays('search', fmt='COO', shape=(1000,), nse=n) for n in range(N + 1)]
    out += [arrays('search', fmt='COO', shape=(100, 70), nse=n) for n in range(0, 7)]
    out += [arrays('search', fmt='COO', shape=(30, 20, 50), nse=n) for n in range(0, 4)]
    out += [arrays('search', fmt='COO', shape=(9, 8, 7, 6), nse=n) for n in (1, 2, 3)]
    out += [arrays('search', fmt='CSR', shape=(1, 1000), nse=n, rows=(0,) * n)
            for n in range(N + 1)]
    out += [arrays('search', fmt='CSR', shape=(4, 100), nse=len(r), rows=r) for r in [
        (0, 0, 1, 3), (2,), (3, 3, 3), (0, 1, 2, 3), (1, 1, 2, 2), (0, 0, 0, 3, 3, 3),
        (1, 1, 1, 1, 1), (0, 2, 2, 2, 2, 3)]]
    for n in range(1, 5):
        out += [arrays('search', fmt='FlatCOO', shape=(1000,), nse=n, window=True),
                arrays('search', fmt='COO', shape=(100, 70), nse=n, window=True),
                arrays('search', fmt='CSR', shape=(3, 100), nse=n, rows=(0, 1, 1, 2)[:n],
                       window=True)]
    if tier == 'thorough':
        out += [arrays('search', fmt='COO', shape=(100, 70), nse=n) for n in (8, 10)]
        out += [arrays('search', fmt='COO', shape=(30, 20, 50), nse=n) for n in (5, 6)]
        out += [arrays('search', fmt='FlatCOO', shape=(7, 20, 9), nse=n) for n in (5, 6)]
    return out


# C20 ------------------------------------------------------------------------------

def c20(tier):
    out = []
    bases = [dict(fmt='Buffer', shape=(5,)), strided(5), strided(2, 3), strided(2, 1, 2),
             strided(2, 2, 2, 2, **DISTINCT)]
    for f in ('COO', 'FlatCOO'):
        bases += [sp(f, (9,), 4), sp(f, (3, 4, 2), 3), sp(f, (2, 3, 2, 2), 2), sp(f, (20, 30), 3)]
    for f in SPARSE:
        bases += [sp(f, (3, 4), 3), sp(f, (5, 2), 2), sp(f, (2, 5), 5), sp(f, (3, 3), 0)]
        bases += [dm((2, 3, 2), (2, 0, 1), (1,), f, 2), dm((3, 2), (1, 0), (1,), f, 2)]
    bases += [dm((2, 3, 2), d, p, 'Strided') for d, p in
              [((0, 1, 2), (2,)), ((2, 0, 1), (1,)), ((1, 0, 2), ()), ((2, 1, 0), (1, 2))]]
    bases += VIEWS + STRIDED_VIEWS
    bases += [nested((2, 3, 2), (1, 0, 2), (1, 2), (2, 0, 1), (1,), 'Strided'),
              nested((2, 2, 2), (2, 0, 1), (1,), (1, 0), (1,), 'CSR', 2)]
    for a in bases:
        out.append(arrays('enumeration', arr=a))
        out.append(arrays('enumeration', arr=windowed(a)))
    if tier == 'thorough':
        for f in SPARSE:
            out += [arrays('enumeration', arr=sp(f, (6, 7), 5))]
        for d in itertools.permutations(range(3)):
            for p in [(), (1,), (2,), (1, 2)]:
                out.append(arrays('enumeration', arr=dm((2, 3, 2), d, p, 'Strided')))
    for f in SPARSE:
        out += [arrays('enumeration', arr=fixed(f, (6, 8), n)) for n in (9, 20, 33)]
        out += [arrays('enumeration', arr=dm((5, 6, 4), d, p, dict(fmt=f, at=30)))
                for d, p in [((2, 0, 1), (1,)), ((1, 0, 2), (2,))]]
    out += [arrays('enumeration', arr=a) for a in [
        strided(7, 9, **DISTINCT), dm((5, 6, 4), (2, 0, 1), (1,), 'Strided'),
        dict(fmt='Buffer', shape=(50,), **DISTINCT), strided(3, 2, 2, 3, 2, **DISTINCT)]]
    out += [arrays('enumeration', arr=mixed(a, U=v)) for a in sources() + VIEWS
            for v in (None, 0.25)]
    for v in (0, 'any'):
        out += [arrays('enumeration', arr=dict(a, U=v)) for a in sources() + VIEWS + [
            strided(3), dict(fmt='Buffer', shape=(4,)), sp('COO', (2, 2, 2), 2)]]
    for f, n in [('Strided', None)] + [(f, 2) for f in SPARSE]:
        out += [arrays('enumeration', arr=a) for a in
                mappings((2, 3), f, n) + mappings((2, 2, 3), f, n and 1)]
    return out


# C21 ------------------------------------------------------------------------------

def c21(tier):
    out = []
    six = [strided(2, 2), sp('COO', (2, 2), 2), sp('FlatCOO', (2, 2), 2), sp('CSR', (2, 2), 2),
           dm((2, 2), (1, 0), (1,), 'COO', 1)]
    for a, b in itertools.product(six, six):
        out.append(arrays('equality', arr=a, other=b, structural=a['fmt'] == b['fmt']))
    for a, b in [(strided(4), sp('COO', (4,), 2)), (sp('COO', (3,), 1), sp('FlatCOO', (3,), 2)),
                 (sp('CSR', (2, 2), 1), sp('CSR', (2, 3), 1)), (strided(2, 2), strided(4)),
                 (sp('COO', (2, 3), 0), strided(3, 2)), (sp('COO', (4,), 1), strided(2, 2)),
                 (sp('COO', (2, 2, 2), 1), sp('FlatCOO', (2, 2, 2), 1)),
                 (dict(fmt='Buffer', shape=(3,)), dict(fmt='Buffer', shape=(3,))),
                 (sp('COO', (2, 3), 1), sp('CSR', (2, 3), 2)),
                 (dm((2, 1, 2), (2, 0, 1), (1,), 'COO', 1), sp('COO', (2, 1, 2), 1)),
                 (VIEWS[1], strided(4))]:
        out.append(arrays('equality', arr=a, other=b))
    for ua, ub in [(0, None), (None, 0), (0, 0), (0, 7)]:
        for a, b in [(strided(3), sp('COO', (3,), 1)), (sp('FlatCOO', (3,), 1), strided(3)),
                     (sp('COO', (2, 2), 1), sp('CSR', (2, 2), 1))]:
            out.append(arrays('equality', arr=dict(a, U=ua), other=dict(b, U=ub)))
    for a in six:
        out.append(arrays('equality_list', arr=a))
        out.append(arrays('equality_list', arr=a, shape=(2, 1)))
    for a in six + [sp('COO', (2, 3, 2), 2), sp('FlatCOO', (5,), 2), strided(4), VIEWS[0],
                    dict(fmt='Buffer', shape=(3,)), dm((2, 3), (1, 0), (), 'Strided')] + VIEWS:
        out.append(arrays('equality_copy', arr=a))
    out += [arrays('buffer_equality', n=n, m=m) for n, m in [(2, 2), (3, 3), (2, 3), (0, 0), (0, 1)]]
    if tier == 'thorough':
        for a, b in itertools.product([sp(f, (2, 3), 2) for f in SPARSE] + [strided(2, 3)],
                                      [sp(f, (2, 3), 3) for f in SPARSE]):
            out.append(arrays('equality', arr=a, other=b))
    for a, b in itertools.product(SPARSE, SPARSE):
        out.append(arrays('equality', arr=fixed(a, (5, 6), 14), other=fixed(b, (5, 6), 14)))
        out.append(arrays('equality', arr=fixed(a, (5, 6), 14), other=fixed(b, (6, 5), 14)))
        out.append(arrays('equality', arr=fixed(a, (4, 5), 14), other=fixed(b, (4, 5), 13)))
    for a, b in itertools.product([strided(2, 2), sp('COO', (2, 2), 2), sp('CSR', (2, 2), 2),
                                   sp('FlatCOO', (2, 2), 2), dm((2, 2), (1, 0), (1,), 'COO', 1)],
                                  repeat=2):
        out.append(arrays('equality', arr=mixed(a), other=mixed(b)))
        out.append(arrays('equality', arr=mixed(a, U=''), other=mixed(b, U=0.25)))
    for a in mappings((2, 2), 'Strided'):
        for b in [strided(2, 2), sp('COO', (2, 2), 2)] + mappings((2, 2), 'COO', 2):
            out.append(arrays('equality', arr=a, other=b))
    for a in mappings((2, 2), 'COO', 2):
        out.append(arrays('equality_copy', arr=a))
        out.append(arrays('equality_list', arr=dict(a, U=0)))
    return out


# C22 ------------------------------------------------------------------------------

def c22(tier):
    out = []
    for f in SPARSE:
        out += [arrays('fullness', arr=sp(f, s, n)) for s, n in [
            ((2, 2), 4), ((2, 2), 3), ((2, 2), 0), ((1, 3), 3), ((3, 1), 2), ((2, 3), 2),
            ((2, 3), 6)]]
        out += [arrays('fullness', arr=dm((2, 2), (1, 0), (1,), f, n)) for n in (4, 3)]
        out += [arrays('fullness', arr=dm((2, 2), (1, 0), (1,), f, n, view=[1, None]))
                for n in (2, 3, 1)]
        out += [arrays('fullness', arr=dm((2, 2, 2), (2, 0, 1), (1,), f, n,
                                          view=[None, (1, None, None), 0])) for n in (2, 3)]
        out += [arrays('fullness', arr=sp(f, (2, 3), n, view=[(1, None, None), (None, None, 2)]))
                for n in (2, 3)]
    for f in ('COO', 'FlatCOO'):
        out += [arrays('fullness', arr=sp(f, s, n)) for s, n in [
            ((3,), 3), ((3,), 2), ((2, 1, 2), 4), ((2, 2, 2), 3)]]
    for f in SPARSE:
        out += [arrays('fullness', arr=fixed(f, (5, 6), n)) for n in (20, 29, 30)]
        out += [arrays('fullness', arr=dm((3, 2, 4), (2, 0, 1), (1,), dict(fmt=f, at=n)))
                for n in (23, 24)]
    for f in SPARSE:
        for n in (3, 4):
            out += [arrays('fullness', arr=a) for a in mappings((2, 2), f, n)]
            out += [arrays('fullness', arr=dict(a, U=0)) for a in mappings((2, 2), f, n)[:2]]
    return out + [dict(x, params=dict(arr=windowed(x['params']['arr']))) for x in out]


# C23 ------------------------------------------------------------------------------

def c23(tier):
    out = []
    arrs = [strided(3, 4, **DISTINCT), dm((3, 4), (1, 0), (1,), 'Strided'),
            dm((3, 4), (1, 0), (), 'Strided')]
    for f in SPARSE:
        arrs += [sp(f, (3, 4), 2), dm((3, 4), (1, 0), (1,), f, 2)]
    for a in arrs:
        for axis in (0, 1):
            for others in (None, 'slices'):
                out.append(arrays('integer_index', arr=a, axis=axis, others=others))
            out.append(arrays('integer_index', arr=a, axis=axis, write=True))
    one = [strided(5, **DISTINCT), sp('COO', (5,), 2), sp('FlatCOO', (5,), 2),
           dm((5,), (0,), (), 'Strided')]
    for a in one:
        for others in (None, 'bare'):
            out.append(arrays('integer_index', arr=a, axis=0, others=others))
            out.append(arrays('integer_index', arr=a, axis=0, others=others, write=True))
    for axis in (0, 1, 2):
        for a in [strided(2, 3, 2, **DISTINCT), sp('COO', (2, 3, 2), 2),
                  dm((2, 3, 2), (2, 0, 1), (1,), 'Strided'),
                  dm((2, 3, 2), (2, 0, 1), (1,), 'CSR', 2)]:
            out.append(arrays('integer_index', arr=a, axis=axis))
            out.append(arrays('integer_index', arr=a, axis=axis, others='slices'))
            out.append(arrays('integer_index', arr=a, axis=axis, write=True))
    for a in STRIDED_VIEWS:
        out.append(arrays('integer_index', arr=a, axis=ndim(a) - 1))
        out.append(arrays('integer_index', arr=a, axis=0, write=True))
    # bare integers, and other items that are absent, None, or select nothing
    for a in arrs + [strided(2, 3, 2, **DISTINCT), sp('FlatCOO', (2, 3, 2), 2),
                     dm((2, 3, 2), (2, 0, 1), (1,), 'Strided')] + STRIDED_VIEWS:
        for others in ('bare', 'short', 'none', 'nothing'):
            for axis in range(ndim(a)) if others in ('none', 'nothing') else (0,):
                out.append(arrays('integer_index', arr=a, axis=axis, others=others))
                out.append(arrays('integer_index', arr=a, axis=axis, others=others, write=True))
    # axes of size 0
    for sh in [(0, 3), (3, 0), (2, 0, 3), (0,)]:
        for a in [strided(*sh)] + [sp(f, sh, 0) for f in SPARSE if f != 'CSR' or len(sh) == 2] + [
                dm(sh, tuple(range(len(sh))), (1,) if len(sh) > 1 else (), f, 0 if f != 'Strided'
                   else None) for f in ('Strided', 'COO')]:
            for axis in range(len(sh)):
                out += [arrays('integer_of_empty', arr=a, axis=axis, item=i, write=w)
                        for i in ('none', 'slices', 'back') for w in (False, True)]
    return out


# C24 ------------------------------------------------------------------------------

def c24(tier):
    N = 6 if tier == 'quick' else 10
    out = [arrays('buffer_window', total=n) for n in range(1, N + 1)]
    out += [arrays('buffer_window', total=n, chain=True) for n in range(1, N)]
    out += [arrays('buffer_edges', total=n) for n in range(0, N - 1)]
    out += [arrays('buffer_equality', n=n, m=m) for n in range(4) for m in range(4)]
    out += [arrays('copying', arr=dict(fmt='Buffer', shape=(4,)), U2='any'),
            arrays('enumeration', arr=dict(fmt='Buffer', shape=(6,)))]
    return out


# C25 ------------------------------------------------------------------------------

def c25(tier):
    out = []
    S = (1, 1)
    for f in ('COO', 'FlatCOO', 'Strided', 'CSR'):
        for sh in [(0, 3), (3, 0), (0, 0)]:
            a = sp(f, sh, 0)
            out.append(arrays('empty', arr=a, kinds=(S + (2,), ('r', 'r', -1))))
            out.append(arrays('empty', arr=a, kinds=(S + (-1,), None)))
            if sh[1]:
                out.append(arrays('empty', arr=a, kinds=(S + (1,), 'int')))
            if sh[0]:
                out.append(arrays('empty', arr=a, kinds=('int', S + (1,))))
    for f in ('COO', 'FlatCOO', 'Strided'):
        out.append(arrays('empty', arr=sp(f, (0,), 0), kinds=(S + (3,),)))
        out.append(arrays('empty', arr=sp(f, (2, 0, 3), 0), kinds=('int', S + (1,), ('r', 0, -1))))
        out.append(arrays('empty', arr=sp(f, (4,), 1, view=[(2, 2, None)]), kinds=(S + (2,),)))
        out.append(arrays('empty', arr=sp(f, (3, 2), 1, view=[(2, 1, None), None]),
                          kinds=(S + (-1,), ('r', 0, -1))))
    for d in ('Strided', 'COO', 'CSR'):
        n = None if d == 'Strided' else 0
        out.append(arrays('empty', arr=dm((0, 3), (1, 0), (1,), d, n), kinds=(S + (1,), 'int')))
        out.append(arrays('empty', arr=dm((2, 0, 2), (2, 0, 1), (1,), d, n),
                          kinds=(('r', 0, -1), S + (1,), None)))
        out.append(arrays('empty', arr=dm((2, 3), (1, 0), (1,), d, n, view=[(1, 1, None), None]),
                          kinds=(S + (1,), ('r', 0, -1))))
        out.append(arrays('empty', arr=dm((2, 3, 2), (2, 0, 1), (1,), d, n,
                                          view=[1, (3, None, None), None]),
                          kinds=(S + (1,), ('r', 0, -1))))
    # formats without any specified element
    for f in SPARSE:
        out.append(arrays('copying', arr=sp(f, (2, 3), 0), U2=7))
        out.append(arrays('slicing', arr=sp(f, (3, 4), 0), kinds=(('r', 'r', 1), S + (-1,))))
        for to in ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM:CSR'):
            out.append(arrays('conversion', arr=sp(f, (2, 3), 0), to=to))
    return out


# C26 ------------------------------------------------------------------------------

def c26(tier):
    out = []
    SET, COPY, BASE = ('set',), ('copy',), ('base',)

    def fill(*k):
        return ('fill', k)

    def view(*k):
        return ('view', k)
    A, B = R + (1,), ('r', 0, -1)
    scripts = [
        (SET, SET, COPY, SET), (SET, fill(B, A), SET), (fill('int', A), COPY, fill(B, 'int')),
        (view(A, B), SET, BASE, SET), (COPY, view('int', A), SET, SET, BASE, SET),
        (view(B, A), view('int', B), SET), (view(B, None), fill('int', A), BASE, COPY, SET),
        (SET, view(A, 'int'), COPY, SET)]
    for a in [strided(2, 3, **DISTINCT), dm((2, 3), (1, 0), (1,), 'Strided'),
              dm((2, 3), (1, 0), (), 'Strided')]:
        for ops in scripts:
            out.append(arrays('history', arr=a, ops=ops))
    for a in [strided(2, 2, **DISTINCT), dm((2, 2), (1, 0), (1,), 'Strided')]:
        for to in SPARSE + ('DM:COO', 'DM'):
            out.append(arrays('history', arr=a, ops=(SET, COPY, ('as', to))))
            out.append(arrays('history', arr=a, ops=(view(A, None), ('as', to), SET)))
    for f in SPARSE:
        for a in [sp(f, (2, 2), 2), dm((2, 2), (1, 0), (1,), f, 2)]:
            for ops in [(SET, SET, COPY, SET), (SET, COPY, fill('int', A), SET),
                        (SET, view(A, B), SET), (view('int', A), COPY, SET),
                        (view(B, A), view(A, 'int'), SET)]:
                if a['fmt'] == 'DM' and ops[0][0] == 'view':
                    continue
                out.append(arrays('history', arr=a, ops=ops))
            for to in SPARSE + ('Strided', 'DM:CSR'):
                if to != f:
                    out.append(arrays('history', arr=a, ops=(SET, ('as', to), SET)))
    # reading the same slice before and after a write
    for a in [strided(2, 3, **DISTINCT), dm((2, 3), (1, 0), (1,), 'Strided'),
              dm((2, 3), (1, 0), (1,), 'COO', 2), strided(2, 3, view=[(None, None, -1), None])] + [
                  sp(f, (2, 3), 2) for f in SPARSE]:
        for k in [(0, at()), (None, 1), (None, None),
                  (at(None, None, -1), at(1))]:
            L = ('look', k)
            out.append(arrays('history', arr=a, ops=(L, SET, L)))
            out.append(arrays('history', arr=a, ops=(L, ('fill', k), L)))
    # an operation does not depend on what was computed before it
    def look(*k):
        return ('look', k)
    bases = [strided(2, 3, **DISTINCT), dm((2, 3), (1, 0), (1,), 'Strided')]
    bases += [sp(f, (2, 3), 1) for f in SPARSE] + [dm((2, 3), (1, 0), (1,), 'COO', 1)]
    for a in bases:
        for ops in [(look(('r', 0, 1), ('r', 0, 1)), look(('r', 0, 1), R + (1,))),
                    (look('int', R + (2,)), look('int', ('r', 0, 2))),
                    (look(('r', 0, -1), 'int'), look(('r', 0, -1), None)),
                    (look(None, ('r', 0, 1)), fill(None, ('r', 0, 1))),
                    (fill('int', ('r', 0, -1)), fill('int', ('r', 0, -1)))]:
            out.append(arrays('history', arr=a, ops=ops))
    return out


# C27 ------------------------------------------------------------------------------

def version(func, **params):
    return job('version', func, **params)


def c27(tier):
    out = []
    for part in ('version', 'versioneer'):
        for commit in (0, 1, 2):
            for tag in (None, 'v0.1.0', 'v1.2+local', 'v2.0-rc-1', 'v2021.1', 'release-9',
                        'v1-2-gabc', 'v1.0-dirty'):
                out.append(version('checkout', tag=tag, commit=commit, part=part))
        for missing in ('git', 'repository'):
            out.append(version('checkout', tag='v0.1.0', missing=missing, part=part))
        for style in (None, 'default', 'pep440', 'pep440-pre', 'pep440-post', 'pep440-old',
                      'git-describe', 'git-describe-long'):
            for tag in (None, '1.0', '1.2+local', '2.0-rc-1'):
                out.append(version('styles', tag=tag, style=style, part=part))
        tags = ('tag: v1.0', 'tag: v1.1', 'tag: v1.0rc1', 'tag: release-2', 'tag: 3.0')
        for extra in ('', 'HEAD', 'HEAD -> master'):
            out.append(version('archive', refs=tags, extra=extra, part=part))
    return out


# C28 ------------------------------------------------------------------------------

def c28(tier):
    out = []
    for a in [strided(2, 2), dm((2, 2), (1, 0), (1,), 'Strided'), dm((2, 3), (1, 0), (1,), 'COO', 1),
              strided(3, 2, view=[(None, None, -1), None], **DISTINCT)] + [
                  sp(f, (2, 3), 1) for f in SPARSE]:
        out += [arrays('purity', arr=a, kinds=k) for k in [
            ('int', ('r', 0, -1)), (('r', 0, 2), None)]]
        out.append(arrays('purity', arr=windowed(a), kinds=(None, 'int')))
    out += [arrays('purity', arr=fixed(f, (4, 5), 9), kinds=k) for f in SPARSE for k in [
        (at(None, None, -2), None), ('int', at(3, 1, -1))]]
    out += [arrays('purity', arr=a, kinds=k) for a, k in [
        (strided(3), (('r', 'r', -1),)), (sp('COO', (5,), 2), (('r', 'r', -1),)),
        (sp('FlatCOO', (2, 2, 2), 2), ('int', None, at(None, None, -1))),
        (nested((2, 2, 2), (2, 0, 1), (1,), (1, 0), (1,), 'Strided'), ('int', ('r', 0, 1), None))]]
    fmts = ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM', 'DM:COO', 'DM:CSR', 'DM:FlatCOO')
    out += [arrays('source_isolation', fmt='Buffer', shape=(n,)) for n in (1, 4)]
    for f in fmts:
        out.append(arrays('source_isolation', fmt=f, shape=(2, 3)))
        if 'CSR' not in f:
            out.append(arrays('source_isolation', fmt=f, shape=(4,)))
        if f != 'CSR':
            out.append(arrays('source_isolation', fmt=f, shape=(2, 1, 2)))
        if not f.endswith('CSR'):
            out.append(arrays('source_isolation', fmt=f, shape=(4,)))
    if tier == 'thorough':
        out += [arrays('purity', arr=sp(f, (3, 3), 2), kinds=k) for f in SPARSE for k in [
            ('int', R + (-1,)), (R + (2,), None)]]
        out += [arrays('source_isolation', fmt=f, shape=(3, 4)) for f in fmts]
    for a in mappings((2, 2), 'Strided') + mappings((2, 2), 'COO', 1):
        out.append(arrays('purity', arr=a, kinds=('int', at(None, None, -1))))
    out += [arrays('purity', arr=dict(a, U=0), kinds=('int', at(None, None, -1)))
            for a in [strided(2, 2), sp('COO', (2, 2), 1), sp('CSR', (2, 2), 1),
                      dm((2, 2), (1, 0), (1,), 'FlatCOO', 1)]]
    return out


# C29 ------------------------------------------------------------------------------

def c29(tier):
    out = []
    some = [strided(2, 3), strided(4), strided(2, 3, 2, **DISTINCT), strided(2, 2, 2, 2, **DISTINCT)]
    some += [sp(f, (3, 3), 2) for f in SPARSE] + [fixed(f, (6, 7), 20) for f in SPARSE]
    some += [sp('COO', (5,), 2), sp('FlatCOO', (6,), 3), sp('FlatCOO', (2, 3, 2), 2),
             sp('COO', (2, 2, 2), 2), dm((2, 3), (1, 0), (1,), 'Strided'),
             dm((2, 3), (1, 0), (1,), 'CSR', 2), dm((2, 3, 2), (2, 0, 1), (1,), 'Strided'),
             dm((2, 3, 2), (2, 0, 1), (1,), 'COO', 1)]
    some += VIEWS
    out += [arrays('rows', arr=a) for a in some + [dict(fmt='Buffer', shape=(5,))]]
    out += [arrays('rows', arr=windowed(a)) for a in some + [dict(fmt='Buffer', shape=(5,))]]
    for a in some:
        n = ndim(a)
        for to in ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM:COO'):
            if (n > 1 or 'CSR' not in to) and (n == 2 or to != 'CSR'):
                out.append(arrays('from_rows', arr=a, to=to))
    for f, n in [('Strided', None), ('COO', 2)]:
        out += [arrays('rows', arr=a) for a in mappings((2, 3), f, n) + mappings((2, 2, 2), f, n)]
    out += [arrays('rows', arr=dict(a, U=0)) for a in some[:4] + some[4:7] + VIEWS[:3]]
    return out


# C30 ------------------------------------------------------------------------------

def c30(tier):
    out = [arrays('parts', kind=k) for k in ('Strided', 'DM', 'part', 'cut', 'axes')]
    for N in (0, 1, 4, 9) + ((30,) if tier == 'thorough' else ()):
        out += [arrays('parts', kind=k, N=N) for k in ('Buffer', 'COO', 'FlatCOO', 'CSR', 'C2SR')]
    return out


# C31 ------------------------------------------------------------------------------

def c31(tier):
    out = []
    bases = [strided(4), strided(2, 3), strided(2, 1, 2), strided(3, 4, view=[
        (None, None, 2), (1, 3, None)], **DISTINCT), strided(8, view=[(None, None, -3)], **DISTINCT),
        strided(5, view=[(3, None, -2)], **DISTINCT), strided(6, view=[(None, 1, -2)], **DISTINCT),
        strided(4, 4, view=[(None, None, -1), None], **DISTINCT),
        strided(4, 4, view=[(2, None, -2), (1, None, 1)], **DISTINCT),
        strided(4, 4, view=[(2, None, -1), None], **DISTINCT),
        strided(3, 4, view=[(1, None, None), None], **DISTINCT),
        strided(3, 4, view=[(None, 2, None), None], **DISTINCT),
        strided(3, 2, 4, view=[1, None, (None, None, -1)], **DISTINCT),
        strided(5, 6, view=[3, (None, None, 2)], **DISTINCT)]
    for f in SPARSE:
        bases += [sp(f, (3, 4), 2), dm((2, 3), (1, 0), (1,), f, 1), fixed(f, (5, 6), 14)]
    bases += [sp('COO', (6,), 2), sp('FlatCOO', (2, 3, 2), 2)] + VIEWS
    bases += [dm((2, 3, 2), (2, 0, 1), (1,), 'Strided'), dm((2, 2, 2), (1, 0, 2), (2,), 'COO', 1)]
    for a in bases:
        own = a['fmt'] == 'Strided'
        for b in (a, windowed(a)):
            if own:
                out.append(arrays('row_major', arr=b, how='copy'))
                out.append(arrays('row_major', arr=b, how='copy', U2=7))
            else:
                out.append(arrays('row_major', arr=b, how='as_Strided'))
            out.append(arrays('row_major', arr=b, how='as_Strided', U2=7))
        out.append(arrays('row_major', arr=a, how='as_Buffer'))
        out.append(arrays('row_major', arr=dict(a, U=0), how='as_Buffer', U2=None))
    big = tier == 'thorough'
    for sh in [(7,), (3, 4), (4, 3), (2, 3, 2)] + [(12,), (4, 5), (3, 3, 3)] * big:
        out.append(arrays('copy_of_slices', shape=sh))
    for sh in [(5,), (3, 3)] + [(9,), (4, 4)] * big:
        out.append(arrays('copy_of_slices', shape=sh, U2=7))
        out.append(arrays('copy_of_slices', shape=sh, how='as_Strided', U2=7))
    for f, n in [('Strided', None), ('COO', 1)]:
        for a in mappings((2, 3), f, n) + mappings((2, 2, 2), f, n):
            out.append(arrays('row_major', arr=a, how='as_Strided'))
            out.append(arrays('row_major', arr=a, how='as_Buffer'))
    return out


# C32 ------------------------------------------------------------------------------

def c32(tier):
    out = []
    bases = [(strided(5), [(('r', 'r', 1),), ((1, 1, -2),)]),
             (strided(3, 4), [(('r', 0, 1), ('r', 0, -1)), ('int', ('r', 0, 2)),
                              ((1, 1, 1), 'int'), (None, None)]),
             (strided(4, 4, view=[(None, None, -1), (1, None, 2)], **DISTINCT), [
                 (('r', 0, 1), None)]),
             (dm((2, 3), (1, 0), (1,), 'Strided'), [(('r', 0, 1), None), ('int', (1, 1, -1))]),
             (dm((2, 2, 3), (2, 0, 1), (1,), 'Strided'), [('int', None, ('r', 0, -1))]),
             (strided(2, 3, 2, **DISTINCT), [(None, ('r', 0, 1), None), ('int', None, 'int')])]
    for f in SPARSE:
        bases += [(sp(f, (3, 3), 2), [(('r', 0, 1), None), ('int', ('r', 0, -1))]),
                  (dm((2, 3), (1, 0), (1,), f, 2), [(None, ('r', 0, 1))])]
    bases += [(fixed(f, (4, 5), 12), [(None, None), (at(3, None, -1), at(None, None, 2))])
              for f in SPARSE]
    for arr, kinds in bases:
        for k in kinds:
            for bad in ('short', 'item', 'array', 'integer', 'many', 'scalar'):
                out.append(arrays('failed_assignment', arr=arr, kinds=k, bad=bad))
    for a in mappings((2, 2, 3), 'Strided'):
        out += [arrays('failed_assignment', arr=a, kinds=(('r', 0, 1), 'int', None), bad=bad)
                for bad in ('short', 'item')]
    return out


# C33 ------------------------------------------------------------------------------

def c33(tier):
    out = [arrays('long_line'), arrays('long_line', rows=2)]
    out += [arrays('buffer_marks', N=N, n=n) for N, n in [(3, 2), (25, 3), (12, 0), (60, 40)]]
    for cells in ('distinct', 'mixed'):
        kw = dict(cells=cells)
        bases = [(strided(5, **kw), [(None,), (('r', 'r', 1),), (('r', 'r', -2),)]),
                 (strided(0, **kw), [(None,)]),
                 (strided(3, 4, **kw), [(None, None), (('r', 'r', 1), None), ('int', None),
                                        (None, 'int'), (('r', 0, -1), ('r', 0, 2)),
                                        (None, ('r', 'r', 1))]),
                 (strided(4, 4, view=[(None, None, -1), (1, None, 2)], **kw), [
                     (None, None), (None, ('r', 0, 1)), ('int', None)]),
                 (strided(2, 0, **kw), [(None, None)]), (strided(0, 3, **kw), [(None, None)]),
                 (strided(2, 3, 2, **kw), [(None, None, None), ('int', None, None),
                                           (None, 'int', ('r', 0, -1)), (None, 'int', 'int')]),
                 (dm((2, 3), (1, 0), (1,), 'Strided', **kw), [(None, None), ('int', None)])]
        for f in SPARSE if cells == 'mixed' else ():
            bases += [(fixed(f, (4, 5), 7, **kw), [(None, None), (None, ('r', 'r', 1)),
                                                   ('int', None)])]
        for a, ks in bases:
            for k in ks:
                out.append(arrays('printing', arr=a, kinds=k))
                if 0 not in a['shape'] and a['fmt'] != 'DM':
                    out.append(arrays('printing', arr=windowed(a), kinds=k))
    return out


# Larger arrays ----------------------------------------------------------------------
# What the code does for a few elements it does for hundreds: listed structure and element
# indices, element values by mixed constants (sparse) or distinct numbers.

SET = ('set',)


def listed(arr, **kw):
    return dict(arr, listed=True, **kw)


def large(pid, tier):
    G, H, T = (20, 30), (40, 30), (1100,)
    if pid in ('C28', 'C33'):
        G, H, T = (12, 13), (9, 11), (150,)
    if pid == 'C26':
        T = (300,)
    nG, nH, nT = G[0] * G[1] // 2, H[0] * H[1] - 170 if pid != 'C28' else 70, T[0] // 2 + 3
    dense = [listed(strided(*G, **DISTINCT)), listed(strided(*T, **DISTINCT)),
             listed(dm(G, (1, 0), (1,), 'Strided'))]
    some = [listed(fixed(f, G, nG, cells='mixed')) for f in SPARSE]
    line = [listed(fixed(f, T, nT, cells='mixed')) for f in ('COO', 'FlatCOO')]
    over = [listed(dm((10, 6, 10), (2, 0, 1), (1,), dict(fmt=f, at=270))) for f in SPARSE]
    if pid not in ('C26', 'C28', 'C20', 'C29') or tier == 'thorough' and pid != 'C28':
        some += [listed(fixed(f, H, nH, cells='mixed')) for f in SPARSE]
        dense += [listed(strided(*H, **DISTINCT))]
    arrs = dense + some + line + over

    def kinds(a):
        n = len(a['shape'])
        if n == 1:
            return [(at(None, None, -3),), (at(7, 1000, 1),)]
        if n == 3:
            return [(at(8, 1, -1), 2, at(None, None, 3))]
        return [(at(18, 1, -3), at(1, None, 2)), (7, at(None, None, -1))]

    def each(fn, some=arrs, count=2, **kw):
        return [arrays(fn, arr=a, kinds=k, **kw) for a in some for k in kinds(a)[:count]]

    def of(fn, some=arrs, **kw):
        return [arrays(fn, arr=a, **kw) for a in some]

    if pid == 'C08':
        return [j for to in ('Strided', 'COO', 'FlatCOO', 'DM:COO', 'Buffer')
                for j in of('conversion', to=to)] + of('conversion', dense[:1] + some, to='CSR')
    return {'C09': lambda: each('slicing', some + line),
            'C10': lambda: each('slicing', dense[2:]),
            'C11': lambda: each('slicing', over),
            'C12': lambda: [arrays('slicing', arr=a, kinds=(at(18, 1, -1), at(1, None, 2)),
                                   kinds2=(at(None, None, -2), at(3, 12)))
                            for a in dense[:1] + dense[2:3] + some],
            'C13': lambda: of('assign_element') + of('assign_element', negative=True),
            'C14': lambda: each('assign_slice', dense + line + over + some)
            + [arrays('assign_overlap', arr=a, kinds=(at(2, 17, 1), None),
                      kinds2=(at(17, 2, -1), None)) for a in dense[:1] + dense[2:3] + some[:3]],
            'C15': lambda: each('view_writes', dense),
            'C16': lambda: of('independence') + of('independence', dense + some, to='Buffer'),
            'C17': lambda: of('copying') + of('copying', some, U2=7),
            'C18': lambda: [j for to in SPARSE for j in
                            of('conversion', dense[:1] + some, to=to, check=('wellformed',))]
            + each('slicing', some + line, check=('wellformed',)),
            'C19': lambda: [arrays('lookups', arr=a) for a in [
                fixed(f, sh, n) for f in SPARSE
                for sh, n in [((3, 300), 640), ((2, 400), 790), ((300, 3), 450), ((40, 30), 700)]]
                + [fixed(f, sh, n) for f in SPARSE[:2]
                   for sh, n in [((1100,), 800), ((9, 10, 11), 500)]] + over],
            'C20': lambda: of('enumeration'),
            'C21': lambda: of('equality_copy'),
            'C22': lambda: of('fullness', some + line),
            'C24': lambda: of('copying', [listed(dict(fmt='Buffer', shape=(300,)))]),
            'C26': lambda: [arrays('history', arr=a, ops=ops) for a in dense[:2] + some + line
                            for k in kinds(a)[:1] for ops in
                            [(SET, ('copy',), SET), (('look', k), SET, ('look', k)),
                             (('view', k), SET, ('copy',), SET), (SET, ('as', 'Strided' if a['fmt'] == 'FlatCOO' else
                                                          'FlatCOO'), SET),
                             (SET, ('fill', tuple(x and at(2, 60, 17) for x in k)), SET)]],
            'C28': lambda: each('purity', dense[:1] + some, 1),
            'C29': lambda: of('rows', dense + some + over),
            'C31': lambda: [j for how in ('copy', 'as_Strided', 'as_Buffer')
                            for j in of('row_major', dense[:2] if how == 'copy' else arrs, how=how)],
            'C32': lambda: [j for bad in ('short', 'item', 'array', 'scalar') for j in
                            each('failed_assignment', dense[:1] + dense[2:3] + some, 1, bad=bad)],
            }.get(pid, list)()


# Other layouts of strided arrays: column-major, gaps between rows, any order of axes ----------

LAYOUTS = [strided(2, 3, strides=(1, 2)), strided(3, 2, strides=(4, 1)),
           strided(3, 3, strides=(1, 3)), strided(2, 3, strides=(3, 7)),
           strided(1, 3, strides=(1, 1)), strided(3, 1, strides=(2, 9)),
           strided(2, 2, 3, strides=(6, 1, 2)), strided(2, 2, 2, strides=(1, 2, 4)),
           strided(3, 2, 2, strides=(2, 12, 1)), strided(4, strides=(3,)),
           strided(2, 3, strides=(1, 2), window=True)]


def layouts(pid):
    A = [dict(a, **DISTINCT) for a in LAYOUTS]
    M = [dict(a, cells='mixed') for a in LAYOUTS]
    over = [dm((2, 3, 2), (2, 0, 1), (1,), dict(fmt='Strided', strides=t, **DISTINCT))
            for t in [(1, 2), (12, 2)]]
    both = A + over

    def kinds(a):
        n = ndim(a)
        return {1: [(F + (2,),), (F + (-1,),), ('int',)],
                2: [(R + (1,), 'int'), ('int', F + (-1,)), (('r', 0, -1), (0, 'r', 2)),
                    (None, ('r', 0, -2))],
                3: [('int', ('r', 0, 1), None), (('r', 0, -1), 'int', (0, 'r', 1)),
                    (None, None, R + (-1,))]}[n]

    def each(fn, some=both, count=4, **kw):
        return [arrays(fn, arr=a, kinds=k, **kw) for a in some for k in kinds(a)[:count]]

    def of(fn, some=both, **kw):
        return [arrays(fn, arr=a, **kw) for a in some]

    F = (1, 1)
    E = [strided(*sh, strides=t) for sh, t in [((3, 0), (1, 1)), ((0, 3), (1, 4)),
                                               ((2, 0, 3), (5, 2, 1)), ((0,), (3,)),
                                               ((3, 0), (-2, 5))]]
    C = [sp('COO', sh, n, window='entries') for sh, n in [((2, 3), 2), ((4,), 2), ((2, 2, 2), 2)]]
    D = [dm((2, 2, 3), (2, 0, 1), (1,), dict(C[0], fmt='COO'), 1)]
    todo = {
        'C09': lambda: each('slicing', C) + [
            arrays('slicing', arr=fixed('COO', (20, 30), 90, window='entries'), kinds=k)
            for k in [(at(17, 2, -5), at(3, None, 4)), (7, at(None, None, -2))]],
        'C11': lambda: each('slicing', D),
        'C18': lambda: each('slicing', C, check=('wellformed',)),
        'C19': lambda: of('lookups', [fixed('COO', (30, 40), 300, window='entries')])
        + [arrays('search', fmt='COO', shape=(8, 9), nse=5, window='entries')],
        'C02': lambda: each('slicing'),
        'C08': lambda: [j for to in ('Strided', 'COO', 'FlatCOO', 'CSR', 'Buffer')
                        for j in of('conversion', C if to != 'CSR' else C[:1], to=to)] + [j for to in ('Strided', 'COO', 'FlatCOO', 'DM:COO', 'Buffer')
                        for j in of('conversion', both + LAYOUTS[:2], to=to)]
        + of('conversion', [a for a in A if ndim(a) == 2], to='CSR')
        + of('conversion', M[:3], to='FlatCOO', U2='any'),
        'C12': lambda: [arrays('slicing', arr=a, kinds=(('r', 0, -1), (0, 'r', 1)),
                               kinds2=((0, 'r', 1), ('r', 0, -1))) for a in A if ndim(a) == 2],
        'C13': lambda: of('assign_element', both + LAYOUTS[:4] + C) + of('assign_element', A,
                                                                     negative=True),
        'C14': lambda: each('assign_slice') + each('assign_slice', C, 2) + each('assign_slice', A, 2, value='Strided')
        + [arrays('assign_overlap', arr=a, kinds=(('r', 0, 1), None), kinds2=((0, 'r', -1), None))
           for a in A if ndim(a) == 2 and a['shape'][0] > 1],
        'C15': lambda: each('view_writes', count=2),
        'C16': lambda: of('independence', both + C) + of('independence', C[:1], to='CSR') + [j for to in ('Buffer', 'COO', 'FlatCOO', 'DM:COO')
                                             for j in of('independence', to=to)],
        'C17': lambda: of('copying', both + M + LAYOUTS[:3] + C) + of('copying', M, U2='any'),
        'C20': lambda: of('enumeration', both + M + C),
        'C21': lambda: [arrays('equality', arr=a, other=strided(*a['shape'], **w)) for a in LAYOUTS[:2]
           for w in ({}, dict(strides=LAYOUTS[0]['strides'] if a['shape'] == (2, 3) else (1, 3)))],
        'C23': lambda: [arrays('integer_index', arr=a, axis=k, write=w) for a in both
                        for k in range(ndim(a)) for w in (False, True)],
        'C25': lambda: [arrays('empty', arr=a, kinds=k) for a in E for k in
                        {1: [(F + (2,),)], 2: [(F + (1,), None), (None, F + (-1,))],
                         3: [(F + (1,), None, 'int'), ('int', F + (2,), None)]}[ndim(a)]]
        + [arrays('empty', arr=E[0], kinds=('int', F + (1,)))],
        'C26': lambda: [arrays('history', arr=a, ops=ops) for a in A[:2] + A[9:10] for ops in
                        [(SET, ('copy',), SET), (SET, ('as', 'COO'), SET),
                         (('view', kinds(a)[-2]), SET, ('copy',), SET),
                         (SET, ('fill', kinds(a)[-1]), SET)]],
        'C28': lambda: each('purity', A[:2] + A[6:7], 1),
        'C29': lambda: of('rows', both + C) + [arrays('from_rows', arr=a, to=to) for a in A[:4] + A[6:7]
                                     for to in ('Strided', 'COO')],
        'C31': lambda: [j for how in ('copy', 'as_Strided', 'as_Buffer') for j in
                        of('row_major', (A + M if how == 'copy' else both), how=how)
                        if how != 'as_Strided'],
        'C32': lambda: [j for bad in ('short', 'item', 'array', 'integer')
                        for j in each('failed_assignment', A[:4], 1, bad=bad)],
        'C33': lambda: [arrays('printing', arr=a, kinds=k) for a in A[:4] + A[9:10]
                        for k in (([('r', 0, -1)], [None]) if ndim(a) == 1
                        else ([None, ('r', 0, -1)], ['int', None]))]}
    return todo.get(pid, list)()


def prop(jobs, bounds, assumptions=()):
    return dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions))


PROPERTIES = {
    'C01': prop(c01, 'start, stop, size and step are unbounded integers (size >= 0; the item '
                'formula with constant steps 1,2,3,7 and negatives; thorough up to 100)'),
    'C02': prop(c02, 'sizes, strides, bounds and base offsets unbounded for up to 4 axes with '
                'one sliced axis of arbitrary constant step (also symbolic step), two sliced '
                'axes with one-sided bounds; concrete small shapes up to 5 axes otherwise'),
    'C03': prop(c03, 'unbounded sizes and indices for groups of at most 2 axes (up to 4 axes, '
                'thorough 5); every axis order and partition for listed concrete shapes of '
                'up to 4 axes (thorough 5), arbitrary indices'),
    'C04': prop(c04, 'up to 5 entries and 6 rows (thorough 7 and 8), plus 2x30, 10x2, 12x2; '
                'listed compressions of up to 300 rows with arbitrary row index'),
    'C05': prop(c05, 'all non-zero coefficient vectors with |a|<=8 (2 coefficients), <=3 '
                '(3 coefficients), <=30 (1) [thorough 40, 6, and 3 for 4 coefficients], plus 22 '
                'listed vectors of up to 6, with coefficients up to 5 * 2**60; right-hand side, parameters and solution unbounded'),
    'C06': prop(c06, 'every slice (all steps and counts, subsets of axes) of the listed shapes '
                'of up to 5 axes; listed geometries with shapes up to 400 per axis and strides up to '
                '8000; strides in any axis order and sign; arbitrary integer position'),
    'C07': prop(c07, 'arbitrary values in shapes of up to 4 elements (thorough 6), 1-3 arbitrary '
                'values at arbitrary positions in shapes of up to 20 elements, 1 to 4 axes; arbitrary '
                'values at up to 120 listed positions of shapes of up to 1200'),
    'C08': prop(c08, 'arrays of up to 12 positions with up to 5 specified elements at arbitrary '
                'positions (up to 60 at listed positions of shapes of up to 300), arbitrary values; '
                'unspecified values None, constants, arbitrary'),
    'C09': prop(c09, 'shapes of up to 20 positions, 1 to 4 axes, up to 3 specified elements at '
                'arbitrary positions; slices with arbitrary bounds on one axis, in-range '
                'bounds on the others, steps -3..3; up to 60 elements at listed positions; listed '
                'shapes of 5 and 6 axes'),
    'C10': prop(c10, 'every axis order and partition of shapes of up to 4 axes (24 positions), '
                'selected ones of 5 axes; from nested lists and from other arrays; arbitrary '
                'index; up to 2 unspecified elements at '
                'arbitrary positions'),
    'C11': prop(c11, 'shapes of up to 36 positions and 4 axes, selected axis orders and '
                'partitions, one level of nesting, up to 2 specified elements at arbitrary '
                'positions; slices as in C09; listed shapes of 5 and 6 axes and larger listed structure'),
    'C12': prop(c12, 'strided: unbounded sizes, strides and bounds, steps -3..3 per level; other '
                'formats shapes of up to 18 positions; two levels of slicing'),
    'C13': prop(c13, 'shapes of up to 16 positions (thorough 2000), up to 3 (4) specified '
                'elements at arbitrary positions; arbitrary index and value; one assignment'),
    'C14': prop(c14, 'shapes of up to 16 positions, up to 3 specified elements; slices as in '
                'C09; values from nested lists, tuples, strided and sparse arrays'),
    'C15': prop(c15, 'strided arrays and dimension mappings over them of up to 20 positions; '
                'one or two levels of slicing; one write each way'),
    'C16': prop(c16, 'shapes of up to 12 positions, up to 2 specified elements; one write each '
                'way at an arbitrary specified element'),
    'C17': prop(c17, 'shapes of up to 12 positions, up to 3 specified elements at arbitrary '
                'positions, arbitrary values'),
    'C18': prop(c18, 'as C07, C08 and C09'),
    'C19': prop(c19, 'up to 12 specified elements per array (thorough 33) at arbitrary '
                'increasing positions in shapes of up to 30000 positions; arbitrary index'),
    'C20': prop(c20, 'shapes of up to 24 positions (600 for 3 elements), up to 5 specified '
                'elements at arbitrary positions'),
    'C21': prop(c21, 'pairs of arrays of up to 8 positions, up to 3 specified elements each'),
    'C22': prop(c22, 'shapes of up to 8 positions, up to 6 specified elements'),
    'C23': prop(c23, 'unbounded integer index on one axis, shapes of up to 12 positions'),
    'C24': prop(c24, 'memories of up to 6 elements (thorough 10), arbitrary windows'),
    'C25': prop(c25, 'shapes of up to 3 axes with an axis of size 0, and slices that select '
                'nothing; arbitrary slice bounds'),
    'C26': prop(c26, 'listed scripts of up to 5 operations on shapes of up to 9 positions; '
                'arbitrary positions, values and slice bounds in each operation'),
    'C27': prop(c27, 'listed tags, commits and reference lists, every subset of the latter; '
                'unbounded number of commits; changed and unchanged trees; every style',
                ['git is simulated: its answers are those git documents for the commands the '
                 'code gives it']),
    'C28': prop(c28, 'shapes of up to 20 positions and 3 axes, up to 9 specified elements; every '
                'reading operation once'),
    'C29': prop(c29, 'shapes of up to 42 positions and 4 axes, up to 20 specified elements'),
    'C31': prop(c31, 'shapes of up to 30 positions, up to 14 specified elements, constant slices; '
                'arbitrary element'),
    'C32': prop(c32, 'shapes of up to 20 positions, up to 12 specified elements; slices as in C09; '
                'values too short, too flat or too small at any place, integers out of range, too '
                'many indices'),
    'C33': prop(c33, 'listed elements of several types in shapes of up to 20 positions; '
                'arbitrary slices, windows and lengths of lines'),
    'C30': prop(c30, 'sizes of each part up to 9 (thorough 30), buffer size and offset unbounded'),
}


for _id, _p in PROPERTIES.items():
    if large(_id, 'quick'):
        _p['bounds'] += ('; listed structure and listed indices in arrays of up to 1200 positions '
                         'and 1030 specified elements')
    if layouts(_id):
        _p['bounds'] += '; listed other memory layouts (column-major, gaps, any order of axes)'
