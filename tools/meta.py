#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing this file)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ST, SG, GB = 'gcs/slice_tools.py', 'gcs/storage.py', 'gcs_basics.py'
FMT = ('strided, coordinate (COO), flattened coordinate (FlatCOO), compressed-row (CSR) and '
       'dimension-mapped (DM) arrays')

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Normalising a slice keeps the items it selects, and counts them',
     'For every slice with optional integer bounds and any non-zero integer step, and every '
     'non-negative axis size, the normalised slice selects exactly the positions Python\'s own '
     'slicing selects, in the same order, and item i is at (start + i*step) modulo the size as '
     'documented. The reported number of items is the number of selected positions, both for '
     'the original and for the normalised slice.',
     ['inputs'], 'all start, stop, step (any sign, beyond the axis), and size',
     'Existing tests enumerate sizes below 10 or so and bounds near them; the clamping of bounds '
     'and steps is a piecewise function of four unbounded integers.',
     [ST], [('slice reduction', 'slice_tools.reduced'), ('item count', 'slice_tools.nitems')],
     ['reduced(s, size)', 'nitems(s, size)'])

prop('C02', 'Strided addressing: every slice addresses the elements it selects',
     'Indexing a strided array with any mix of integers, slices and None gives the shape Python '
     'slicing gives on each axis, and the strides and offset computed for it address exactly the '
     'selected memory elements. All helpers that compute a sliced shape, stride or offset agree, '
     'and reading any element of the slice gives the element of the original array.',
     ['inputs'], 'all sizes, strides, memory offsets, slice bounds and steps, integer indices '
     '(negative too), also index tuples shorter than the dimensionality',
     'Tests index a few fixed small arrays; the address is a linear function of unbounded sizes, '
     'strides and bounds with sign- and clamp-dependent cases on every axis.',
     [ST, SG], [('shape/strides/offset of an index', 'slice_tools.index_strided, apply_slices, '
                 'shape_strided, normalize_index'), ('views', 'storage.Strided.get_slice')],
     ['array[index]', 'index_strided', 'apply_slices', 'shape_strided'])

prop('C03', 'Dimension reduction and promotion are inverse bijections',
     'For every shape, axis order and partition of the axes, reducing an index gives for each '
     'group of axes the row-major position within the group, within the reduced shape. Promoting '
     'a reduced index gives an in-range index, and the two maps invert each other.',
     ['inputs', 'configurations'], 'all shapes, permutations of axes, partitions and indices',
     'Tests check listed shapes and dimension orders on enumerated indices.',
     [GB, SG], [('metadata and maps', 'gcs_basics.create_reduction_metadata, reduction, '
                 'promotion'), ('in the array classes', 'storage.reduce_index, promote_index')],
     ['reduction(metadata, index)', 'promotion(metadata, index)'])

prop('C04', 'Row compression and expansion are inverse and count rows exactly',
     'Compressing non-decreasing row indices gives, for every k up to the number of rows, the '
     'number of entries in rows before k. Expanding compressed rows gives back the row indices, '
     'and compressing an expansion gives back the compressed rows, including empty leading, '
     'middle and trailing rows.',
     ['inputs'], 'all non-decreasing row lists and all numbers of rows',
     'Tests use random lists of a few sizes; rows that stay empty at the ends matter only in rare '
     'combinations.',
     [SG, GB], [('compression', 'storage.compress_indices, gcs_basics.compress_indices'),
                ('expansion', 'storage.uncompress_indices')],
     ['compress_indices', 'uncompress_indices'])

prop('C05', 'The Diophantine solver is sound and complete',
     'For a linear equation with non-zero integer coefficients, the returned particular solution '
     'plus any integer combination of the returned directions solves the equation. Every integer '
     'solution is of that form, and "no solution" is reported only when there is none.',
     ['inputs'], 'all coefficient vectors, right-hand sides, parameters and solutions',
     'Tests check that a few parameter choices satisfy listed equations; completeness (no '
     'solution is missed) quantifies over all integer vectors.',
     [ST], [('extended gcd and parametrisation', 'slice_tools.extgcd, init_diophantine, '
             'diophantine')],
     ['diophantine(a, c)'])

prop('C06', 'Positions are inverted to exactly the index that selects them',
     'For the shape and strides of any slice of an array without gaps (row-major, or with its '
     'axes in any other order) and any integer position, the solver returns the unique in-range index whose address is that position, and reports '
     '"none" exactly when no index has it. Translating an index of an array to the index in its '
     'slice, and back, is exact in the same sense.',
     ['inputs'], 'all positions; all slices (steps of both signs, any kept axes and axis order)',
     'Tests compare on enumerated small shapes; absence of a spurious or missed index is a '
     'universally quantified integer statement.',
     [ST, SG], [('bounded search over parameters', 'slice_tools.solve_index, '
                 'get_solve_index_data'),
                ('index translation', 'storage.get_slice_index, get_index_slice')],
     ['solve_index', 'get_slice_index', 'get_index_slice'])

prop('C07', 'Storing a nested sequence loses and invents nothing',
     'An array built from a nested list or tuple, in any of the formats (' + FMT + ', plain '
     'buffers), has the shape of the sequence and reads back every element. None reads as the '
     'array\'s unspecified value, and an element equal to the unspecified value reads as that.',
     ['inputs', 'configurations'], 'all values including None and the unspecified value, all '
     'placements of them, all formats',
     'Tests store listed arrays; which elements are dropped depends on every combination of '
     'values and positions.',
     [SG], [('construction', 'storage.*.fromobject'), ('lookup', 'storage.get_coo_position, '
            'get_flatcoo_position, get_csr_position')],
     ['X.fromobject(seq)[index]'])

prop('C08', 'Converting between formats preserves the array',
     'Converting any array, including slices and dimension-mapped arrays, to any other format '
     'keeps its shape and every element, and leaves the source unchanged. When another '
     'unspecified value is requested, unspecified elements read as it and specified elements '
     'read as before.',
     ['inputs', 'configurations'], 'all pairs of formats, contents, and unspecified values',
     'Tests convert listed arrays and compare a few pairs; contents and pairs multiply.',
     [SG], [('conversion', 'storage.Storage.as_*, *.fromobject')], ['array.as_X()'])

prop('C09', 'Slicing a sparse array selects exactly what the slice selects',
     'Indexing a COO, FlatCOO or CSR array with any mix of integers, slices of either direction '
     'and None gives an array of the shape Python slicing gives, in which every element equals '
     'the corresponding element of the source. Unspecified elements stay unspecified with the '
     'same unspecified value.',
     ['inputs'], 'all patterns of specified elements, values, and slices (bounds beyond the '
     'axis, any step sign)',
     'Tests slice random arrays at random bounds; a wrong element needs a pattern, bound and step '
     'that meet.',
     [SG, ST], [('sparse slices', 'storage.COO/FlatCOO/CSR.get_slice, '
                 'slice_indices_and_data_position'), ('inversion', 'slice_tools.solve_index')],
     ['array[index]'])

prop('C10', 'A dimension-mapped array stores each element at its documented place',
     'For every shape, axis order, partition and storage format, a dimension-mapped array reads '
     'every element of the sequence it was built from. The element at an index is stored in the '
     'reduced array at, for each group of axes, the row-major position of the group\'s indices, '
     'and the reduced shape is the product of sizes in each group.',
     ['inputs', 'configurations'], 'all shapes, axis orders, partitions, storage formats',
     'Tests check the default partition and a few explicit ones.',
     [SG], [('mapping', 'storage.DM, make_reduction, reduce_index, promote_index')],
     ['DM.fromobject(...)[index]', 'DM.data[...]'])

prop('C11', 'Slicing a dimension-mapped array selects exactly what the slice selects',
     'Indexing a dimension-mapped array, over any storage format including another '
     'dimension-mapped array, with any mix of integers, slices and None gives the shape and the '
     'elements Python slicing gives.',
     ['inputs', 'configurations'], 'all axis orders, partitions, storage formats, slices',
     'Tests slice a few listed arrays; offsets accumulate per group of axes and depend on order.',
     [SG], [('slicing', 'storage.DM.__getitem__')], ['DM[index]'])

prop('C12', 'A slice of a slice is the composition of the two',
     'Indexing an array that is itself a slice, in every format, selects the element that '
     'applying both selections in turn selects from the original array, with the composed shape.',
     ['inputs', 'histories'], 'all pairs of successive indexings on all formats',
     'Tests slice once, or twice in a handful of cases.',
     [SG, ST], [('offset and stride composition', 'storage.Strided.get_slice, DM.__getitem__, '
                 'slice_tools.index_strided')], ['array[index1][index2]'])

prop('C13', 'Assigning one element changes that element and no other',
     'After assigning a value to one element of any array, by in-range non-negative or (except '
     'for plain buffers) negative indices, that element reads the value and every other element reads as before.',
     ['inputs', 'histories'], 'all arrays, indices, values; also through slices of strided and '
     'dimension-mapped arrays',
     'Tests assign constants at a few places and look at a few elements.',
     [SG], [('assignment', 'storage.Storage.__setitem__, DM.__setitem__ by inheritance'),
            ('positions of the selection', 'storage.slice_indices_and_data_position')],
     ['array[index] = v'])

prop('C14', 'Assigning to a slice changes exactly the selected elements',
     'After assigning a nested sequence or another array to a slice of any array, each selected '
     'element reads the corresponding element of the value, and no other element changes, also '
     'when the value shares memory with the array.',
     ['inputs', 'histories'], 'all arrays, slices (any step sign, integers mixed in), values',
     'Tests assign to a few slices of listed arrays.',
     [SG], [('assignment', 'storage.Storage.__setitem__'),
            ('element of the value', 'storage.get_value')],
     ['array[slices] = value'])

prop('C15', 'Slices of strided and dimension-mapped arrays are live views',
     'A write to an element of a slice (or of a slice of a slice) of a strided array, or of a '
     'dimension-mapped array over one, is visible in the original array at the selected element '
     'and nowhere else. A later write to the original is visible through the slice.',
     ['inputs', 'histories'], 'all slices and write positions',
     'Tests check sharing for a few slices.',
     [SG], [('shared memory', 'storage.Strided.get_slice, Buffer.__getitem__, DM.__getitem__')],
     ['array[slices][index] = v'])

prop('C16', 'Copies and converted arrays are independent of their source',
     'Writing to an array never changes a copy of it or an array of another format converted '
     'from it, and writing to the copy or converted array never changes the source, also when '
     'the source is a slice.',
     ['inputs', 'histories'], 'all formats and conversions, all write positions',
     'Tests compare copies by value; hidden sharing shows only after a later write.',
     [SG], [('copying', 'storage.Storage.copy, Buffer.copy, *.fromobject')],
     ['array.copy()', 'array.as_X()'])

prop('C17', 'Copying keeps the elements and replaces only unspecified ones',
     'A copy has the class, shape and elements of its source. With a new unspecified value, '
     'elements that were unspecified read as it, specified elements read as before, and the '
     'source is unchanged.',
     ['inputs'], 'all formats, slices, contents, and unspecified values (old and new, None '
     'included)',
     'Tests copy listed arrays with one or two unspecified values.',
     [SG], [('copying', 'storage.Storage.copy, Buffer.copy')], ['array.copy(unspecified=)'])

prop('C18', 'Sparse arrays keep their structural invariants',
     'Every COO, FlatCOO and CSR array produced by construction, conversion or slicing lists its '
     'specified elements once each, in strictly increasing index order, with all indices in '
     'range, as many values as indices, and no stored value equal to the unspecified value. '
     'Compressed rows start at 0, never decrease, and end at the number of values.',
     ['inputs', 'histories'], 'all inputs of construction, conversion and slicing',
     'Tests compare elements; disorder or duplicates show only in later lookups that rely on '
     'the order.',
     [SG], [('ordered construction', 'storage.COO/FlatCOO/CSR.fromobject, get_slice'),
            ('binary search relies on it', 'storage.get_coo_position, get_flatcoo_position, '
             'get_csr_position')],
     ['indices, findices, crow_indices, col_indices, data'])

prop('C19', 'Lookup finds every specified element and nothing else',
     'In a sparse array with any number of specified elements at any increasing positions, '
     'reading a specified index gives its value and reading any other index gives the '
     'unspecified value.',
     ['inputs'], 'all numbers and positions of specified elements, all indices',
     'Tests look up in small arrays; bisection errors need particular counts and positions.',
     [SG], [('binary search', 'storage.get_coo_position, get_flatcoo_position, '
             'get_csr_position')], ['array[index]'])

prop('C20', 'Enumeration yields every stored element once, in index order',
     'Enumerating the elements of an array yields strictly increasing (lexicographic) indices in '
     'range, each with the value reading that index gives. Every specified element is included, '
     'sparse arrays yield nothing else, and dense arrays yield every index.',
     ['inputs'], 'all formats, slices, dimension mappings, contents',
     'Tests enumerate listed arrays; order under axis permutations is not checked.',
     [SG], [('enumeration', 'storage.*.indices_and_data_position, Storage.elements')],
     ['array.elements()'])

prop('C21', 'Equality of arrays is element-wise equality',
     'Two arrays are reported element-wise equal exactly when they have the same shape and every '
     'index is unspecified in both or specified in both with equal values, whatever their '
     'formats; the same holds for a nested list with None as unspecified. Arrays that compare '
     'equal with == have equal elements, != is its negation, and an array equals its copy.',
     ['inputs'], 'all pairs of arrays and formats',
     'Tests assert equality of arrays that are equal; false positives are hardly probed.',
     [SG], [('comparison', 'storage.Storage.equal, __eq__, __ne__, Buffer.__eq__')],
     ['a.equal(b)', 'a == b'])

prop('C22', 'is_full is true exactly when every element is specified',
     'A sparse array, or a dimension-mapped array over one, also when sliced, reports being full '
     'exactly when each of its own elements is specified. The size of a sparse array is its '
     'number of specified elements.',
     ['inputs'], 'all shapes, patterns of specified elements, slices',
     'Tests call it on a few arrays.',
     [SG], [('fullness', 'storage.Storage.is_full, DM.is_full')], ['array.is_full()'])

prop('C23', 'Integer indices: negative ones count from the end, others raise IndexError',
     'Reading or writing an array with an integer on an axis works for integers from minus the '
     'size to the size minus one, negative ones counting from the end, and accesses exactly that '
     'element or sub-array. Any other integer raises IndexError, with or without other indices, '
     'in every format other than a plain buffer.',
     ['inputs'], 'all integers on any axis of any array',
     'Tests use valid indices and a couple of invalid ones.',
     [ST, SG], [('normalisation', 'slice_tools.normalize_index')], ['array[k]', 'array[k] = v'])

prop('C24', 'Buffer windows share memory and never reach outside it',
     'A window taken from a buffer with bounds within it has the length of the bounds difference, '
     'reads the memory of the buffer from its own start, and writes through it. Open bounds mean '
     'the buffer\'s own ends, bounds outside the underlying memory raise IndexError, and '
     'iteration, enumeration, copies and comparison concern the window only.',
     ['inputs', 'histories'], 'all memories, windows, windows of windows',
     'Tests check a few windows of one buffer.',
     [SG], [('windows', 'storage.Buffer')], ['buffer[a:b]', 'buffer[i]', 'list(buffer)'])

prop('C25', 'Arrays and slices without elements work everywhere',
     'For arrays with an axis of size 0, slices that select nothing, and sparse arrays without '
     'specified elements, in every format, slicing, copying, conversion, enumeration, comparison '
     'and assignment succeed, and give results of the right shape with no elements.',
     ['inputs'], 'all formats, positions of the empty axis, slices',
     'Tests hardly use empty arrays, and size-0 axes make moduli and gcds degenerate.',
     [SG, ST], [('degenerate sizes', 'slice_tools.index_strided, init_diophantine, solve_index, '
                 'storage.Strided.get_slice, Buffer.__getitem__')],
     ['array[empty slice]', 'array.as_X()', 'array.elements()'])

prop('C26', 'Any history of operations behaves like a mapping from indices to values',
     'After any sequence of element writes, slice writes, views, copies and conversions, each '
     'element reads the value last written to it, through every view of the same memory. Copies '
     'and converted arrays keep the elements they had when they were made, except for writes '
     'made to them.',
     ['histories', 'inputs'], 'all sequences of operations, with arbitrary positions, values and '
     'slices', 'Tests perform one operation per array.',
     [SG, ST], [('shared memory', 'storage.Buffer, Strided.get_slice, DM.__getitem__'),
                ('writes', 'storage.Storage.__setitem__')],
     ['array[index] after a history'])

prop('C27', 'Version strings follow the source tree they were built from',
     'In a git checkout, the version is the nearest tag with the prefix v, without the prefix, '
     'followed by +DISTANCE.gHASH (by .DISTANCE.gHASH when the tag contains a +) when there are '
     'commits since the tag or local changes, and by .dirty when there are local changes; '
     'without such a tag it is 0+untagged.COMMITS.gHASH[.dirty]. In an unpacked archive of a '
     'commit with tags it is the first, in sorted order, of its tags with the prefix, and '
     '0+unknown when there is none, as it is without git. The other styles of rendering give the '
     'strings they document.',
     ['inputs', 'configurations'], 'all tags, numbers of commits, and states of the checkout',
     'There are no tests of it.',
     ['gcs/_version.py', 'versioneer.py'], [
         ('git description', '_version.get_versions, git_pieces_from_vcs'),
         ('archives', '_version.git_versions_from_keywords'), ('rendering', '_version.render')],
     ['gcs.__version__'])

prop('C28', 'Nothing but assignment changes an array, and lists are never shared',
     'Slicing, copying, converting, comparing and enumerating an array change neither it nor the '
     'arrays obtained from it before. An array shares no memory with the nested list it was made '
     'from or that was assigned to it: a later change to either is not seen by the other, and '
     'making or assigning leaves the list as it was.',
     ['histories', 'inputs'], 'all arrays, positions of the change, and slices used before',
     'Tests compare results of operations, hardly ever their operands afterwards.',
     [SG, ST], [('operations without effects', 'storage.Storage'),
                ('collecting of values', 'storage.Buffer.fromobject')],
     ['array[index] after reading operations', 'array[index] after list[i] = v'])

prop('C29', 'An array is the sequence of its rows',
     'In every format the length of an array is the size of its first axis, iterating over it '
     'yields its rows (its elements, if it has one axis) in order, and then stops. Chained '
     'indexing a[i][j] reads the element a[i, j], and an array made from the list of the rows '
     'has the same shape and elements.',
     ['inputs'], 'all arrays, formats, indices',
     'Tests index arrays with complete tuples.',
     [SG], [('iteration by index', 'storage.Storage.__getitem__, Buffer.__iter__'),
            ('nested sequences of arrays', 'storage.get_shape, get_value')],
     ['list(array)', 'array[i][j]', 'X.fromobject(list(array))'])

prop('C30', 'Arrays cannot be assembled from parts that do not fit',
     'Constructing a buffer that reaches beyond its memory, a strided array with unequal numbers '
     'of sizes and strides, a sparse array with unequal numbers of indices and values, a '
     'compressed-row array (CSR, C2SR) that has not two axes or whose row pointers do not match '
     'its rows, or a dimension mapping that misses an axis or whose partition is not increasing '
     'and within the axes raises AssertionError. Parts that fit are accepted.',
     ['inputs', 'configurations'], 'all sizes of the parts',
     'Tests construct arrays from matching parts only.',
     [SG], [('constructors', 'storage.Buffer, Strided, COO, FlatCOO, CSR, C2SR, DM')],
     ['X(...)', 'DM.fromobject(partitioning=...)'])

prop('C31', 'Strided arrays that are made, copied or converted are stored row by row',
     'A copy of a strided array, and a strided array converted from another format or with '
     'another unspecified value, has row-major strides and a buffer with exactly one place per '
     'element, in which each element is at its row-major position. A buffer made of an array '
     'lists all elements in row-major order.',
     ['inputs', 'configurations'], 'all formats, shapes, slices and contents',
     'Tests compare elements; the layout shows only to users of strides and data.',
     [SG], [('row-wise contiguous copies', 'storage.Strided.copy'),
            ('conversion', 'storage.Strided.fromobject, Buffer.fromobject')],
     ['array.copy().strides', 'array.as_Strided().data', 'array.as_Buffer()'])

prop('C32', 'A failed assignment changes nothing',
     'An assignment that raises an error (an integer out of range, too many indices, a value '
     'that is too short, too flat or too small for the selected elements) leaves every element of '
     'the array as it was. Assigning to a slice of an array over strided storage a value that '
     'has not an element for each selected element raises an error.',
     ['inputs', 'histories'], 'all formats, slices, and places where the value is deficient',
     'Tests assign fitting values only.',
     [SG], [('reading of all values before writing', 'storage.Storage.__setitem__'),
            ('index checks', 'slice_tools.normalize_index')],
     ['array[index] after array[slices] = value'])

prop('C33', 'Printing shows the elements in order and changes nothing',
     'str of a strided array (a slice too) with one axis is the texts of its elements in order, '
     'separated by a comma and a space, in brackets; a line of more than 100 characters is '
     'shortened to its first and last 40 around five dots. With two axes it is one such row per '
     'line. For other arrays str is repr, which begins with the name of the class and shows the '
     'memory: size and offset of the window, a dot for each place before and after it (a star '
     'for each ten), its elements (shortened likewise) and the value of unspecified elements. '
     'Printing never fails, and leaves the array as it was.',
     ['inputs', 'configurations'], 'all formats, windows and slices',
     'There are no tests of it.',
     [SG], [('text', 'storage.Storage.__str__, Storage.__repr__, Buffer.__repr__')],
     ['str(array)', 'repr(array)'])

TECH = ('path-exhaustive symbolic execution of the real Python code, every branch and assertion '
        'decided by z3')
NOTE = ('Bounded: holds for every value of the symbolic inputs within the bounds stated in the '
        'evidence file (unsat verdicts on every path); nothing is claimed outside them. Trusts '
        'z3, the engine in sx/ (path models are replayed on the uninstrumented code), and '
        'Python integers as mathematical integers. ')
EXTRA = {
    'C01': 'All four integers are unbounded for the listed steps and for symbolic steps of '
           'either sign.',
    'C02': 'Sizes, strides, offsets and bounds are unbounded for up to four axes.',
    'C03': 'Index and sizes unbounded within groups of up to two axes; concrete shapes otherwise.',
    'C05': 'Right-hand side, parameters and solution unbounded; coefficients bounded or listed. '
           'Zero coefficients are not supported by the code and not claimed.',
    'C13': 'Assignment to unspecified elements of sparse arrays is lost: recorded as a known '
           'finding and reported as KNOWN-FINDING.',
    'C14': 'Assignment to unspecified elements of sparse arrays is lost: recorded as a known '
           'finding and reported as KNOWN-FINDING.',
    'C22': 'Strided arrays report being full by definition in the test suite; not claimed.',
    'C27': 'Git is simulated: the harness gives the answers git documents for the commands '
           'the code runs; no process is started. Tags and hashes are listed ones.',
    'C24': 'Buffer integers and bounds are relative to the window and may be negative, as '
           'documented in the code.',
}
NA = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    na = {x['property'] for x in NA}
    checks = [dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'],
                   thorough_cmd='python3-vt check.py %s thorough' % p['id'],
                   evidence_file='evidence/%s.json' % p['id'],
                   technique=TECH, level='model_checking',
                   level_note=(NOTE + EXTRA.get(p['id'], '')).strip())
              for p in P if p['id'] not in na]
    m = dict(version=1, setup_cmd='python3-vt -c "import z3"',
             checks=checks, not_applicable=NA,
             notes='Checks symbolically execute /repo\'s current sources (no build step). '
             'known_findings.txt lists the recorded and the repaired defects.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
