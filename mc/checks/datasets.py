'''C11, C16: comparison over datasets; merging and copying datasets.'''
from __future__ import division
import copy
import math
import pickle
from itertools import product, combinations
from mc import ref
from mc.core import Check, Raised
from mc.checks.formats import normal
from mc.checks.window import labelled

# Segmentations of each item (multi-type; single-type formats use the positions with any boundary)
STRINGS = {
    'i1': (((), (1,), (), ()), ((1,), (), (), (1,)), ((), (), (1,), ()), ((), (), (), ()), ((1,), (1,), (1,), ())),
    'i2': (((1,), (), ()), ((), (1,), ()), ((), (), ()), ((1,), (1,), (1,)), ((), (), (1,))),
    'i 3': (((), (), (), (), (1,), ()), ((), (1,), (), (), (), (1,)), ((1,), (), (), (), (), ()),
            ((), (), (1,), (1,), (), ()), ((), (), (), (), (), ())),
}
TYPED = {'i1': 2, 'i2': 3, 'i 3': 2}
ITEMS = ('i1', 'i2', 'i 3')
# Names that are false, look alike or are none
EMPTY = {'items': ('', ' ', '0'), 'coders': ('', 'x', ' ', '0', '_')}
ODD = {'items': (',a', 'b, \n', '  '), 'coders': (',', 'c,d,', '\t', '-1', ' e ')}
MIXED = {'items': ('7', 'None', "('i', 1)"), 'coders': (3, 'three', None, (1, 2), 2.5, b'by', -1, '', frozenset([1]), 'C', 10 ** 20, (), 'c', 0.5)}
FALSY = {'items': ('None', '', 'i,j'), 'coders': (0, None, (), 1, 0.5)}
CODERS = ('c1', 'c2', 'x y', 'C1', 'z') + tuple('c1%d' % i for i in range(9, -1, -1))

EDIT_OPTIONS = [{}, {'permuted': True}, {'one_minus': True}, {'n_t': 3, 'permuted': True}, {'return_parts': True},
                {'weight': 'unscaled', 'n_t': 4}, {'return_parts': True, 'one_minus': True, 'permuted': True}]
WINDOW_OPTIONS = [{}, {'permuted': False}, {'window_size': 3}, {'one_minus': True}, {'return_parts': True},
                  {'fnc_round': 'ceil', 'permuted': False}, {'window_size': 2, 'return_parts': True, 'permuted': False}]
FIX_OPTIONS = [{'lamprier_et_al_2007_fix': True}, {'lamprier_et_al_2007_fix': True, 'permuted': False,
                                                  'return_parts': True}]
METRICS = ([('boundary_similarity', o) for o in EDIT_OPTIONS] + [('segmentation_similarity', o) for o in EDIT_OPTIONS] +
           [('boundary_statistics', o) for o in ({}, {'permuted': True}, {'n_t': 3})] +
           [('boundary_confusion_matrix', o) for o in ({}, {'permuted': True}, {'n_t': 3})] +
           [('pk', o) for o in WINDOW_OPTIONS] + [('window_diff', o) for o in WINDOW_OPTIONS + FIX_OPTIONS])


class C11(Check):
    RULE = ('every dataset (pair) shape in the bounds x metric x options x format x way of passing it: keys and values '
            'against direct comparison of every coder pair')
    ASSUMPTIONS = ('item and coder names whose joined keys do not collide; item names are strings',
                   'direct comparison of two segmentations is judged by C03-C10')
    BOUNDS = {
        'quick': 'all datasets of 1 to 2 items and of 3 items with every subset of 3 coders each (3 items: 8 metric settings), one '
                 'item with up to 5 coders, also with empty, false, odd and mixed names; two datasets of up to 13 coders per item; all pairs of datasets over 2 items x 2 coders each, sharing one coder name and '
                 'any items; the same dataset twice; 36 metric settings; masses, positions, NLTK strings and sets',
        'thorough': 'as quick, with all metric settings for 3 items and two arrangements of segmentations for every shape'}

    def setup(self):
        import segeval
        self.segeval = segeval

    def jobs(self, tier):
        variants = (0,) if tier == 'quick' else (0, 1, 2)
        jobs = []
        for variant in variants:
            for index in range(len(METRICS)):
                for fmt in ('mass', 'position', 'sets', 'nltk'):
                    if fmt == 'sets' and METRICS[index][0] in ('pk', 'window_diff'):
                        continue
                    if fmt == 'nltk' and tier == 'quick' and index % 3:
                        continue
                    jobs.append(('one', index, fmt, variant, tier))
                    if fmt in ('mass', 'sets'):
                        jobs.append(('two', index, fmt, variant, tier))
        return jobs

    def explore(self, job, run):
        kind, index, fmt, variant, tier = job
        if kind == 'one':
            subsets = [s for n in range(4) for s in combinations(range(3), n)]
            for size in (1, 2, 3):
                if size == 3 and tier == 'quick' and (index % 5 or fmt == 'nltk'):
                    continue
                for shape in product(subsets, repeat=size):
                    run.case(('one', index, fmt, variant, shape, 'plain'))
            if variant == 0:
                run.case(('one', index, fmt, variant, (tuple(range(14)), (13, 2, 11, 5)), 'plain'))
                run.case(('one', index, fmt, variant, ((12, 3, 1, 7, 0, 2, 9, 5, 11), (2, 6)), 'mixed'))
                run.case(('one', index, fmt, variant, ((1, 0),) * 40, 'many'))
            for shape in (((0, 1, 2, 3),), ((4, 3, 2, 1, 0),), ((2, 0), (1, 0)), ((1, 0, 2),)):
                for way in ('plain', 'named', 'filled', 'numbers', 'empty', 'falsy', 'odd'):
                    run.case(('one', index, fmt, variant, shape, way))
        else:
            subsets = [None] + [s for n in range(3) for s in combinations(range(2), n)]
            for first in product(subsets, repeat=2):
                for second in product(subsets, repeat=2):
                    if any(s is not None for s in first) and any(s is not None for s in second):
                        run.case(('two', index, fmt, variant, first, second, 'plain'))
            if variant == 0:
                run.case(('two', index, fmt, variant, (tuple(range(9)),), ((11, 3, 7, 0),), 'plain'))
                for way in ('plain', 'mixed'):
                    run.case(('two', index, fmt, variant, ((0, 1),), (tuple(range(12, -1, -1)),), way))
                    run.case(('two', index, fmt, variant, (tuple(range(11)), (0, 3)), ((9, 1, 0, 4, 2, 8, 10, 5, 6), (1,)), way))
                run.case(('two', index, fmt, variant, ((1, 0), (0,)) * 20, ((0, 1), None, (1,)) * 13, 'many'))
            for way in ('named', 'same', 'copied', 'numbers', 'empty', 'falsy', 'odd'):
                run.case(('two', index, fmt, variant, ((0, 1), (1,)), ((1, 0), (0,)), way))
                run.case(('two', index, fmt, variant, ((0, 1), None), ((1,), (0, 1)), way))

    def segmentation(self, item, coder, variant, fmt):
        string = STRINGS[item][(coder * (1 + variant) + variant) % 5]
        if fmt == 'sets':
            return tuple(frozenset((1 + (i + coder) % TYPED[item],)) if position else frozenset()
                         for i, position in enumerate(string))
        bits = tuple(1 if position else 0 for position in string)
        if fmt == 'position':
            return labelled(bits, ('from 1', 'from 0', 'text')[coder % 3])
        return ref.masses(bits) if fmt == 'mass' else ref.nltk(bits)

    def dataset(self, shape, fmt, variant, way, shift=0):
        '''Dataset of a shape: per item the coders that coded it (or None); shift renames the coders.'''
        codings = {}
        names = {'empty': EMPTY, 'falsy': FALSY, 'odd': ODD, 'mixed': MIXED}.get(way, {'items': ITEMS, 'coders': CODERS})
        items, called_items = (ITEMS, names['items']) if way != 'many' else \
            (ITEMS * 20, ['item %d' % (i * 37 % 60) for i in range(60)])
        for item, called, coders in zip(items, called_items, shape):
            if coders is not None:
                codings[called] = {}
                for coder in coders:
                    name = names['coders'][coder + shift] if way != 'numbers' else coder + shift + 10
                    codings[called][name] = self.segmentation(item, coder + 2 * shift, variant, fmt)
        if way == 'filled':
            dataset = self.segeval.Dataset(boundary_format=fmt)
            for item in codings:
                for coder in codings[item]:
                    dataset[item][coder] = codings[item][coder]
            return codings, dataset
        return codings, self.segeval.Dataset(codings, boundary_format=fmt)

    def check(self, case, run):
        kind, index, fmt, variant = case[:4]
        name, options = METRICS[index]
        segeval = self.segeval
        metric = getattr(segeval, name)
        options = dict(options)
        if options.get('weight'):
            options['weight'] = (segeval.weight_a, segeval.weight_s, segeval.weight_t)
        if options.get('fnc_round'):
            options['fnc_round'] = math.ceil
        permuted = options.get('permuted', name in ('pk', 'window_diff'))
        direct = {key: value for key, value in options.items() if key != 'permuted'}
        direct['boundary_format'] = fmt
        way = case[-1]
        expected = []       # acceptable ((key, first, second), ...) of which exactly one entry must be there
        if kind == 'one':
            codings, dataset = self.dataset(case[4], fmt, variant, way)
            result = run.call(metric, dataset=dataset, **options) if way == 'named' else \
                run.call(metric, dataset, **options)
            for item, entries in codings.items():
                for m, n in combinations(entries, 2):
                    forward = ('%s,%s,%s' % (item, m, n), entries[m], entries[n])
                    backward = ('%s,%s,%s' % (item, n, m), entries[n], entries[m])
                    expected.extend([(forward,), (backward,)] if permuted else [(forward, backward)])
        else:
            codings, first = self.dataset(case[4], fmt, variant, way)
            if way in ('same', 'copied'):
                others, second = codings, (first if way == 'same' else first.copy())
            else:
                others, second = self.dataset(case[5], fmt, variant, way, 1)
            result = run.call(metric, hypothesis=first, reference=second, **options) if way == 'named' else \
                run.call(metric, first, second, **options)
            for item in codings:
                for m in codings[item]:
                    for n in others.get(item, ()):
                        expected.append((('%s,%s,%s' % (item, m, n), codings[item][m], others[item][n]),))
        run.compared((len(expected), permuted))
        if isinstance(result, Raised) or not isinstance(result, dict):
            if not any(codings.values()) and isinstance(result, Raised):
                return      # nothing was coded: rejection and an empty result are both fine
            yield '%s %r: %r' % (name, options, result)
            return
        left = dict(result)
        for choices in expected:
            found = [choice for choice in choices if choice[0] in left]
            if len(found) != 1:
                yield '%s %r: %d of the entries %r' % (name, options, len(found), [c[0] for c in choices])
                return
            key, a, b = found[0]
            value = left.pop(key)
            should = run.call(metric, a, b, **direct)
            run.compared((name, normal(value)))
            if isinstance(should, Raised) or normal(value) != normal(should):
                yield '%s %r: %r for %s, directly %r' % (name, options, value, key, should)
                return
        if left:
            yield '%s %r: unexpected entries %r' % (name, options, left)


# -- C16 ----------------------------------------------------------------------------------------------------
SOURCES = [
    ({}, {}),
    ({'i': {'a': [2, 3]}}, {'properties': {'p': 1}}),
    ({'i': {'b': [1, 4]}}, {'boundary_types': [1, 2], 'boundary_format': 'sets'}),
    ({'i': {'a': [5]}, 'j': {'b': [1, 1]}}, {'boundary_format': 'position', 'properties': {
        'p': {'q': [1]}, 'r': 1, 's': [], 't': {'u': {'v': [{}]}}}}),
    ({'j': {'a': [2], 'b': [1, 1]}}, {'boundary_types': (3,)}),
    ({'j': {'c': [2]}, 'i': {'c': [3, 2], 'a': [4, 1]}}, {}),
    ({'k': {}, 'i': {'d': [1, 1, 3]}}, {}),
    ({'': {0: [4], 'a': [1, 3]}, 'i': {'': [2, 2]}}, {'boundary_types': [], 'properties': {'': None, 'new': 0}}),
]
START = [(1, 2), (1, 3), (5, 4), (0, 6), (7, 1)]


def operations():
    ops = []
    for register in 'AB':
        for source in range(len(SOURCES)):
            ops.append(('new', register, source))
        ops.append(('fill', register))
        ops.append(('replace', register))
        ops.append(('remove', register))
        ops.append(('drop', register))
        ops.append(('property', register))
        ops.append(('type', register))
    ops += [('iadd', 'A', 'B'), ('iadd', 'B', 'A'), ('iadd', 'A', 'A')]
    ops += [('add', 'A', 'B', 'A'), ('add', 'A', 'B', 'B'), ('add', 'B', 'A', 'A'), ('add', 'A', 'B', 'C')]
    for kind in ('method', 'copy', 'deepcopy', 'pickle', 'pickle0'):
        ops += [('copy', kind, 'A', 'B'), ('copy', kind, 'B', 'A')]
    return ops


OPERATIONS = operations()


COPIES = {'method': lambda original: original.copy(), 'copy': copy.copy, 'deepcopy': copy.deepcopy,
          'pickle': lambda original: pickle.loads(pickle.dumps(original)),
          'pickle0': lambda original: pickle.loads(pickle.dumps(original, 0))}


class State(object):
    '''Model of a dataset.'''

    def __init__(self, codings, coders, properties, types, fmt, exact=True):
        self.codings, self.coders, self.properties = codings, coders, properties
        self.types, self.fmt, self.exact = types, fmt, exact

    def clone(self):
        return copy.deepcopy(self)


def plain(dataset):
    return {item: {coder: list(masses) for coder, masses in codings.items()}
            for item, codings in dataset.items() if codings}


class C16(Check):
    RULE = ('every sequence of operations (construct, fill, replace, remove, merge, add, copy in five ways) of the bounded '
            'length on two registers from several starts; after every operation every dataset and all source data is '
            'compared with the model')
    ASSUMPTIONS = ('datasets are changed through item assignment, deletion, +=, + and the public attributes',)
    BOUNDS = {'quick': 'all sequences of 3 operations out of %d from 5 starts; additions and copies of up to 257 items and 40 coders, with a conflict anywhere' % len(OPERATIONS),
              'thorough': 'all sequences of 4 operations out of %d from 5 starts; additions as quick' % len(OPERATIONS)}

    def setup(self):
        import segeval
        from segeval.data import DataIOError
        self.segeval = segeval
        self.error = DataIOError

    def jobs(self, tier):
        count = len(OPERATIONS)
        bulk = [('bulk', items, coders) for items in (1, 2, 3, 7, 12, 40, 257) for coders in (1, 2, 11, 40) if items * coders < 1700]
        if tier == 'quick':
            return bulk + [(start, (first,), 2) for start in range(len(START)) for first in range(count)]
        return bulk + [(start, (first, second), 2) for start in range(len(START)) for first in range(count)
                for second in range(count)]

    def copies(self, case, run):
        '''Copies of many codings, some of which are the same object.'''
        _, items, coders, kind = case
        shared = [2, 3]
        data = {'i%d' % i: {'c%d' % c: shared if (i + c) % 3 == 0 else [i + 1, c + 2] for c in range(coders)} for i in range(items)}
        properties = {'p%d' % i: [i] for i in range(items)}
        original = self.segeval.Dataset(data, properties=properties, boundary_types=range(1, items + 1), boundary_format='position')
        result = run.call(COPIES[kind], original)
        run.compared((items, coders, kind))
        if isinstance(result, Raised):
            yield repr(result)
            return
        for value in (original, result):
            if plain(value) != data or value.properties != properties or set(value.boundary_types) != set(range(1, items + 1)) or \
                    value.boundary_format != 'position' or set(value.coders) != set('c%d' % c for c in range(coders)):
                yield '%s of %d items by %d coders: %s' % (kind, items, coders, repr((dict(value), vars(value)))[:600])
                return
        if kind == 'copy':
            return
        for row in list(result.values()):
            for coder in list(row):
                if hasattr(row[coder], 'append'):
                    row[coder].append(9)
                row[coder] = [7]
            row['new'] = [1]
        for value in result.properties.values():
            value.append(1)
        result.boundary_types.add(9999)
        result.coders.add('new')
        if plain(original) != {'i%d' % i: {'c%d' % c: [2, 3] if (i + c) % 3 == 0 else [i + 1, c + 2] for c in range(coders)}
                               for i in range(items)} or original.properties != {'p%d' % i: [i] for i in range(items)} or \
                9999 in original.boundary_types or 'new' in original.coders:
            yield '%s of %d items by %d coders shares content with the original' % (kind, items, coders)

    def bulk(self, case, run):
        '''Additions of many codings, of which at most one is in conflict.'''
        _, items, coders, conflict, inplace = case
        left = {'j%d' % i: {'c%d' % c: [i + 1, c + 2] for c in range(coders)} for i in range(items)}
        right = {'i%d' % i: {'c%d' % c: [c + 1, i + 2] for c in range(coders)} for i in range(items)}
        if conflict is not None:
            # The right side's coding is one of the left side too; every other coding of that item is new
            left['i%d' % conflict[0]] = {'c%d' % conflict[1]: [9]}
        else:
            left['i0'] = {'other': [9]}
        first, second = self.segeval.Dataset(copy.deepcopy(left)), self.segeval.Dataset(copy.deepcopy(right))
        union = copy.deepcopy(left)
        for item, codings in right.items():
            union.setdefault(item, {}).update(codings)

        def function():
            result = first
            if inplace:
                result += second
                return result
            return first + second
        result = run.call(function)
        run.compared((items, coders, conflict is None))
        if conflict is not None:
            if not isinstance(result, Raised) or not isinstance(result.exception, self.error):
                yield 'adding %d items of %d coders of which %r is a duplicate: %s' % (items, coders, conflict, repr(result)[:300])
            elif plain(first) != left or plain(second) != right:
                yield 'a refused addition changed the datasets'
            return
        if isinstance(result, Raised):
            yield repr(result)
        elif plain(result) != union or plain(second) != right or (not inplace and plain(first) != left):
            yield 'adding %d items of %d coders gave %s' % (items, coders, repr(dict(result))[:500])
        elif set(result.coders) != set(c for row in union.values() for c in row):
            yield 'coders of the union are %r' % sorted(result.coders)

    def explore(self, job, run):
        if job[0] == 'bulk':
            _, items, coders = job
            for kind in COPIES:
                run.case(('copies', items, coders, kind))
            for inplace in (True, False):
                run.case(job + (None, inplace))
                for item in range(items) if items < 13 else (0, 1, 2, 9, 10, items // 2, items - 2, items - 1):
                    for coder in range(coders) if coders < 12 else (0, 1, 10, 11, coders - 2, coders - 1):
                        run.case(job + ((item, coder), inplace))
            return
        start, prefix, depth = job
        for rest in product(range(len(OPERATIONS)), repeat=depth):
            run.case((start, tuple(OPERATIONS[i] for i in prefix + rest)), 1)

    def check(self, case, run):
        if case[0] in ('bulk', 'copies'):
            for problem in getattr(self, case[0])(case, run):
                yield problem
            return
        start, sequence = case
        self.sources = copy.deepcopy(SOURCES)
        real, model = {}, {}
        for register, source in zip('AB', START[start]):
            problem = self.apply(('new', register, source), real, model, run)
            if problem:
                yield 'initially: ' + problem
                return
        for index, operation in enumerate(sequence):
            problem = self.apply(operation, real, model, run) or self.compare(real, model, run, operation)
            if problem:
                yield 'after %r: %s' % (sequence[:index + 1], problem)
                return

    def compare(self, real, model, run, operation):
        run.compared((operation[0], len(real)))
        for register in sorted(model):
            dataset, state = real[register], model[register]
            if not isinstance(dataset, self.segeval.Dataset):
                return '%s is no dataset: %r' % (register, dataset)
            if plain(dataset) != plain(state.codings):
                return 'codings of %s are %r, expected %r' % (register, plain(dataset), plain(state.codings))
            if state.exact and set(dataset.coders) != state.coders:
                return 'coders of %s are %r, expected %r' % (register, dataset.coders, state.coders)
            if state.properties is not None and dataset.properties != state.properties:
                return 'properties of %s are %r, expected %r' % (register, dataset.properties, state.properties)
            if state.types is not None and set(dataset.boundary_types) != state.types:
                return 'types of %s are %r, expected %r' % (register, dataset.boundary_types, state.types)
            if state.fmt is not None and dataset.boundary_format != state.fmt:
                return 'format of %s is %r, expected %r' % (register, dataset.boundary_format, state.fmt)
        if self.sources != SOURCES:
            return 'source data became %r' % [s for s, t in zip(self.sources, SOURCES) if s != t]
        return None

    def apply(self, operation, real, model, run):
        kind = operation[0]
        if kind == 'new':
            _, register, source = operation
            data, options = self.sources[source]
            result = run.call(self.segeval.Dataset, data, **options)
            if isinstance(result, Raised):
                return repr(result)
            real[register] = result
            data, options = copy.deepcopy(SOURCES[source])
            model[register] = State(data, set(c for codings in data.values() for c in codings),
                                    dict(options.get('properties', {})), set(options.get('boundary_types', [1])),
                                    options.get('boundary_format', 'mass'))
        elif kind == 'iadd':
            return self.merge(operation[1], operation[2], operation[1], real, model, run, True)
        elif kind == 'add':
            return self.merge(operation[1], operation[2], operation[3], real, model, run, False)
        elif kind == 'copy':
            return self.copied(operation, real, model, run)
        else:
            return self.edit(operation, real[operation[1]], model[operation[1]], run)
        return None

    def edit(self, operation, dataset, state, run):
        kind = operation[0]
        run.calls += 1
        if kind == 'fill':
            dataset['n']['z'] = [7]
            state.codings.setdefault('n', {})['z'] = [7]
            state.exact = False
        elif kind == 'replace':
            for target in (dataset, state.codings):
                if 'a' in target.get('i', ()):
                    target['i']['a'] = [1] * 5
        elif kind == 'remove':
            for target in (dataset, state.codings):
                if 'a' in target.get('i', ()):
                    del target['i']['a']
            state.exact = False
        elif kind == 'drop':
            for target in (dataset, state.codings):
                target.pop('i', None)
            state.exact = False
        elif kind == 'property':
            dataset.properties['new'] = 2
            if state.properties is not None:
                state.properties['new'] = 2
        else:
            dataset.boundary_types.add(9)
            if state.types is not None:
                state.types.add(9)
        return None

    def merge(self, left, right, target, real, model, run, inplace):
        first, second = model[left].codings, model[right].codings
        conflict = any(coder in first.get(item, ()) for item in second for coder in second[item])
        if inplace:
            def function():
                dataset = real[left]
                dataset += real[right]
                return dataset
        else:
            def function():
                return real[left] + real[right]
        result = run.call(function)
        run.compared((inplace, conflict))
        if conflict:
            if not isinstance(result, Raised) or not isinstance(result.exception, self.error):
                return 'merging %r and %r: %r' % (first, second, result)
            return None
        if isinstance(result, Raised):
            return 'merging %r and %r: %r' % (first, second, result)
        if inplace and result is not real[left]:
            return '+= made another dataset'
        if not inplace and (result is real[left] or result is real[right]):
            return '+ returned an operand'
        union = model[left].clone()
        for item, codings in copy.deepcopy(second).items():
            union.codings.setdefault(item, {}).update(codings)
        union.exact = model[left].exact and model[right].exact
        union.coders = model[left].coders | model[right].coders
        # Properties, types and format of the union are those of the left operand
        model[target], real[target] = union, result
        return None

    def copied(self, operation, real, model, run):
        _, kind, source, target = operation
        original = real[source]
        result = run.call(COPIES[kind], original)
        if isinstance(result, Raised):
            return repr(result)
        if result is original:
            return 'the copy is the original'
        state = model[source].clone()
        if kind != 'copy':
            # Deep copies share no coding
            before = plain(original)
            for item in list(result):
                for coder in list(result[item]):
                    masses = result[item][coder]
                    if hasattr(masses, 'append'):
                        masses.append(1)
                        if plain(original) != before:
                            return 'the copy shares the coding of %s by %s' % (item, coder)
                        masses.pop()
            nested = result.properties.get('p')
            if isinstance(nested, dict):
                lists = (nested['q'], result.properties['s'], result.properties['t']['u']['v'])
                for values in lists:
                    values.append(2)
                result.properties['t']['u']['v'][0]['w'] = 1
                if original.properties != state.properties:
                    return 'the copy shares a property'
                for values in lists:
                    values.pop()
                del result.properties['t']['u']['v'][0]['w']
        # A copy may report the coders of its codings or those of the original
        if not state.exact and set(result.coders) not in (
                set(original.coders), set(c for codings in original.values() for c in codings)):
            return 'coders of the copy are %r' % result.coders
        model[target], real[target] = state, result
        return None
