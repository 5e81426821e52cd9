'''C12, C13: inter-coder agreement.'''
from __future__ import division
import copy
import os
import pickle
import shutil
import tempfile
from collections import OrderedDict
from fractions import Fraction as F
from itertools import combinations_with_replacement, islice, permutations, product
from mc import ref, spaces
from mc.core import Check, Raised, fraction, same, scratch_root
from mc.checks.window import labelled, LABELS

NAMES = ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear')


def boundaries(a, b):
    '''Boundaries of both strings and the potential boundaries of the pair.'''
    types = set()
    for position in a + b:
        types |= position
    return sum(len(p) for p in a), sum(len(p) for p in b), len(a) * max(1, len(types))


def parts_of(metric, weight, n_t):
    def parts(a, b):
        edits = ref.bed(a, b, n_t)
        cost = edits.default_cost(n_t) if weight == 'default' else F(edits.count)
        if metric == 'S':
            return edits.potential() - cost, edits.potential()
        whole = edits.count + len(edits.matches)
        if metric == 'X':
            return 3 * (whole - cost) + 2, 3 * whole + 100
        return whole - cost, whole
    return parts


def expected_values(dataset, metric='B', weight='default', n_t=2):
    '''Model values of the coefficients of {item: {coder: string}}; None where undefined.'''
    actual, pi_e, kappa_e = ref.agreement(dataset, parts_of(metric, weight, n_t), boundaries)
    pi = (actual - pi_e) / (1 - pi_e) if actual is not None and pi_e != 1 else None
    kappa = (actual - kappa_e) / (1 - kappa_e) if actual is not None and kappa_e != 1 else None
    return {'actual_agreement_linear': actual, 'fleiss_pi_linear': pi, 'fleiss_kappa_linear': kappa,
            'artstein_poesio_bias_linear': pi_e - kappa_e if pi is not None and kappa is not None else None,
            'pi_e': pi_e, 'kappa_e': kappa_e}


def encode(string, fmt, index=0):
    if fmt == 'sets':
        return string
    bits = tuple(1 if position else 0 for position in string)
    if fmt == 'position':
        return labelled(bits, list(LABELS)[index % len(LABELS)])
    return ref.masses(bits) if fmt == 'mass' else ref.nltk(bits)


OPTIONS = [('B', 'default', 2), ('S', 'default', 2), ('X', 'unscaled', 2), ('B', 'unscaled', 2), ('B', 'default', 3), ('S', 'unscaled', 4),
           ('B', 'default', 1)]

# Whether coder i places a boundary on item k at position p
CROWDS = [lambda i, k, p: True, lambda i, k, p: (i + p) % 3 == 0, lambda i, k, p: p == k % 3, lambda i, k, p: i > 7 and p == 1,
          lambda i, k, p: (i * i + p * k) % 4 < 2]


class C12(Check):
    RULE = ('every dataset in the bounds x comparison function x weights x span limit: actual agreement, pi, kappa, bias and '
            'their parts against the definitions over exact fractions')
    ASSUMPTIONS = ('datasets coded completely by at least two coders, with at least one boundary, documents of at least two '
                   'units; coefficients of expected agreement 1 are undefined and not judged',)
    BOUNDS = {
        'quick': 'all datasets of one item: 2 coders on 2-6 units, 3 on 2-4, 4 on 2-3, 5 on 3, two boundary types: 2 coders on 3-4 units, '
                 '3 on 3; of two items: 2 coders on 3+4 units, two types 2 coders on 3+2; of 3 '
                 'items: 2 coders on 2+3+3; up to the order of coders: 3 coders on 3+3 units, 4 on 2+3, 2 on 4+4, two types 3 coders '
                 'on 3 and on 2+2, three types 3 coders on 2 and 2 coders on 2+2; large documents of 130 units; 4 to 26 coders with 1, 2 and 12 items in five patterns; 7 option settings; masses, and on one item positions, '
                 'NLTK strings and sets',
        'thorough': 'one item: 2 coders on 2-7 units, 3 on 2-5, 4 on 2-4, 5 on 3, 6 on 3; two types 3 coders on 3 units; up to the order of '
                    'coders: two types 3 coders on 3+2 and 4 on 2+2, 3 coders on 4+3 and 2+2+3, 2 on 5+4, 5 on 2+3; '
                    'otherwise as quick'}

    def setup(self):
        import segeval
        self.segeval = segeval

    def jobs(self, tier):
        quick = tier == 'quick'
        shapes = [((1,), 2, n) for n in ((1,), (2,), (3,), (4,), (5,))]
        shapes += [((1,), 3, n) for n in ((1,), (2,), (3,))] + [((1,), 4, (1,)), ((1,), 4, (2,)), ((1,), 5, (2,))]
        shapes += [((1,), 2, (2, 3)), ((1,), 2, (1, 2, 2)), ((1,), 3, (1, 2))]
        shapes += [((1, 2), 2, (2,)), ((1, 2), 2, (1, 1)), ((1, 2), 2, (2, 1)), ((1, 3), 3, (1,)), ((0, 2), 2, (2,))]
        if quick:
            shapes += [((1, 2), 2, (3,), 2)]
        if not quick:
            shapes += [((1,), 2, (6,)), ((1,), 3, (4,)), ((1,), 4, (3,)), ((1,), 6, (2,)), ((1, 2), 3, (2,)),
                       ((1, 2), 2, (3,)), ((1, 2, 3), 2, (2,))]
        jobs = []
        for shape in shapes:
            types, coders, lengths = shape[:3]
            step = shape[3] if len(shape) > 3 else 1
            strings = spaces.strings(types, lengths[0])
            jobs += [('all', types, coders, lengths, step, first) for first in range(len(strings))]
        shapes = [((1,), 3, (2, 2)), ((1,), 4, (1, 2)), ((1,), 2, (3, 3)), ((1, 2), 3, (2,)), ((1, 2), 3, (1, 1)),
                  ((1, 2, 3), 3, (1,)), ((1, 2, 4), 2, (1, 1))]
        if not quick:
            shapes += [((1, 2), 3, (2, 1)), ((1,), 3, (3, 2)), ((1,), 2, (4, 3)), ((1,), 5, (1, 2)), ((1, 2), 4, (1, 1)),
                       ((1,), 3, (1, 1, 2))]
        for types, coders, lengths in shapes:
            columns = 2 ** (len(types) * sum(lengths))
            jobs += [('multi', types, coders, lengths, first) for first in range(columns)]
        jobs += [('large', index) for index in range(len(spaces.PERIODIC))]
        jobs += [('crowd', coders, items) for coders in (4, 7, 8, 9, 10, 11, 12, 17, 26) for items in (1, 2, 12) if coders < 18 or items < 12]
        return jobs

    @staticmethod
    def columns(types, lengths):
        return list(product(*[spaces.strings(types, length) for length in lengths]))

    def explore(self, job, run):
        if job[0] == 'large':
            first = spaces.PERIODIC[job[1]]
            for second in spaces.PERIODIC:
                run.case(('large', (first, second)))
                run.case(('large', (first, second, (5, 2))))
            return
        if job[0] == 'crowd':
            for pattern in range(5):
                for shortest in (3, 2, 1):
                    if shortest == 3 or job[2] < 12:
                        run.case(('crowd', job[1:] + (pattern, shortest)))
            return
        if job[0] == 'multi':
            _, types, coders, lengths, first = job
            columns = self.columns(types, lengths)
            for others in combinations_with_replacement(columns[first:], coders - 1):
                run.case(('all', tuple(zip(*((columns[first],) + others)))))
            return
        _, types, coders, lengths, step, first = job
        head = spaces.strings(types, lengths[0])
        rest = [head] * (coders - 1)
        tail = [spaces.strings(types, length) for length in lengths[1:]]
        count = 0
        for others in product(*rest):
            first_item = (head[first],) + others
            for more in product(*[list(product(strings, repeat=coders)) for strings in tail]):
                count += 1
                if count % step == 0:
                    run.case(('all', (first_item,) + more))

    def check(self, case, run):
        kind, content = case
        dataset = OrderedDict()
        if kind == 'crowd':
            coders, items, pattern, shortest = content
            for index in range(items):
                dataset['i%d' % index] = OrderedDict(
                    ('c%d' % i, spaces.frozen(tuple((1,) if CROWDS[pattern](i, index, p) else () for p in range(shortest + index % 3))))
                    for i in range(coders))
        elif kind == 'large':
            for index, length in enumerate((130, 40)):
                dataset['i%d' % index] = OrderedDict(
                    ('c%d' % i, spaces.periodic(length, pattern, (1,))) for i, pattern in enumerate(content))
        else:
            for index, strings in enumerate(content):
                dataset['i%d' % index] = OrderedDict(
                    ('c%d' % i, spaces.frozen(string)) for i, string in enumerate(strings))
        every = [p for codings in dataset.values() for s in codings.values() for p in s]
        if not any(every):
            return
        single = all(p <= {1} for p in every)
        formats = ('mass',) if single else ('sets',)
        if single and len(dataset) == 1 and len(every) <= 8:
            formats = ('mass', 'position', 'nltk', 'sets')
        elif single and len(dataset) == 2 and len(every) <= 10:
            formats = ('mass', 'sets')
        options = OPTIONS if len(every) < 12 else OPTIONS[:3] + OPTIONS[4:5] if len(every) < 400 else OPTIONS[:3]
        for fmt in formats:
            data = self.segeval.Dataset(dict(
                (item, dict((coder, encode(string, fmt, index)) for index, (coder, string) in enumerate(codings.items())))
                for item, codings in dataset.items()), boundary_format=fmt)
            for metric, weight, n_t in options:
                for problem in self.coefficients(dataset, data, metric, weight, n_t, run):
                    yield '%s of %s: %s' % ((metric, weight, n_t), fmt, problem)
        if single and len(every) <= 10:
            # Coders that agree share one list
            held = {}
            data = self.segeval.Dataset(dict(
                (item, dict((coder, held.setdefault(string, list(encode(string, 'mass', 0)))) for coder, string in codings.items()))
                for item, codings in dataset.items()))
            for problem in self.coefficients(dataset, data, *(OPTIONS[0] + (run,))):
                yield 'shared lists: %s' % problem

    def coefficients(self, dataset, data, metric, weight, n_t, run):
        segeval = self.segeval
        values = expected_values(dataset, metric, weight, n_t)
        kwargs = {}
        if metric == 'S':
            kwargs['fnc_compare'] = segeval.segmentation_similarity
        if metric == 'X':
            # A comparison whose denominators exceed the potential boundaries
            def compare(a, b, **options):
                numerator, denominator = segeval.boundary_similarity(a, b, **options)[:2]
                return 3 * numerator + 2, 3 * denominator + 100
            kwargs['fnc_compare'] = compare
        if weight != 'default':
            kwargs['weight'] = (segeval.weight_a, segeval.weight_s, segeval.weight_t)
        if n_t != 2:
            kwargs['n_t'] = n_t
        for name in NAMES:
            expected = values[name]
            if expected is None:
                continue
            result = run.call(getattr(segeval, name), data, **kwargs)
            run.compared((name, expected))
            if not same(result, expected):
                yield '%s is %r, expected %s (%s)' % (name, result, expected, float(expected))
                return
            if name != NAMES[3]:
                if fraction(result) > 1 or (values[NAMES[0]] == 1) != (result == 1):
                    yield '%s is %r, actual agreement %s' % (name, result, values[NAMES[0]])
        if (metric, weight, n_t) != OPTIONS[0]:
            return
        for name, first, second in ((NAMES[1], NAMES[0], 'pi_e'), (NAMES[2], NAMES[0], 'kappa_e'),
                                    (NAMES[3], 'pi_e', 'kappa_e')):
            if values[name] is None:
                continue
            parts = run.call(getattr(segeval, name), data, return_parts=True)
            run.compared()
            if not isinstance(parts, tuple) or len(parts) != 2 or not same(parts[0], values[first]) or \
                    not same(parts[1], values[second]):
                yield 'parts of %s are %r, expected %s and %s' % (name, parts, values[first], values[second])


class C13(Check):
    RULE = ('every coding in the bounds x every assembly history, order and renaming: all coefficients must be those of the '
            'model (and so of the plain dictionary)')
    ASSUMPTIONS = C12.ASSUMPTIONS + ('item names are strings; coder names any hashables that are distinct',)
    BOUNDS = {
        'quick': 'all codings (up to the order of coders, all of which are explored) of one item by 2 coders on 2-4 units, 3 on 2-4, 4 and '
                 '5 on 3; of two items by 2 coders on 3+2 and 4+3, 3 on 3+2 and 3+3, 4 on 2+3 units; of three items by 2 coders on 2+3+3; '
                 '25 histories; all orders of items and coders; 11 renamings; five patterns of 6 to 26 coders and of 12 and 40 items in 6 orders each',
        'thorough': 'as quick, and one item by 5 coders on 4 units; two items by 2 coders on 4+4 and 5+3, 3 on 4+3, 4 on 3+3; three '
                    'items by 3 coders on 2+2+3'}
    SHAPES = {
        'quick': [((1,), 2), ((2,), 2), ((1,), 3), ((2,), 3), ((2,), 4), ((2, 1), 2), ((3,), 2), ((3,), 3), ((2, 1), 3), ((2,), 5),
                  ((3, 2), 2), ((1, 2, 2), 2), ((2, 2), 3), ((1, 2), 4)],
        'thorough': [((3,), 5), ((3, 3), 2), ((4, 2), 2), ((3, 2), 3), ((2, 2), 4), ((1, 1, 2), 3)]}
    RENAMES = [
        (('a', 'b', 'c', 'd'), ('x', 'y', 'z')), (('d', 'c', 'b', 'a'), ('z', 'y', 'x')),
        (('', ' ', ',', 'a,b'), ('', ' ', ',')), (('1', '10', '2', 'z'), ('10', '9', '1')),
        ((3, 1, 2, 0), ('x', 'X', 'xx')), ((u'\u00e9', 'e', u'\u4e00', 'E'), (u'\u00e9', 'None', '0')),
        ((1, '1', 2, '2'), ('1', 'True', 'x')), ((0, '', None, ()), ('x', '', ' ')),
        ((('a', 1), ('a', 2), ('b',), ()), ('b', 'a', 'B')), ((None, 'None', 'none', '\n'), ('0', '00', '0.0')),
        ((2 ** 70, -1, 2.5, 'x'), ('\t', '\n', '/'))]

    def setup(self):
        import segeval
        self.segeval = segeval

    def jobs(self, tier):
        jobs = []
        for lengths, coders in self.SHAPES['quick'] + (self.SHAPES['thorough'] if tier == 'thorough' else []):
            count = 0
            for _ in combinations_with_replacement(range(2 ** sum(lengths)), coders):
                count += 1
            size = max(1, count // 32)
            jobs += [(lengths, coders, low, low + size) for low in range(0, count, size)]
        jobs += [('crowd',) + size for size in ((6, 1), (9, 2), (11, 1), (12, 3), (17, 1), (26, 1), (2, 12), (2, 40), (3, 41))]
        return jobs

    def explore(self, job, run):
        if job[0] == 'crowd':
            lengths, coders, low, high = (), 0, 0, 0
        else:
            lengths, coders, low, high = job
        self.scratch = tempfile.mkdtemp(prefix='mc-c13-', dir=scratch_root())
        try:
            if job[0] == 'crowd':
                for pattern in range(len(CROWDS)):
                    run.case(tuple(tuple(tuple(int(CROWDS[pattern](i, index, p)) for p in range(2 + (index if job[2] > 39 else index % 2))) for i in range(job[1]))
                                   for index in range(job[2])))
            for columns in islice(combinations_with_replacement(range(2 ** sum(lengths)), coders), low, high):
                rows, offset = [], 0
                for length in lengths:
                    rows.append(tuple(tuple(column >> offset + i & 1 for i in range(length)) for column in columns))
                    offset += length
                if any(columns):
                    run.case(tuple(rows))
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def check(self, case, run):
        own = None
        if not getattr(self, 'scratch', None) or not os.path.isdir(self.scratch):
            self.scratch = own = tempfile.mkdtemp(prefix='mc-c13-', dir=scratch_root())
        try:
            for problem in self.histories(case, run):
                yield problem
        finally:
            if own:
                shutil.rmtree(own, ignore_errors=True)

    def histories(self, case, run):
        bits = {'x%d' % i: {'a%d' % c: b for c, b in enumerate(row)} for i, row in enumerate(case)}
        values = expected_values({i: {c: ref.sets(b) for c, b in row.items()} for i, row in bits.items()})
        if values[NAMES[0]] is None or values[NAMES[3]] is None:
            return
        names = tuple('a%d' % c for c in range(len(case[0]))), tuple('x%d' % i for i in range(len(case)))
        for label, data in self.assemblies(case, names, run):
            if isinstance(data, Raised):
                yield '%s: %r' % (label, data)
                return
            for name in NAMES:
                result = run.call(getattr(self.segeval, name), data)
                run.compared((label.split(' ')[0], values[name]))
                if not same(result, values[name]):
                    yield '%s of %s %r: %r, expected %s' % (name, label, data, result, float(values[name]))
                    return

    @staticmethod
    def orders(names):
        if len(names) <= 5:
            return list(permutations(names))
        half = len(names) // 2
        return [names, names[::-1], names[1:] + names[:1], names[half:] + names[:half], names[::2] + names[1::2],
                tuple(sorted(names))]

    def assemblies(self, case, names, run):
        '''(label, dataset) for every history of the same codings.'''
        segeval = self.segeval
        coders, items = names

        def codings(order_items=items, order_coders=coders):
            return OrderedDict((i, OrderedDict((c, ref.masses(case[items.index(i)][coders.index(c)]))
                                               for c in order_coders)) for i in order_items)

        yield 'plain', {i: dict(row) for i, row in codings().items()}
        item_orders, coder_orders = self.orders(items), self.orders(coders)
        for order_i in item_orders:
            for order_c in coder_orders:
                given = codings(order_i, order_c)
                yield 'ordered plain', given
                yield 'constructed', segeval.Dataset(given)
                # Items that list their coders in different orders
                mixed = OrderedDict((i, OrderedDict((c, given[i][c]) for c in
                                                    (order_c if n % 2 else tuple(reversed(order_c)))))
                                    for n, i in enumerate(order_i))
                yield 'mixed plain', mixed
                yield 'mixed dataset', segeval.Dataset(mixed)
        for order in coder_orders[:6]:
            yield 'filled by coder', run.call(self.filled, codings(), [(i, c) for c in order for i in items])
            yield 'merged by coder', run.call(self.merged, [
                {i: {c: codings()[i][c]} for i in items} for c in order])
            yield 'added by coder', run.call(self.added, [{i: {c: codings()[i][c]} for i in items} for c in order])
        for order in item_orders:
            yield 'filled by item', run.call(self.filled, codings(), [(i, c) for i in order for c in coders])
            yield 'merged by item', run.call(self.merged, [{i: codings()[i]} for i in order])
        whole = segeval.Dataset(codings())
        yield 'copied', run.call(whole.copy)
        yield 'shallow', run.call(copy.copy, whole)
        yield 'deep', run.call(copy.deepcopy, whole)
        yield 'pickled', run.call(pickle.loads, pickle.dumps(whole))
        yield 'replaced', run.call(self.replaced, codings())
        yield 'removed coder', run.call(self.removed, codings(), False)
        yield 'removed item', run.call(self.removed, codings(), True)
        yield 'evaluated before', run.call(self.evaluated, codings())
        for label, function in (('json', self.json), ('json directory', self.json_directory), ('tsv', self.tsv),
                                ('json folder', self.folder), ('tsv folder', self.tsv_folder)):
            yield label, run.call(function, codings())
        for new_coders, new_items in self.RENAMES:
            new_coders += ('fifth',) + tuple('%d' % (i * 7 % 100 + 20) for i in range(len(coders)))
            new_items += tuple('n%d' % (i * 7 % 100) for i in range(len(items)))
            given = OrderedDict((new_items[n], OrderedDict(
                (new_coders[m], ref.masses(case[n][m])) for m in range(len(coders)))) for n in range(len(items)))
            yield 'renamed', segeval.Dataset(given)
            yield 'renamed plain', given

    def filled(self, codings, order):
        dataset = self.segeval.Dataset()
        for item, coder in order:
            dataset[item][coder] = codings[item][coder]
        return dataset

    def merged(self, parts):
        dataset = self.segeval.Dataset()
        for part in parts:
            dataset += self.segeval.Dataset(part)
        return dataset

    def added(self, parts):
        dataset = self.segeval.Dataset(parts[0])
        for part in parts[1:]:
            dataset = dataset + self.segeval.Dataset(part)
        return dataset

    def replaced(self, codings):
        dataset = self.segeval.Dataset({i: {c: (1,) * sum(m) for c, m in row.items()} for i, row in codings.items()})
        for item in codings:
            for coder in codings[item]:
                dataset[item][coder] = codings[item][coder]
        return dataset

    def removed(self, codings, item):
        other = {i: dict(row) for i, row in codings.items()}
        if item:
            other['gone'] = {c: (2, 2) for c in list(codings.values())[0]}
        else:
            for row in other.values():
                row['gone'] = tuple(1 for _ in range(sum(list(row.values())[0])))
        dataset = self.segeval.Dataset(other)
        if item:
            del dataset['gone']
        else:
            for row in dataset.values():
                del row['gone']
        return dataset

    def evaluated(self, codings):
        '''Evaluated after every item that is added.'''
        dataset = self.segeval.Dataset()
        for item in codings:
            dataset[item] = dict(codings[item])
            for name in NAMES:
                try:
                    getattr(self.segeval, name)(dataset)
                except Exception:
                    pass
        return dataset

    def path(self, *parts):
        return os.path.join(self.scratch, *parts)

    def json(self, codings):
        path = self.path('saved.json')
        self.segeval.output_linear_mass_json(path, self.segeval.Dataset(codings))
        return self.segeval.input_linear_mass_json(path)

    def json_directory(self, codings):
        directory = self.path('directory')
        if not os.path.isdir(directory):
            os.makedirs(directory)
        self.segeval.output_linear_mass_json(directory, self.segeval.Dataset(codings))
        return self.segeval.input_linear_mass_json(os.path.join(directory, 'output.json'))

    def write_tsv(self, path, row):
        with open(path, 'w') as handle:
            handle.write('coder\tmasses\n')
            for coder in row:
                handle.write('\t'.join([coder] + [str(mass) for mass in row[coder]]) + '\n')

    def tsv(self, codings):
        dataset = self.segeval.Dataset()
        for item in codings:
            path = self.path(item + '.tsv')
            self.write_tsv(path, codings[item])
            dataset += self.segeval.input_linear_mass_tsv(path)
        return dataset

    def folder(self, codings):
        root = self.path('tree')
        shutil.rmtree(root, ignore_errors=True)
        for item in codings:
            for coder in codings[item]:
                directory = os.path.join(root, coder)
                if not os.path.isdir(directory):
                    os.makedirs(directory)
        for item in codings:
            self.segeval.output_linear_mass_json(os.path.join(root, item + '.json'),
                                                 self.segeval.Dataset({item: codings[item]}))
        return self.segeval.load_nested_folders_dict(root, 'json')

    def tsv_folder(self, codings):
        root = self.path('tsvtree')
        shutil.rmtree(root, ignore_errors=True)
        for index, item in enumerate(codings):
            directory = os.path.join(root, 'f%d' % index)
            os.makedirs(directory)
            self.write_tsv(os.path.join(directory, item + '.tsv'), codings[item])
        return self.segeval.load_nested_folders_dict(root, 'tsv')
