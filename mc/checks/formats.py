'''C07, C22, C24: formats, converters and rejection of what cannot be compared.'''
from __future__ import division
from itertools import product, groupby
from fractions import Fraction as F
from mc import ref
from mc.core import Check, Raised, fraction, same
from mc.checks.window import LABELS, labelled

EDIT = ('boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix')
WINDOWED = ('pk', 'window_diff')
AGREEMENT = ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear')


def number(value):
    exact = fraction(value)
    return value if exact is None else exact.limit_denominator(10 ** 12)


def normal(result):
    '''A result without the accidents of its representation (order, container, number type).'''
    if isinstance(result, Raised):
        return ('raised', result.name)
    if isinstance(result, (int, float, str)) or result is None:
        return number(result) if not isinstance(result, str) else result
    if hasattr(result, 'as_tuple'):
        return number(result)
    if isinstance(result, dict):
        entries = [(repr(k), normal(v)) for k, v in result.items()]
        return tuple(sorted((k, v) for k, v in entries if v not in (0, ())))
    if isinstance(result, (set, frozenset, list)):
        return tuple(sorted((normal(x) for x in result), key=repr))
    if isinstance(result, tuple):
        return tuple(normal(x) for x in result)
    return repr(result)


def same_text(text):
    '''Another object of the same text.'''
    return ''.join(list(text))


# Encodings whose format is given by an equal name that is not the constant itself
ODD = (' 0', ' 3', ' 5', ' 10', ' 14', 'nltk', "'x'", 'list', 'plain sets')


def failed(result):
    return isinstance(result, tuple) and result[:1] == ('raised',)


def encodings(bits, side):
    '''(name, segmentation, format): every way to write a segmentation; side varies the labels.'''
    masses = ref.masses(bits)
    yield 'masses in a list', list(masses), 'mass'
    names = list(LABELS)
    for index, name in enumerate(names):
        name = names[(index + 5 * side) % len(names)]
        labels = labelled(bits, name)
        yield 'position labels %d' % index, list(labels) if (index + side) % 2 else labels, 'position'
    yield 'nltk', ref.nltk(bits), 'nltk'
    for other in ('.', 'x', ' '):
        yield 'nltk with %r' % other, ref.nltk(bits, '1', other), 'nltk'
    sets = ref.sets(bits)
    yield 'sets', sets, 'sets'
    yield 'sets in a list', list(sets), 'sets'
    yield 'plain sets', tuple(set(x) for x in sets), 'sets'


class C07(Check):
    RULE = ('every pair of segmentations in the bounds, and every small dataset, in every encoding and container: the '
            'results of all metrics must be those for masses in a tuple')
    ASSUMPTIONS = ('labels of different segments differ; hypothesis and reference are labelled independently',)
    BOUNDS = {
        'quick': 'all pairs of segmentations of 2 to 6 units, 16 label schemes, lists and tuples, NLTK strings with four filler '
                 'characters, sets and frozensets; 6 metrics with their options; formats given by the constants or by equal strings; all datasets of 2 coders on 4 units with '
                 'a second item out of 4 and a third coder out of 3, 4 agreement coefficients and pairwise comparison; '
                 'all integers from 1 to 12 as masses; long documents of 300 units',
        'thorough': 'all pairs of segmentations of 2 to 7 units; datasets on 5 units; otherwise as quick'}

    def setup(self):
        import segeval
        self.segeval = segeval

    def jobs(self, tier):
        jobs = []
        for length in range(1, 6 if tier == 'quick' else 7):
            if length < 4:
                jobs.append(('pairs', length, ()))
            else:
                jobs += [('pairs', length, prefix) for prefix in ref.all_bits(length - 1)]
        length = 3 if tier == 'quick' else 4
        jobs += [('data', bits, other) for bits in ref.all_bits(length) for other in ref.all_bits(length)]
        jobs += [('int',), ('long', 299)]
        return jobs

    def explore(self, job, run):
        if job[0] == 'pairs':
            _, length, prefix = job
            for rest in ref.all_bits(length - len(prefix)):
                for other in ref.all_bits(length):
                    run.case(('pair', prefix + rest, other))
        elif job[0] == 'data':
            for second in range(4):
                for third in range(4):
                    run.case(('data', job[1], job[2], second, third))
        elif job[0] == 'int':
            for size in range(1, 13):
                for bits in ref.all_bits(min(size - 1, 5)):
                    run.case(('int', size, (bits + (0,) * size)[:size - 1]))
        else:
            patterns = [tuple(1 if i % p == q else 0 for i in range(job[1])) for p, q in
                        ((1, 0), (2, 1), (7, 3), (400, 0))]
            for first in patterns:
                for second in patterns:
                    run.case(('pair', first, second))

    def metrics(self, fmt):
        segeval = self.segeval
        yield 'B', segeval.boundary_similarity, {}
        yield 'B parts', segeval.boundary_similarity, {'return_parts': True, 'n_t': 3}
        yield 'S', segeval.segmentation_similarity, {'n_t': 1}
        yield 'S complement', segeval.segmentation_similarity, {'one_minus': True}
        yield 'statistics', segeval.boundary_statistics, {}
        yield 'matrix', segeval.boundary_confusion_matrix, {}
        if fmt != 'sets':
            yield 'Pk', segeval.pk, {}
            yield 'Pk 3', segeval.pk, {'window_size': 3, 'return_parts': True}
            yield 'WD', segeval.window_diff, {'return_parts': True}
            yield 'WD 2', segeval.window_diff, {'window_size': 2, 'one_minus': True}
            yield 'WD fix', segeval.window_diff, {'lamprier_et_al_2007_fix': True}

    def check(self, case, run):
        if case[0] == 'pair':
            return self.pair(case, run)
        if case[0] == 'data':
            return self.data(case, run)
        return self.integer(case, run)

    def pair(self, case, run):
        _, first, second = case
        base = (ref.masses(first), ref.masses(second))
        expected = {}
        for name, metric, options in self.metrics('mass'):
            expected[name] = normal(run.call(metric, *base, **options))
            if failed(expected[name]):
                yield '%s of masses %r: %r' % (name, base, expected[name])
        for (name, a, fmt), (_, b, _) in zip(encodings(first, 0), encodings(second, 1)):
            if len(first) > 20 and ' labels' in name and not name.endswith((' 0', ' 2', ' 11', ' 12')):
                continue
            for label, metric, options in self.metrics(fmt):
                if fmt != 'mass':
                    options = dict(options, boundary_format=same_text(fmt) if name.endswith(ODD) else fmt)
                elif label in ('B', 'Pk', 'WD'):
                    options = dict(options, boundary_format=same_text(fmt))
                result = normal(run.call(metric, a, b, **options))
                run.compared((label, result))
                if result != expected[label]:
                    yield '%s of %s %r and %r: %r, for masses %r' % (label, name, a, b, result, expected[label])
                    return

    def integer(self, case, run):
        _, size, bits = case
        other = ref.masses(bits)
        for name, metric, options in self.metrics('mass'):
            for args, plain in (((size, other), ((size,), other)), ((other, size), (other, (size,))),
                                ((size, size), ((size,), (size,)))):
                result = normal(run.call(metric, *args, **options))
                expected = normal(run.call(metric, *plain, **options))
                named = normal(run.call(metric, hypothesis=args[0], reference=args[1], **options))
                run.compared((name, result))
                if result != expected or named != expected or failed(expected):
                    yield '%s of %r: %r, but %r of %r' % (name, args, result, expected, plain)

    def data(self, case, run):
        _, first, second, index, third = case
        length = len(first)
        seconds = [((0,) * length, (1,) * length), ((1,) + (0,) * (length - 1), (0,) * (length - 1) + (1,)),
                   ((0, 1) * 2, (1, 0) * 2), ((1, 0), (1, 0))]
        codings = {'i1': {'c1': first, 'c2': second},
                   'i2': {'c1': seconds[index][0], 'c2': seconds[index][1]}}
        if third < 3:
            codings['i1']['c3'] = (tuple(reversed(first)), (0,) * length, second)[third]
            codings['i2']['c3'] = codings['i2']['c1' if third else 'c2']
        masses = self.dataset(codings, 'mass', lambda bits, _: ref.masses(bits))
        expected = self.results(masses, 'mass', run, None)
        for label in ('from 1', 'from 0', 'text', 'mixed', 'none', 'nltk', 'sets', 'lists'):
            if label == 'nltk':
                fmt, encode = 'nltk', lambda bits, _: ref.nltk(bits)
            elif label == 'sets':
                fmt, encode = 'sets', lambda bits, _: ref.sets(bits)
            elif label == 'lists':
                fmt, encode = 'mass', lambda bits, _: list(ref.masses(bits))
            else:
                names = list(LABELS)
                start = names.index(label)
                fmt, encode = 'position', lambda bits, i: labelled(bits, names[(start + i) % len(names)])
            dataset = self.dataset(codings, fmt, encode)
            plain = {item: dict(entries) for item, entries in dataset.items()}
            for form, given in ((dataset, None), (plain, fmt)):
                results = self.results(form, fmt, run, given)
                for name in results:
                    run.compared((name, results[name]))
                    if results[name] != expected[name] or failed(expected[name]) and any(
                            any(bits) for item in codings.values() for bits in item.values()):
                        yield '%s of %s %r: %r, for masses %r' % (
                            name, label, plain, results[name], expected[name])
                        return

    def dataset(self, codings, fmt, encode):
        dataset = self.segeval.Dataset(boundary_format=same_text(fmt))
        count = 0
        for item in sorted(codings):
            dataset[item] = {}
            for coder in sorted(codings[item]):
                dataset[item][coder] = encode(codings[item][coder], count)
                count += 1
        return dataset

    def results(self, dataset, fmt, run, given):
        results = {}
        options = {'boundary_format': same_text(given)} if given else {}
        for name in AGREEMENT:
            results[name] = normal(run.call(getattr(self.segeval, name), dataset, **options))
        results['S agreement'] = normal(run.call(self.segeval.actual_agreement_linear, dataset, n_t=3,
                                                 fnc_compare=self.segeval.segmentation_similarity, **options))
        if not given:
            for name, metric, extra in self.metrics(fmt):
                if name not in ('B', 'S', 'Pk', 'WD', 'WD fix', 'matrix'):
                    continue
                results[name] = normal(run.call(metric, dataset, **extra))
                results[name + ' two'] = normal(run.call(metric, dataset, dataset, **extra))
        return results


SYMBOLS = ('1', '|', '.', '*', '\\', '[', '^', '$', ' ', '+', u'\u00e9', u'\U0001f600', '\n', 'a', 'A', '0')


class C24(Check):
    RULE = ('every segmentation in the bounds through every converter and back, with every boundary symbol; every label '
            'sequence of an alphabet')
    BOUNDS = {
        'quick': 'all mass sequences with a sum up to 12; all sequences of up to 3 masses out of 11 between 1 and 5000; 81 sequences of 200 to 33000 masses; 16 boundary '
                 'symbols x 5 fillers; all label sequences of up to 6 units over 6 labels; lists and tuples',
        'thorough': 'all mass sequences with a sum up to 15; sequences of up to 4 out of 11 large masses; label sequences of up to 7'}
    LABELS = (1, 2, 0, 'a', None, (1,))
    LARGE = (1, 2, 3, 10, 100, 255, 256, 257, 1000, 1025, 5000)

    def setup(self):
        import segeval
        self.segeval = segeval

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = []
        for total in range(1, 13 if quick else 16):
            length = total - 1
            jobs += [('bits', length, prefix) for prefix in ref.all_bits(max(0, length - 8))]
        for size in range(1, 4 if quick else 5):
            jobs += [('large', size, first) for first in self.LARGE]
        jobs += [('many', count, first) for count in (200, 255, 256, 257, 300, 1030, 2100, 5000, 33000) for first in (1, 2, 7)]
        for length in range(1, 7 if quick else 8):
            jobs += [('labels', length, first) for first in range(len(self.LABELS))]
        return jobs

    def explore(self, job, run):
        kind, length, prefix = job
        if kind == 'bits':
            for rest in ref.all_bits(length - len(prefix)):
                run.case(('masses', ref.masses(prefix + rest)))
        elif kind == 'large':
            for rest in product(self.LARGE, repeat=length - 1):
                run.case(('masses', (prefix,) + rest))
        elif kind == 'many':
            for other in (1, 2, 7):
                run.case(('masses', tuple(other if i % 3 else prefix for i in range(length))))
        else:
            for rest in product(range(len(self.LABELS)), repeat=length - 1):
                run.case(('labels', (prefix,) + rest))

    def check(self, case, run):
        segeval = self.segeval
        if case[0] == 'labels':
            labels = tuple(self.LABELS[i] for i in case[1])
            expected = [len(list(group)) for _, group in groupby(case[1])]
            for given in (labels, list(labels)):
                result = run.call(segeval.convert_positions_to_masses, given)
                run.compared(tuple(expected))
                if isinstance(result, Raised) or list(result) != expected:
                    yield 'masses %r of labels %r' % (result, given)
            return
        masses = case[1]
        small = sum(masses) <= 40
        bits = ref.bits_of_masses(masses)
        positions = ref.positions(bits)
        for given in (masses, list(masses)):
            result = run.call(segeval.convert_masses_to_positions, given)
            run.compared(tuple(masses))
            if isinstance(result, Raised) or tuple(result) != positions:
                yield 'positions %s of masses %r' % (repr(result)[:300], given)
                return
            back = run.call(segeval.convert_positions_to_masses, result)
            if isinstance(back, Raised) or tuple(back) != masses:
                yield 'masses %r of positions of %r' % (back, given)
            string = run.call(segeval.boundary_string_from_masses, given)
            run.compared(tuple(bits[:40]))
            if isinstance(string, Raised) or len(string) != len(bits) or \
                    any(set(position) != ({1} if bit else set()) for position, bit in zip(string, bits)):
                yield 'boundary string %s of masses %r' % (repr(string)[:300], given)
        if small:
            for name in LABELS:
                result = run.call(segeval.convert_positions_to_masses, labelled(bits, name))
                run.compared()
                if isinstance(result, Raised) or tuple(result) != masses:
                    yield 'masses %r of labels %r' % (result, labelled(bits, name))
        for symbol in SYMBOLS if small else SYMBOLS[:3]:
            for other in ('0', '1', 'ab', 'a', 'AB'):
                if symbol in other:
                    continue
                text = ''.join(symbol if bit else other[i % len(other)] for i, bit in enumerate(bits))
                results = [run.call(segeval.convert_nltk_to_masses, text, boundary_symbol=symbol),
                           run.call(segeval.convert_nltk_to_masses, text, symbol)]
                if symbol == '1':
                    results.append(run.call(segeval.convert_nltk_to_masses, text))
                for result in results:
                    run.compared()
                    if isinstance(result, Raised) or tuple(result) != masses:
                        yield 'masses %r of %r with symbol %r' % (result, text[:300], symbol)
                        return


class C22(Check):
    RULE = ('every metric x way of passing the arguments x options x format x pair of lengths that differ, unknown or '
            'unsupported formats, datasets of two formats and wrong averaging methods: must raise the metric error')
    BOUNDS = {
        'quick': 'all pairs of segmentations of different length from 1 to 5 units, from 255 to 257, 1000, and by 14 lengths from 7 to 65536 longer than 1, 2 or 5 units; 4 formats; 6 '
                 'metrics, 4 agreement coefficients; pairs, keyword arguments, one and two datasets, as first or second item '
                 'or coder; 21 unknown formats; 12 format pairs; 7 averaging methods on 5 matrices',
        'thorough': 'pairs of different length from 1 to 6 units, otherwise as quick'}
    UNKNOWN = ('unknown', '', 'Mass', 'masses', 'set', None, 0, 1, 'Position', 'NLTK', 'Sets', 'mass ', ' nltk', 'positions', 'sets\n',
               'm', b'mass', ('mass',), True, 'pos', 'nltk1')
    VERSIONS = ('micro', 'macro', 2, -1, None, 'x', (0,))

    def setup(self):
        import segeval
        from segeval.util import SegmentationMetricError
        self.segeval = segeval
        self.error = SegmentationMetricError

    def jobs(self, tier):
        jobs = [('lengths', a, b) for a in range(1, 6 if tier == 'quick' else 7)
                for b in range(1, 6 if tier == 'quick' else 7) if a != b]
        jobs += [('long', a, b) for a in (255, 256, 257, 1000) for b in (255, 256, 257, 1000) if a != b]
        jobs += [('long', n, n + k) for k in (7, 8, 10, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096, 65536) for n in (1, 2, 5)]
        jobs += [('formats', index) for index in range(len(self.UNKNOWN))]
        jobs += [('two', None), ('versions', None), ('arguments', None)]
        return jobs

    def explore(self, job, run):
        if job[0] == 'lengths':
            for a in ref.all_bits(job[1] - 1):
                for b in ref.all_bits(job[2] - 1):
                    run.case(('lengths', a, b))
        elif job[0] == 'long':
            for p in (1, 7, 5000):
                for q in (1, 7, 5000):
                    a = tuple(1 if i % p == p - 1 else 0 for i in range(job[1] - 1))
                    b = tuple(1 if i % q == q - 1 else 0 for i in range(job[2] - 1))
                    run.case(('lengths', a, b))
        elif job[0] == 'formats':
            for bits in ref.all_bits(3):
                run.case(('formats', job[1], bits, (0, 1, 0)))
                run.case(('formats', job[1], bits, bits))
        elif job[0] == 'two':
            for first in ('mass', 'position', 'sets', 'nltk'):
                for second in ('mass', 'position', 'sets', 'nltk'):
                    if first != second:
                        for bits in ref.all_bits(3):
                            run.case(('two', first, second, bits))
        elif job[0] == 'versions':
            for matrix in range(5):
                for version in self.VERSIONS:
                    run.case(('versions', matrix, version))
        else:
            for name in EDIT + WINDOWED:
                run.case(('arguments', name))

    def rejected(self, result, run):
        run.compared(result.name if isinstance(result, Raised) else 'value')
        return isinstance(result, Raised) and isinstance(result.exception, self.error)

    def check(self, case, run):
        for label, function, args, kwargs in getattr(self, 'calls_' + case[0])(*case[1:]):
            result = run.call(function, *args, **kwargs)
            if not self.rejected(result, run):
                yield '%s(%s, %r): %r' % (label, repr(args)[:500], kwargs, repr(result)[:300])
                return

    @staticmethod
    def encode(bits, fmt):
        if fmt == 'position':
            return labelled(bits, 'from 1')
        return {'mass': ref.masses, 'sets': ref.sets, 'nltk': ref.nltk}[fmt](bits)

    def ways(self, name, a, b, fmt, options, good):
        '''Ways to have a and b compared by a metric; good: a segmentation of its own item.'''
        segeval = self.segeval
        metric = getattr(segeval, name)
        yield name, metric, (a, b), dict(options, boundary_format=fmt)
        yield name, metric, (), dict(options, boundary_format=fmt, hypothesis=a, reference=b)
        yield name, metric, (), dict(options, boundary_format=fmt, reference=a, hypothesis=b)

        def dataset(codings):
            return segeval.Dataset(codings, boundary_format=fmt)

        for codings in ({'i': {'c': a, 'd': b}}, {'h': {'c': good, 'd': good}, 'i': {'c': a, 'd': a, 'e': b}}):
            yield name + ' of dataset', metric, (dataset(codings),), options
            yield name + ' of dataset', metric, (), dict(options, dataset=dataset(codings))
        yield name + ' of datasets', metric, (dataset({'i': {'c': a}}), dataset({'i': {'d': b}})), options
        yield name + ' of datasets', metric, (), dict(options, hypothesis=dataset({'h': {'c': good}, 'i': {'c': a}}),
                                                      reference=dataset({'i': {'d': b}, 'h': {'d': good}}))

    def agreements(self, a, b, fmt, good):
        segeval = self.segeval
        codings = {'h': {'c': good, 'd': good}, 'i': {'c': a, 'd': b}}
        for name in AGREEMENT:
            function = getattr(segeval, name)
            yield name, function, (segeval.Dataset(codings, boundary_format=fmt),), {}
            yield name, function, (codings,), {'boundary_format': fmt}
            yield (name, function, (segeval.Dataset(codings, boundary_format=fmt),),
                   {'fnc_compare': segeval.segmentation_similarity})

    def calls_lengths(self, first, second):
        for fmt in ('mass', 'position', 'sets', 'nltk'):
            a, b = self.encode(first, fmt), self.encode(second, fmt)
            if not a or not b:
                continue        # no segmentation at all in this format
            good = self.encode((0, 1, 0), fmt)
            short = len(first) < 20
            for name in EDIT + WINDOWED:
                if name in WINDOWED and fmt == 'sets':
                    continue
                menu = [{}]
                if short and name in EDIT[:2]:
                    menu += [{'one_minus': True}, {'return_parts': True}, {'n_t': 1}]
                elif short and name in WINDOWED:
                    menu += [{'window_size': 2}, {'one_minus': True}, {'return_parts': True}, {'window_size': 9}]
                    if name == 'window_diff':
                        menu += [{'lamprier_et_al_2007_fix': True}]
                for options in menu:
                    for call in self.ways(name, a, b, fmt, options, good):
                        yield call
            for call in self.agreements(a, b, fmt, good):
                yield call

    def calls_formats(self, index, first, second):
        fmt = self.UNKNOWN[index]
        for encoding in ('mass', 'position', 'sets', 'nltk'):
            a, b = self.encode(first, encoding), self.encode(second, encoding)
            for name in EDIT + WINDOWED:
                for call in self.ways(name, a, b, fmt, {}, a):
                    yield call
            for call in self.agreements(a, b, fmt, a):
                yield call
        a, b = self.encode(first, 'sets'), self.encode(second, 'sets')
        for name in WINDOWED:
            for options in ({}, {'window_size': 2}, {'one_minus': True}):
                for call in self.ways(name, a, b, 'sets', options, a):
                    yield call

    def calls_two(self, first, second, bits):
        segeval = self.segeval
        for reverse in (False, True):
            one = segeval.Dataset({'i': {'c': self.encode(bits, first)}}, boundary_format=first)
            two = segeval.Dataset({'i': {'d': self.encode(bits, second)}}, boundary_format=second)
            if reverse:
                two['h'] = {'c': self.encode((0, 1), second)}
                one = one.copy()
            for name in EDIT + WINDOWED:
                metric = getattr(segeval, name)
                yield name, metric, (one, two), {}
                yield name, metric, (), {'hypothesis': one, 'reference': two}
                yield name, metric, (one, two), {'boundary_format': first}

    def calls_versions(self, index, version):
        segeval = self.segeval
        matrix = segeval.ConfusionMatrix()
        if index:
            matrix['a']['a'] = 2
        if index > 1:
            matrix['a']['b'] = 1
        if index > 2:
            matrix['b']['b'] = 3
            matrix[None]['a'] = 1
        given = {'one': matrix} if index == 4 else matrix
        for name in ('precision', 'recall', 'fmeasure'):
            yield name, getattr(segeval, name), (given,), {'version': version}

    def calls_arguments(self, name):
        metric = getattr(self.segeval, name)
        yield name, metric, (), {}
        yield name, metric, (), {'boundary_format': 'mass'}
        for more in ((3,), (1, 2), (2, 1), {}, None, 3):
            yield name, metric, ((1, 2), (2, 1), more), {}
        for count in (3, 4, 5, 6, 9):
            yield name, metric, ((1, 2),) * count, {}
        dataset = self.segeval.Dataset({'i': {'a': (1, 2), 'b': (2, 1)}})
        for count in (3, 4, 5):
            yield name, metric, (dataset,) * count, {}
        yield name, metric, (), {'hypothesis': (1, 2)}
        yield name, metric, (), {'reference': (1, 2)}
