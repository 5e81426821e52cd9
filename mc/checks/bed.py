'''C01-C06: boundary edit distance, boundary statistics, B, S and the confusion matrix.'''
from __future__ import division
from collections import Counter
from decimal import Decimal
from fractions import Fraction as F
import sys
from mc import other, ref, spaces
from mc.core import Check, Raised, fraction, same


def single(string):
    return all(not position or position == {1} for position in string)


def as_masses(string):
    return ref.masses(tuple(1 if position else 0 for position in string))


class Pairs(Check):
    '''Explores pairs of boundary strings; menu(job) gives the span limits n_t per job.'''
    ASSUMPTIONS = (
        'boundary types are integers; positions of a boundary string are sets or frozensets',)

    def setup(self):
        import segeval
        self.segeval = segeval
        from segeval import BoundaryFormat
        self.sets = BoundaryFormat.sets

    def menu(self, case):
        length = len(case[1]) if case[0] == 'pair' else case[1]
        if case[0] == 'pair':
            return tuple(range(1, min(length, 5) + 2))
        if length <= 40:
            return (1, 2, 3, 4, 6, length + 3)
        return (1, 2, 3, 16)

    def explore(self, job, run):
        for case in spaces.cases(job):
            run.case(case, len(self.menu(case)))

    def arguments(self, a, b):
        '''The pair in its natural encoding: masses if it has boundaries of type 1 only.'''
        if single(a) and single(b):
            return (as_masses(a), as_masses(b)), {}
        return (a, b), {'boundary_format': self.sets}


def edits_of(result):
    '''(additions, substitutions, transpositions) as plain sorted tuples, or None.'''
    try:
        additions, substitutions, transpositions = result
        return (sorted((x[0], x[1]) for x in additions), sorted((x[0], x[1]) for x in substitutions),
                sorted((x[0], x[1], x[2]) for x in transpositions))
    except Exception:
        return None


# One subtraction in 28 digits, of a value of at most 1
COMPLEMENT = F(1, 10 ** 24)

QUICK_SPACE = (
    'all ordered pairs of boundary strings: types {1} up to 7 positions (6 for C03-C06), {1,2} up to 4 (3 for C03-C06), {1,2,3} '
    'up to 2 (3 for C01/C02), {0,1}, {2,7}, {-1,3}, {0,-5} up to 2, {-1,-2} and {0,1} on 3, {1,10,300} on 1, 1-4 on 2 (C01/C02), six types on one '
    'position; all pairs with at most 4 boundaries (3 for C03-C06) on 9 positions with types {1,2}, at most 5 (4 for C03-C06) on 12 with one type, '
    'at most 3 at anchor positions of 300 and 2 of 1100 and 5000; at most one type per position from {1,1+k} for 15 k from 7 to 2^64 on 3 (2 for C03-C06) positions; all pairs of 11 periodic strings of 60 and 700, and of 3 of 3000 positions; five small spaces with types of 1000 and more under CPython too (C01/C02)')
THOROUGH_SPACE = (
    'as quick, deeper: types {1} up to 9 positions, {1,2} up to 4 (5 for C01/C02), {1,2,3} up to 3, odd type sets up to '
    '3, seven types on one position, at most 5 boundaries on 9 positions with types {1,2}, 6 on 12 with one type, 4 at '
    'anchors of 300')


# Differences of types that coincide when squeezed into a word, a base or a hash
DISTANT = (7, 8, 10, 16, 32, 64, 100, 256, 1000, 1024, 65536, 2 ** 31, 2 ** 32, 2 ** 61 - 1, 2 ** 64)


def space(tier, deep):
    '''Jobs, simplest first.'''
    quick = tier == 'quick'
    jobs = []
    for length in range(0 if not deep else 1, 8 if quick else 10):
        jobs += spaces.full((1,), length)
    for length in range(1, (5 if deep else 4) if quick else (5 if not deep else 6)):
        jobs += spaces.full((1, 2), length, 64)
    for length in range(1, (4 if deep else 3) if quick else 4):
        jobs += spaces.full((1, 2, 3), length, 64)
    for types in ((0, 1), (2, 7), (-1, 3), (0, -5)):
        for length in range(1, 3 if quick else 4):
            jobs += spaces.full(types, length)
    jobs += spaces.full((-1, -2), 3) + spaces.full((0, 1), 3)
    for step in DISTANT:
        jobs += spaces.lone((1, 1 + step), 3 if deep or not quick or step == 32 else 2)
    jobs += spaces.full((1, 10, 300), 1) + spaces.full((1, 10, 300), 2)
    if deep or not quick:
        jobs += spaces.full((1, 2, 3, 4), 2, 64)
    jobs += spaces.full((1, 2, 3, 4, 5, 6), 1)
    jobs += spaces.full((1, 2, 4, 7, 12, 20), 1)
    if not quick:
        jobs += spaces.full((1, 2, 3, 5, 8, 13, 21), 1, 64)
    jobs += spaces.few((1, 2), 9, (4 if deep else 3) if quick else 5)
    jobs += spaces.few((1,), 12, (5 if deep else 4) if quick else 6)
    jobs += spaces.few((1,), 300, 3 if quick else 4, spaces.anchors(300))
    jobs += spaces.few((1, 2), 300, 2, spaces.anchors(300))
    jobs += spaces.few((1,), 1100, 2, spaces.anchors(1100))
    jobs += spaces.few((1,), 5000, 2, (0, 1, 2, 4095, 4096, 4999))
    jobs += spaces.dense(3000, (1, 2), spaces.PERIODIC[:5:2])
    for length in (60, 700):
        jobs += spaces.dense(length, (1,)) + spaces.dense(length, (1, 2)) + spaces.dense(length, (1, 3, 2))
    return jobs


class BedCheck(Pairs):
    BOUNDS = {'quick': QUICK_SPACE, 'thorough': THOROUGH_SPACE}
    DEEP = True

    def jobs(self, tier):
        jobs = space(tier, self.DEEP)
        if self.DEEP and other.available():
            jobs += [('cpython', job) for job in self.ELSEWHERE]
        # C03-C06 leave the largest single-type space to C01 and C02 in the quick tier
        if tier == 'quick' and not self.DEEP:
            jobs = [job for job in jobs if job[:3] != ('full', (1,), 7)]
        return jobs

    def distance(self, a, b, n_t, run):
        function = self.segeval.boundary_edit_distance
        if n_t == 2:
            return run.call(function, a, b)
        return run.call(function, a, b, n_t=n_t)

    # Explored under CPython too, where equal numbers need not be one object
    ELSEWHERE = (('full', (1000, 2000), 2, 0, 16), ('full', (1000,), 4, 0, 16), ('lone', (1000, 2000), 3),
                 ('full', (0, 1000), 2, 0, 16), ('few', (1000,), 7, 3, tuple(range(7)), 0))

    def explore(self, job, run):
        if job[0] == 'cpython':
            return run.case(job, 0)
        return Pairs.explore(self, job, run)

    def variants(self, a, b):
        if sys.implementation.name == 'cpython':
            yield tuple([set(int(str(t)) for t in p) for p in side] for side in (a, b))
            return
        yield a, b
        if len(a) <= 2:
            yield [set(p) for p in a], [set(p) for p in b]


class C01(BedCheck):
    RULE = ('every pair of boundary strings in the bounds is given to boundary_edit_distance with every span limit of a '
            'menu; the reported edits are applied and must reconcile the strings')

    def check(self, case, run):
        if case[0] == 'cpython':
            for problem in other.elsewhere(self.ID, case[1], run):
                yield problem
            return
        a, b = spaces.decode(case)
        for n_t in self.menu(case):
            for first, second in self.variants(a, b):
                result = self.distance(first, second, n_t, run)
                problem = self.conserved(a, b, n_t, result)
                run.compared(problem or repr(result)[:120] if run.traces < 500 else None)
                if problem:
                    yield 'n_t=%d: %s; result %r' % (n_t, problem, result)

    @staticmethod
    def conserved(a, b, n_t, result):
        if isinstance(result, Raised):
            return 'raised'
        edits = edits_of(result)
        if edits is None:
            return 'not three collections of edits'
        additions, substitutions, transpositions = edits
        left = {0: Counter(), 1: Counter()}
        for x, y in zip(a, b):
            left[0].update(x - y)
            left[1].update(y - x)
        used = set()
        for start, end, kind in transpositions:
            if not 0 <= start < end < len(a):
                return 'transposition outside or reversed'
            if end - start >= n_t:
                return 'transposition spans %d' % (end - start)
            if (start, kind) in used or (end, kind) in used:
                return 'boundary transposed twice'
            used.update(((start, kind), (end, kind)))
            here = (kind in a[start], kind in b[start])
            there = (kind in a[end], kind in b[end])
            if sorted((here, there)) != [(False, True), (True, False)]:
                return 'transposition of boundaries that do not differ oppositely'
            left[0][kind] -= 1
            left[1][kind] -= 1
        for kind, side in additions:
            if side not in ('a', 'b'):
                return 'addition names side %r' % (side,)
            left[0 if side == 'a' else 1][kind] -= 1
        for kind_a, kind_b in substitutions:
            if kind_a == kind_b:
                return 'substitution of a type by itself'
            left[0][kind_a] -= 1
            left[1][kind_b] -= 1
        if any(left[0].values()) or any(left[1].values()):
            return 'differences not consumed exactly once: %r' % (
                {side: {k: v for k, v in counts.items() if v} for side, counts in left.items()},)
        return None


class C02(BedCheck):
    RULE = ('every pair of boundary strings in the bounds is given to boundary_edit_distance with every span limit of a '
            'menu; transpositions must be those of the model search, and the rest must be an optimal pairing per position')

    def check(self, case, run):
        if case[0] == 'cpython':
            for problem in other.elsewhere(self.ID, case[1], run):
                yield problem
            return
        a, b = spaces.decode(case)
        for n_t in self.menu(case):
            model = ref.bed(a, b, n_t)
            for first, second in self.variants(a, b):
                result = self.distance(first, second, n_t, run)
                run.compared((model.count, model.substitutions, model.distance, tuple(model.transpositions)))
                edits = None if isinstance(result, Raised) else edits_of(result)
                if edits is None:
                    yield 'n_t=%d: %r' % (n_t, result)
                elif edits[2] != model.transpositions:
                    yield 'n_t=%d: transpositions %r, expected %r' % (n_t, edits[2], model.transpositions)
                elif not ref.explained(model.rest, edits[0], edits[1]):
                    yield 'n_t=%d: %r is no cheapest choice of edits for %r' % (
                        n_t, edits[:2], [(sorted(x), sorted(y)) for x, y in model.rest])


class C03(BedCheck):
    DEEP = False
    RULE = ('every pair in the bounds, with every span limit of a menu: B and S in both orders, with and without '
            'one_minus, with default and unscaled weights, against symmetry, bounds and identity')

    def check(self, case, run):
        a, b = spaces.decode(case)
        identical = a == b
        args, kwargs = self.arguments(a, b)
        unscaled = (self.segeval.weight_a, self.segeval.weight_s, self.segeval.weight_t)
        for n_t in self.menu(case):
            for name in ('boundary_similarity', 'segmentation_similarity'):
                metric = getattr(self.segeval, name)
                for label, options in (('default', {}), ('unscaled', {'weight': unscaled})):
                    options = dict(options, n_t=n_t, **kwargs)
                    raw = run.call(metric, *args, **options)
                    value = None if isinstance(raw, Raised) else fraction(raw)
                    run.compared(value)
                    where = '%s n_t=%d %s weights: ' % (name, n_t, label)
                    if value is None:
                        yield where + repr(raw)
                        continue
                    if not 0 <= value <= 1:
                        yield where + 'value %r outside [0, 1]' % raw
                    if label == 'default':
                        if (value == 1) != identical:
                            yield where + 'value %r for %s segmentations' % (
                                raw, 'identical' if identical else 'different')
                        swapped = run.call(metric, args[1], args[0], **options)
                        if not same(swapped, value):
                            yield where + '%r, but %r when exchanged' % (raw, swapped)
                    complement = run.call(metric, *args, one_minus=True, **options)
                    if not same(complement, 1 - value, COMPLEMENT):
                        yield where + '%r, but %r with one_minus' % (raw, complement)


class Weights(object):
    '''A weight triple that records what it is given.'''

    def __init__(self, additions, substitutions, transpositions):
        self.seen = []

        def weight_a(additions_given):
            self.seen.append(('a', [tuple(x) for x in additions_given]))
            return additions(self.seen[-1][1])

        def weight_s(substitutions_given, max_s, min_s=1):
            self.seen.append(('s', [tuple(x) for x in substitutions_given], max_s, min_s))
            return substitutions(self.seen[-1][1], max_s, min_s)

        def weight_t(transpositions_given, max_n):
            self.seen.append(('t', [tuple(x) for x in transpositions_given], max_n))
            return transpositions(self.seen[-1][1], max_n)

        self.triple = (weight_a, weight_s, weight_t)
        self.plain = (additions, substitutions, transpositions)


def count_a(edits):
    return len(edits)


def count_s(edits, max_s, min_s):
    return len(edits)


def count_t(edits, max_n):
    return len(edits)


def custom_a(edits):
    return sum(Decimal('0.25') if side == 'a' else Decimal('0.75') for _, side in edits)


def custom_s(edits, max_s, min_s):
    return sum(Decimal(abs(x - y)) / (4 * (max_s - min_s)) for x, y in edits)


def custom_t(edits, max_n):
    return sum(Decimal(1) / (1 + end - start + max_n) for start, end, _ in edits)


def heavy_a(edits):
    return 3 * len(edits)


def heavy_s(edits, max_s, min_s):
    return 2 * sum(abs(x - y) for x, y in edits) + len(edits)


def heavy_t(edits, max_n):
    return Decimal('1.5') * len(edits) * max_n


def nothing(*_):
    return 0


WEIGHTS = [('counts', count_a, count_s, count_t), ('custom', custom_a, custom_s, custom_t),
           ('additions only', count_a, nothing, nothing), ('transpositions only', nothing, nothing, custom_t),
           ('substitutions only', nothing, custom_s, nothing), ('heavy', heavy_a, heavy_s, heavy_t)]


class C04(BedCheck):
    DEEP = False
    RULE = ('every pair in the bounds x span limits x weight triples (default, recording ones) x one_minus x '
            'return_parts of B and S, against the fraction computed by the model from the edits')

    def check(self, case, run):
        a, b = spaces.decode(case)
        args, kwargs = self.arguments(a, b)
        menu = self.menu(case)
        for n_t in menu:
            model = ref.bed(a, b, n_t)
            options = dict(kwargs, n_t=n_t)
            if n_t == 2:
                del options['n_t']
            for name in ('boundary_similarity', 'segmentation_similarity'):
                for problem in self.metric(name, args, options, model, model.default_cost(n_t), None, n_t, run):
                    yield '%s n_t=%d default weights: %s' % (name, n_t, problem)
        # Weights: with two span limits (one if the strings are long)
        small = len(a) <= 4
        for n_t in menu[1:3] if small else menu[2:3]:
            model = ref.bed(a, b, n_t)
            for label, fnc_a, fnc_s, fnc_t in WEIGHTS if len(a) <= 6 else WEIGHTS[1:2]:
                if fnc_s is custom_s and len(model.types) < 2:
                    fnc_s = count_s
                for name in ('boundary_similarity', 'segmentation_similarity'):
                    weights = Weights(fnc_a, fnc_s, fnc_t)
                    options = dict(kwargs, n_t=n_t, weight=weights.triple)
                    for problem in self.metric(name, args, options, model, None, weights, n_t, run, small):
                        yield '%s n_t=%d weights %s: %s' % (name, n_t, label, problem)

    def metric(self, name, args, options, model, cost, weights, n_t, run, complete=True):
        metric = getattr(self.segeval, name)
        similarity = name == 'boundary_similarity'
        results = {}
        for one_minus in (False, True):
            for parts in (False, True):
                if one_minus == parts and not complete:
                    continue
                if weights:
                    del weights.seen[:]
                call = dict(options)
                if one_minus:
                    call['one_minus'] = True
                if parts:
                    call['return_parts'] = True
                result = run.call(metric, *args, **call)
                if isinstance(result, Raised):
                    yield repr(result)
                    return
                if weights:
                    problem, cost = self.recorded(weights, model, n_t)
                    if problem:
                        yield problem
                        return
                if similarity:
                    expected = (model.count + len(model.matches) - cost, model.count + len(model.matches))
                else:
                    expected = (model.potential() - cost, model.potential())
                run.compared(expected)
                if parts:
                    if not isinstance(result, tuple) or len(result) != (5 if similarity else 2):
                        yield 'parts %r' % (result,)
                        return
                    if not same(result[0], expected[0]) or not same(result[1], expected[1]):
                        yield 'parts %r, expected %s / %s' % (result[:2], expected[0], expected[1])
                    if similarity:
                        edits = edits_of(result[2:])
                        if edits is None or edits[2] != model.transpositions or \
                                not ref.explained(model.rest, edits[0], edits[1]):
                            yield 'edits %r in the parts' % (result[2:],)
                else:
                    value = ref.ratio(expected)
                    value = 1 - value if one_minus else value
                    if not same(result, value):
                        yield '%r, expected %s%s' % (result, value, ' (one_minus)' if one_minus else '')
                results[one_minus, parts] = result

    @staticmethod
    def recorded(weights, model, n_t):
        '''Problem with what the weights were given, or their total.'''
        seen = {}
        for entry in weights.seen:
            if entry[0] in seen and sorted(seen[entry[0]][1]) != sorted(entry[1]):
                return 'weights called with different edits: %r' % (weights.seen,), None
            seen[entry[0]] = entry
        if sorted(seen) != ['a', 's', 't']:
            return 'weights called: %r' % (sorted(seen),), None
        if sorted(seen['t'][1]) != model.transpositions or seen['t'][2] != n_t:
            return 'transposition weight given %r' % (seen['t'],), None
        types = model.types or {1}
        if seen['s'][2:] != (max(types), min(types)):
            return 'substitution weight given range %r' % (seen['s'][2:],), None
        if not ref.explained(model.rest, sorted(seen['a'][1]), sorted(seen['s'][1])):
            return 'weights given %r and %r' % (seen['a'], seen['s']), None
        fnc_a, fnc_s, fnc_t = weights.plain
        return None, F(fnc_a(seen['a'][1])) + F(fnc_s(*seen['s'][1:])) + F(fnc_t(*seen['t'][1:]))


class C05(BedCheck):
    DEEP = False
    RULE = ('every pair in the bounds x span limits x weight triples given to boundary_statistics; every entry of the '
            'report is compared with the model')
    KEYS = ('count_edits', 'additions', 'substitutions', 'transpositions', 'full_misses', 'boundaries_all', 'matches',
            'pbs', 'boundary_types')

    def check(self, case, run):
        a, b = spaces.decode(case)
        args, kwargs = self.arguments(a, b)
        for n_t in self.menu(case):
            model = ref.bed(a, b, n_t)
            for label in ('default', 'counts', 'custom'):
                options = dict(kwargs, n_t=n_t)
                weights = None
                if label != 'default':
                    fnc_s = custom_s if label == 'custom' and len(model.types) > 1 else count_s
                    weights = Weights(*((count_a, count_s, count_t) if label == 'counts'
                                        else (custom_a, fnc_s, custom_t)))
                    options['weight'] = weights.triple
                elif n_t == 2:
                    del options['n_t']
                report = run.call(self.segeval.boundary_statistics, *args, **options)
                for problem in self.report(report, model, weights, n_t, run):
                    yield 'n_t=%d weights %s: %s' % (n_t, label, problem)

    def report(self, report, model, weights, n_t, run):
        if isinstance(report, Raised):
            yield repr(report)
            return
        missing = [key for key in self.KEYS if key not in report]
        if missing:
            yield 'no %r in the report' % missing
            return
        run.compared((tuple(model.matches), tuple(model.misses), model.count))
        if sorted(report['matches']) != model.matches:
            yield 'matches %r, expected %r' % (report['matches'], model.matches)
        if sorted(report['full_misses']) != model.misses:
            yield 'full misses %r, expected %r' % (report['full_misses'], model.misses)
        if report['boundaries_all'] != model.total:
            yield 'all boundaries %r, expected %r' % (report['boundaries_all'], model.total)
        if report['pbs'] != model.potential():
            yield 'potential boundaries %r, expected %r' % (report['pbs'], model.potential())
        types = set(report['boundary_types'])
        if types != model.types and (model.types or types != {1}):
            yield 'types %r, expected %r' % (sorted(types), sorted(model.types))
        edits = edits_of((report['additions'], report['substitutions'], report['transpositions']))
        if edits is None or edits[2] != model.transpositions or \
                not ref.explained(model.rest, edits[0], edits[1]):
            yield 'edits %r' % (edits,)
            return
        if weights is None:
            cost = model.default_cost(n_t)
        else:
            problem, cost = C04.recorded(weights, model, n_t)
            if problem:
                yield problem
                return
        if not same(report['count_edits'], cost):
            yield 'weighted edits %r, expected %s' % (report['count_edits'], cost)


def swapped_none(cells):
    '''The matrix with the row and the column of the empty class exchanged.'''
    return {(a, p) if None in (p, a) else (p, a): v for (p, a), v in cells.items()}


class C06(BedCheck):
    DEEP = False
    RULE = ('every pair in the bounds x span limits x transposition weights given to boundary_confusion_matrix as '
            'hypothesis and reference; every cell is compared with the model')

    def check(self, case, run):
        a, b = spaces.decode(case)
        args, kwargs = self.arguments(a, b)
        segeval = self.segeval
        for n_t in self.menu(case):
            model = ref.bed(a, b, n_t)
            triples = [('default', None, lambda span: F(span, n_t)),
                       ('unscaled', (segeval.weight_a, segeval.weight_s, segeval.weight_t), lambda span: F(1)),
                       ('custom', (segeval.weight_a, segeval.weight_s, lambda transpositions, max_n: custom_t(
                           transpositions, max_n)), lambda span: F(1, 1 + span + n_t))]
            for label, weight, credit in triples:
                options = dict(kwargs, n_t=n_t)
                if weight:
                    options['weight'] = weight
                matrix = run.call(segeval.boundary_confusion_matrix, *args, **options)
                problem = self.matrix(case, matrix, model, credit, run)
                if problem:
                    yield 'n_t=%d weights %s: %s' % (n_t, label, problem)

    def matrix(self, case, matrix, model, credit, run):
        if isinstance(matrix, Raised):
            return repr(matrix)
        cells = {}
        try:
            for predicted, row in matrix.items():
                for actual, value in row.items():
                    if value != 0:
                        cells[predicted, actual] = value
        except Exception as exception:
            return 'no matrix: %r' % exception
        run.compared(tuple(sorted((repr(k), str(v)) for k, v in cells.items())))
        problem = self.classified(cells, model, credit)
        if problem and self.classified(swapped_none(cells), model, credit) is None and \
                run.finding('cm-none-orientation', case):
            return None
        return problem and '%s; matrix %r' % (problem, cells)

    @staticmethod
    def classified(cells, model, credit):
        '''Problem of a matrix that has hypothesis-only boundaries in column None.'''
        diagonal = Counter()
        for t in model.matches:
            diagonal[t] += 1
        for start, end, t in model.transpositions:
            diagonal[t] += credit(end - start)
        additions, substitutions = [], []
        for (predicted, actual), value in cells.items():
            if predicted is None and actual is None:
                return 'cell [None][None]'
            if predicted == actual:
                if not same(value, diagonal.get(predicted, 0)):
                    return 'diagonal of %r is %r, expected %s' % (predicted, value, diagonal.get(predicted, 0))
                continue
            value = fraction(value)
            if value is None or value.denominator != 1 or value < 0:
                return 'cell [%r][%r] is no count' % (predicted, actual)
            if actual is None:
                additions += [(predicted, 'a')] * int(value)
            elif predicted is None:
                additions += [(actual, 'b')] * int(value)
            else:
                substitutions += [(predicted, actual)] * int(value)
        for t, value in diagonal.items():
            if value and (t, t) not in cells:
                return 'no diagonal cell of %r' % t
        if not ref.explained(model.rest, additions, substitutions):
            return 'boundaries not classified once each'
        return None
