'''C14, C15: confusion matrices, precision, recall and F-measure.'''
from __future__ import division
import copy
import pickle
from decimal import Decimal
from fractions import Fraction as F
from itertools import product
from mc import ref
from mc.core import Check, Raised, fraction, same

LABELS = [('a', 'b', 'c'), (1, 2, 3), (0, '', 'x'), ('a', None, 'b'), (('t', 1), frozenset([2]), 2.5), (257, 258, -1)]
BETAS = [None, 1, 2, Decimal('0.5'), 0.5, 0, 3, 0.1, Decimal('1.0'), 10, Decimal('0.1234567890123456789'), 1 / 3., 0.001,
         12345.678]
UNKNOWN = 'not a class'
# Matrices of many classes
WIDE = (4, 5, 9, 17, 40, 150)
PATTERNS = [lambda p, a, n: 1 if p == a else 0,
            lambda p, a, n: (p * 7 + a * 3) % 5,
            lambda p, a, n: p + 1 if a == (p + 1) % n else 2 if a == p and p % 2 else 0,
            lambda p, a, n: 3 if p == 0 or a == n - 1 else 0,
            lambda p, a, n: 10 ** 12 + p if a in (p, n - 1 - p) else 0,
            lambda p, a, n: 1]
# Cells of matrices with classes that have no counts (None: no cell)
IDLE = [lambda p, a, n: (2, 0)[p % 2] if p == a else None,
        lambda p, a, n: (p + a) % 3 if p < 2 and a < 2 else 0 if p == n - 1 else None,
        lambda p, a, n: (p + 2 * a) % 3 if p < 2 and a < 2 else 0 if a == n - 1 or a == 2 else None,
        lambda p, a, n: 0 if max(p, a) == n - 1 else 1 + p]


def exact_beta(beta):
    return F(1) if beta is None else F(str(beta))


class Matrices(Check):
    def setup(self):
        import segeval
        self.segeval = segeval

    def build(self, cells, zeros=False):
        matrix = self.segeval.ConfusionMatrix()
        for (predicted, actual), value in cells.items():
            if value or zeros:
                matrix[predicted][actual] = value
        return matrix

    def expected(self, cells, labels, query):
        '''Model value of ('precision'|'recall'|'fmeasure', classification or None, micro?, beta).'''
        name, label, micro, beta = query
        parts = {'precision': ref.precision_parts, 'recall': ref.recall_parts}.get(name)
        if parts is None:
            def parts(content, one):
                return ref.f_parts(content, one, exact_beta(beta))
        if label is not None:
            x, y = parts(cells, label)
            return F(x) / F(y) if x else F(0)
        if micro:
            return ref.micro([parts(cells, one) for one in labels])
        values = []
        for one in labels:
            x, y = parts(cells, one)
            values.append(F(x) / F(y) if x else F(0))
        return ref.macro(values)

    def ask(self, matrix, query, run):
        name, label, micro, beta = query
        options = {}
        if label is not None:
            options['classification'] = label
        if not micro:
            options['version'] = self.segeval.Average.macro
        elif label is None and beta in (2, 3):
            options['version'] = self.segeval.Average.micro
        if beta is not None:
            options['beta'] = beta
        return run.call(getattr(self.segeval, name), matrix, **options)

    def queries(self, labels, betas):
        for name in ('precision', 'recall'):
            for label in labels:
                if label is not None:
                    yield name, label, True, None
            yield name, UNKNOWN, True, None
            yield name, None, True, None
            yield name, None, False, None
        for beta in betas:
            for label in labels:
                if label is not None:
                    yield 'fmeasure', label, True, beta
            yield 'fmeasure', UNKNOWN, True, beta
            yield 'fmeasure', None, True, beta
            yield 'fmeasure', None, False, beta


class C14(Matrices):
    RULE = ('every matrix in the bounds x class (and an unknown one) x averaging x beta: precision, recall and F-measure '
            'against their definitions over exact fractions; collections of matrices entry by entry')
    ASSUMPTIONS = ('cells are non-negative integers or decimals',)
    BOUNDS = {
        'quick': 'all 2x2 matrices of 0-3 under 6 label sets (with and without stored zeros) and of four decimals, all 3x3 of 0-1, all 2x2 '
                 'of {0, 1, 256, 257, 100000}, all 1x1 of 0-5; 14 betas (3 or 4 for others than two label sets); all pairs of 16 matrices, none and 80 as collections; '
                 'matrices of 4 to 150 classes with ten patterns, in four of which some classes have only zeros',
        'thorough': 'as quick, and all 3x3 of 0-2 and 2x2 of 0-5'}

    def jobs(self, tier):
        jobs = [('one', 1, tuple(range(6)), 0, zeros, None, len(BETAS)) for zeros in (False, True)]
        for labels in range(len(LABELS)):
            for zeros in (False, True):
                for first in range(4):
                    jobs.append(('one', 2, (0, 1, 2, 3), labels, zeros, (first,), len(BETAS) if labels < 2 else 3))
        decimals = (Decimal(0), Decimal('0.5'), Decimal('1'), Decimal('2.25'))
        for first in range(4):
            jobs.append(('one', 2, decimals, 0, False, (first,), 4))
            jobs.append(('one', 2, decimals, 3, True, (first,), 4))
        large = (0, 1, 256, 257, 100000)
        jobs += [('one', 2, large, 0, False, (first,), 4) for first in range(5)]
        for labels in (0, 3):
            for first in product(range(2), repeat=3):
                jobs.append(('one', 3, (0, 1), labels, False, first, 3))
        jobs += [('many', first) for first in range(16)]
        jobs += [('wide', size) for size in WIDE]
        if tier == 'thorough':
            for first in product(range(3), repeat=4):
                jobs.append(('one', 3, (0, 1, 2), 0, False, first, 3))
            for first in product(range(6), repeat=2):
                jobs.append(('one', 2, tuple(range(6)), 0, True, first, 4))
        return jobs

    def explore(self, job, run):
        if job[0] == 'wide':
            for pattern in range(-len(IDLE), len(PATTERNS)):
                run.case(('wide', job[1], pattern))
            return
        if job[0] == 'many':
            if job[1] == 0:
                run.case(('many', ()))
                run.case(('many', tuple(range(16)) * 5))
            for second in range(16):
                run.case(('many', (job[1], second)))
            return
        _, size, values, labels, zeros, first, betas = job
        first = first or ()
        for rest in product(range(len(values)), repeat=size * size - len(first)):
            content = tuple(values[i] for i in first + rest)
            run.case(('one', size, content, labels, zeros, betas))

    def check(self, case, run):
        if case[0] == 'many':
            return self.many(case, run)
        if case[0] == 'wide':
            return self.wide(case, run)
        return self.one(case, run)

    def one(self, case, run):
        _, size, content, index, zeros, betas = case
        labels = LABELS[index][:size]
        keys = [(p, a) for p in labels for a in labels]
        stored = {key: value for key, value in zip(keys, content) if value or zeros}
        matrix = self.build(stored, zeros)
        present = ref.classes(stored)
        classes = run.call(matrix.classes)
        if isinstance(classes, Raised) or set(classes) != present or len(classes) != len(present):
            yield 'classes %r, expected %r' % (classes, present)
        betas = BETAS[:betas] if betas > 4 else [None, 2, Decimal('0.5'), 0][:betas]
        for query in self.queries(labels, betas):
            expected = self.expected(stored, present, query)
            result = self.ask(matrix, query, run)
            run.compared((query[0], expected))
            if not same(result, expected) or not 0 <= fraction(result) <= 1:
                yield '%r of %r: %r, expected %s' % (query, stored, result, expected)
                return

    def wide(self, case, run):
        _, size, index = case
        stored = {}
        for predicted in range(size):
            for actual in range(size):
                value = PATTERNS[index](predicted, actual, size) if index >= 0 else IDLE[index](predicted, actual, size)
                if value if index >= 0 else value is not None:
                    stored[predicted, actual] = value
        matrix = self.build(stored, index < 0)
        present = ref.classes(stored)
        classes = run.call(matrix.classes)
        if isinstance(classes, Raised) or set(classes) != present or len(classes) != len(present):
            yield 'classes of %d: %r' % (size, classes)
        for query in self.queries((0, 1, size // 2, size - 1) if size < 100 else (size - 1,), [None, 2] if size < 100 else [2]):
            expected = self.expected(stored, present, query)
            result = self.ask(matrix, query, run)
            run.compared((query[0], expected))
            if not same(result, expected) or not 0 <= fraction(result) <= 1:
                yield '%r of a matrix of %d classes: %r, expected %s' % (query, size, result, expected)
                return

    def many(self, case, run):
        cells = []
        for number in case[1]:
            content = [number >> i & 1 for i in range(4)]
            cells.append({key: value * (2 + i) for i, (key, value) in enumerate(zip(
                [('a', 'a'), ('a', 'b'), ('b', 'a'), ('b', 'b')], content)) if value})
        names = ['x', ('y', 1), 0, '', None] + list(range(1, 100))
        cells = dict(zip(names, cells))
        matrices = dict((name, self.build(entry)) for name, entry in cells.items())
        for query in self.queries(('a', 'b'), [None, 2]):
            result = self.ask(matrices, query, run)
            expected = dict((name, self.expected(entry, ref.classes(entry), query)) for name, entry in cells.items())
            run.compared((query[0], tuple(expected.values())))
            if not isinstance(result, dict) or set(result) != set(expected) or any(
                    not same(result[key], expected[key]) for key in expected):
                yield '%r of collection %r: %r, expected %r' % (query, cells, result, expected)
                return


def operations():
    ops = [('set', p, a, 2) for p in 'ab' for a in 'ab'] + [('set', 'a', 'b', 0), ('set', 'c', 'a', 1)]
    ops += [('inc', p, a) for p in 'ab' for a in 'ab']
    ops += [('read', 'a', 'b'), ('read', 'd', 'a'), ('row', 'a'), ('row', 'e')]
    ops += [('delete cell', 'a', 'b'), ('delete cell', 'b', 'b'), ('delete row', 'a'), ('pop row', 'b'), ('clear row', 'a'),
            ('update row', 'b'), ('clear',)]
    ops += [('classes',), ('ask', 'precision', 'a'), ('ask', 'recall', 'b'), ('ask', 'fmeasure', 'a'),
            ('ask', 'precision', None), ('macro', 'recall'), ('macro', 'fmeasure'), ('ask', 'recall', 'f'),
            ('ask', 'precision', 'f'), ('ask', 'fmeasure', 'f'), ('other', 'inc'), ('other', 'ask')]
    ops += [('clone', 'deepcopy'), ('clone', 'pickle'), ('clone', 'copy'), ('swap',)]
    ops += [('keep', 'a'), ('keep', 'e'), ('through', 'a', 'b'), ('through', 'e', 'h')]
    return ops


OPERATIONS = operations()
GROWN = (5, 20)


class C15(Matrices):
    RULE = ('every sequence of operations of the bounded length on a matrix and a second one: assignments, increments, reads, '
            'deletions, questions; after every operation cells, classes and (at the end) every statistic are compared with '
            'the model, twice')
    ASSUMPTIONS = ('matrices are changed through their cells and rows and by deleting rows',)
    BOUNDS = {'quick': 'all sequences of 1 to 3 operations out of %d, and of 4 that do not end in a question; of 1 to 3 on a matrix of 5 or 20 rows' % len(OPERATIONS),
              'thorough': 'all sequences of 1 to 5 operations out of %d (the last no question)' % len(OPERATIONS)}

    def jobs(self, tier):
        count = len(OPERATIONS)
        jobs = [((), 1)] + [((i,), 1) for i in range(count)]
        jobs += [((i, j), 1) for i in range(count) for j in range(count)] if tier == 'quick' else []
        jobs += [((-size, i), depth) for size in GROWN for i in range(count) for depth in (0, 1, 2)]
        jobs += [((i, j), 2) for i in range(count) for j in range(count)]
        if tier == 'thorough':
            jobs += [((i, j), 3) for i in range(count) for j in range(count)]
        return jobs

    def explore(self, job, run):
        prefix, depth = job
        for rest in product(range(len(OPERATIONS)), repeat=depth):
            if len(prefix) + depth > 3 and rest and OPERATIONS[rest[-1]][0] in ('classes', 'ask', 'macro', 'other', 'read', 'row', 'clone', 'swap'):
                continue
            run.case(tuple(OPERATIONS[i] if i >= 0 else ('grow', -i) for i in prefix + rest))

    def check(self, case, run):
        self.matrix, self.other = self.segeval.ConfusionMatrix(), self.segeval.ConfusionMatrix()
        cells, others, self.kept = {}, {}, {}
        for index, operation in enumerate(case):
            last = index == len(case) - 1
            problem = self.apply(operation, cells, others, run) or self.state(self.matrix, cells, run) or \
                self.state(self.other, others, run)
            if not problem and last:
                problem = self.final(cells, run) or self.state(self.matrix, cells, run) or self.final(cells, run)
            if problem:
                yield 'after %r: %s' % (case[:index + 1], problem)
                return

    def visible(self, matrix):
        '''Labels and non-zero cells that iterating the matrix shows.'''
        labels, content = set(), {}
        for predicted, row in matrix.items():
            labels.add(predicted)
            for actual, value in row.items():
                labels.add(actual)
                if value:
                    content[predicted, actual] = value
        return labels, content

    def state(self, matrix, cells, run):
        run.calls += 1
        labels, content = self.visible(matrix)
        run.compared((tuple(sorted(content)), len(labels)))
        if content != {key: value for key, value in cells.items() if value}:
            return 'cells are %r, expected %r' % (content, cells)
        if not ref.classes(cells) <= labels:
            return 'labels %r, assigned %r' % (labels, cells)
        return None

    def final(self, cells, run):
        '''Every statistic of the current content.'''
        labels, content = self.visible(self.matrix)
        classes = run.call(self.matrix.classes)
        if isinstance(classes, Raised) or set(classes) != labels:
            return 'classes %r, expected %r' % (classes, labels)
        for query in (('precision', 'a', True, None), ('recall', 'a', True, None), ('fmeasure', 'b', True, None),
                      ('precision', None, True, None), ('recall', None, False, None), ('fmeasure', None, False, 2),
                      ('precision', 'f', True, None)):
            result = self.ask(self.matrix, query, run)
            expected = self.expected(content, labels, query)
            run.compared()
            if not same(result, expected):
                return '%r is %r, expected %s (cells %r, labels %r)' % (query, result, expected, content, labels)
        if self.visible(self.matrix) != (labels, content):
            return 'questions changed the matrix from %r' % ((labels, content),)
        return None

    def apply(self, operation, cells, others, run):
        matrix, kind = self.matrix, operation[0]
        run.calls += 1
        if kind == 'grow':
            for index in range(operation[1]):
                matrix['r%d' % index]['r%d' % (index * 3 % operation[1])] = index + 1
                cells['r%d' % index, 'r%d' % (index * 3 % operation[1])] = index + 1
        elif kind == 'keep':
            self.kept[operation[1]] = matrix[operation[1]]
        elif kind == 'through':
            # Through a row that was looked up before, as long as it was not deleted
            if operation[1] in self.kept:
                row = self.kept[operation[1]]
                row[operation[2]] += 1
                cells[operation[1:]] = cells.get(operation[1:], 0) + 1
        elif kind == 'set':
            _, p, a, value = operation
            matrix[p][a] = value
            cells[p, a] = value
        elif kind == 'inc':
            _, p, a = operation
            matrix[p][a] += 1
            cells[p, a] = cells.get((p, a), 0) + 1
        elif kind == 'read':
            value = run.call(lambda: matrix[operation[1]][operation[2]])
            if isinstance(value, Raised) or value != cells.get(operation[1:], 0):
                return 'cell reads %r' % value
        elif kind == 'row':
            row = run.call(lambda: matrix[operation[1]])
            if isinstance(row, Raised) or {a: v for a, v in row.items() if v} != {
                    a: v for (p, a), v in cells.items() if p == operation[1] and v}:
                return 'row reads %r' % row
        elif kind == 'delete cell':
            key = operation[1:]
            if key in cells:
                del matrix[key[0]][key[1]]
                del cells[key]
        elif kind in ('delete row', 'pop row'):
            if operation[1] in matrix:
                if kind == 'delete row':
                    del matrix[operation[1]]
                else:
                    matrix.pop(operation[1])
            self.kept.pop(operation[1], None)
            self.forget(cells, operation[1])
        elif kind == 'clear row':
            matrix[operation[1]].clear()
            self.forget(cells, operation[1])
        elif kind == 'update row':
            matrix[operation[1]].update({'a': 4, 'g': 1})
            cells[operation[1], 'a'], cells[operation[1], 'g'] = 4, 1
        elif kind == 'clear':
            matrix.clear()
            cells.clear()
            self.kept.clear()
        elif kind == 'clone':
            function = {'deepcopy': copy.deepcopy, 'copy': copy.copy,
                        'pickle': lambda value: pickle.loads(pickle.dumps(value))}[operation[1]]
            result = run.call(function, matrix)
            if isinstance(result, Raised):
                return repr(result)
            if result is matrix or not isinstance(result, self.segeval.ConfusionMatrix) or self.visible(result) != self.visible(matrix):
                return 'the copy is %r' % (result,)
            if operation[1] != 'copy':      # rows of a shallow copy may be shared
                self.other = result
                others.clear()
                others.update(cells)
        elif kind == 'swap':
            self.matrix, self.other = self.other, self.matrix
            kept = dict(cells)
            cells.clear()
            cells.update(others)
            others.clear()
            others.update(kept)
            self.kept.clear()
        elif kind == 'other':
            if operation[1] == 'inc':
                self.other['a']['z'] += 3
                others['a', 'z'] = others.get(('a', 'z'), 0) + 3
            else:
                run.call(self.segeval.fmeasure, self.other, 'q')
                run.call(self.segeval.precision, self.other)
        else:
            labels, content = self.visible(matrix)
            if kind == 'classes':
                found = run.call(matrix.classes)
                if isinstance(found, Raised) or set(found) != labels:
                    return 'classes %r, expected %r' % (found, labels)
                if isinstance(found, set):
                    found.add('mine')
            else:
                query = (operation[1], operation[2] if kind == 'ask' else None, kind == 'ask', None)
                result = self.ask(matrix, query, run)
                expected = self.expected(content, labels, query)
                if not same(result, expected):
                    return '%r is %r, expected %s' % (query, result, expected)
            if self.visible(matrix) != (labels, content):
                return 'the question changed the matrix from %r' % ((labels, content),)
        return None

    @staticmethod
    def forget(cells, row):
        for key in [key for key in cells if key[0] == row]:
            del cells[key]
