'''C23: summaries; C25: weighting functions.'''
from __future__ import division
from decimal import Decimal
from fractions import Fraction as F
from itertools import product, permutations
from mc.core import Check, Raised, fraction, same

VALUES = (0, 1, -3, 7, 10 ** 12, Decimal(0), Decimal('0.5'), Decimal(1) / 3, Decimal('0.1'), Decimal('1E-10'), Decimal('1E6'),
          Decimal(2) / 7)
COUNTS = (1, 2, 3, 4, 5, 7, 10, 16, 17, 31, 64, 99, 100, 101, 250)
HUNDREDS = (255, 256, 257, 999, 1000, 1001, 1025, 1400, 5000)


class C23(Check):
    RULE = ('every sequence (so every order) of values of the alphabet up to a length, and every mixture of up to three values '
            'with many repetitions, against exact fractions')
    ASSUMPTIONS = ('values are integers or decimals whose sums fit the default decimal precision up to rounding',)
    BOUNDS = {'quick': 'all sequences of 1 to 4 of %d values; one value up to %d times, two values %d x %d times, three in order 3 x 3 x 3 '
                       'times' % (len(VALUES), max(HUNDREDS), 7, 7),
              'thorough': 'all sequences of 1 to 5 of %d values; one value and two values with each of %d counts, three values with 5 '
                          'counts each' % (len(VALUES), len(COUNTS))}

    def setup(self):
        import segeval
        self.summarize = segeval.summarize

    def jobs(self, tier):
        size = 4 if tier == 'quick' else 5
        jobs = [('short', ())] + [('all', (i, j), size) for i in range(len(VALUES)) for j in range(len(VALUES))]
        jobs += [('many', i, (1, 2, 5, 10, 17, 31, 100) if tier == 'quick' else COUNTS) for i in range(len(VALUES))]
        jobs += [('triples', i, (1, 4, 32) if tier == 'quick' else (1, 3, 8, 30, 101)) for i in range(len(VALUES))]
        return jobs

    def explore(self, job, run):
        if job[0] == 'short':
            for value in range(len(VALUES)):
                run.case((((value, 1),),))
        elif job[0] == 'all':
            for more in range(0, job[2] - 1):
                for rest in product(range(len(VALUES)), repeat=more):
                    run.case((tuple((value, 1) for value in job[1] + rest),))
        elif job[0] == 'many':
            for count in COUNTS + HUNDREDS:
                run.case((((job[1], count),),))
            for count in HUNDREDS:
                run.case((((job[1], count), ((job[1] + 1) % len(VALUES), 1)),))
                run.case((((job[1], 2), ((job[1] + 5) % len(VALUES), count)),))
                run.case((((job[1], count), ((job[1] + 3) % len(VALUES), count)),))
            for other in range(len(VALUES)):
                for count, more in product(job[2], repeat=2):
                    run.case((((job[1], count), (other, more)),))
        else:
            for other, third in product(range(len(VALUES)), repeat=2):
                if len(job[2]) == 3 and not job[1] < other < third:
                    continue        # quick: three different values in one order
                for counts in product(job[2], repeat=3):
                    run.case((((job[1], counts[0]), (other, counts[1]), (third, counts[2])),))

    def check(self, case, run):
        values = [VALUES[index] for index, count in case[0] for _ in range(count)]
        exact = [(F(VALUES[index]), count) for index, count in case[0]]
        count = len(values)
        mean = sum(value * times for value, times in exact) / count
        variance = sum(value * value * times for value, times in exact) / count - mean * mean
        size = max(abs(value) for value, _ in exact)
        result = run.call(self.summarize, {'k%d' % i: value for i, value in enumerate(values)})
        run.compared((count, mean, variance))
        if isinstance(result, Raised) or len(result) != 5:
            yield '%r' % (result,)
            return
        found = [fraction(value) for value in result]
        if None in found:
            yield 'not numbers: %r' % (result,)
            return
        square = size * size * F(1, 10 ** 24)
        if abs(found[0] - mean) > size * F(1, 10 ** 24):
            yield 'mean %r, expected %s' % (result[0], float(mean))
        elif found[2] < 0 or abs(found[2] - variance) > square:
            yield 'variance %r, expected %s' % (result[2], float(variance))
        elif found[1] < 0 or abs(found[1] ** 2 - variance) > square:
            yield 'standard deviation %r of variance %s' % (result[1], float(variance))
        elif found[3] < 0 or abs(found[3] ** 2 * count - variance) > square:
            yield 'standard error %r of %d values with variance %s' % (result[3], count, float(variance))
        elif result[4] != count:
            yield 'count %r, expected %d' % (result[4], count)


TYPES = (1, 2, 3, 5, 9)
RANGES = tuple((high, low) for high in (1, 2, 3, 5, 9, 20) for low in (0, 1, 2) if low <= high)
SPANS = ((0, 1), (0, 2), (3, 4), (2, 5), (0, 6))
LIMITS = (1, 2, 3, 4, 7, 12)


class C25(Check):
    RULE = ('every sequence of edits of the alphabet up to a length, in both directions and several containers, with every limit, '
            'against the sums of distances')
    ASSUMPTIONS = ('types are integers, limits are positive',)
    BOUNDS = {'quick': 'all sequences of up to 3 substitutions of %d types with %d type ranges, of up to 3 transpositions out of %d '
                       'with %d limits, of up to 4 additions; up to 200 equal edits; one or two of %d edits over distances up to 10^20'
                       % (len(TYPES), len(RANGES), 4 * len(SPANS), len(LIMITS), 20),
              'thorough': 'all sequences of up to 4 edits'}

    def setup(self):
        import segeval
        self.segeval = segeval

    SUBSTITUTIONS = tuple((a, b) for a in TYPES for b in TYPES if a != b)
    TRANSPOSITIONS = tuple(edit for i, j in SPANS for t in (1, 7) for edit in ((i, j, t), (j, i, t)))
    # Types and positions beyond any machine word, with limits of their size
    HUGE = tuple((low, low + span) for low in (0, 5) for span in (
        255, 256, 10 ** 4, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 63, 10 ** 20 + 1))
    ADDITIONS = ((1, 'a'), (1, 'b'), (4, 'a'))

    def jobs(self, tier):
        size = 3 if tier == 'quick' else 4
        jobs = []
        for kind in ('s', 't', 'a'):
            jobs += [(kind, (), 0), (kind, (), 'many')] + [(kind, (), 'huge')] * (kind != 'a')
            for index in range(len(self.alphabet(kind))):
                jobs += [(kind, (index,), more) for more in range(size if kind != 'a' else size + 1)]
        return jobs

    def alphabet(self, kind):
        return {'s': self.SUBSTITUTIONS, 't': self.TRANSPOSITIONS, 'a': self.ADDITIONS}[kind]

    def explore(self, job, run):
        kind, prefix, more = job
        if more == 'huge':
            for first in range(len(self.HUGE)):
                run.case((kind, 'huge', (first,)))
                for second in range(len(self.HUGE)):
                    run.case((kind, 'huge', (first, second)))
            return
        if more == 'many':
            for edit in range(len(self.alphabet(kind))):
                for count in (1, 5, 10, 27, 28, 29, 100, 200):
                    run.case((kind, (edit,) * count))
            return
        for rest in product(range(len(self.alphabet(kind))), repeat=more):
            run.case((kind, prefix + rest))

    def check(self, case, run):
        kind, chosen = case[0], case[-1]
        segeval = self.segeval
        if len(case) == 3:
            edits = [self.HUGE[index][::1 if place else -1] + (1,) * (kind == 't') for place, index in enumerate(chosen)]
            ranges = [(max(edit[:2]), low) for edit in edits for low in (0, 1)]
            limits = [1, 2] + [max(edit[:2]) for edit in edits]
        else:
            edits, ranges, limits = [self.alphabet(kind)[index] for index in chosen], RANGES, LIMITS
        given = [('list', edits), ('tuple', tuple(edits)), ('reversed', edits[::-1])] if len(edits) < 3 else [('list', edits)]
        for label, value in given:
            results = []
            if kind == 'a':
                results.append(('weight_a', run.call(segeval.weight_a, value), len(edits)))
            elif kind == 's':
                distance = sum(abs(a - b) for a, b in edits)
                for high, low in ranges:
                    results.append(('weight_s to %d' % high, run.call(segeval.weight_s, value, high, low), len(edits)))
                    results.append(('weight_s_scale %d-%d' % (low, high), run.call(segeval.weight_s_scale, value, high, low),
                                    F(distance, high - low + 1)))
                    if low == 1:
                        results.append(('weight_s_scale to %d' % high, run.call(segeval.weight_s_scale, value, high),
                                        F(distance, high)))
                        results.append(('weight_s to %d' % high, run.call(segeval.weight_s, value, high), len(edits)))
            else:
                distance = sum(abs(edit[0] - edit[1]) for edit in edits)
                for limit in limits:
                    results.append(('weight_t to %d' % limit, run.call(segeval.weight_t, value, limit), len(edits)))
                    results.append(('weight_t_scale to %d' % limit, run.call(segeval.weight_t_scale, value, limit),
                                    F(distance, limit)))
            for name, result, expected in results:
                run.compared((name, expected))
                if isinstance(result, Raised) or not same(result, expected):
                    yield '%s of %r (%s): %r, expected %s' % (name, edits, label, result, expected)
                    return
