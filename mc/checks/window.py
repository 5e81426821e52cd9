'''C08-C10: Pk, WindowDiff and the window size.'''
from __future__ import division
import math
from collections import OrderedDict
from itertools import product
from fractions import Fraction as F
from mc import ref, spaces
from mc.core import Check, Raised, fraction, same

# Rounding functions: (name, function) usable on fractions and decimals alike
ROUNDING = [('default', None), ('round', round), ('floor', math.floor), ('ceil', math.ceil), ('int', int),
            ('three', lambda value: 3), ('minus', lambda value: -1), ('next', lambda value: int(value) + 1),
            ('twice', lambda value: value + value)]
ROUNDING_BY_NAME = dict(ROUNDING)


def fresh_text(index):
    return ''.join(['segment ', str(index)])


# Labels of the i-th segment; every call makes a new object where that is possible
LABELS = OrderedDict([
    ('from 1', lambda i: i + 1),
    ('from 0', lambda i: i),
    ('text', fresh_text),
    ('negative', lambda i: -1 - i),
    ('large', lambda i: 10 ** 20 + i),
    ('tuple', lambda i: ('s', str(i))),
    ('sets', lambda i: frozenset([i])),
    ('none', lambda i: None if i == 0 else fresh_text(i)),
    ('mixed', lambda i: (i, fresh_text(i), (i,), float(i) + 0.5)[i % 4]),
    ('falsy', lambda i: (0, '', (), None)[i] if i < 4 else i),
    ('complex', lambda i: complex(i, 1)),
    ('above 256', lambda i: 257 + i),
    ('case', lambda i: fresh_text(i // 2) + 'xX'[i % 2]),
    ('spaces', lambda i: ' ' * i + 'x'),
    ('printed alike', lambda i: str(i // 2) if i % 2 else i // 2),
    ('signs', lambda i: (i // 2 + 1) * (-1) ** i),
])


# Labels that recur for later segments (neighbouring segments still differ): no business of Pk
RECURRING = OrderedDict([
    ('alternating', lambda i: i % 2),
    ('three texts', lambda i: fresh_text(i % 3)),
    ('back to first', lambda i: 0 if i % 3 == 0 else i),
])


def labelled(bits, name):
    label = LABELS.get(name) or RECURRING[name]
    index, result = 0, []
    for bit in (0,) + tuple(bits):
        index += bit
        result.append(label(index))
    return tuple(result)


def encode(bits, encoding):
    '''('mass'|'masslist', or (container, labels)) -> (segmentation, format name).'''
    if encoding == 'mass':
        return ref.masses(bits), 'mass'
    if encoding == 'masslist':
        return list(ref.masses(bits)), 'mass'
    if encoding == 'nltk':
        return ref.nltk(bits), 'nltk'
    container, name = encoding
    result = labelled(bits, name)
    return (list(result) if container == 'list' else result), 'position'


def pattern_bits(length, pattern):
    period, offset = pattern
    return tuple(1 if i % period == offset else 0 for i in range(length))


PATTERNS = [(1, 0), (2, 1), (5, 2), (7, 3), (37, 5), (600, 599), (257, 0)]
VERY_LONG = [(1, 0), (2, 1), (37, 5)]


class Window(Check):
    ASSUMPTIONS = ('window sizes are positive integers; labels of different segments differ',)
    BOUNDS = {
        'quick': 'all pairs of segmentations of 1 to 7 units (as masses) and 2 to 5 units (as positions under 16 label '
                 'schemes, hypothesis and reference labelled independently) with every window size from 1 to 3 more '
                 'than the length, and the size computed with 9 rounding functions; 49 pairs of periodic '
                 'segmentations of 61 and 520 units with windows up to and beyond 256, 9 of 3000 units',
        'thorough': 'all pairs of segmentations of 1 to 9 units (as masses) and 2 to 6 units (positions), same windows and '
                    'rounding functions; periodic segmentations of 61, 520, 1200 and 3000 units'}

    def setup(self):
        import segeval
        self.segeval = segeval

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = []
        for length in range(0, 7 if quick else 9):
            jobs += self.split('mass', 'mass', length)
        names = list(LABELS)
        for length in range(1, 5 if quick else 6):
            for index, name in enumerate(names):
                other = names[(index + length) % len(names)]
                jobs += self.split(('tuple', name), ('list', other), length)
        for length in (60, 519) if quick else (60, 519, 1199):
            jobs += [('long', length, first) for first in PATTERNS]
        jobs += [('long', 2999, first) for first in VERY_LONG]
        return jobs

    @staticmethod
    def split(first, second, length):
        if length < 5:
            return [('pairs', first, second, length, None)]
        return [('pairs', first, second, length, prefix) for prefix in ref.all_bits(length - 4 if length < 8 else 5)]

    def explore(self, job, run):
        if job[0] == 'long':
            _, length, first = job
            for second in PATTERNS if length < 2000 else VERY_LONG:
                run.case(('long', length, first, second))
            return
        _, first, second, length, prefix = job
        prefix = prefix or ()
        for rest in ref.all_bits(length - len(prefix)):
            for other in ref.all_bits(length):
                run.case((first, second, prefix + rest, other))

    def operands(self, case):
        '''hypothesis, reference, format, bits of both, windows, rounding functions'''
        if case[0] == 'long':
            _, length, first, second = case
            hyp, reference = pattern_bits(length, first), pattern_bits(length, second)
            sizes = (2, 7, 256, 257, length - 1, length) if length < 2000 else (2, 257)
            return ref.masses(hyp), ref.masses(reference), 'mass', hyp, reference, sizes, ('default', 'ceil')
        first, second, hyp, reference = case
        h, fmt = encode(hyp, first)
        r, _ = encode(reference, second)
        names = [name for name, _ in ROUNDING]
        if len(hyp) > 5:
            names = names[:4]
        return h, r, fmt, hyp, reference, range(1, len(hyp) + 4), names

    def runs(self, case):
        '''(call options, window size) for every window of the case'''
        h, r, fmt, hyp, reference, sizes, names = self.operands(case)
        options = {} if fmt == 'mass' else {'boundary_format': fmt}
        todo = [(dict(options, window_size=k), k) for k in sizes]
        for name in names:
            fnc = ROUNDING_BY_NAME[name]
            k = ref.window_size(ref.masses(reference), fnc)
            todo.append((dict(options, fnc_round=fnc) if fnc else dict(options), k))
            if name == 'default':
                todo.append((dict(options, window_size=None), k))
        return h, r, hyp, reference, todo

    def fractional(self, metric, h, r, options, expected, run, every):
        '''Problems of the value, parts and complement of a metric.'''
        value = ref.quotient(expected)
        run.compared(expected)
        parts = run.call(metric, h, r, return_parts=True, **options)
        if not isinstance(parts, tuple) or tuple(parts) != expected:
            if not (isinstance(parts, tuple) and len(parts) == 2 and expected[1] <= 0 and parts[0] == 0
                    and parts[1] <= 0):
                yield 'parts %r, expected %r' % (parts, expected)
        if not every:
            return
        plain = run.call(metric, h, r, **options)
        if not same(plain, value):
            yield '%r, expected %s' % (plain, value)
        elif not 0 <= fraction(plain) <= 1:
            yield '%r is outside [0, 1]' % plain
        complement = run.call(metric, h, r, one_minus=True, **options)
        if not same(complement, 1 - value):
            yield '%r with one_minus, expected %s' % (complement, 1 - value)
        both = run.call(metric, h, r, one_minus=True, return_parts=True, **options)
        if both != parts:
            yield 'parts %r with one_minus, %r without' % (both, parts)


class C08(Window):
    RULE = ('every pair of segmentations in the bounds x window sizes x rounding functions x return_parts x one_minus, '
            'against the definition over units one window apart; exchanged when the window is given')

    def check(self, case, run):
        h, r, hyp, reference, todo = self.runs(case)
        pk = self.segeval.pk
        for options, k in todo:
            expected = ref.pk_parts(hyp, reference, k)
            for problem in self.fractional(pk, h, r, options, expected, run, True):
                yield 'Pk %r (window %d): %s' % (options, k, problem)
            if options.get('window_size'):
                other = run.call(pk, r, h, return_parts=True, **options)
                if other != expected:
                    yield 'Pk %r exchanged: %r, expected %r' % (options, other, expected)
            if hyp == reference and expected[0]:
                raise AssertionError('model')


class C09(Window):
    RULE = ('every pair of segmentations in the bounds x window sizes x rounding functions x Lamprier fix x return_parts '
            'x one_minus, against the definition over windows; never below Pk (unless labels recur)')
    BOUNDS = dict((tier, text + '; also labels that recur for later segments (3 schemes)')
                  for tier, text in Window.BOUNDS.items())

    def jobs(self, tier):
        jobs = Window.jobs(self, tier)
        names = list(RECURRING)
        for length in range(2, 5 if tier == 'quick' else 6):
            for index, name in enumerate(names):
                jobs += self.split(('tuple', name), ('list', names[(index + length) % len(names)]), length)
        for name in names:
            jobs += self.split(('list', name), ('tuple', 'text'), 4)
        return jobs

    def check(self, case, run):
        h, r, hyp, reference, todo = self.runs(case)
        metric, pk = self.segeval.window_diff, self.segeval.pk
        for options, k in todo:
            expected = ref.wd_parts(hyp, reference, k)
            for problem in self.fractional(metric, h, r, options, expected, run, True):
                yield 'WindowDiff %r (window %d): %s' % (options, k, problem)
            if any(isinstance(encoding, tuple) and encoding[1] in RECURRING for encoding in case[:2]):
                below = 0
            else:
                below = run.call(pk, h, r, **options)
            value = fraction(below)
            if value is None or value > ref.quotient(expected) + F(1, 10 ** 20):
                yield 'Pk %r: %r above WindowDiff %r' % (options, below, expected)
            fixed = ref.wd_fix_parts(hyp, reference, k)
            for problem in self.fractional(metric, h, r, dict(options, lamprier_et_al_2007_fix=True), fixed, run,
                                           len(hyp) < 6 or not options.get('window_size')):
                yield 'WindowDiff with fix %r (window %d): %s' % (options, k, problem)


SEGMENTATIONS = [(), (0,), (1,), (0, 0, 0), (1, 0, 0), (1, 1, 1, 1), (0, 0, 1, 0, 0, 0, 0, 1), (0,) * 12,
                 (1,) + (0,) * 19]


def collection(shape, segmentations, fmt, segeval):
    '''A collection that holds the given segmentations.'''
    encoded = []
    for index, bits in enumerate(segmentations):
        if fmt == 'mass':
            entry = ref.masses(bits)
        else:
            entry = labelled(bits, list(LABELS)[index % len(LABELS)])
        encoded.append(list(entry) if index % 2 else entry)
    if shape == 'twins':
        return dict([('c%d' % i, s) for i, s in enumerate(encoded)] + [('twin', encoded[0])])
    if shape == 'flat':
        return dict(('c%d' % i, s) for i, s in enumerate(encoded))
    items = OrderedDict()
    for index, entry in enumerate(encoded):
        items.setdefault('i%d' % (index // 2), {})['c%d' % (index % 2)] = entry
    if shape == 'items':
        return dict(items)
    if shape == 'ordered':
        return items
    if shape == 'deep':
        return {'group': {'first': dict(items)}, 'other': {'c': encoded[0]}}
    if shape == 'uneven':
        return {'group': dict(items), 'alone': encoded[-1]}
    dataset = segeval.Dataset(boundary_format=fmt)
    if shape == 'dataset':
        return segeval.Dataset(dict(items), boundary_format=fmt)
    for item in items:
        dataset[item] = items[item]
    return dataset


SHAPES = ('flat', 'twins', 'items', 'ordered', 'deep', 'uneven', 'dataset', 'filled')


class C10(Window):
    RULE = ('every segmentation and every (nested) collection in the bounds x rounding function x format, against half the '
            'mean segment length; Pk and WindowDiff without a window must equal those with the size of the reference')
    BOUNDS = {
        'quick': 'all segmentations of 1 to 10 units as masses and positions; all collections of 1 to 3 of 9 segmentations '
                 '(1 to 21 units) in 8 nested shapes, as masses and positions; 9 rounding functions; segmentations with 1 '
                 'to 3000 equal segments, of up to 10^20 units; up to 1001 segments of three sizes, alone and in the 8 shapes',
        'thorough': 'all segmentations of 1 to 13 units; all collections of 1 to 4 of 9 segmentations; otherwise as quick'}

    def jobs(self, tier):
        quick = tier == 'quick'
        jobs = []
        for length in range(0, 10 if quick else 13):
            if length < 6:
                jobs.append(('seg', length, None))
            else:
                jobs += [('seg', length, prefix) for prefix in ref.all_bits(length - 6)]
        for size in range(1, 4 if quick else 5):
            jobs += [('nested', shape, size, first) for shape in SHAPES for first in range(len(SEGMENTATIONS))]
        jobs += [('uneven', parts) for parts in (2, 3, 10, 63, 64, 65, 100, 128, 300, 1000)]
        jobs += [('regular', mass) for mass in (1, 2, 3, 4, 5, 7, 255, 256, 257, 1001, 65537, 10 ** 9 + 1, 2 ** 54 + 4, 2 ** 60 + 2, 2 ** 64, 10 ** 20 + 2)]
        return jobs

    def explore(self, job, run):
        if job[0] == 'seg':
            prefix = job[2] or ()
            for rest in ref.all_bits(job[1] - len(prefix)):
                run.case(('seg', prefix + rest), len(ROUNDING))
        elif job[0] == 'nested':
            _, shape, size, first = job
            for others in product(range(len(SEGMENTATIONS)), repeat=size - 1):
                run.case(('nested', shape, (first,) + others), len(ROUNDING))
        elif job[0] == 'uneven':
            for last in (1, 9, 40, 500):
                for shape in (None,) + SHAPES:
                    run.case(('uneven', job[1], last, shape), len(ROUNDING))
        else:
            for count in (1, 2, 3, 255, 256, 257, 600, 3000) if job[1] < 2 ** 50 else (1, 2, 3, 4, 6, 256):
                for extra in (0, 1, 2, 2 ** 60 + 4):
                    run.case(('regular', job[1], count, extra), len(ROUNDING))

    def check(self, case, run):
        segeval = self.segeval
        forms = []
        if case[0] == 'nested' or case[0] == 'uneven' and case[3]:
            if case[0] == 'nested':
                shape, chosen = case[1], [SEGMENTATIONS[i] for i in case[2]]
            else:
                many = (1, 2) * (case[1] // 2) + (case[2],) * (case[1] // 2 + 1)
                shape, chosen = case[3], [ref.bits_of_masses(many), (0, 1, 0), ref.bits_of_masses(many[::-1] + (7,))]
            used = list(chosen)
            if shape in ('deep', 'twins'):
                used.append(chosen[0])
            if shape == 'uneven':
                used.append(chosen[-1])
            all_masses = [mass for bits in used for mass in ref.masses(bits)]
            for fmt in ('mass', 'position'):
                forms.append((collection(shape, chosen, fmt, segeval),
                              {} if fmt == 'mass' or shape in ('dataset', 'filled') else {'boundary_format': fmt}))
        else:
            if case[0] == 'seg':
                bits = case[1]
                all_masses = ref.masses(bits)
            elif case[0] == 'uneven':
                all_masses = (1, 2) * (case[1] // 2) + (case[2],) * (case[1] // 2 + 1)
                bits = ref.bits_of_masses(all_masses)
            else:
                all_masses = (case[1],) * case[2] + ((case[3],) if case[3] else ())
                bits = ref.bits_of_masses(all_masses) if sum(all_masses) < 10 ** 4 else ()
            forms = [(tuple(all_masses), {}), (list(all_masses), {'boundary_format': 'mass'})]
            if 0 < len(bits) < 2000 or sum(all_masses) == 1:
                names = (list(LABELS) if len(bits) < 7 else ['from 1', 'text']) + list(RECURRING)
                forms += [(labelled(bits, name), {'boundary_format': 'position'}) for name in names]
                forms.append((list(labelled(bits, 'from 0')), {'boundary_format': 'position'}))
        for name, fnc in ROUNDING:
            expected = ref.window_size(all_masses, fnc)
            for form, options in forms:
                if fnc:
                    options = dict(options, fnc_round=fnc)
                size = run.call(segeval.compute_window_size, form, **options)
                run.compared(expected)
                if isinstance(size, Raised) or isinstance(size, bool) or size != expected:
                    yield 'window size %r of %s with %s rounding, expected %d' % (size, repr(form)[:300], name, expected)
                    return
        if case[0] == 'seg' and 1 <= len(case[1]) <= 8:
            length = len(case[1])
            for hyp in ((0,) * length, (1,) * length, tuple(reversed(case[1]))):
                for name, fnc in ROUNDING[:6]:
                    k = ref.window_size(ref.masses(case[1]), fnc)
                    options = {'fnc_round': fnc} if fnc else {}
                    for metric in (segeval.pk, segeval.window_diff):
                        for h, r, form in ((ref.masses(hyp), ref.masses(case[1]), 'mass'),
                                           (labelled(hyp, 'from 0'), labelled(case[1], 'text'), 'position')):
                            used = run.call(metric, h, r, boundary_format=form, return_parts=True, **options)
                            given = run.call(metric, h, r, boundary_format=form, return_parts=True, window_size=k)
                            named = run.call(metric, hypothesis=h, reference=r, boundary_format=form,
                                             return_parts=True, **options)
                            run.compared(repr(used))
                            if isinstance(used, Raised) or used != given or used != named:
                                yield ('%s of %r and reference %r: %r, with window %d %r, by name %r'
                                       % (metric.__name__, h, r, used, k, given, named))
