'''C20: histories of calls on shared, changing inputs; re-entrant callbacks.'''
from __future__ import division
import copy
import csv
import decimal
import math
import os
import random
import sys
from decimal import Decimal
from itertools import product
from mc import core
from mc.core import Check, Raised
from mc.checks.formats import failed, normal


def universe(segeval):
    '''Fresh inputs, all of them mutable where the package allows it.'''
    matrix = segeval.ConfusionMatrix()
    for predicted, actual, count in ((1, 1, 3), (1, 2, 1), (2, 2, 2), (None, 1, 1), (2, None, Decimal('0.5'))):
        matrix[predicted][actual] = count
    other = segeval.ConfusionMatrix()
    other['p']['p'] = 2
    other['p']['n'] = 1
    other['n']['n'] = 4
    return {
        'h': [2, 3, 4], 'r': [2, 2, 5],
        'hs': [{1}, {2}, set(), {1, 2}, set(), {3}, {1}, set()],
        'rs': [set(), {1, 2}, {2}, {1}, {1}, {2}, {1}, set()],
        'hp': ['a', 'a', 'b', 'b', 'b', 'a', 'a', 'a', 'a'], 'rp': [1, 1, 2, 2, 3, 3, 3, 3, 3],
        'hn': '01001000', 'rn': '01010000',
        # Hashable ones
        'ht': (2, 3, 4), 'rt': (2, 2, 5), 'hpt': (1, 1, 2, 2, 2, 1, 1, 1, 1), 'rpt': (1, 1, 2, 2, 3, 3, 3, 3, 3),
        'hf': tuple(frozenset(p) for p in ((1,), (2,), (), (1, 2), (), (3,), (1,), ())),
        'rf': tuple(frozenset(p) for p in ((), (1, 2), (2,), (1,), (1,), (2,), (1,), ())),
        'F': segeval.Dataset({'i': {'a': (2, 3, 4), 'b': (2, 2, 5)}, 'j': {'a': (1, 1), 'b': (2,)}}),
        'T': {1, 2, 3}, 'W': [segeval.weight_a, segeval.weight_s, segeval.weight_t_scale],
        'D': segeval.Dataset({'i': {'a': [2, 3, 4], 'b': [2, 2, 5], 'c': [9]}, 'j': {'a': [1, 1], 'b': [2], 'c': [2]}},
                             properties={'p': [1]}),
        'E': segeval.Dataset({'j': {'x': [1, 1], 'a': [2]}, 'k': {'x': [4]}, 'i': {'z': [4, 5]}}),
        'P': {'i': {'a': [2, 3], 'b': [1, 4]}, 'j': {'a': [3, 3], 'b': [1, 2, 3]}},
        'S': segeval.Dataset({'i': {'a': [{4}, {2}, set()], 'b': [{4}, set(), {2}]}, 'j': {'a': [{3}], 'b': [{4}]}},
                             boundary_types=[2, 3, 4], boundary_format='sets'),
        'Q': segeval.Dataset({'i': {'a': [1, 1, 2, 2, 2], 'b': [1, 1, 1, 2, 3]}}, boundary_format='position'),
        'M': matrix, 'C': {'one': matrix, 'two': other},
        'V': {'a': Decimal('0.5'), 'b': 2, 'c': Decimal('0.25')},
        'N': {'x': {'a': [2, 3], 'b': [5]}, 'y': {'a': [1, 1, 8]}},
        'adds': [(2, 'b'), (1, 'a')], 'subs': [(2, 3), (1, 3)], 'trans': [[3, 5, 2], [0, 1, 1]],
        'L': [5, 8] * 60,
    }


def large(segeval):
    '''Fresh large inputs.'''
    wide = segeval.ConfusionMatrix()
    for index in range(15):
        wide[index][index * 7 % 15] += 1 + index % 3
        wide[index][index] += 2
    return {
        'A': [1 + i % 4 for i in range(24)], 'B': [3 - i % 3 for i in range(30)], 'K': wide,
        'G': segeval.Dataset({'i': {'a': [1 + i % 4 for i in range(24)], 'b': [3 - i % 3 for i in range(30)], 'c': [29, 30, 1]}}),
        'U': dict(('v%d' % i, Decimal(i * i % 97) / 7) for i in range(450)),
    }


def changes(segeval):
    '''(object, change) pairs; each keeps the inputs comparable.'''
    def edit(name):
        def register(function):
            result.append((name, function))
            return function
        return register
    result = []

    def at(name, *functions):
        result.extend((name, function) for function in functions)

    def assign(target, key, value):
        target[key] = value

    def split(masses):
        masses[0] += 1
        masses[1] -= 1

    def matrix():
        made = segeval.ConfusionMatrix()
        made['q']['w'] = 1
        made['w']['w'] = 1
        return made

    at('h', split, lambda x: x.reverse(), lambda x: assign(x, slice(None), [9]))
    at('r', split, lambda x: assign(x, slice(None), [1, 1, 7]))
    at('hs', lambda x: x[0].add(2), lambda x: x[3].clear(), lambda x: x.reverse(), lambda x: assign(x, 2, {1}))
    at('rs', lambda x: x[1].discard(1), lambda x: x[4].update([1, 2, 4]), lambda x: assign(x, 0, {1}))
    at('hp', lambda x: assign(x, 4, 'a'), lambda x: x.reverse())
    at('rp', lambda x: assign(x, 3, 1))
    at('T', lambda x: x.add(9), lambda x: x.discard(3))
    at('W', lambda x: assign(x, 2, segeval.weight_t), lambda x: assign(x, 1, segeval.weight_s_scale))
    at('D', lambda x: split(x['i']['a']), lambda x: assign(x['j'], 'b', [1, 1]), lambda x: x.pop('j'),
       lambda x: assign(x, 'k', {'a': [3, 1], 'b': [4], 'c': [2, 2]}),
       lambda x: [x['i'].pop('c'), x['j'].pop('c')], lambda x: assign(x['i'], 'b', x['i']['a']))
    at('E', lambda x: assign(x['j']['x'], slice(None), [2]), lambda x: x.pop('k'), lambda x: assign(x['i'], 'y', [9]))
    at('P', lambda x: split(x['i']['b']), lambda x: x.pop('i'), lambda x: assign(x, 'k', {'a': [3, 1], 'b': [4]}))
    at('S', lambda x: x['i']['a'][2].add(1), lambda x: x['j']['b'][0].add(3), lambda x: x.pop('j'))
    at('Q', lambda x: assign(x['i']['a'], 2, 1), lambda x: assign(x, 'i', {'a': [1, 2, 3, 4, 4], 'b': [1, 1, 1, 1, 2]}))
    at('M', lambda x: assign(x[1], 2, 5), lambda x: assign(x['z'], 1, 2), lambda x: x.pop(2), lambda x: x[1].pop(1))
    at('C', lambda x: assign(x['two']['p'], 'p', 9), lambda x: x.pop('one'), lambda x: assign(x, 'three', matrix()),
       lambda x: assign(x['one'][2], 1, 7))
    at('F', lambda x: assign(x['i'], 'a', (5, 4)), lambda x: x.pop('j'))
    at('V', lambda x: assign(x, 'a', 9), lambda x: x.pop('b'), lambda x: assign(x, 'd', Decimal('0.125')))
    at('N', lambda x: split(x['y']['a']), lambda x: x['x'].pop('b'), lambda x: assign(x, 'z', {'q': [40]}))
    at('adds', lambda x: x.append((3, 'a')))
    at('subs', lambda x: x.append((1, 1)), lambda x: assign(x, 0, (1, 2)))
    at('trans', lambda x: assign(x[0], 1, 7), lambda x: x.pop(0))
    at('L', lambda x: assign(x, 7, 600))
    return result


# Which change belongs to which object, without the package (its order is that of changes())
CHANGED = (['h'] * 3 + ['r'] * 2 + ['hs'] * 4 + ['rs'] * 3 + ['hp'] * 2 + ['rp'] + ['T'] * 2 + ['W'] * 2 + ['D'] * 6 +
           ['E'] * 3 + ['P'] * 3 + ['S'] * 3 + ['Q'] * 2 + ['M'] * 4 + ['C'] * 4 + ['F'] * 2 + ['V'] * 3 + ['N'] * 3 + ['adds'] +
           ['subs'] * 2 + ['trans'] * 2 + ['L'])


def catalogue():
    calls = []

    def add(function, *args, **options):
        calls.append((function, args, options))

    for args in (('$hs', '$rs'), ('$rs', '$hs'), ('$hs', '$hs')):
        add('boundary_edit_distance', *args)
    for n_t in (1, 3, 5):
        add('boundary_edit_distance', '$hs', '$rs', n_t=n_t)
    unscaled = ('#weight_a', '#weight_s', '#weight_t')
    for n_t in (1, 2, 4):
        add('boundary_edit_distance', '$hf', '$rf', n_t=n_t)
        add('boundary_similarity', '$hf', '$rf', boundary_format='sets', n_t=n_t)
        add('boundary_similarity', '$ht', '$rt', n_t=n_t)
    add('boundary_similarity', '$ht', '$rt', weight=unscaled)
    add('boundary_similarity', '$ht', '$rt', boundary_format='position')
    add('boundary_similarity', '$rt', '$ht', return_parts=True)
    add('boundary_confusion_matrix', '$hf', '$rf', boundary_format='sets', n_t=1)
    add('boundary_confusion_matrix', '$rf', '$hf', boundary_format='sets')
    add('segmentation_similarity', '$hpt', '$rpt', boundary_format='position')
    add('fleiss_kappa_linear', '$F')
    add('fleiss_kappa_linear', '$F', n_t=1)
    add('fleiss_pi_linear', '$F', weight=unscaled)
    for metric in ('boundary_similarity', 'segmentation_similarity'):
        add(metric, '$h', '$r')
        add(metric, '$r', '$h')
        add(metric, '$h', '$r', one_minus=True)
        add(metric, '$h', '$r', return_parts=True)
        add(metric, '$h', '$r', n_t=5)
        add(metric, '$h', '$r', boundary_format='position')
        add(metric, '$hp', '$rp', boundary_format='position')
        add(metric, '$hn', '$rn', boundary_format='nltk')
        add(metric, '$hs', '$rs', boundary_format='sets')
        add(metric, '$hs', '$rs', boundary_format='sets', weight=unscaled)
        add(metric, '$hs', '$rs', boundary_format='sets', weight='$W')
        add(metric, '$hs', '$rs', boundary_format='sets', boundary_types='$T', n_t=3)
        add(metric, '$D')
        add(metric, '$D', permuted=True, n_t=3)
        add(metric, '$D', '$E')
        add(metric, '$S')
    add('boundary_similarity', 9, '$r')
    add('boundary_similarity', hypothesis='$h', reference='$r')
    add('boundary_similarity', dataset='$D')
    add('boundary_similarity', '$h', '$hn')
    for metric in ('boundary_statistics', 'boundary_confusion_matrix'):
        add(metric, '$h', '$r')
        add(metric, '$hs', '$rs', boundary_format='sets')
        add(metric, '$hs', '$rs', boundary_format='sets', n_t=4)
        add(metric, '$hs', '$rs', boundary_format='sets', weight='$W')
        add(metric, '$D')
        add(metric, '$E', '$D')
    for metric in ('pk', 'window_diff'):
        add(metric, '$h', '$r')
        add(metric, '$r', '$h')
        add(metric, '$h', '$r', window_size=3)
        add(metric, '$h', '$r', one_minus=True)
        add(metric, '$h', '$r', return_parts=True)
        add(metric, '$h', '$r', fnc_round='#ceil')
        add(metric, '$h', '$r', boundary_format='position')
        add(metric, '$hp', '$rp', boundary_format='position')
        add(metric, '$hn', '$rn', boundary_format='nltk')
        add(metric, '$D')
        add(metric, '$D', '$E', window_size=2)
        add(metric, '$Q', permuted=False)
        add(metric, '$hs', '$rs', boundary_format='sets')
        add(metric, '$ht', '$rt')
        add(metric, '$ht', '$rt', window_size=4)
        add(metric, '$hpt', '$rpt', boundary_format='position')
        add(metric, '$F', fnc_round='#ceil')
    add('window_diff', '$ht', '$rt', lamprier_et_al_2007_fix=True)
    add('window_diff', '$h', '$r', lamprier_et_al_2007_fix=True)
    add('window_diff', '$D', lamprier_et_al_2007_fix=True, window_size=3)
    for metric in ('boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk',
                   'window_diff'):
        add(metric, '$A', '$B')
        add(metric, '$G')
    add('boundary_similarity', '$A', '$B', n_t=9)
    add('fleiss_kappa_linear', '$G')
    add('artstein_poesio_bias_linear', '$G')
    add('summarize', '$U')
    add('fmeasure', '$K')
    add('recall', '$K', version='#macro')
    for reference in ('$h', '$G', '$D', '$N', '$Q', '$P'):
        add('compute_window_size', reference)
    add('compute_window_size', '$ht')
    add('compute_window_size', '$L')
    add('convert_masses_to_positions', '$L')
    add('compute_window_size', '$ht', fnc_round='#floor')
    add('compute_window_size', '$hpt', boundary_format='position')
    add('boundary_string_from_masses', '$ht')
    add('convert_masses_to_positions', '$ht')
    add('convert_positions_to_masses', '$ht')
    add('compute_window_size', '$h', boundary_format='position')
    add('compute_window_size', '$h', fnc_round='#ceil')
    add('compute_window_size', '$N', fnc_round='#floor')
    for coefficient in ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear',
                        'artstein_poesio_bias_linear'):
        for data in ('$D', '$P', '$S', '$Q'):
            add(coefficient, data)
        add(coefficient, '$D', n_t=4)
        add(coefficient, '$P', fnc_compare='#segmentation_similarity')
        add(coefficient, '$P', return_parts=True)
    add('boundary_string_from_masses', '$h')
    add('convert_masses_to_positions', '$h')
    add('convert_positions_to_masses', '$hp')
    add('convert_positions_to_masses', '$h')
    add('convert_nltk_to_masses', '$hn')
    add('convert_nltk_to_masses', '$hn', boundary_symbol='0')
    for statistic in ('precision', 'recall', 'fmeasure'):
        add(statistic, '$M')
        add(statistic, '$M', version='#macro')
        add(statistic, '$M', classification=1)
        add(statistic, '$M', classification='z')
        add(statistic, '$C')
        add(statistic, '$C', version='#macro')
    add('fmeasure', '$M', classification=1, beta=2)
    add('fmeasure', '$M', beta=0.5)
    add('precision', '$M', version='other')
    add('classes', '$M')
    add('summarize', '$V')
    add('weight_a', '$adds')
    add('weight_s', '$subs', 3)
    add('weight_s_scale', '$subs', 3)
    add('weight_s_scale', '$subs', 5, 1)
    add('weight_t', '$trans', 3)
    add('weight_t_scale', '$trans', 3)
    add('weight_t_scale', '$trans', 7)
    add('copy', '$D')
    add('plus', '$D', '$E')
    add('plus', '$S', '$Q')
    return calls


CALLS = catalogue()


def lattice():
    '''Calls with every combination of options, and for each the plain calls that follow.'''
    unscaled = ('#weight_a', '#weight_s', '#weight_t')
    menus = {
        'pk': {'window_size': (3,), 'one_minus': (True,), 'return_parts': (True,), 'fnc_round': ('#ceil',),
               'permuted': (False,)},
        'boundary_similarity': {'n_t': (1, 4), 'one_minus': (True,), 'return_parts': (True,), 'weight': (unscaled, '$W'),
                                'permuted': (True,)},
        'boundary_statistics': {'n_t': (1, 4), 'weight': (unscaled,), 'permuted': (True,)},
        'boundary_confusion_matrix': {'n_t': (1, 4), 'weight': (unscaled,), 'permuted': (True,)},
        'fleiss_kappa_linear': {'n_t': (1, 4), 'weight': (unscaled,), 'return_parts': (True,),
                                'fnc_compare': ('#segmentation_similarity',)},
        'compute_window_size': {'fnc_round': ('#ceil', '#floor'), 'boundary_format': ('position',)},
    }
    menus['window_diff'] = dict(menus['pk'], lamprier_et_al_2007_fix=(True,))
    menus['segmentation_similarity'] = menus['boundary_similarity']
    for name in ('fleiss_pi_linear', 'actual_agreement_linear', 'artstein_poesio_bias_linear'):
        menus[name] = menus['fleiss_kappa_linear']
    made = []
    for function, menu in sorted(menus.items()):
        names = sorted(menu)
        for values in product(*[(None,) + menu[name] for name in names]):
            options = dict((name, value) for name, value in zip(names, values) if value is not None)
            if 'linear' in function:
                inputs = (('$F',), ('$P',))
            elif function == 'compute_window_size':
                inputs = (('$ht',), ('$N',))
            else:
                inputs = (('$ht', '$rt'), ('$D',), ('$D', '$E'))
            for args in inputs:
                made.append((function, args, options))
            if 'boundary_format' not in options and 'linear' not in function and function != 'compute_window_size':
                made.append((function, ('$hpt', '$rpt'), dict(options, boundary_format='position')))
    return made


LATTICE = lattice()
ALL = CALLS + LATTICE
PLAIN = [len(CALLS) + index for index, call in enumerate(LATTICE) if not set(call[2]) - {'boundary_format'}]


def uses(call):
    '''Names of the objects a call gets.'''
    return set(value[1:] for value in list(call[1]) + list(call[2].values())
               if isinstance(value, str) and value.startswith('$'))


USES = [uses(call) for call in CALLS]
# The confusion matrix of M is also in C
SHARED = {'M': ('M', 'C'), 'C': ('C', 'M')}


def users(name):
    names = SHARED.get(name, (name,))
    return [index for index in range(len(CALLS)) if USES[index] & set(names)]


# For longer histories: one call per function and kind of input
SHORT = []
for index, call in enumerate(CALLS):
    key = (call[0], tuple(sorted(USES[index])))
    if key not in [k for _, k in SHORT]:
        SHORT.append((index, key))
SHORT = [index for index, _ in SHORT]
LARGE = [index for index in SHORT if USES[index] & set('ABKGU')]
SHORT = [index for index in SHORT if index not in LARGE]
LARGE = [index for index in range(len(CALLS)) if USES[index] & set('ABKGU')]

OUTER = (
    ('boundary_similarity', ('$hs', '$rs'), {'boundary_format': 'sets', 'n_t': 3}, 'weight'),
    ('segmentation_similarity', ('$hs', '$rs'), {'boundary_format': 'sets', 'one_minus': True}, 'weight'),
    ('boundary_statistics', ('$h', '$r'), {}, 'weight'),
    ('boundary_confusion_matrix', ('$hs', '$rs'), {'boundary_format': 'sets', 'n_t': 3}, 'weight'),
    ('boundary_similarity', ('$D',), {'permuted': True}, 'weight'),
    ('fleiss_kappa_linear', ('$D',), {}, 'weight'),
    ('pk', ('$h', '$r'), {}, 'fnc_round'),
    ('pk', ('$D',), {'return_parts': True}, 'fnc_round'),
    ('window_diff', ('$D', '$E'), {}, 'fnc_round'),
    ('window_diff', ('$hp', '$rp'), {'boundary_format': 'position', 'lamprier_et_al_2007_fix': True}, 'fnc_round'),
    ('compute_window_size', ('$N',), {}, 'fnc_round'),
    ('actual_agreement_linear', ('$D',), {}, 'fnc_compare'),
    ('fleiss_pi_linear', ('$P',), {}, 'fnc_compare'),
    ('fleiss_kappa_linear', ('$S',), {'n_t': 3}, 'fnc_compare'),
    ('artstein_poesio_bias_linear', ('$D',), {}, 'fnc_compare'),
)


class Broken(Exception):
    '''Raised by a callback.'''


def snapshot(value):
    '''Everything there is to know about an argument.'''
    if isinstance(value, dict):
        held = [type(value).__name__] + [(repr(key), snapshot(entry)) for key, entry in value.items()]
        for name in ('coders', 'properties', 'boundary_types', 'boundary_format'):
            if hasattr(value, name):
                held.append((name, snapshot(getattr(value, name))))
        return tuple(held)
    if isinstance(value, (list, tuple)):
        return (type(value).__name__,) + tuple(snapshot(entry) for entry in value)
    if isinstance(value, (set, frozenset)):
        return (type(value).__name__,) + tuple(sorted(repr(entry) for entry in value))
    if callable(value):
        return id(value)
    return repr(value)


def surroundings():
    '''Settings that all code of the process (or thread) shares.'''
    context = decimal.getcontext()
    return (context.prec, context.rounding, context.Emin, context.Emax, context.capitals, context.clamp,
            tuple(sorted(trap.__name__ for trap, on in context.traps.items() if on)),
            os.getcwd(), sys.getrecursionlimit(), csv.field_size_limit(), hash(random.getstate()))


def scramble(value, depth=0):
    '''Change everything changeable in a result.'''
    if depth > 6:
        return
    if isinstance(value, dict):
        for entry in list(value.values()):
            scramble(entry, depth + 1)
        for name in ('properties', 'coders', 'boundary_types'):
            if hasattr(value, name):
                getattr(value, name).clear()
        value.clear()
    elif isinstance(value, (list, tuple)):
        for entry in value:
            scramble(entry, depth + 1)
        if isinstance(value, list):
            value[:] = [object()]
    elif isinstance(value, set):
        value.clear()


class C20(Check):
    JIT = False
    TASKS = 20
    RULE = ('every history of the bounded length of calls (out of a catalogue of calls with different inputs, formats and '
            'options), in-place changes of their shared inputs and changes of their results, on a freshly imported package; '
            'the result of every call is compared with that of the same call made first of all on equal inputs, and all '
            'inputs with a snapshot; every call made from within every callback')
    ASSUMPTIONS = ('a freshly imported package has no history',)
    BOUNDS = {
        'quick': 'all ordered pairs of %d calls (19 with large inputs: with one call per function and kind of input) with the first result changed in between; for all %d changes of inputs: call, '
                 'change, call over the same call or any of %d and any other that use the input; %d calls with callbacks x %d calls within; '
                 'each of %d calls with all combinations of options followed by %d plain calls and itself'
                 % (len(CALLS), len(CHANGED), len(SHORT), len(OUTER), len(CALLS), len(LATTICE), len(PLAIN)),
        'thorough': 'as quick with any call first, all triples of %d calls, and call, change, call, change, call over all calls that use the input'
                    % len(SHORT)}

    def setup(self):
        self.segeval = core.fresh_package()
        assert [name for name, _ in changes(self.segeval)] == CHANGED
        self.baselines = {}

    def jobs(self, tier):
        jobs = [('nest', outer) for outer in range(len(OUTER))]
        jobs += [('pairs', first) for first in range(len(CALLS))]
        jobs += [('options', start) for start in range(len(CALLS), len(ALL), 16)]
        jobs += [('change', index, tier) for index in range(len(CHANGED))]
        if tier != 'quick':
            jobs += [('triples', first) for first in SHORT]
            jobs += [('changes', i, j) for i in range(len(CHANGED)) for j in range(len(CHANGED))
                     if CHANGED[i] == CHANGED[j] and i != j]
        return jobs

    def explore(self, job, run):
        kind = job[0]
        if kind == 'nest':
            for inner in range(len(CALLS)):
                if inner in LARGE and (job[1] % 5 or 'U' in USES[inner]):
                    continue
                for mode in ('return', 'raise'):
                    run.case(('nest', job[1], inner, mode))
        elif kind == 'options':
            # The call, every plain call after it (the related ones first), and the call again
            for first in range(job[1], min(len(ALL), job[1] + 16)):
                after = sorted(PLAIN, key=lambda index: (ALL[index][0] != ALL[first][0], ALL[index][1] != ALL[first][1], index))
                run.case(('history', (('call', first), ('scramble',)) + tuple(('call', index) for index in after) +
                          (('call', first),)))
                run.case(('history', (('call', after[0]), ('call', first), ('call', after[0]))))
        elif kind == 'pairs':
            for second in range(len(CALLS)):
                if (job[1] in LARGE) != (second in LARGE) and job[1] not in SHORT and second not in SHORT:
                    continue
                if 'U' in USES[job[1]] | USES[second] and (job[1] + second) % 8:
                    continue        # slow
                run.case(('history', (('call', job[1]), ('scramble',), ('call', second))))
        elif kind == 'change':
            for first in users(CHANGED[job[1]]):
                for second in users(CHANGED[job[1]]):
                    if job[2] == 'quick' and first != second and first not in SHORT:
                        continue
                    run.case(('history', (('call', first), ('change', job[1]), ('call', second))))
        elif kind == 'triples':
            for second, third in product(SHORT, repeat=2):
                run.case(('history', (('call', job[1]), ('scramble',), ('call', second), ('scramble',), ('call', third))))
        else:
            among = [index for index in users(CHANGED[job[1]]) if index in SHORT]
            for first, second, third in product(among, repeat=3):
                run.case(('history', (('call', first), ('change', job[1]), ('call', second), ('change', job[2]),
                                      ('call', third))))

    # -- one package instance --
    def restart(self):
        decimal.setcontext(decimal.Context(28, decimal.ROUND_HALF_EVEN, -999999, 999999, 1, 0, [],
                                           [decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow]))
        self.segeval = core.fresh_package()
        self.settings = surroundings()

    def inputs(self, applied, calls=()):
        objects = universe(self.segeval)
        if any(call in LARGE for call in calls):
            objects.update(large(self.segeval))
        made = changes(self.segeval)
        for index in applied:
            made[index][1](objects[CHANGED[index]])
        return objects

    def resolve(self, value, objects):
        if isinstance(value, tuple):
            return tuple(self.resolve(entry, objects) for entry in value)
        if not isinstance(value, str):
            return value
        if value.startswith('$'):
            return objects[value[1:]]
        if value.startswith('#'):
            name = value[1:]
            if name in ('micro', 'macro'):
                return getattr(self.segeval.Average, name)
            return getattr(math, name, None) or getattr(self.segeval, name)
        return value

    def perform(self, run, call, objects, extra=None):
        function, args, options = call
        args = [self.resolve(value, objects) for value in args]
        options = {key: self.resolve(value, objects) for key, value in options.items()}
        options.update(extra or {})
        if function == 'classes':
            return run.call(args[0].classes)
        if function == 'copy':
            return run.call(args[0].copy)
        if function == 'plus':
            return run.call(lambda: args[0] + args[1])
        return run.call(getattr(self.segeval, function), *args, **options)

    def baseline(self, run, key, call, applied, extra=None):
        '''The result of a call that comes first, on equal inputs.'''
        if (key, applied) not in self.baselines:
            self.restart()
            objects = self.inputs(applied, (key,))
            before = snapshot(objects)
            result = self.perform(run, call, objects, extra() if extra else None)
            if snapshot(objects) != before:
                self.baselines[key, applied] = ('problem', '%r changed its arguments' % (call,))
            elif surroundings() != self.settings:
                self.baselines[key, applied] = ('problem', '%r changed settings of the process from %r to %r'
                                                % (call, self.settings, surroundings()))
            else:
                self.baselines[key, applied] = ('result', normal(result))
        return self.baselines[key, applied]

    def check(self, case, run):
        if case[0] == 'nest':
            for problem in self.nest(case, run):
                yield problem
            return
        steps = case[1]
        # What is expected, before the history starts
        applied, expected = (), []
        for step in steps:
            if step[0] == 'change':
                applied += (step[1],)
            elif step[0] == 'call':
                kind, should = self.baseline(run, step[1], ALL[step[1]], applied)
                if kind == 'problem':
                    yield should
                    return
                expected.append(should)
        self.restart()
        made = [step[1] for step in steps if step[0] == 'call']
        objects = self.inputs((), made)
        applied, result = (), None
        calls = 0
        for step in steps:
            if step[0] == 'change':
                changes(self.segeval)[step[1]][1](objects[CHANGED[step[1]]])
                applied += (step[1],)
            elif step[0] == 'scramble':
                before = snapshot(objects)
                scramble(result)
                if snapshot(objects) != before:     # the result consists of (parts of) the arguments
                    objects = self.inputs(applied, made)
            else:
                before = snapshot(objects)
                result = self.perform(run, ALL[step[1]], objects)
                should = expected[calls]
                calls += 1
                found = normal(result)
                run.compared(hash(found))
                if found != should:
                    yield 'call %d of the history, %r, gave %r, on its own %r' % (calls, ALL[step[1]], found, should)
                    return
                if snapshot(objects) != before:
                    yield 'call %d of the history, %r, changed its arguments' % (calls, ALL[step[1]])
                    return
        if surroundings() != self.settings:
            yield 'settings of the process changed from %r to %r' % (self.settings, surroundings())

    # -- callbacks --
    def callbacks(self, option, enter):
        segeval = self.segeval
        if option == 'weight':
            def weigh(function):
                def weight(*args):
                    value = function(*args)
                    enter()
                    return value
                return weight
            return {'weight': (weigh(segeval.weight_a), weigh(segeval.weight_s_scale), weigh(segeval.weight_t_scale))}
        if option == 'fnc_round':
            def rounding(value):
                enter()
                return math.ceil(value)
            return {'fnc_round': rounding}

        def compare(*args, **kwargs):
            enter()
            value = segeval.segmentation_similarity(*args, **kwargs)
            enter()
            return value
        return {'fnc_compare': compare}

    def nest(self, case, run):
        _, index, inner, mode = case
        function, args, options, option = OUTER[index]
        outer = (function, args, options)
        should = self.baseline(run, ('outer', index), outer, (), lambda: self.callbacks(option, lambda: None))
        inside = self.baseline(run, inner, CALLS[inner], ())
        for kind, text in (should, inside):
            if kind == 'problem':
                yield text
                return
        self.restart()
        objects = self.inputs((), (inner,))
        problems = []
        state = {'depth': 0, 'calls': 0}

        def enter():
            if state['depth']:
                return
            state['depth'] = 1
            state['calls'] += 1
            found = normal(self.perform(run, CALLS[inner], self.inputs((), (inner,))))
            found_shared = normal(self.perform(run, CALLS[inner], objects))
            if found != inside[1] or found_shared != inside[1]:
                problems.append('%r within %r gave %r, on its own %r' % (CALLS[inner], outer, (found, found_shared), inside[1]))
            state['depth'] = 0
            if mode == 'raise' and state['calls'] == 2:
                raise Broken()

        before = snapshot(objects)
        found = normal(self.perform(run, outer, objects, self.callbacks(option, enter)))
        run.compared((index, found))
        if problems:
            yield problems[0]
            return
        if mode == 'return' or state['calls'] < 2:
            if found != should[1]:
                yield '%r around %r gave %r, on its own %r' % (outer, CALLS[inner], found, should[1])
                return
        elif not failed(found):
            yield 'an exception of a callback was replaced by %r' % (found,)
            return
        if snapshot(objects) != before:
            yield '%r around %r changed its arguments' % (outer, CALLS[inner])
            return
        if surroundings() != self.settings:
            yield 'settings of the process changed from %r to %r' % (self.settings, surroundings())
            return
        # and afterwards
        found = normal(self.perform(run, outer, objects, self.callbacks(option, lambda: None)))
        run.compared((index, found))
        if found != should[1]:
            yield '%r after %r gave %r, on its own %r' % (outer, mode, found, should[1])
