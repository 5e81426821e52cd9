'''C21: every schedule of two threads with a bounded number of preemptions, on the real code.'''
from __future__ import division
import math
import os
import sys
import threading
import time
from decimal import Decimal
from mc import core
from mc.core import Check, Raised
from mc.checks.formats import normal
from mc.checks.purity import snapshot

PATIENCE = 0.5      # seconds without progress after which the other thread is taken to wait for this one ...
GLANCE = 0.03       # ... or two of these, if it sleeps and used less than a millisecond of them
DEADLOCK = 30       # seconds after which a schedule is taken not to end


def inputs(segeval, different):
    '''Small inputs of the calls; two sets of them.'''
    matrix, other = segeval.ConfusionMatrix(), segeval.ConfusionMatrix()
    for predicted, actual, count in (((1, 1, 2), (1, 2, 1)) if not different else ((2, 2, 3), (3, 2, 1), (3, 3, 1))):
        matrix[predicted][actual] = count
    other['p']['p'] = 5 if different else 1
    other['n']['p'] = 1
    if not different:
        return {
            'h': [1, 2], 'r': [2, 1], 'a': [{1}, set(), {2}], 'b': [set(), {1}, {3}], 'hp': ['x', 'y', 'y'],
            'rp': ['x', 'x', 'y'], 'hn': '10', 'rn': '01', 'D': segeval.Dataset({'i': {'c': [1, 2], 'd': [2, 1]}}),
            'E': segeval.Dataset({'i': {'e': [3]}}), 'P': {'i': {'c': [1, 2], 'd': [1, 1, 1]}},
            'N': {'x': {'c': [5], 'd': [2, 3]}}, 'M': matrix, 'C': {'one': matrix, 'two': other},
            'Q': segeval.Dataset({'i': {'c': [0, 1, 1], 'd': [0, 0, 1]}}, boundary_format='position'),
            'V': {'a': 1, 'b': Decimal('0.5')}, 'subs': [(1, 2)], 'trans': [(0, 1, 1)]}
    return {
        'h': [3, 1], 'r': [1, 1, 2], 'a': [{2}, {1}], 'b': [{3}, {1, 2}], 'hp': [1, 1, 1, 2],
        'rp': [0, 1, 2, 2], 'hn': '001', 'rn': '110', 'D': segeval.Dataset({'j': {'c': [4], 'x': [1, 3]}}),
        'E': segeval.Dataset({'j': {'e': [2, 2]}}), 'P': {'j': {'x': [2, 2], 'y': [2, 1, 1]}},
        'N': {'y': {'c': [20, 2]}}, 'M': matrix, 'C': {'one': other, 'two': matrix},
        'Q': segeval.Dataset({'j': {'x': '010', 'y': '110'}}, boundary_format='nltk'),
        'V': {'z': Decimal('0.25'), 'y': 3, 'x': 7}, 'subs': [(1, 3), (2, 5)], 'trans': [(0, 4, 2)]}


CALLS = (
    ('boundary_edit_distance', ('$a', '$b'), {}),
    ('boundary_edit_distance', ('$b', '$a'), {'n_t': 3}),
    ('boundary_similarity', ('$h', '$r'), {}),
    ('boundary_similarity', ('$a', '$b'), {'boundary_format': 'sets', 'n_t': 3, 'weight': '#', 'one_minus': True}),
    ('segmentation_similarity', ('$a', '$b'), {'boundary_format': 'sets'}),
    ('segmentation_similarity', ('$hn', '$rn'), {'boundary_format': 'nltk', 'return_parts': True}),
    ('boundary_statistics', ('$a', '$b'), {'boundary_format': 'sets'}),
    ('boundary_confusion_matrix', ('$a', '$b'), {'boundary_format': 'sets', 'n_t': 3}),
    ('boundary_similarity', ('$D',), {'permuted': True}),
    ('segmentation_similarity', ('$D', '$E'), {}),
    ('pk', ('$h', '$r'), {}),
    ('pk', ('$D',), {'fnc_round': '#ceil'}),
    ('window_diff', ('$h', '$r'), {'lamprier_et_al_2007_fix': True}),
    ('window_diff', ('$hp', '$rp'), {'boundary_format': 'position', 'window_size': 2, 'return_parts': True}),
    ('compute_window_size', ('$N',), {}),
    ('actual_agreement_linear', ('$P',), {}),
    ('fleiss_pi_linear', ('$D',), {}),
    ('fleiss_kappa_linear', ('$P',), {'fnc_compare': '#segmentation_similarity'}),
    ('artstein_poesio_bias_linear', ('$P',), {}),
    ('precision', ('$M',), {'version': '#macro'}),
    ('recall', ('$C',), {}),
    ('fmeasure', ('$M',), {'beta': 2}),
    ('summarize', ('$V',), {}),
    ('converters', ('$h', '$rp', '$hn'), {}),
    ('weights', ('$subs', '$trans'), {}),
    ('boundary_similarity', ('$Q',), {}),
    ('pk', ('$Q',), {}),
    ('fleiss_pi_linear', ('$Q',), {}),
)
# Another function that calls the same parts
PARTNERS = {0: (2, 7), 1: (4,), 2: (6, 15), 3: (2,), 4: (7, 2), 5: (23,), 6: (4,), 7: (19, 3), 8: (2, 17), 9: (8, 11), 10: (12,),
            11: (14, 9), 12: (10, 13), 13: (12,), 14: (10, 12), 15: (17, 3), 16: (17, 18), 17: (16, 2), 18: (16,), 19: (20, 21),
            20: (19, 21), 21: (19,), 22: (14,), 23: (2, 10), 24: (6,),
            25: (2, 8), 26: (10, 11), 27: (16,)}


# Calls of few steps, for schedules with two preemptions
SMALL = (23, 24, 14, 22, 13, 10)


def asleep(thread):
    '''(does the thread sleep?, nanoseconds it ran), or None if the system does not tell.'''
    try:
        with open('/proc/self/task/%d/stat' % thread) as handle:
            state = handle.read().rpartition(')')[2].split()[0]
        with open('/proc/self/task/%d/schedstat' % thread) as handle:
            return state == 'S', int(handle.read().split()[0])
    except Exception:
        return None


class Scheduler(object):
    '''Lets one of two threads run at a time; a thread loses its turn after the given number of steps.'''

    def __init__(self, switches):
        self.switches = list(switches) + [None] * 4
        self.phase = 0
        self.left = self.switches[0]
        self.turn = 0
        self.ticks = [0, 0]
        self.done = [False, False]
        self.native = [None, None]
        self.wake = [threading.Semaphore(0), threading.Semaphore(0)]
        self.stalled = 0
        self.trail = []

    def give(self, thread):
        self.turn = thread
        self.wake[thread].release()

    def pause(self, me):
        other = 1 - me
        while self.turn != me:
            if self.wake[me].acquire(timeout=GLANCE):
                continue
            glances, since, seen, used = 0, time.time(), self.ticks[other], None
            while self.turn != me:
                if self.wake[me].acquire(timeout=GLANCE) or self.ticks[other] != seen or self.native[other] is None:
                    break
                now = asleep(self.native[other])
                idle = now and now[0] and used is not None and now[1] - used < 1000000
                glances = glances + 1 if idle else 0
                used = now and now[1]
                if glances >= 2 or time.time() - since > PATIENCE:
                    # The other one waits for something this thread holds
                    self.stalled += 1
                    self.turn, self.left = me, None

    def step(self, me, where):
        if self.turn != me:
            self.pause(me)
        self.ticks[me] += 1
        if len(self.trail) < 100000:
            self.trail.append((me, where))
        if self.left is not None:
            self.left -= 1
            if self.left <= 0 and not self.done[1 - me]:
                self.phase += 1
                self.left = self.switches[self.phase]
                self.give(1 - me)
                self.pause(me)

    def finish(self, me):
        self.done[me] = True
        if self.turn == me or self.done[1 - me]:
            self.left = None
            self.give(1 - me)


class C21(Check):
    JIT = False
    TASKS = 1
    HANG_S = 120
    RULE = ('for two calls in two real threads: every schedule with the bounded number of preemptions, each point between two '
            'lines (or byte codes) of the package being a possible preemption, on a freshly imported package; each result is '
            'compared with the one the call gives alone')
    ASSUMPTIONS = ('the package is imported completely before threads start',
                   'preemption between lines (quick) or byte codes (thorough) of the package, not within built-in functions')
    BOUNDS = {
        'quick': '%d calls with themselves (same inputs, equal inputs, other inputs) and with %d others: every schedule with one '
                 'preemption between two lines, for either thread first; %d short calls with themselves: every schedule with two '
                 'preemptions' % (len(CALLS), sum(map(len, PARTNERS.values())), len(SMALL)),
        'thorough': 'all ordered pairs of %d calls with one preemption between two lines; every call with itself with one '
                    'preemption between two byte codes and with two preemptions between lines' % len(CALLS)}

    def setup(self):
        self.segeval = core.fresh_package()
        self.alone = {}

    def jobs(self, tier):
        jobs = []
        for index in range(len(CALLS)):
            for share in ('shared', 'equal', 'different'):
                jobs.append(('one', index, index, share, 'line'))
                if tier != 'quick':
                    jobs.append(('one', index, index, share, 'opcode'))
                    if share != 'equal':
                        jobs += [('two', index, index, share, 'line', part) for part in range(16)]
            if tier == 'quick' and index in SMALL:
                for share in ('shared', 'different') if index in SMALL[:3] else ('different',):
                    jobs += [('two', index, index, share, 'line', part) for part in range(16)]
            for other in range(len(CALLS)) if tier != 'quick' else PARTNERS[index]:
                if other != index:
                    jobs.append(('one', index, other, 'different', 'line'))
                    if tier == 'quick':
                        jobs.append(('one', other, index, 'different', 'line'))
                    else:
                        jobs.append(('one', index, other, 'shared', 'line'))
        return sorted(set(jobs), key=lambda job: (job[1] != job[2], job[4], job))

    def explore(self, job, run):
        kind, first, second, share, grain = job[:5]
        total = self.single(first, False, grain, run)[1]
        if kind == 'one':
            for point in range(1, total + 1):
                run.case((first, second, share, grain, (point,)))
                if run.stop:
                    return
        else:
            other = self.single(second, share == 'different', grain, run)[1]
            for point in range(1 + job[5], total + 1, 16):
                for after in range(1, other):
                    run.case((first, second, share, grain, (point, after)))
                    if run.stop:
                        return

    def perform(self, index, objects):
        '''A call; its result or what it raised.'''
        segeval = self.segeval
        function, args, options = CALLS[index]
        args = [objects[name[1:]] for name in args]
        options = dict(options)
        if options.get('weight'):
            options['weight'] = (segeval.weight_a, segeval.weight_s, segeval.weight_t)
        for key, value in options.items():
            if isinstance(value, str) and value.startswith('#'):
                options[key] = {'ceil': math.ceil, 'macro': segeval.Average.macro,
                                'segmentation_similarity': segeval.segmentation_similarity}[value[1:]]
        try:
            if function == 'converters':
                return (segeval.boundary_string_from_masses(args[0]), segeval.convert_masses_to_positions(args[0]),
                        segeval.convert_positions_to_masses(args[1]), segeval.convert_nltk_to_masses(args[2]))
            if function == 'weights':
                return (segeval.weight_a(args[0]), segeval.weight_s(args[0], 5), segeval.weight_s_scale(args[0], 5),
                        segeval.weight_t(args[1], 5), segeval.weight_t_scale(args[1], 5))
            return getattr(segeval, function)(*args, **options)
        except Exception as exception:
            return Raised(exception)

    @staticmethod
    def tracer(step, grain):
        prefix = os.path.join(core.REPO, 'segeval') + os.sep

        def local(frame, event, _argument):
            if event == grain:
                step((frame.f_code.co_name, frame.f_lineno))
            return local

        def entered(frame, event, _argument):
            if not frame.f_code.co_filename.startswith(prefix):
                return None
            if grain == 'opcode':
                frame.f_trace_opcodes = True
            return local
        return entered

    def single(self, index, different, grain, run):
        '''Result and number of steps of a call on its own.'''
        key = (index, different, grain)
        if key not in self.alone:
            self.segeval = core.fresh_package()
            objects = inputs(self.segeval, different)
            steps = []
            sys.settrace(self.tracer(steps.append, grain))
            try:
                result = self.perform(index, objects)
            finally:
                sys.settrace(None)
            run.calls += 1
            self.alone[key] = (normal(result), len(steps))
        return self.alone[key]

    def schedule(self, case):
        '''Execute one schedule: results, snapshots equal?, scheduler.'''
        first, second, share, grain, switches = case
        self.segeval = core.fresh_package()
        objects = [inputs(self.segeval, False)]
        objects.append(objects[0] if share == 'shared' else inputs(self.segeval, share == 'different'))
        before = [snapshot(entry) for entry in objects]
        scheduler = Scheduler(switches)
        results = [None, None]

        def body(me, index):
            scheduler.native[me] = threading.get_native_id()
            scheduler.pause(me)
            sys.settrace(self.tracer(lambda where: scheduler.step(me, where), grain))
            try:
                results[me] = self.perform(index, objects[me])
            finally:
                sys.settrace(None)
                scheduler.finish(me)

        threads = [threading.Thread(target=body, args=(me, index)) for me, index in enumerate((first, second))]
        for thread in threads:
            thread.daemon = True
            thread.start()
        for thread in threads:
            thread.join(DEADLOCK)
        return results, [snapshot(entry) for entry in objects] == before, scheduler, any(t.is_alive() for t in threads)

    def check(self, case, run):
        first, second, share, grain, switches = case
        expected = [self.single(first, False, grain, run)[0], self.single(second, share == 'different', grain, run)[0]]
        results, unchanged, scheduler, stuck = self.schedule(case)
        run.calls += 2
        if scheduler.stalled:
            run.add('schedules_with_blocking', 1)
        if stuck:
            yield 'the schedule %r does not end' % (switches,)
            return
        for me, index in enumerate((first, second)):
            found = normal(results[me])
            run.compared(hash(found))
            if found != expected[me]:
                yield '%r in thread %d gave %r, alone %r' % (CALLS[index], me + 1, found, expected[me])
                return
        if not unchanged:
            yield 'inputs were changed'
            return
        if sum(switches) % 97 == 1 and not scheduler.stalled:
            # The scheduler is in control: the same schedule gives the same steps
            again = self.schedule(case)[2]
            run.add('schedules_repeated', 1)
            if again.trail != scheduler.trail and not again.stalled:
                run.add('schedules_not_repeatable', 1)
