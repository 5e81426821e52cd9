'''C26: the first accesses of two threads to the lazily loaded package, for every schedule.'''
from __future__ import division
import importlib
import os
import sys
import threading
from mc import core
from mc.core import Check, Raised, Bytecode, forget_package, use_repo
from mc.checks.formats import normal
from mc.checks.namespace import DOCUMENTED, HOME, MODULES, NAMES
from mc.checks.threads import C21, Scheduler, DEADLOCK

PAIR = {'i': {'a': (2, 3), 'b': (1, 4)}}
USES = {
    'boundary_similarity': ((2, 3, 4), (2, 2, 5)), 'segmentation_similarity': ((2, 3, 4), (2, 2, 5)),
    'boundary_statistics': ((2, 1), (1, 2)), 'boundary_confusion_matrix': ((2, 1), (1, 2)),
    'boundary_edit_distance': (({1}, set()), (set(), {1})), 'pk': ((2, 3, 4), (2, 2, 5)), 'window_diff': ((2, 3), (1, 4)),
    'compute_window_size': ((2, 9, 9),), 'fleiss_pi_linear': (PAIR,), 'fleiss_kappa_linear': (PAIR,),
    'artstein_poesio_bias_linear': (PAIR,), 'actual_agreement_linear': (PAIR,), 'summarize': ({'a': 1, 'b': 4},),
    'convert_nltk_to_masses': ('0100',), 'weight_t_scale': ([(0, 1, 1)], 3), 'Dataset': (PAIR,), 'ConfusionMatrix': (),
    'input_linear_mass_json': ('$hearst1997.json',), 'input_linear_mass_tsv': ('$hearst1997.tsv',)}
LAST = [DOCUMENTED[home][-1] for home in sorted(DOCUMENTED)]
MANY = ([('get', name) for name in LAST] + [('use', name) for name in sorted(USES)] + [('import', name) for name in MODULES] +
        [('from', name) for name in LAST] + [('star',), ('dir',)])


def pairs(tier):
    '''Ordered pairs of actions.'''
    chosen = []
    if tier != 'quick':
        chosen += [(first, second) for first in MANY for second in MANY if first <= second or first[0] != 'from']
    else:
        for home in sorted(DOCUMENTED):
            chosen.append((('get', DOCUMENTED[home][0]), ('get', DOCUMENTED[home][-1])))
            chosen.append((('get', DOCUMENTED[home][0]), ('import', home)))
            chosen.append((('import', home), ('from', DOCUMENTED[home][-1])))
        names = sorted(USES)
        for index, name in enumerate(names):
            chosen.append((('use', name), ('use', name)))
            chosen.append((('use', name), ('get', LAST[(index * 7 + 3) % len(LAST)])))
            chosen.append((('get', LAST[(index * 5 + 1) % len(LAST)]), ('use', name)))
        chosen += [(('star',), ('star',)), (('star',), ('use', 'pk')), (('use', 'fleiss_pi_linear'), ('star',)),
                   (('dir',), ('star',)), (('get', 'pk'), ('dir',))]
    return sorted(set(chosen))


class C26(Check):
    JIT = False
    TASKS = 4
    CROWD = 3       # mostly waiting
    HANG_S = 120
    RULE = ('for two first accesses (or first calls) in two real threads on a freshly imported package of which nothing has been '
            'accessed: every schedule with one preemption, each point between two lines of the package (also of the modules '
            'being imported) being a possible one; then every name is looked at')
    ASSUMPTIONS = ('"import segeval" itself has returned before threads start',
                   'preemption between lines of the package, not within the import machinery or built-in functions')
    BOUNDS = {'quick': '%d ordered pairs of accesses and calls, every schedule with one preemption' % len(pairs('quick')),
              'thorough': '%d ordered pairs of %d accesses and calls, every schedule with one preemption' %
                          (len(pairs('thorough')), len(MANY))}

    def setup(self):
        self.steps = {}

    def jobs(self, tier):
        return [(first, second, part) for first, second in pairs(tier) for part in range(2)]

    def explore(self, job, run):
        first, second, part = job
        total = self.count(first, run)
        for point in range(1 + part, total + 1, 2):
            run.case((first, second, point))
            if run.stop:
                return

    def begin(self):
        with Bytecode():
            forget_package()
            self.segeval = use_repo()

    def act(self, action):
        '''[(name, object)], result of a call.'''
        kind = action[0]
        segeval = self.segeval
        if kind == 'get':
            return [(action[1], getattr(segeval, action[1]))], None
        if kind == 'from':
            space = {}
            exec('from segeval import %s' % action[1], space)
            return [(action[1], space[action[1]])], None
        if kind == 'import':
            module = importlib.import_module(action[1])
            return [(name, getattr(module, name)) for name in DOCUMENTED.get(action[1], ())], None
        if kind == 'star':
            space = {}
            exec('from segeval import *', space)
            return [(name, space[name]) for name in NAMES], None
        if kind == 'dir':
            missing = set(NAMES) - set(dir(segeval))
            return [], ('missing', sorted(missing)) if missing else None
        function = getattr(segeval, action[1])
        folder = os.path.join(core.REPO, 'segeval', 'data')
        args = [os.path.join(folder, arg[1:]) if isinstance(arg, str) and arg.startswith('$') else arg for arg in USES[action[1]]]
        return [(action[1], function)], normal(function(*args))

    def perform(self, action):
        try:
            return self.act(action)
        except Exception as exception:
            return Raised(exception)

    def count(self, action, run):
        '''Number of steps (and the result) of an action on its own.'''
        if action not in self.steps:
            self.begin()
            steps = []
            with Bytecode():
                sys.settrace(C21.tracer(steps.append, 'line'))
                try:
                    result = self.perform(action)
                finally:
                    sys.settrace(None)
            run.calls += 1
            self.steps[action] = len(steps), result if isinstance(result, Raised) else result[1]
        return self.steps[action][0]

    def schedule(self, first, second, point):
        self.begin()
        scheduler = Scheduler((point,))
        results = [None, None]

        def body(me, action):
            scheduler.native[me] = threading.get_native_id()
            scheduler.pause(me)
            sys.settrace(C21.tracer(lambda where: scheduler.step(me, where), 'line'))
            try:
                results[me] = self.perform(action)
            finally:
                sys.settrace(None)
                scheduler.finish(me)

        threads = [threading.Thread(target=body, args=(me, action)) for me, action in enumerate((first, second))]
        with Bytecode():
            for thread in threads:
                thread.daemon = True
                thread.start()
            for thread in threads:
                thread.join(DEADLOCK)
        return results, scheduler, any(thread.is_alive() for thread in threads)

    def check(self, case, run):
        first, second, point = case
        for action in (first, second):
            self.count(action, run)
        results, scheduler, stuck = self.schedule(first, second, point)
        run.calls += 2
        if scheduler.stalled:
            run.add('schedules_with_blocking', 1)
        if stuck:
            yield 'the schedule does not end'
            return
        seen = {}
        for me, action in enumerate((first, second)):
            run.compared((action, isinstance(results[me], Raised)))
            alone = self.steps[action][1]
            if isinstance(results[me], Raised) or results[me] is None:
                yield '%r in thread %d: %r' % (action, me + 1, results[me])
                return
            if isinstance(alone, Raised) or results[me][1] != alone:
                yield '%r in thread %d gave %r, alone %r' % (action, me + 1, results[me][1], alone)
                return
            for name, value in results[me][0]:
                if seen.setdefault(name, value) is not value:
                    yield '%s is two objects' % name
                    return
        # Afterwards
        with Bytecode():
            for name in NAMES:
                try:
                    value = getattr(self.segeval, name)
                    again = getattr(importlib.import_module(HOME[name]), name)
                except Exception as exception:
                    yield 'afterwards, %s: %r' % (name, Raised(exception))
                    return
                if seen.setdefault(name, value) is not value or again is not value:
                    yield 'afterwards, %s is another object' % name
                    return
        run.compared(len(seen))
