'''C27: every point of a call as the one at which it is interrupted.'''
from __future__ import division
import importlib
import os
import shutil
import sys
import tempfile
from mc import core
from mc.core import Check, Raised, Bytecode, forget_package, use_repo
from mc.checks.firsttouch import C26, MANY
from mc.checks.formats import normal
from mc.checks.namespace import HOME, NAMES
from mc.checks.purity import C20, CALLS, LARGE, SHORT, snapshot, surroundings
from mc.checks.threads import C21

# Calls on the larger datasets take many steps; others of the same functions are explored in the quick tier
COSTLY = [index for index in SHORT if 'linear' in CALLS[index][0] and CALLS[index][1][0] in ('$D', '$S')]
QUICK = [index for index in SHORT if index not in COSTLY]
# A quick call of each function that keeps no state by design, asked after every interruption
PANEL = [min((index for index in QUICK if CALLS[index][0] == name), key=lambda index: ('$D' in CALLS[index][1], len(str(CALLS[index]))))
         for name in ('boundary_edit_distance', 'boundary_similarity', 'segmentation_similarity', 'boundary_statistics',
                      'boundary_confusion_matrix', 'pk', 'window_diff', 'compute_window_size', 'convert_masses_to_positions',
                      'boundary_string_from_masses', 'convert_positions_to_masses', 'convert_nltk_to_masses', 'precision', 'recall',
                      'classes', 'weight_a', 'weight_s_scale', 'weight_t_scale')]
# Calls that make much use of the standard library, which is then traced as well
DEEP = [index for index in SHORT if CALLS[index][0] in ('copy', 'plus')]
FILES = ('save', 'save over', 'load json', 'load tsv', 'load missing', 'load folders json', 'load folders tsv')
FIRST = [('package',)] + [action for index, action in enumerate(MANY) if action[0] not in ('from', 'import') or index % 3 == 0]
UPDATES = ('add', 'add nothing', 'add twice', 'cell', 'new cell', 'assign')


class Interrupt(KeyboardInterrupt):
    '''What Control-C raises.'''


class C27(Check):
    JIT = False
    TASKS = 30
    RULE = ('for each call: every point between two lines of the package that the call passes is a point at which it is '
            'interrupted (an exception like that of Control-C is raised there), on a freshly imported package; then inputs and '
            'settings of the process are compared with snapshots, and the same call and others are compared with what '
            'they give on a fresh package; first accesses to the package likewise')
    ASSUMPTIONS = ('interruptions arrive between lines (thorough: also byte codes) of the package, not within built-in functions',)
    BOUNDS = {
        'quick': '%d calls, %d file operations, %d changes of datasets and matrices, and %d first accesses or first calls, each '
                 'interrupted once at every line of the package it passes (files, changes, copies and additions also at every '
                 'line of the standard library)' % (len(QUICK), len(FILES), len(UPDATES), len(FIRST)),
        'thorough': '%d calls (20 on large inputs), files, changes and first accesses interrupted at every line; the small calls twice, at every pair of '
                    'points up to 250, and at every byte code' % len(CALLS)}

    def setup(self):
        self.histories = C20()
        self.histories.setup()
        self.first = C26()
        self.first.setup()
        self.totals = {}
        segeval = core.fresh_package()
        matrix = segeval.boundary_confusion_matrix((2, 1), (1, 2))
        self.together = normal((matrix, segeval.fmeasure(matrix), segeval.boundary_similarity((2, 1), (1, 2))))
        run = core.Run(self)
        for index in SHORT:
            self.histories.baseline(run, index, CALLS[index], ())

    def jobs(self, tier):
        jobs = []
        jobs += [('file', name, 'line', 0, 1) for name in FILES]
        jobs += [('update', name, 'line', 0, 1) for name in UPDATES]
        jobs += [('file', name, 'deep', 0, 1) for name in FILES]
        jobs += [('update', name, 'deep', 0, 1) for name in UPDATES]
        jobs += [('call', index, 'deep', part, 8) for index in DEEP for part in range(8)]
        jobs += [('first', action, 'line', 0, 1) for action in (FIRST if tier == 'quick' else [('package',)] + MANY)]
        for index in QUICK if tier == 'quick' else range(len(CALLS)):
            parts = 4 if CALLS[index][1] and any(name in str(CALLS[index]) for name in 'DEPSGAB') else 1
            jobs += [('call', index, 'line', part, parts) for part in range(parts)]
            if tier != 'quick' and index not in LARGE and index not in COSTLY:
                jobs += [('call', index, 'opcode', part, 8) for part in range(8)]
                jobs += [('twice', index, 'line', part, 8) for part in range(8)]
        if tier != 'quick':
            jobs += [(kind, name, 'opcode', 0, 1) for kind, names in (('file', FILES), ('update', UPDATES)) for name in names]
        return jobs

    def explore(self, job, run):
        kind, what, grain, part, parts = job
        total = self.total(kind, what, grain, run)
        run.add('points', len(range(part + 1, total + 1, parts)))
        for point in range(part + 1, total + 1, parts):
            if kind == 'twice':
                for second in range(1, min(total, 250) + 1):
                    run.case((kind, what, grain, (point, second)))
                    if run.stop:
                        return
                if point > 250:
                    return
            else:
                run.case((kind, what, grain, (point,)))
            if run.stop:
                return

    # -- interruption --
    @staticmethod
    def everywhere(step):
        '''Traces the lines of the standard library that the package calls too.'''
        own = core.VERIF + os.sep

        def local(_frame, event, _argument):
            if event == 'line':
                step(None)
            return local

        def entered(frame, _event, _argument):
            name = frame.f_code.co_filename
            return None if name.startswith((own, '<frozen importlib')) or 'importlib' in name else local
        return entered

    def interrupted(self, function, point, grain):
        '''Call a function, interrupted at a point: (steps passed, interrupted?, result).'''
        state = [0]

        def step(_where):
            state[0] += 1
            if state[0] == point:
                raise Interrupt()

        sys.settrace(self.everywhere(step) if grain == 'deep' else C21.tracer(step, grain))
        try:
            result = function()
        except Interrupt:
            return state[0], True, None
        except Exception as exception:
            result = Raised(exception)
        finally:
            sys.settrace(None)
        return state[0], False, result

    def total(self, kind, what, grain, run):
        '''Number of points of something on a fresh package.'''
        kind = 'call' if kind == 'twice' else kind
        if (kind, what, grain) not in self.totals:
            prepare = getattr(self, 'prepare_' + kind)
            with Bytecode():
                function = prepare(what, run)[0]
                self.totals[kind, what, grain] = self.interrupted(function, None, grain)[0]
            self.finish()
        return self.totals[kind, what, grain]

    def finish(self):
        shutil.rmtree(getattr(self, 'folder', None) or '/nonexistent', ignore_errors=True)
        self.folder = None

    def check(self, case, run):
        kind, what, grain, points = case
        try:
            with Bytecode():
                for problem in self.examine('call' if kind == 'twice' else kind, what, grain, points, run):
                    yield problem
        finally:
            self.finish()

    def examine(self, kind, what, grain, points, run):
        self.grain = grain
        function, after = getattr(self, 'prepare_' + kind)(what, run)
        settings = surroundings()
        for point in points:
            run.calls += 1
            passed, was, result = self.interrupted(function, point, grain)
            run.compared((kind, was))
            if passed >= point and not was:
                yield 'the interruption at point %d was swallowed: %r' % (point, result)
                return
            if surroundings() != settings:
                yield 'settings of the process changed from %r to %r' % (settings, surroundings())
                return
        for problem in after(points[-1]):
            yield problem
            return
        if surroundings() != settings:
            yield 'settings of the process changed afterwards from %r to %r' % (settings, surroundings())

    # -- calls --
    def prepare_call(self, index, run):
        made = self.histories
        # What is expected, of this call, one of the same function, and another one
        same = [other for other in SHORT if CALLS[other][0] == CALLS[index][0] and other != index]
        made.baseline(run, index, CALLS[index], ())
        made.restart()
        self.segeval = made.segeval
        objects = made.inputs((), (index,))
        before = snapshot(objects)

        def after(point):
            if snapshot(objects) != before:
                yield '%r, interrupted, changed its arguments' % (CALLS[index],)
                return
            probes = [index, same[point // 2 % len(same)] if same and point % 2 else QUICK[point // 2 % len(QUICK)]]
            for probe in probes + (PANEL if self.grain != 'deep' else []):
                kind, should = made.baseline(run, probe, CALLS[probe], ())
                if kind == 'problem':
                    yield should
                    return
                found = normal(made.perform(run, CALLS[probe], objects))
                run.compared(hash(found))
                if found != should:
                    yield '%r after the interrupted call gave %r, on its own %r' % (CALLS[probe], found, should)
                    return
            if snapshot(objects) != before:
                yield '%r changed its arguments after an interruption' % (CALLS[index],)

        return lambda: made.perform(run, CALLS[index], objects), after

    # -- files --
    def prepare_file(self, name, run):
        self.segeval = segeval = core.fresh_package()
        error = importlib.import_module('segeval.data').DataIOError
        self.folder = folder = tempfile.mkdtemp()
        old = segeval.Dataset({'i': {'a': (1, 2), 'b': (3,)}}, properties={'p': [1]})
        new = segeval.Dataset({'j': {'x': (4, 4, 1)}, 'k': {'y': (2,)}}, properties={'q': {'r': 's'}})
        path = os.path.join(folder, 'data.json')
        table = os.path.join(folder, 'data.tsv')
        before = snapshot(new)

        def holds(dataset, items, properties=None):
            return (dict(dataset) == items and dataset.coders == set(c for v in items.values() for c in v) and
                    (properties is None or dict((k, v) for k, v in dataset.properties.items()
                                                if k != 'segmentation_type') == properties))
        if name in ('save', 'save over'):
            if name == 'save over':
                segeval.output_linear_mass_json(path, old)

            def after(_point):
                if snapshot(new) != before:
                    yield 'saving, interrupted, changed the dataset'
                if os.path.exists(path):
                    found = run.call(segeval.input_linear_mass_json, path)
                    run.compared(type(found).__name__)
                    if isinstance(found, Raised):
                        if not isinstance(found.exception, error):
                            yield 'the file written in part: %r' % found
                    elif not holds(found, dict(new), dict(new.properties)) and not (
                            name == 'save over' and holds(found, dict(old), dict(old.properties))):
                        yield 'the file written in part holds %r' % (found,)
                again = run.call(segeval.output_linear_mass_json, path, new)
                found = run.call(segeval.input_linear_mass_json, path)
                if isinstance(again, Raised) or isinstance(found, Raised) or not holds(found, dict(new), dict(new.properties)):
                    yield 'saving again after an interruption: %r, %r' % (again, found)
            return lambda: segeval.output_linear_mass_json(path, new), after
        items = {'i': {'a': (1, 2), 'b': (3,)}}
        segeval.output_linear_mass_json(path, segeval.Dataset(items))
        with open(table, 'w') as handle:
            handle.write('coder\t1\t2\na\t1\t2\nb\t3\n')
        if name.startswith('load folders'):
            kind = name.split()[-1]
            for deeper in ('s', os.path.join('s', 't'), 'u'):
                os.mkdir(os.path.join(folder, deeper))
                shutil.copy(path if kind == 'json' else table, os.path.join(folder, deeper, 'f.' + kind))
            function = lambda: segeval.load_nested_folders_dict(folder, kind)
        elif name == 'load missing':
            function = lambda: segeval.input_linear_mass_json(os.path.join(folder, 'none.json'))
        elif name == 'load json':
            function = lambda: segeval.input_linear_mass_json(path)
        else:
            function = lambda: segeval.input_linear_mass_tsv(table)
        if ('file', name) not in self.totals:
            self.totals['file', name] = self.described(run.call(function), folder)
            self.segeval = segeval = core.fresh_package()
        should = self.totals['file', name]

        def after(_point):
            for _ in range(2):
                found = run.call(function)
                run.compared(name)
                if self.described(found, folder) != should:
                    yield '%s after an interruption gave %r, on its own %r' % (name, found, should)
                    return
            if sorted(os.listdir(folder))[:2] != ['data.json', 'data.tsv']:
                yield '%s, interrupted, changed the folder' % name
        return function, after

    @staticmethod
    def described(result, folder):
        if isinstance(result, Raised):
            return result.name
        return (sorted((item, sorted((coder, tuple(masses)) for coder, masses in codings.items()))
                       for item, codings in result.items()), sorted(result.coders), type(result).__name__)

    # -- changes --
    def prepare_update(self, name, run):
        self.segeval = segeval = core.fresh_package()
        if name.startswith('add'):
            first = segeval.Dataset({'i': {'a': (1, 2), 'b': (3,)}, 'j': {'a': (1,)}}, properties={'p': 1})
            second = segeval.Dataset({'i': {'c': (2, 1)}, 'k': {'a': (5,), 'd': (1, 4)}}, properties={'q': 2})
            if name == 'add nothing':
                second = segeval.Dataset()
            before, other = dict((item, dict(codings)) for item, codings in first.items()), snapshot(second)

            def function():
                target = first
                target += second
                if name == 'add twice':
                    target += segeval.Dataset({'l': {'c': (2, 1)}})

            def after(_point):
                if snapshot(second) != other:
                    yield 'an interrupted addition changed the dataset that is added'
                allowed = dict((item, dict(codings)) for item, codings in before.items())
                for item, codings in list(second.items()) + ([('l', {'c': (2, 1)})] if name == 'add twice' else []):
                    allowed.setdefault(item, {}).update(codings)
                for item, codings in before.items():
                    for coder, masses in codings.items():
                        if first.get(item, {}).get(coder) != masses:
                            yield 'an interrupted addition lost %r of %r' % (coder, item)
                for item, codings in first.items():
                    for coder, masses in codings.items():
                        if allowed.get(item, {}).get(coder) != masses:
                            yield 'an interrupted addition made up %r of %r' % (coder, item)
                run.compared(len(first))
                if first.properties != {'p': 1}:
                    yield 'an interrupted addition changed properties'
                # The added dataset can still be added to others
                fresh = segeval.Dataset({'m': {'a': (1,)}})
                result = run.call(lambda: fresh + second)
                if isinstance(result, Raised) or dict(result) != dict({'m': {'a': (1,)}}, **dict(second)):
                    yield 'an addition after an interrupted one gave %r' % (result,)
            return function, after
        matrix = segeval.ConfusionMatrix()
        matrix['a']['b'] = 3
        matrix['b']['b'] = 1

        def function():
            if name == 'cell':
                matrix['a']['b'] += 2
            elif name == 'new cell':
                matrix['c']['d'] += 2
            else:
                matrix['b']['e'] = 7

        def after(_point):
            counts = dict(((p, a), n) for p, row in matrix.items() for a, n in row.items() if n)
            old, new = {('a', 'b'): 3, ('b', 'b'): 1}, {('a', 'b'): 3, ('b', 'b'): 1}
            new[{'cell': ('a', 'b'), 'new cell': ('c', 'd'), 'assign': ('b', 'e')}[name]] = {
                'cell': 5, 'new cell': 2, 'assign': 7}[name]
            run.compared(len(counts))
            if counts not in (old, new):
                yield 'an interrupted change of a cell left %r' % counts
                return
            again = segeval.ConfusionMatrix()
            again['a']['b'] += 3
            again['b']['b'] += 1
            if not set('ab') <= set(matrix.classes()) <= set('abcde'):
                yield 'classes after an interrupted change: %r' % (matrix.classes(),)
            for row, column, count in (('a', 'b', 3), ('b', 'b', 1)):
                if matrix[row][column] != new[row, column] and matrix[row][column] != count or again[row][column] != count:
                    yield 'cell %r after an interrupted change: %r' % ((row, column), matrix[row][column])
        return function, after

    # -- first accesses --
    def prepare_first(self, action, run):
        first = self.first
        if action != ('package',):
            first.count(action, run)
        forget_package()
        if action == ('package',):
            function = use_repo
        else:
            first.segeval = use_repo()
            function = lambda: first.act(action)

        def after(_point):
            try:
                segeval = use_repo()
                first.segeval = segeval
                seen = {}
                if action != ('package',):
                    found = first.act(action)
                    run.compared(action)
                    alone = first.steps[action][1]
                    if isinstance(alone, Raised) or found[1] != alone:
                        yield '%r after the interrupted one gave %r, on its own %r' % (action, found[1], alone)
                        return
                    seen.update(found[0])
                for name in NAMES:
                    value = getattr(segeval, name)
                    again = getattr(importlib.import_module(HOME[name]), name)
                    if seen.setdefault(name, value) is not value or again is not value:
                        yield 'afterwards, %s is another object' % name
                        return
                missing = set(NAMES) - set(dir(segeval))
                if missing:
                    yield 'afterwards, dir() lacks %r' % sorted(missing)
                # The names work together
                matrix = segeval.boundary_confusion_matrix((2, 1), (1, 2))
                if not isinstance(matrix, segeval.ConfusionMatrix):
                    yield 'afterwards, a confusion matrix is a %s of another class' % type(matrix).__name__
                if not isinstance(segeval.HEARST_1997_STARGAZER, segeval.Dataset):
                    yield 'afterwards, the samples are datasets of another class'
                found = normal((matrix, segeval.fmeasure(matrix), segeval.boundary_similarity((2, 1), (1, 2))))
                if found != self.together:
                    yield 'afterwards, calls give %r, on their own %r' % (found, self.together)
            except Exception as exception:
                yield 'afterwards: %r' % Raised(exception)
        return function, after
