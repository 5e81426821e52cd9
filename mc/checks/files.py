# -*- coding: utf-8 -*-
'''C17, C18: saving and loading datasets; crash points of a save; folder trees and listing orders.'''
from __future__ import division
import copy
import csv
import gc
import io
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
from itertools import combinations, permutations, product
from mc import core
from mc.core import Check, Raised, scratch_root

NAMES = ('i', 'I', '', ' ', ' i', u'\xe9', u'e\u0301', u'\u4e2d\u6587', u'\U0001f600', u'\u2028', '"', "'", '\\',
         'a\nb', 'a\tb', 'a,b', 'a/b', '..', 'items', 'segmentation_type', 'None', '1', '01', 'true', u'\x00', u'\ud800',
         u'\ufeff', '{}', 'linear', '__proto__', 'NaN', 'null', ': Infinity', '1e5', '\\u0041', '\r\n', '//', '/*')
MASSES = ((), (1,), [2, 3], (1, 1, 1), (10 ** 20 + 1, 2 ** 53 + 1, 2 ** 31, 2 ** 63), tuple(range(1, 40)), [7])
PROPERTIES = (('p', 1), ('p', None), ('p', True), ('p', 2.5), ('p', 'text'), ('p', u'\u4e2d"\n'), ('p', []), ('p', {}),
              ('p', {'items': {'x': [1, {'y': None}]}}), ('Items', [1]), ('', 'x'), ('coders', ['a']),
              ('boundary_format', 'mass'), ('boundary_types', [1]), ('properties', {'q': 1}), ('item', 3),
              (u'\xe9', u'\xe9'), ('zz', -1), ('p', 10 ** 30), ('segmentation_typ', 'x'), ('p', 1.5e300), ('q', -0.0), ('p', 1e-300), ('p', 0.1), ('NaN', [0.3]),
              ('p', '\\u0041 \r\n // NaN, Infinity'), ('p', [[], {}, [[]], {'': {}}]), ('p', {'1': 1, 'true': False}))

# Datasets of the histories: small, large, with difficult names, empty
STORED = (
    ({'i': {'c': (1, 2)}}, {}),
    ({'item %d' % i: {'coder %d' % c: tuple(range(1, 12)) for c in range(3)} for i in range(3)}, {'note': 'x' * 200}),
    ({u'\xe9\n': {u'"\\': [3], '': (1, 1)}}, {'p': {'q': [1, u'\u2028']}, '': None}),
    ({}, {}),
    ({'i': {}}, {'p': 1}),
)
OPERATIONS = tuple(('save', i) for i in range(len(STORED))) + (
    ('save directory', 1), ('save directory', 0), ('junk', 'long'), ('junk', 'torn'), ('delete',), ('load',), ('extend',),
    ('save unwritable', 1), ('save unwritable', 0))



def big(shift):
    '''A dataset of more than 200 KB, its content shifted by some bytes.'''
    data = {u'%s \u4e2d\xe9 %03d' % ('x' * shift, i): {u'\U0001f600%d\xe9' % c: tuple(range(1, 30 + (i * c) % 11)) for c in range(5)}
            for i in range(60)}
    return data, {'note': u'\u20ac' * 20000 + 'x' * shift}


PATHS = ('saved', 'saved.txt', 'a.b', '.hidden', 'saved.json', 'saved.JSON', 'saved.jsn', 'a b', u'\xe9\u4e2d', 'saved.', 'saved.tsv', '~', '~x',
         '$HOME', '%s', '*', 'a.json.json', 'x' * 200, 'd.json/output', 'd.d/saved', 'output', 'output.json', '-', '#', 'a?b', 'json')
BAD = (
    '', ' ', 'null', '[]', '1', '"x"', '{}', '{"items": {}}', '{"segmentation_type": "linear"}',
    '{"segmentation_type": "hierarchical", "items": {}}', '{"segmentation_type": "Linear", "items": {}}',
    '{"segmentation_type": "", "items": {"i": {"c": [1]}}}', '{"segmentation_type": null, "items": {"i": {"c": [1]}}}',
    '{"segmentation_type": ["linear"], "items": {}}', '{"segmentation_type": "linear ", "items": {}}',
    '{"segmentation_type": 1, "items": {}}', '{"segmentation-type": "linear", "items": {}}',
    '{"segmentation_type": "linear", "Items": {}}', '{"segmentation_type": "linear", "item": {"i": {"c": [1]}}}',
    '{"segmentation_type": "nonlinear", "items": {"i": {"c": [1]}}}',
    '{"segmentation_type": "lin", "items": {"i": {"c": [1]}}}',
    '{"segmentation_type": "linear", "items": {"i": {"c": [1]}}', '{"segmentation_type": "linear", "items": {}}}',
    'coder\tmasses\n1\t2\n', '{"i": {"c": [1]}}', '{"properties": {"segmentation_type": "linear", "items": {}}}',
    # not loadable as a top-level object
    '[{"segmentation_type": "linear", "items": {}}]',
)


def codings(dataset):
    return {item: {coder: list(masses) for coder, masses in row.items()} for item, row in dataset.items()}


class Files(Check):
    '''Base of the checks that work in a scratch directory.'''
    HANG_S = 120

    def setup(self):
        import segeval
        from segeval.data import DataIOError
        from segeval.data.tsv import input_linear_positions_tsv
        self.segeval = segeval
        self.error = DataIOError
        self.positions_tsv = input_linear_positions_tsv
        for name in ('output_linear_mass_json', 'input_linear_mass_json', 'input_linear_mass_tsv',
                     'load_nested_folders_dict', 'Dataset'):
            getattr(segeval, name)
        self.scratch = None

    def explore(self, job, run):
        self.begin()
        try:
            self.walk(job, run)
        finally:
            self.end()

    def begin(self):
        self.scratch = tempfile.mkdtemp(prefix='mc-files-', dir=scratch_root())

    def end(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        self.scratch = None

    def check(self, case, run):
        if self.scratch is not None:
            for problem in self.judge(case, run):
                yield problem
            return
        self.begin()        # replay of a single case
        try:
            for problem in self.judge(case, run):
                yield problem
        finally:
            self.end()

    def path(self, *parts):
        return os.path.join(self.scratch, *parts)

    def fresh(self, name='case'):
        directory = self.path(name)
        shutil.rmtree(directory, ignore_errors=True)
        os.mkdir(directory)
        return directory

    @staticmethod
    def write(path, text):
        with open(path, 'wb') as handle:
            handle.write(text if isinstance(text, bytes) else text.encode('utf-8'))

    @staticmethod
    def read(path):
        with open(path, 'rb') as handle:
            return handle.read()


class C17(Files):
    RULE = ('every dataset of the alphabets is saved and loaded; every history of saves, loads, damage and deletions of the '
            'bounded length on one file; every crash point (each proper prefix of a saved file) and every byte at which the '
            'disk can be full (RLIMIT_FSIZE) is visited; loads and saves with few file handles (RLIMIT_NOFILE)')
    ASSUMPTIONS = ('item and coder names are strings, masses are integers, properties are JSON values with string keys '
                   'other than the two reserved ones',
                   'a full disk is represented by the file size limit of the process')
    BOUNDS = {
        'quick': 'names: all item/coder pairs and all pairs of coders of %d names; all datasets of 1-2 items x 1-2 coders x %d '
                 'mass sequences; all pairs of %d properties; histories of 3 out of %d operations; all prefixes of 5 files; 4 files of 300 KB with prefixes and limits around every buffer boundary; '
                 'all size limits of 5 files x 3 earlier contents; 27 files to be rejected; up to 5000 coders, 1030 items, 300000 masses; %d file names, absolute and relative; 300 operations on 8 spare handles'
                 % (len(NAMES), len(MASSES), len(PROPERTIES), len(OPERATIONS), len(PATHS)),
        'thorough': 'as quick, with all pairs of items x all pairs of coders and histories of 4 operations'}

    def jobs(self, tier):
        jobs = [('names', i) for i in range(len(NAMES))]
        jobs += [('masses', i) for i in range(len(MASSES))]
        jobs += [('crowds', 0), ('properties', 0), ('rejected', 0), ('locale', 0), ('paths', 0)]
        jobs += [('prefixes', i) for i in range(len(STORED))]
        jobs += [('big', shift) for shift in range(4)]
        jobs += [('limits', i, j) for i in range(len(STORED)) for j in (None, 0, 1)]
        jobs += [('handles', kind) for kind in ('json', 'torn', 'mistyped', 'save', 'tsv', 'bad tsv', 'folder', 'no folder')]
        if tier == 'quick':
            jobs += [('history', (op,), 2) for op in OPERATIONS]
        else:
            jobs += [('history', (a, b), 2) for a in OPERATIONS for b in OPERATIONS]
            jobs += [('name pairs', i) for i in range(len(NAMES))]
        return jobs

    def walk(self, job, run):
        kind = job[0]
        if kind == 'names':
            name = NAMES[job[1]]
            for other in NAMES:
                run.case(('trip', {name: {other: (1, 2)}}, {}))
                if other != name:
                    run.case(('trip', {'i': {name: (1, 2), other: (3,)}}, {}))
                    run.case(('trip', {name: {'c': (1, 2)}, other: {'c': [2, 1]}}, {'p': name}))
        elif kind == 'name pairs':
            name = NAMES[job[1]]
            for other in NAMES[job[1] + 1:]:
                for c, d in combinations(NAMES, 2):
                    run.case(('trip', {name: {c: (1, 2), d: (2, 1)}, other: {d: (3,), c: (1, 1, 1)}}, {}))
        elif kind == 'masses':
            first = MASSES[job[1]]
            run.case(('trip', {'i': {'c': first}}, {}))
            for others in product(MASSES, repeat=3):
                run.case(('trip', {'i': {'c': first, 'd': others[0]}, 'j': {'c': others[1], 'e': others[2]}}, {}))
        elif kind == 'properties':
            for first in PROPERTIES:
                for second in PROPERTIES:
                    run.case(('trip', {'i': {'c': (1, 2)}}, dict([first, second])))
        elif kind == 'crowds':
            for items, coders in ((1, 120), (120, 1), (1, 1030), (1030, 1), (33, 33), (2, 300), (300, 2), (1, 5000)):
                run.case(('trip', {'i%d' % i: {'c%d' % c: (1, i + c + 1) for c in range(coders)} for i in range(items)},
                          {'p%d' % i: {'q': [i]} for i in range(items + coders)}))
            for size in (300, 5000, 100000):
                run.case(('trip', {'i': {'c': (1,) * size, 'd': [2, 1, 1] * size}}, {'p': list(range(size)), 'q': 'x' * size}))
            for depth in (5, 20, 100):
                nested = 1
                for level in range(depth):
                    nested = {'k%d' % level: nested} if level % 2 else [nested, level]
                run.case(('trip', {'x' * 10 * depth: {'y' * 10 * depth: (1, 2)}}, {'p': nested, 'z' * 10 * depth: 1}))
        elif kind == 'rejected':
            for index in range(len(BAD)):
                run.case(('rejected', index))
        elif kind == 'paths':
            for name in PATHS:
                for relative in (False, True):
                    run.case(('path', name, relative))
        elif kind == 'locale':
            for locale in ('C', 'C.UTF-8', 'POSIX'):
                run.case(('locale', locale))
        elif kind == 'prefixes':
            size = self.size(job[1])
            for length in range(size):
                run.case(('prefix', job[1], length))
        elif kind == 'limits':
            size = self.size(job[1])
            for length in range(size + 1):
                run.case(('limit', job[1], job[2], length))
        elif kind == 'big':
            run.case(('trip',) + big(job[1]))
            size = self.size(job[1], big)
            near = set(range(size - 20, size + 1))
            for block in range(0, size, 8192 if job[1] else 4096):
                near |= set((block, block + 1) if job[1] else (block - 1, block, block + 1))
            for length in sorted(near):
                if 0 <= length < size:
                    run.case(('big prefix', job[1], length))
                if 0 <= length <= size and job[1] < 2:
                    run.case(('big limit', job[1], None, length))
                    run.case(('big limit', job[1], 1, length))
        elif kind == 'handles':
            run.case(('handles', job[1], 300))
        elif kind == 'history':
            for rest in product(OPERATIONS, repeat=job[2]):
                run.case(('history', job[1] + rest))

    def dataset(self, data, properties):
        return self.segeval.Dataset(copy.deepcopy(data), properties=copy.deepcopy(properties))

    def size(self, index, stored=STORED.__getitem__):
        path = self.path('size.json')
        self.segeval.output_linear_mass_json(path, self.dataset(*stored(index)))
        return len(self.read(path))

    def loaded(self, path, data, properties, run):
        '''Problem unless the file gives this dataset.'''
        result = run.call(self.segeval.input_linear_mass_json, path)
        run.compared((len(data), len(properties)))
        if isinstance(result, Raised):
            return repr(result)
        if codings(result) != codings(data):
            return 'loaded %r, saved %r' % (codings(result), data)
        if set(result.coders) != set(c for row in data.values() for c in row):
            return 'loaded coders %r of %r' % (result.coders, data)
        held = dict(result.properties)
        if held.pop('segmentation_type', 'linear') != 'linear' or 'items' in held:
            return 'loaded properties %r' % (result.properties,)
        if repr(sorted(held.items())) != repr(sorted(properties.items())):
            return 'loaded properties %r, saved %r' % (held, properties)
        for row in result.values():
            for masses in row.values():
                if any(isinstance(mass, bool) or not isinstance(mass, int) for mass in masses):
                    return 'loaded %r' % (masses,)
        return None

    def rejected(self, path, run):
        result = run.call(self.segeval.input_linear_mass_json, path)
        run.compared('rejected')
        if not isinstance(result, Raised):
            return 'accepted as %r' % (dict(result),)
        if not isinstance(result.exception, self.error):
            return repr(result)
        return None

    def judge(self, case, run):
        if case[0].startswith('big '):
            return getattr(self, 'judge_' + case[0][4:])(case, run, big)
        return getattr(self, 'judge_' + case[0])(case, run)

    def judge_trip(self, case, run):
        _, data, properties = case
        path = self.path('f.json')
        dataset = self.dataset(data, properties)
        saved = run.call(self.segeval.output_linear_mass_json, path, dataset)
        if isinstance(saved, Raised):
            yield 'save: %r' % saved
            return
        if codings(dataset) != codings(data) or dataset.properties != properties:
            yield 'saving changed the dataset to %r %r' % (dict(dataset), dataset.properties)
            return
        problem = self.loaded(path, data, properties, run)
        if problem:
            yield problem
            return
        # What was loaded can be saved and loaded again
        again = self.segeval.input_linear_mass_json(path)
        other = self.path('g.json')
        saved = run.call(self.segeval.output_linear_mass_json, other, again)
        problem = repr(saved) if isinstance(saved, Raised) else self.loaded(other, data, properties, run)
        if problem:
            yield 'second round trip: ' + problem

    def judge_path(self, case, run):
        '''Files of any name: saved under exactly this name, twice.'''
        directory = self.fresh()
        folder = os.path.join(directory, os.path.dirname(case[1]))
        if not os.path.isdir(folder):
            os.makedirs(folder)
        path, here = os.path.join(directory, case[1]), os.getcwd()
        if case[2]:
            os.chdir(directory)
        try:
            for data, properties in STORED[1::-1]:
                target = case[1] if case[2] else path
                saved = run.call(self.segeval.output_linear_mass_json, target, self.dataset(data, properties))
                problem = repr(saved) if isinstance(saved, Raised) else self.loaded(target, data, properties, run) or \
                    self.loaded(path, data, properties, run)
                found = sorted(os.listdir(folder))
                if not problem and found != [os.path.basename(case[1])]:
                    problem = 'the folder has %r' % found
                if problem:
                    yield 'file name %r: %s' % (case[1], problem)
                    return
        finally:
            os.chdir(here)

    def judge_rejected(self, case, run):
        path = self.path('bad.json')
        self.write(path, BAD[case[1]])
        problem = self.rejected(path, run)
        if problem and not (case[1] in self.LOOSE and problem.startswith('raised')):
            yield '%r: %s' % (BAD[case[1]], problem)

    # JSON values that are no object at all: it is enough that they are not accepted
    LOOSE = tuple(i for i, text in enumerate(BAD) if text[:1] in ('n', '[', '1', '"'))

    def judge_locale(self, case, run):
        '''Round trip of all names in a process with another locale.'''
        code = ('import sys\nsys.path.insert(0, %r)\nsys.path.insert(0, %r)\nfrom mc.checks.files import NAMES\nimport segeval\n'
                'data = {n: {m: (1, 2) for m in NAMES} for n in NAMES}\npath = %r\n'
                'segeval.output_linear_mass_json(path, segeval.Dataset(data))\n'
                'loaded = segeval.input_linear_mass_json(path)\n'
                'assert {i: {c: tuple(m) for c, m in r.items()} for i, r in loaded.items()} == data\nprint("fine")\n'
                % (core.VERIF, core.REPO, self.path('locale.json')))
        environment = dict(os.environ, LC_ALL=case[1], PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')
        run.calls += 2
        process = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-c', code], env=environment,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        run.compared(case[1])
        if process.returncode or process.stdout.strip() != b'fine':
            yield process.stderr.decode('utf-8', 'replace')[-1000:]

    def judge_prefix(self, case, run, stored=STORED.__getitem__):
        _, index, length = case
        path = self.path('prefix.json')
        data, properties = stored(index)
        if length == 0 or not os.path.exists(self.path('whole.json')):
            self.segeval.output_linear_mass_json(self.path('whole.json'), self.dataset(data, properties))
        content = self.read(self.path('whole.json'))
        self.write(path, content[:length])
        if not content[length:].strip():
            problem = self.loaded(path, data, properties, run)      # only white space is missing
        else:
            problem = self.rejected(path, run)
        if problem:
            yield 'first %d of %d bytes: %s' % (length, len(content), problem)

    def judge_limit(self, case, run, stored=STORED.__getitem__):
        _, index, earlier, limit = case
        directory = self.fresh()
        path = os.path.join(directory, 'limited.json')
        if earlier is not None:
            self.segeval.output_linear_mass_json(path, self.dataset(*STORED[earlier]))
        dataset = self.dataset(*stored(index))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            result = run.call(self.segeval.output_linear_mass_json, path, dataset)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        run.compared((isinstance(result, Raised), earlier))
        if not isinstance(result, Raised):
            problem = self.loaded(path, *stored(index), run=run)
            if problem:
                yield 'no error was reported although only %d bytes could be written, and: %s' % (limit, problem)
            return
        # The save failed: the file is missing, rejected, or still the earlier one
        if not os.path.exists(path):
            return
        found = run.call(self.segeval.input_linear_mass_json, path)
        if isinstance(found, Raised):
            if not isinstance(found.exception, self.error):
                yield 'after a failed save: %r' % found
        elif self.loaded(path, *stored(index), run=run) and \
                (earlier is None or self.loaded(path, *STORED[earlier], run=run)):
            yield 'accepted after a failed save: %r' % (dict(found),)

    def judge_handles(self, case, run):
        _, kind, count = case
        segeval = self.segeval
        directory = self.fresh()
        path = os.path.join(directory, 'f.json')
        good = self.dataset(*STORED[0])
        segeval.output_linear_mass_json(path, good)
        tsv = os.path.join(directory, 'f.tsv')
        self.write(tsv, 'c\tm\n1\t2\t3\n')
        torn = os.path.join(directory, 'torn.txt')
        self.write(torn, '{"segmentation_type": "linear", "items": {')
        mistyped = os.path.join(directory, 'mistyped.txt')
        self.write(mistyped, BAD[9])
        bad = os.path.join(directory, 'bad.txt')
        self.write(bad, 'c\tm\n1\t2\tx\n')
        works = {'json': lambda: segeval.input_linear_mass_json(path),
                 'torn': lambda: segeval.input_linear_mass_json(torn),
                 'mistyped': lambda: segeval.input_linear_mass_json(mistyped),
                 'save': lambda: segeval.output_linear_mass_json(path, good),
                 'tsv': lambda: segeval.input_linear_mass_tsv(tsv),
                 'bad tsv': lambda: segeval.input_linear_mass_tsv(bad),
                 'folder': lambda: segeval.load_nested_folders_dict(directory, 'json'),
                 'no folder': lambda: segeval.load_nested_folders_dict(os.path.join(directory, 'missing'), 'json')}[kind]
        should = repr(run.call(works))
        gc.collect()
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        highest = max(int(name) for name in os.listdir('/proc/self/fd'))
        gc.disable()
        resource.setrlimit(resource.RLIMIT_NOFILE, (highest + 9, hard))
        try:
            for index in range(count):
                result = run.call(works)
                run.compared(kind)
                if repr(result) != should:
                    break
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
            gc.enable()
            gc.collect()
        if repr(result) != should:
            yield '%s number %d: %r, the first time %s' % (kind, index + 1, result, should)

    def judge_history(self, case, run):
        directory = self.fresh()
        path = os.path.join(directory, 'output.json')
        state = None        # None: no file, 'bad': not loadable, else (data, properties)
        for index, operation in enumerate(case[1]):
            kind = operation[0]
            problem = None
            if kind in ('save', 'save directory'):
                state = copy.deepcopy(STORED[operation[1]])
                target = path if kind == 'save' else directory
                result = run.call(self.segeval.output_linear_mass_json, target, self.dataset(*state))
                if isinstance(result, Raised):
                    problem = repr(result)
            elif kind == 'junk':
                if operation[1] == 'long':
                    self.write(path, '}' * 5000 + '\n')
                else:
                    content = self.read(path) if os.path.exists(path) else b'{"'
                    self.write(path, content[:len(content) * 2 // 3])
                state = 'bad'
            elif kind == 'delete':
                if os.path.exists(path):
                    os.remove(path)
                state = None
            elif kind == 'save unwritable':
                # Something that JSON cannot express: an error, and no file that passes as complete
                data, properties = copy.deepcopy(STORED[operation[1]])
                result = run.call(self.segeval.output_linear_mass_json, path, self.dataset(data, dict(properties, zz={1})))
                if not isinstance(result, Raised):
                    problem = 'a dataset with an unwritable property was saved without an error'
                elif os.path.exists(path) and (state in (None, 'bad') or self.loaded(path, *state, run=run)):
                    state = 'bad'
            elif kind == 'extend' and state not in (None, 'bad'):
                # Load, add a coding and a property, save
                dataset = run.call(self.segeval.input_linear_mass_json, path)
                if isinstance(dataset, Raised):
                    problem = repr(dataset)
                else:
                    name = 'n%d' % index
                    dataset['i'][name] = (index + 1,)
                    dataset.properties[name] = index
                    state[0].setdefault('i', {})[name] = (index + 1,)
                    state[1][name] = index
                    result = run.call(self.segeval.output_linear_mass_json, path, dataset)
                    if isinstance(result, Raised):
                        problem = repr(result)
            if not problem:
                if state is None:
                    result = run.call(self.segeval.input_linear_mass_json, path)
                    run.compared('missing')
                    if not isinstance(result, Raised):
                        problem = 'a missing file gave %r' % (result,)
                elif state == 'bad':
                    problem = self.rejected(path, run)
                else:
                    problem = self.loaded(path, *state, run=run)
            if problem:
                yield 'after %r: %s' % (case[1][:index + 1], problem)
                return


# -- C18 ----------------------------------------------------------------------------------------------------
def table(rows, delimiter, newline, header=('Coder', 'Masses'), blanks=0, final=True):
    lines = []
    for row in [header] + [[name] + [str(mass) for mass in masses] for name, masses in rows]:
        line = io.StringIO()
        csv.writer(line, delimiter=delimiter, lineterminator='').writerow(row)
        lines.append(line.getvalue())
    return newline.join(lines) + newline * (blanks + (1 if final or blanks else 0))


JUNK = 'not a data file {'
SLOTS = {
    'json': (
        ('a.json', {'x': {'c1': (1, 2)}}),
        ('b.JSON', {'x': {'c2': (3,)}, 'y': {'c1': (1, 1)}}),
        ('c.jsn', {'z': {'c1': (4,)}}),
        ('dup.json', {'x': {'c1': (2, 1)}}),
        ('d1/a.json', {'x': {'c1': (5, 1)}}),
        ('d1/b.jsn', {'x': {'c3': (6,)}, 'v': {'c1': (1,)}}),
        ('d1/e/x.Json', {'x': {'c1': (2, 2)}}),
        ('d2.json/f.json', {'x': {'c1': (3, 2)}}),
        ('p.json', {'d1,x': {'c1': (7,)}}),
        ('d1/e.json', {'x': {'c1': (9,)}}),
        ('a.jsn', {'w': {'c1': (1, 3)}}),
        ('D1/a.json', {'x': {'c1': (8,)}}),
        ('.n.JsN', {'x': {'c9': (1, 9)}}),
        ('.d/.e/a.json', {'x': {'c1': (1, 8)}}),
        ('link/a.json', {'x': {'c1': (1, 7)}}),
        ('link.json', {'x': {'c8': (1, 6)}}),
        ('d1/e/deep/er/y.json', {'y': {'c5': (4, 4)}}),
        ('/'.join('abcdefghijklmn') + '/a.json', {'x': {'c6': (4, 5)}}),
        ('X.json', {}),
        ('a.txt', JUNK),
        ('json', JUNK),
        ('a.json.bak', JUNK),
        ('d1/a.jsonl', JUNK),
        ('a.tsv', 'Coder\tMasses\nc1\t1\t2\n'),
        ('empty/', None),
        ('d1/empty.json/', None),
    ),
    'tsv': (
        ('a.tsv', {'a': {'c1': (1, 2)}}),
        ('a.csv', {'a': {'c2': (3,)}}),
        ('b.TSV', {'b': {'c1': (1, 1), 'c2': (2,)}}),
        ('a.CSV', {'a': {'c1': (2, 1)}}),
        ('a.b.tsv', {'a.b': {'c1': (4,)}}),
        ('d1/a.tsv', {'a': {'c1': (5, 1)}}),
        ('d1/a.csv', {'a': {'c3': (6,)}}),
        ('d1/e/a.Csv', {'a': {'c1': (2, 2)}}),
        ('d2.tsv/f.tsv', {'f': {'c1': (3, 2)}}),
        ('d1,a.tsv', {'d1,a': {'c1': (7,)}}),
        ('D1/a.csv', {'a': {'c4': (8,)}}),
        ('h.tsv', {'h': {}}),
        ('a.txt', JUNK),
        ('tsv', JUNK),
        ('.d/.h.tsv', {'.h': {'c1': (1, 8)}}),
        ('link/a.tsv', {'a': {'c1': (1, 7)}}),
        ('link.tsv', {'link': {'c8': (1, 6)}}),
        ('a.tsv.bak', JUNK),
        ('a.tsvx', JUNK),
        ('a.json', '{"segmentation_type": "linear", "items": {"a": {"c1": [1]}}}'),
        ('empty/', None),
        ('d1/e/g.csv', {'g': {'c1': (1,)}}),
        ('/'.join('abcdefghijklmn') + '/a.tsv', {'a': {'c6': (4, 5)}}),
    ),
}
# A file in every folder of a complete binary tree of depth 3
FOLDERS = [''] + [''.join(part + '/' for part in parts) for depth in (1, 2, 3) for parts in product('ab', repeat=depth)]
SLOTS['deep json'] = tuple((folder + 'f.json', {'x': {'c%d' % i: (i + 1, 1)}}) for i, folder in enumerate(FOLDERS))
SLOTS['deep tsv'] = tuple((folder + 'f.tsv', {'f': {'c%d' % i: (i + 1, 1)}}) for i, folder in enumerate(FOLDERS))
TSV_NAMES = ('item.tsv', 'a.b.tsv', 'x', u'\xe9 \u4e2d.csv', 'A.TSV', 'a,b.tsv', 'tsv.tsv', '1.txt', 'a.tsv.tsv')
TSV_STEMS = ('item', 'a.b', 'x', u'\xe9 \u4e2d', 'A', 'a,b', 'tsv', '1', 'a.tsv')
TSV_ROWS = (
    (('1', (2, 3, 1)),),
    (('1', (2, 3, 1)), ('2', (6,))),
    (('b', (1,)), ('a', (1,)), ('c', (1, 1, 1, 1))),
    (('c1', (10, 200)), (u'\xe9', (3,)), ('None', (1, 2)), ('0', (5, 5, 5))),
    (),
    (('Coder', (1, 2)),),
    (('a.b-c', (1, 2)), ('x_y', tuple(range(1, 30)))),
    tuple(('k%d' % i, (i + 1, 2)) for i in range(60)),
    tuple((name, (i + 1, 2)) for i, name in enumerate((
        ' a', 'a ', 'a', 'a\tb', 'A', '  a', u'\xa0a', '"a"', 'say "a"', "'a'", '\\', '#', '', 'a,b', 'a;b', 'a|b', 'a:b', 'a b'))),
)
LONG_ROWS = (
    (('a', (10 ** 20 + 1, 2 ** 53 + 1)), ('b', (2 ** 31, 2 ** 63, 2 ** 64 + 1)), ('c', (10 ** 400 + 1,))),
    (('a', (1,) * 1500), ('b', (2, 1) * 600)),
    (('a', (1, 2, 3) * 1700), ('b', (1,) * 4097), ('c', (9,))),
    (('a', (3, 1) * 17000), ('b', (1,))),
    (('a', (70000,)), ('b', (1, 33000))),
)
DELIMITERS = ('\t', ',', ' ', ';', '|', ':')
NEWLINES = ('\n', '\r\n', '\r')
HEADERS = (('Coder', 'Masses'), ('Coder',), ('', ''), ('1', '2', '3'), ('Coder', 'a', 'b', 'c', 'd', 'e', 'f', 'g'))


class Listing(object):
    '''os.scandir in a given order.'''

    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def close(self):
        pass


class C18(Files):
    RULE = ('every TSV file over the alphabets of rows, delimiters, line ends, headers, trailing blank lines and names; every '
            'folder tree with the bounded number of entries out of an alphabet x every order in which the root lists its '
            'entries x two orders of every sub-folder; results compared with the model of the tree')
    ASSUMPTIONS = ('listing orders are controlled through os.listdir and os.scandir, whichever the package uses',
                   'TSV files are written as the csv module writes them; the rows of one file have names without line end')
    BOUNDS = {
        'quick': '%d x %d x %d x %d x 4 x 2 TSV files x 9 names (names with 2 row sets); all trees of up to 3 of %d (JSON) and '
                 '%d (TSV) slots in every order of the root, 4 slots in 4 orders' %
                 (len(TSV_ROWS), len(DELIMITERS), len(NEWLINES), len(HEADERS), len(SLOTS['json']), len(SLOTS['tsv'])) +
                 '; all trees of up to 5 files in different folders of a complete binary tree of depth 3 in 4 orders; 2 to 257 folders, '
                 'files or coders; rows of up to 34000 masses, masses to 10^400',
        'thorough': 'as quick, all trees of up to 4 slots in every order of the root and 5 slots in 4 orders; up to 7 files in different '
                    'folders of a complete binary tree'}

    def jobs(self, tier):
        jobs = [('tsv', rows, delimiter) for rows in range(len(TSV_ROWS)) for delimiter in DELIMITERS]
        jobs += [('tsv names', i) for i in range(len(TSV_NAMES))]
        jobs += [('twice', 0)] + [('long', delimiter) for delimiter in DELIMITERS]
        full, few = (3, 4) if tier == 'quick' else (4, 5)
        for filetype in ('json', 'tsv'):
            count = len(SLOTS[filetype])
            jobs.append(('tree', filetype, (), 0, True))
            for first in range(count):
                for size in range(full):
                    jobs.append(('tree', filetype, (first,), size, True))
                for second in range(first + 1, count):
                    jobs.append(('tree', filetype, (first, second), few - 2, False))
        for filetype in ('wide json', 'wide tsv'):
            jobs += [('wide', filetype, count) for count in (2, 5, 9, 10, 11, 16, 17, 33, 101, 257)]
        for filetype in ('deep json', 'deep tsv'):
            jobs += [('tree', filetype, (first,), size, False) for first in range(len(FOLDERS))
                     for size in range(5 if tier == 'quick' else 7)]
            jobs.append(('tree', filetype, tuple(range(len(FOLDERS))), 0, False))
        return jobs

    def walk(self, job, run):
        kind = job[0]
        if kind == 'tsv':
            for newline in NEWLINES:
                for header in range(len(HEADERS)):
                    for blanks in (0, 1, 2, 5):
                        for final in (False, True):
                            if blanks and not final:
                                continue
                            run.case(('tsv', 0, job[1], job[2], newline, header, blanks, final))
        elif kind == 'tsv names':
            for rows in (1, 3):
                for delimiter in DELIMITERS[:2]:
                    run.case(('tsv', job[1], rows, delimiter, '\n', 0, 0, True))
        elif kind == 'twice':
            for delimiter in DELIMITERS[:2]:
                for rows in ((('a', (1, 2)), ('a', (3,))), (('a', (1, 2)), ('b', (1, 2)), ('a', (1, 2)))):
                    run.case(('twice', delimiter, rows))
        elif kind == 'long':
            for newline in NEWLINES:
                for rows in range(len(LONG_ROWS)):
                    run.case(('long', rows, job[1], newline))
        elif kind == 'wide':
            for shape in ('folders', 'files', 'both', 'rows'):
                for reverse in (False, True):
                    run.case(('wide', job[1], job[2], shape, reverse))
        else:
            _, filetype, prefix, more, every = job
            slots = SLOTS[filetype]
            for rest in combinations(range((prefix[-1] + 1) if prefix else 0, len(slots)), more):
                chosen = prefix + rest
                root = sorted(set(slots[i][0].split('/')[0] for i in chosen))
                orders = list(permutations(range(len(root))))
                if not every:
                    orders = orders[:1] + orders[-1:]
                for order in orders:
                    for reverse in (False, True):
                        run.case(('tree', filetype, chosen, order, reverse))
                if not rest or len(rest) == more and chosen[-1] % 3 == 0:
                    run.case(('existing', filetype, chosen))

    def judge(self, case, run):
        return getattr(self, 'judge_' + case[0])(case, run)

    def judge_twice(self, case, run):
        path = self.path('twice.tsv')
        self.write(path, table(case[2], case[1], '\n'))
        result = run.call(self.segeval.input_linear_mass_tsv, path, case[1])
        run.compared('twice')
        if not isinstance(result, Raised) or not isinstance(result.exception, self.error):
            yield 'rows %r gave %r' % (case[2], result)

    def judge_long(self, case, run):
        '''Large masses and long rows.'''
        _, rows, delimiter, newline = case
        path = self.path('long.tsv')
        rows = LONG_ROWS[rows]
        for read, given in ((self.segeval.input_linear_mass_tsv, rows), (self.positions_tsv, tuple(
                (coder, tuple(i + 1 for i, mass in enumerate(masses) for _ in range(mass))) for coder, masses in rows))
                if sum(sum(masses) for _, masses in rows) < 10 ** 5 else (None, None)):
            if read is None:
                continue
            self.write(path, table(given, delimiter, newline))
            result = run.call(read, path, delimiter)
            run.compared(len(rows))
            if isinstance(result, Raised) or codings(result) != {'long': {coder: list(masses) for coder, masses in rows}}:
                yield 'loaded %s of %s' % (repr(result)[:500], repr(given)[:500])

    def judge_tsv(self, case, run):
        _, name, rows, delimiter, newline, header, blanks, final = case
        path = self.path(TSV_NAMES[name])
        rows = TSV_ROWS[rows]
        self.write(path, table(rows, delimiter, newline, HEADERS[header], blanks, final))
        read = self.segeval.input_linear_mass_tsv
        results = [('load', run.call(read, path, delimiter)), ('named', run.call(read, path, delimiter=delimiter))]
        if delimiter == '\t':
            results.append(('default', run.call(read, path)))
        expected = {TSV_STEMS[name]: {coder: list(masses) for coder, masses in rows}}
        for label, result in results:
            run.compared((len(rows), blanks))
            if isinstance(result, Raised):
                yield '%s: %r' % (label, result)
            elif codings(result) != expected:
                yield '%s: %r, expected %r' % (label, dict(result), expected)
            elif set(result.coders) != set(coder for coder, _ in rows):
                yield '%s: coders %r' % (label, result.coders)
        # Position files of the same segmentations
        positions = tuple((coder, tuple(i + 1 for i, mass in enumerate(masses) for _ in range(mass)))
                          for coder, masses in rows)
        self.write(path, table(positions, delimiter, newline, HEADERS[header], blanks, final))
        result = run.call(self.positions_tsv, path, delimiter)
        run.compared(len(rows))
        if isinstance(result, Raised) or codings(result) != expected:
            yield 'positions: %r, expected %r' % (result, expected)

    def build(self, filetype, chosen):
        '''Make the tree; the model is (codings, duplicate?).'''
        root = self.fresh()
        elsewhere = self.fresh('elsewhere')
        expected, duplicate = {}, False
        for index in chosen:
            name, content = SLOTS[filetype][index]
            parts = name.rstrip('/').split('/')
            path = os.path.join(root, *parts)
            if parts[0].startswith('link'):
                # A symbolic link to a file or folder somewhere else
                os.symlink(os.path.join(elsewhere, parts[0]), os.path.join(root, parts[0]))
                path = os.path.join(elsewhere, *parts)
            directory = path if name.endswith('/') else os.path.dirname(path)
            if not os.path.isdir(directory):
                os.makedirs(directory)
            if content is None:
                continue
            if not isinstance(content, dict):
                self.write(path, content)
                continue
            if filetype.endswith('json'):
                self.write(path, json.dumps({'segmentation_type': 'linear', 'items': content}))
            else:
                self.write(path, table(list(content.values())[0].items(), '\t', '\n'))
            for item, row in content.items():
                item = ','.join(name.split('/')[:-1] + [item])
                held = expected.setdefault(item, {})
                for coder, masses in row.items():
                    duplicate = duplicate or coder in held
                    held[coder] = list(masses)
        return root, expected, duplicate

    def load(self, run, root, order, reverse, filetype, **kwargs):
        '''Load the tree with listings in the given order.'''
        listdir, scandir = os.listdir, os.scandir
        top = os.path.realpath(root)

        def arranged(path, names):
            names = sorted(names)
            text = os.fspath(path)
            if os.path.realpath(text) == top and len(names) == len(order):
                return [names[i] for i in order]
            return list(reversed(names)) if reverse else names

        def patched_listdir(path='.'):
            if isinstance(path, int) or isinstance(path, bytes):
                return listdir(path)
            return arranged(path, listdir(path))

        def patched_scandir(path='.'):
            if isinstance(path, int) or isinstance(path, bytes):
                return scandir(path)
            with scandir(path) as entries:
                named = {entry.name: entry for entry in entries}
            return Listing([named[name] for name in arranged(path, named)])

        os.listdir, os.scandir = patched_listdir, patched_scandir
        try:
            return run.call(self.segeval.load_nested_folders_dict, root, filetype.split()[-1], **kwargs)
        finally:
            os.listdir, os.scandir = listdir, scandir

    def compare(self, result, expected, duplicate):
        if duplicate:
            if not isinstance(result, Raised) or not isinstance(result.exception, self.error):
                return 'a coder occurs twice, but: %r' % (result,)
            return None
        if isinstance(result, Raised):
            return repr(result)
        # An item without coders may or may not be listed
        found = {item: row for item, row in codings(result).items() if row}
        if found != {item: row for item, row in expected.items() if row}:
            return '%r, expected %r' % (found, expected)
        if set(result.coders) != set(coder for row in expected.values() for coder in row):
            return 'coders %r of %r' % (result.coders, found)
        return None

    def judge_tree(self, case, run):
        _, filetype, chosen, order, reverse = case
        names = [SLOTS[filetype][i][0] for i in chosen]
        if getattr(self, 'built', (None,))[0] != (self.scratch, filetype, chosen):
            self.built = ((self.scratch, filetype, chosen), self.build(filetype, chosen))
        root, expected, duplicate = self.built[1]
        result = self.load(run, root, order, reverse, filetype)
        run.compared((filetype, duplicate, len(expected)))
        problem = self.compare(result, expected, duplicate)
        if problem:
            yield '%r in order %r: %s' % (names, order, problem)

    def judge_wide(self, case, run):
        '''Many folders, many files in a folder, many coders or items in a file.'''
        _, filetype, count, shape, reverse = case
        root = self.fresh()
        expected = {}
        tsv = filetype.endswith('tsv')
        ending = '.tsv' if tsv else '.json'
        files = []
        for i in range(count):
            number = i * 37 % count if count % 37 else i
            if shape in ('folders', 'both'):
                files.append(('d%d/' % number, 'f', {'c%d' % i: [i + 1, 2]}))
            if shape in ('files', 'both'):
                files.append(('', 'f%d' % number, {'c%d' % i: [i + 1, 2]}))
        if shape == 'rows':
            files.append(('d/', 'f', dict(('c%d' % (count - i), [i + 1, 2]) for i in range(count))))
        for folder, stem, row in files:
            os.makedirs(os.path.join(root, folder), exist_ok=True)
            path = os.path.join(root, folder, stem + ending)
            if tsv:
                self.write(path, table(row.items(), '\t', '\n'))
            else:
                self.write(path, json.dumps({'segmentation_type': 'linear', 'items': {stem: row}}))
            expected[folder.replace('/', ',') + stem] = row
        result = self.load(run, root, (), reverse, filetype)
        run.compared((shape, count))
        problem = self.compare(result, expected, False)
        if problem:
            yield '%d %s: %s' % (count, shape, problem[:600])

    def judge_existing(self, case, run):
        '''Loading into a dataset, and loading twice.'''
        _, filetype, chosen = case
        self.built = (None,)
        root, expected, duplicate = self.build(filetype, chosen)
        order, names = (), [SLOTS[filetype][i][0] for i in chosen]
        first = self.load(run, root, order, False, filetype)
        problem = self.compare(first, expected, duplicate)
        if not isinstance(first, Raised):
            for row in first.values():
                row['added'] = (1,)
            first['other']['added'] = (1,)
            first.coders.add('added')
            first.properties['added'] = 1
        second = self.load(run, root + os.sep, order, True, filetype)
        run.compared((filetype, 'again'))
        problem = problem or self.compare(second, expected, duplicate)
        if not problem and not duplicate and (second is first or 'added' in second.properties):
            problem = 'results of two loads are connected'
        if problem:
            yield '%r: %s' % (names, problem)
            return
        for given in ({'old': {'o': (2,)}}, {'x': {'o': (2,)}, 'a': {'o': (1,)}}, {'x': {'c1': (9,)}, 'a': {'c1': (9,)}}):
            dataset = self.segeval.Dataset(copy.deepcopy(given))
            union = copy.deepcopy(expected)
            clash = duplicate
            for item, row in given.items():
                for coder, masses in row.items():
                    clash = clash or coder in union.get(item, ())
                    union.setdefault(item, {})[coder] = list(masses)
            result = self.load(run, root, order, False, filetype, dataset=dataset)
            run.compared((filetype, clash))
            problem = self.compare(result, union, clash)
            if not problem and not clash:
                problem = self.compare(dataset, union, clash)
            if problem:
                yield '%r into %r: %s' % (names, given, problem)
                return
