'''C19: the lazily resolved public names, for every order of first accesses.'''
from __future__ import division
import json
import subprocess
import sys
import importlib
from mc import core
from mc.core import Check, Raised, Bytecode, forget_package

# Documented names and where else they are documented to live
DOCUMENTED = {
    'segeval.agreement': ['actual_agreement_linear'],
    'segeval.agreement.bias': ['artstein_poesio_bias_linear'],
    'segeval.agreement.kappa': ['fleiss_kappa_linear'],
    'segeval.agreement.pi': ['fleiss_pi_linear'],
    'segeval.data': ['Dataset', 'load_nested_folders_dict'],
    'segeval.data.jsonutils': ['Field', 'input_linear_mass_json', 'output_linear_mass_json'],
    'segeval.data.tsv': ['input_linear_mass_tsv'],
    'segeval.data.samples': ['KAZANTSEVA2012_G5', 'KAZANTSEVA2012_G2', 'COMPLETE_AGREEMENT', 'LARGE_DISAGREEMENT',
                             'HEARST_1997_STARGAZER', 'HYPOTHESIS_STARGAZER'],
    'segeval.ml': ['Average', 'precision', 'recall', 'fmeasure', 'ConfusionMatrix'],
    'segeval.similarity': ['boundary_confusion_matrix', 'boundary_statistics'],
    'segeval.similarity.boundary': ['boundary_similarity'],
    'segeval.similarity.segmentation': ['segmentation_similarity'],
    'segeval.similarity.distance.multipleboundary': ['boundary_edit_distance'],
    'segeval.similarity.weight': ['weight_a', 'weight_s', 'weight_s_scale', 'weight_t', 'weight_t_scale'],
    'segeval.window': ['compute_window_size'],
    'segeval.window.pk': ['pk'],
    'segeval.window.windowdiff': ['window_diff'],
    'segeval.compute': ['summarize'],
    'segeval.format': ['BoundaryFormat', 'boundary_string_from_masses', 'convert_positions_to_masses',
                       'convert_masses_to_positions', 'convert_nltk_to_masses'],
}
HOME = {name: home for home, names in DOCUMENTED.items() for name in names}
MODULES = sorted(DOCUMENTED) + ['segeval.metric', 'segeval.similarity.distance', 'segeval.util', 'segeval.util.lang',
                                'segeval.util.math']
UNKNOWN = ('nonexistent', 'Pk', 'summarise', '__nonexistent__', '_', 'test_pk', 'Weight_a', 'pkk', 'p', 'window.pk',
           'kappa', 'boundary', 'Decimal', 'DataIOError')

NAMES = [name for home in sorted(DOCUMENTED) for name in DOCUMENTED[home]]
ACTIONS = ([('get', name) for name in NAMES] + [('from', name) for name in NAMES] +
           [('import', name) for name in MODULES] +
           [('star',), ('dir',), ('unknown', 'nonexistent'), ('hasattr', '__nonexistent__'), ('from', 'nonexistent')])
# One name per module it comes from, every module, and the rest
FEW = ([('get', DOCUMENTED[home][-1]) for home in sorted(DOCUMENTED)] + [('import', name) for name in MODULES] +
       [('star',), ('dir',), ('unknown', 'nonexistent')])
# For the deeper search of the quick tier
LEAST = [action for action in FEW if action[0] in ('get', 'star') or action[1:] and action[1] not in DOCUMENTED]


def act(action, seen):
    '''Perform one access; a problem or None. seen: name -> object it resolved to so far.'''
    import segeval
    kind = action[0]

    def note(name, value):
        if seen.setdefault(name, value) is not value:
            return '%s became another object' % name
        return None

    if kind == 'get':
        return note(action[1], getattr(segeval, action[1]))
    if kind == 'from':
        space = {}
        try:
            exec('from segeval import %s' % action[1], space)
        except ImportError:
            if action[1] in HOME:
                raise
            return None
        if action[1] not in HOME:
            return 'from segeval import %s succeeded' % action[1]
        return note(action[1], space[action[1]])
    if kind == 'import':
        # As "import a.b.c" does, then through the documented path
        module = importlib.import_module(action[1])
        for name in DOCUMENTED.get(action[1], ()):
            problem = note(name, getattr(module, name))
            if problem:
                return problem
        return None
    if kind == 'star':
        space = {}
        exec('from segeval import *', space)
        for name in segeval.__all__:
            if name not in space:
                return '%s is not imported by *' % name
            problem = note(name, space[name])
            if problem:
                return problem
        return None
    if kind == 'dir':
        missing = set(NAMES + list(segeval.__all__)) - set(dir(segeval))
        return 'not listed: %r' % sorted(missing) if missing else None
    if kind == 'hasattr':
        return '%s exists' % action[1] if hasattr(segeval, action[1]) else None
    try:
        value = getattr(segeval, action[1])
    except AttributeError:
        return None
    return '%s is %r' % (action[1], value)


def visit(actions, loose=False):
    '''From a fresh package: perform the actions, then look at everything.'''
    seen = {}
    before = None
    for index, action in enumerate(actions):
        try:
            problem = act(action, seen)
        except Exception as exception:
            problem = repr(Raised(exception))
        if problem:
            return 'action %d: %s' % (index + 1, problem), before
    import segeval
    before = state()
    final = [('dir',)] + [('unknown', name) for name in UNKNOWN] + [('get', name) for name in NAMES + list(segeval.__all__)]
    if not loose:
        final += [('import', name) for name in MODULES] + [('star',), ('dir',)] + [('get', name) for name in NAMES]
    for action in final:
        try:
            problem = act(action, seen)
        except Exception as exception:
            problem = repr(Raised(exception))
        if problem:
            return 'afterwards, %r: %s' % (action, problem), before
    missing = set(NAMES) - set(segeval.__all__)
    if missing:
        return 'not announced: %r' % sorted(missing), before
    return None, before


def state():
    '''Which modules are loaded and which names bound.'''
    loaded = sorted(name for name in sys.modules if name == 'segeval' or name.startswith('segeval.'))
    return loaded, sorted(name for name in vars(sys.modules['segeval']) if name in HOME)


class C19(Check):
    JIT = False
    TASKS = 1
    RULE = ('explicit-state search over first accesses: a state is the set of loaded modules and bound names, found by '
            'performing a sequence of accesses on a freshly imported package; from every new state every access is '
            'performed; single accesses (thorough: and pairs) also in fresh interpreters, whose state must be the same')
    ASSUMPTIONS = ('one thread', 'removing all modules of the package from sys.modules gives a fresh package (compared with '
                   'fresh interpreters)')
    BOUNDS = {
        'quick': 'all %d accesses in fresh interpreters; all ordered pairs of %d accesses; depth 3 from every state over %d accesses'
                 % (len(ACTIONS), len(ACTIONS), len(LEAST)),
        'thorough': 'all pairs of %d accesses in fresh interpreters, depth 3 over %d accesses, depth 4 over %d'
                    % (len(FEW), len(ACTIONS), len(FEW))}

    def setup(self):
        pass

    def jobs(self, tier):
        jobs = [('fresh', (action,)) for action in ACTIONS]
        jobs += [('fresh', ())]
        jobs += [('pairs', (action,)) for action in ACTIONS]
        if tier == 'quick':
            jobs += [('search', (action,), 3, 'least') for action in LEAST]
        else:
            jobs += [('search', (action,), 4, 'few') for action in FEW]
            jobs += [('search', (action,), 3, 'all') for action in ACTIONS]
            jobs += [('fresh pairs', (action,)) for action in FEW]
        return jobs

    def explore(self, job, run):
        kind, prefix = job[:2]
        if kind == 'fresh':
            run.case(('fresh', prefix))
        elif kind == 'fresh pairs':
            for action in FEW:
                run.case(('fresh', prefix + (action,)))
        elif kind == 'pairs':
            for action in ACTIONS:
                run.case(('here', prefix + (action,)))
        else:
            alphabet = {'least': LEAST, 'few': FEW, 'all': ACTIONS}[job[3]]
            frontier, visited = [prefix], set()
            for depth in range(1, job[2]):
                following = []
                for path in frontier:
                    for action in alphabet:
                        run.case(('here', path + (action,)))
                        if run.stop:
                            return
                        key = repr(self.reached)
                        if key not in visited:
                            visited.add(key)
                            run.compared(key)
                            following.append(path + (action,))
                frontier = following
            run.add('package_states', len(visited))

    def check(self, case, run):
        kind, actions = case
        run.calls += len(actions)
        if kind == 'here':
            with Bytecode():
                forget_package()
                problem, self.reached = visit(actions, loose=len(actions) > 2)
            run.compared(len(actions))
            if problem:
                yield problem
            return
        forget_package()
        problem, here = visit(actions)
        found, there = self.fresh(actions)
        run.compared(repr(here))
        run.compared(repr(there))
        if found or problem:
            yield found or problem
        elif list(here) != there:
            yield 'a fresh interpreter has %r, a fresh package %r' % (there, here)

    def fresh(self, actions):
        code = ('import sys\nsys.path.insert(0, %r)\nsys.path.insert(0, %r)\nimport json\nfrom mc.checks import namespace\n'
                'assert "segeval" not in sys.modules\nprint(json.dumps(namespace.visit(%r)))\n'
                % (core.VERIF, core.REPO, actions))
        process = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-c', code], stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE)
        if process.returncode:
            return process.stderr.decode('utf-8', 'replace')[-1000:], None
        return json.loads(process.stdout.decode('utf-8'))
