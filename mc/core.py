'''Explorer framework: runs the jobs of a check on all cores, counts what was covered, writes
evidence, reports violations with a replayable file, and knows the listed findings.

A check (see mc/checks) is an object with

* ``ID``, ``RULE`` (how the state space is made), ``ASSUMPTIONS``,
* ``jobs(tier)`` -> list of picklable job descriptors, simplest first,
* ``explore(job, run)`` -> enumerates the cases of a job and calls ``run.case(case)`` for each,
* ``check(case, run)`` -> yields one problem description per deviation from the reference model.

A case is a plain Python value that can be written with repr() and read back with eval(), so every
violation is replayed by ``check`` on exactly that value (python -m mc.replay FILE).
'''
from __future__ import print_function
import errno
import os
import re
import sys
import time
import json
import signal
import hashlib
import resource
import shutil
import tempfile
import traceback
import multiprocessing
from decimal import Decimal
from fractions import Fraction
try:
    import pypyjit
except ImportError:
    pypyjit = None

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
WORKERS = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 2)
HANG_S = 60      # one case that takes longer than this does not terminate
NAMESPACE = {'frozenset': frozenset, 'Decimal': Decimal, 'Fraction': Fraction, 'set': set}


class Hang(BaseException):
    '''A single case exceeded HANG_S.'''


class Raised(object):
    '''What a call into the implementation raised instead of returning.'''

    def __init__(self, exception):
        self.exception = exception
        self.name = type(exception).__name__

    def __repr__(self):
        return 'raised %s(%s)' % (self.name, str(self.exception)[:200])


class Run(object):
    '''Counters and findings of one job (merged over jobs by the driver).'''

    MAX_VIOLATIONS = 5

    def __init__(self, check, findings=()):
        self.check = check
        self.findings = findings        # ids of listed findings of this property
        self.states = 0                 # distinct configurations visited
        self.calls = 0                  # operations of the implementation executed
        self.traces = 0                 # comparisons of a model result with the implementation's
        self.outcomes = set()           # distinct observed results (hashed)
        self.samples = []
        self.violations = []
        self.known = {}                 # finding id -> first case
        self.seq = 0
        self.current = None
        self.stop = False
        self.extra = {}

    # -- used by checks -------------------------------------------------------
    def call(self, function, *args, **kwargs):
        '''One operation of the implementation.'''
        self.calls += 1
        try:
            return function(*args, **kwargs)
        except (Hang, KeyboardInterrupt):
            raise
        except BaseException as exception:     # SystemExit etc. of changed code included
            return Raised(exception)

    def compared(self, outcome=None):
        self.traces += 1
        if outcome is not None and len(self.outcomes) < 200000:
            self.outcomes.add(outcome if isinstance(outcome, (int, str)) else hash(outcome))

    def finding(self, name, case):
        '''True if a deviation of this kind is a listed finding.'''
        if name in self.findings:
            self.known.setdefault(name, repr(case)[:300])
            return True
        return False

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def case(self, case, states=1):
        '''Visit one case: evaluate the check on it.'''
        if self.stop:
            return
        self.seq += 1
        self.states += states
        self.current = case
        if self.seq in (2, 1000) or (self.seq == 1 and not self.samples):
            self.samples.append(repr(case)[:400])
        for problem in self.problems(case):
            self.violations.append((repr(case), problem))
            if len(self.violations) >= self.MAX_VIOLATIONS:
                self.stop = True
            break

    def problems(self, case):
        '''What the check has to say about a case. Results of a kind the check cannot even work with (it raises)
        deviate too: it never raises on the results the package is documented to give.'''
        try:
            for problem in self.check.check(case, self):
                yield problem
        except Exception as exception:
            if isinstance(exception, OSError) and exception.errno in (errno.ENOSPC, errno.EDQUOT, errno.ENOMEM):
                raise
            yield 'unusable result: ' + traceback.format_exc()[-1500:]


def findings_of(prop):
    '''Listed findings (and repaired ones) of known_findings.txt.'''
    listed = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as handle:
            for line in handle:
                match = re.match(r'finding: property=(\S+) id=(\S+) (.*)', line)
                if match and match.group(1) == prop:
                    listed[match.group(2)] = match.group(3).strip()
    return listed


def use_repo():
    '''Import the package from the working tree under test (never from elsewhere).'''
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import segeval
    origin = os.path.realpath(segeval.__file__)
    if not origin.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('segeval was imported from %s' % origin)
    return segeval


def forget_package():
    '''Remove the package from the interpreter: the next import starts afresh.'''
    for name in list(sys.modules):
        if name == 'segeval' or name.startswith('segeval.'):
            del sys.modules[name]


class Bytecode(object):
    '''Keep byte code of the package in a directory of this process only, so that importing it afresh is quick.'''

    known = None

    def __enter__(self):
        directory = os.path.join(scratch_root(), 'mc-pyc-%d' % os.getpid())
        if Bytecode.known != directory:
            shutil.rmtree(directory, ignore_errors=True)
            Bytecode.known = directory
        self.previous = sys.pycache_prefix, sys.dont_write_bytecode
        sys.pycache_prefix, sys.dont_write_bytecode = directory, False

    def __exit__(self, *_):
        sys.pycache_prefix, sys.dont_write_bytecode = self.previous


def fresh_package():
    '''Import the package afresh, with all of its modules.'''
    forget_package()
    with Bytecode():
        segeval = use_repo()
        for name in segeval.__all__:
            getattr(segeval, name)
    return segeval


_CHECK = None
_TIER = None
_FINDINGS = ()


def _explore(indexed_job):
    '''Executed in a worker process.'''
    index, job = indexed_job
    run = Run(_CHECK, _FINDINGS)
    ticks = {'seq': None, 'since': time.time()}

    def tick(_signum, _frame):
        if ticks['seq'] != run.seq:
            ticks['seq'], ticks['since'] = run.seq, time.time()
        elif time.time() - ticks['since'] > getattr(_CHECK, 'HANG_S', HANG_S):
            ticks['since'] = time.time() + 3600
            raise Hang()

    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 1.0, 1.0)
    error = None
    began = time.time()
    try:
        _CHECK.explore(job, run)
    except Hang:
        run.violations.append((repr(run.current), 'the implementation did not return within %d s'
                               % getattr(_CHECK, 'HANG_S', HANG_S)))
    except Exception:
        error = 'job %r, case %r: %s' % (job, run.current, traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return (index, run.states, run.calls, run.traces, run.outcomes, run.samples[:3], run.violations,
            run.known, run.extra, error, time.time() - began)


def scratch_root():
    base = os.environ.get('TMPDIR', '/tmp')
    return base if os.path.isdir(base) else '/tmp'


def write_replay(check, case, problem, tier):
    directory = os.path.join(VERIF, 'replays', check.ID)
    if not os.path.isdir(directory):
        os.makedirs(directory)
    digest = hashlib.sha1(case.encode('utf-8', 'replace')).hexdigest()[:12]
    path = os.path.join(directory, digest + '.json')
    with open(path, 'w') as handle:
        json.dump({'property': check.ID, 'case': case, 'problem': problem, 'tier': tier,
                   'replay_with': 'cd /verif && bash replay.sh ' + path}, handle, indent=1)
    return path


class Scratch(object):
    '''A scratch directory for everything this run writes.'''

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='mc-run-', dir=scratch_root())
        tempfile.tempdir = os.environ['TMPDIR'] = self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


def run_check(check, tier):
    with Scratch():
        return run_jobs(check, tier)


def run_jobs(check, tier):
    '''Run all jobs of a check; returns the exit status.'''
    global _CHECK, _TIER, _FINDINGS
    began = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    listed = findings_of(check.ID)
    problem = None
    try:
        use_repo()
        check.setup()
    except Exception:
        # The package cannot even be imported or used: nothing of the property holds
        problem = traceback.format_exc()
    if problem:
        path = write_replay(check, repr(None), problem, tier)
        print(problem)
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    jobs = list(enumerate(check.jobs(tier)))
    _CHECK, _TIER, _FINDINGS = check, tier, tuple(listed)
    states = calls = traces = 0
    outcomes, samples, violations, known, extra = set(), [], [], {}, {}
    errors = []
    deadline = began + float(os.environ.get('MC_DEADLINE', '820' if tier == 'quick' else '14000'))
    limit = 3 << 30
    slow = []

    def init():
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        if not check.JIT and pypyjit:
            pypyjit.set_param('off')

    context = multiprocessing.get_context('fork')
    pool = context.Pool(WORKERS * getattr(check, 'CROWD', 1), initializer=init, maxtasksperchild=check.TASKS)
    done = 0
    timed_out = False
    try:
        results = pool.imap_unordered(_explore, jobs, chunksize=1)
        while done < len(jobs):
            try:
                (index, n_states, n_calls, n_traces, n_outcomes, n_samples, n_violations, n_known,
                 n_extra, error, took) = results.next(timeout=max(1.0, deadline - time.time()))
            except multiprocessing.TimeoutError:
                timed_out = True
                break
            done += 1
            slow.append((took, jobs[index][1]))
            states += n_states
            calls += n_calls
            traces += n_traces
            outcomes |= n_outcomes
            for name, value in n_extra.items():
                extra[name] = extra.get(name, 0) + value
            if len(samples) < 6:
                samples.extend(n_samples[-1:])
            for name, case in n_known.items():
                known.setdefault(name, case)
            violations.extend((index, len(case), case, text) for case, text in n_violations)
            if error:
                errors.append(error)
            if violations or errors:
                break
    finally:
        pool.terminate()
        pool.join()
    wall = time.time() - began
    if os.environ.get('MC_VERBOSE'):
        slow.sort(key=lambda entry: -entry[0])
        for took, job in slow[:5]:
            print('  %.2fs %r' % (took, job))
    evidence = {
        'property': check.ID, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': dict({
            'states': states, 'transitions': calls, 'traces_validated_against_impl': traces,
            'distinct_outcomes': len(outcomes), 'jobs': len(jobs), 'jobs_completed': done,
            'samples': samples, 'rule': check.RULE, 'bounds': check.bounds(tier),
            'exhaustive': done == len(jobs) and not violations and not errors,
            'counts': 'states: distinct configurations visited; transitions: operations of the '
                      'implementation executed from them; traces_validated_against_impl: comparisons '
                      'of a reference-model result with what the implementation did',
        }, **extra),
        'assumptions': list(check.ASSUMPTIONS) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(violations)}
    directory = os.path.join(VERIF, 'evidence')
    if not os.path.isdir(directory):
        os.makedirs(directory)
    with open(os.path.join(directory, check.ID + '.json'), 'w') as handle:
        json.dump(evidence, handle, indent=1)
    print('%s %s: %d states, %d transitions, %d comparisons, %d distinct outcomes, %d/%d jobs, %.1f s'
          % (check.ID, tier, states, calls, traces, len(outcomes), done, len(jobs), wall))
    for name in sorted(known):
        print('KNOWN-FINDING: property=%s %s: %s; e.g. %s' % (check.ID, name, listed[name], known[name]))
    if violations:
        violations.sort()
        _, _, case, text = violations[0]
        path = write_replay(check, case, text, tier)
        print('case: %s' % case[:2000])
        print('problem: %s' % text[:2000])
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    if errors:
        print('ERROR of the check: ' + errors[0])
        return 2
    if timed_out and tier == 'quick':
        print('ERROR: not finished within the time limit')
        return 3
    if timed_out:
        print('Stopped at the time limit; the property held on all that was explored (see the evidence)')
    if not states or not traces:
        print('ERROR: nothing was explored')
        return 4
    return 0


COMMON_ASSUMPTIONS = [
    'the interpreter is /opt/venv (PyPy 3.9) and the package is imported from the working tree of /repo',
    'the reference model in mc/ref.py states what is intended',
    'behaviour outside the stated bounds and alphabets is not covered']


class Check(object):
    '''Base of all checks.'''
    RULE = ''
    BOUNDS = {}
    ASSUMPTIONS = ()
    JIT = True      # compiling does not pay when the package is imported afresh all the time
    TASKS = None    # jobs after which a worker process is replaced (to give its memory back)

    @property
    def ID(self):
        return type(self).__name__

    def setup(self):
        '''Import what the check needs from the package under test.'''

    def bounds(self, tier):
        return self.BOUNDS.get(tier, self.BOUNDS.get('quick', ''))

    def jobs(self, tier):
        raise NotImplementedError

    def explore(self, job, run):
        raise NotImplementedError

    def check(self, case, run):
        raise NotImplementedError


# -- numbers ------------------------------------------------------------------
TOLERANCE = Fraction(1, 10 ** 20)


def fraction(value):
    '''The exact value of a number, or None if it is not a finite number.'''
    if isinstance(value, bool):
        return None
    if isinstance(value, (int, Fraction)):
        return Fraction(value)
    if isinstance(value, (Decimal, float)):
        try:
            return Fraction(value)
        except (ValueError, OverflowError):
            return None
    return None


def same(value, expected, tolerance=TOLERANCE):
    '''Whether a number returned by the implementation is the expected fraction.'''
    if isinstance(value, int) and not isinstance(value, bool):
        return value == expected
    actual = fraction(value)
    if actual is None:
        return False
    if actual == expected:
        return True
    return abs(actual - expected) <= tolerance * max(1, abs(expected))
