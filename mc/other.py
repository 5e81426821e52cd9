'''python3 -m mc.other ID JOB: explore one job of a check with the interpreter this runs on; prints what was found.'''
from __future__ import print_function
import json
import os
import subprocess
import sys
from mc import core

CPYTHON = '/usr/bin/python3'


def available():
    return os.path.exists(CPYTHON) and sys.implementation.name != 'cpython'


def elsewhere(prop, job, run):
    '''Problems found by exploring a job under CPython.'''
    environment = dict(os.environ, PYTHONPATH=core.VERIF, MC_REPO=core.REPO)
    child = subprocess.Popen([CPYTHON, '-W', 'ignore', '-B', '-m', 'mc.other', prop, repr(job)], cwd=core.VERIF,
                             env=environment, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = child.communicate()
    except BaseException:
        child.kill()
        child.wait()
        raise
    if child.returncode:
        raise OSError('CPython: status %r: %s' % (child.returncode, err.decode('utf-8', 'replace')[-1500:]))
    found = json.loads(out.decode('utf-8').splitlines()[-1])
    run.states += found['states']
    run.calls += found['calls']
    run.traces += found['traces']
    run.add('states_under_cpython', found['states'])
    for case, problem in found['violations']:
        yield 'under CPython, case %s: %s' % (case, problem)


def main():
    from mc.checks.registry import load
    check = load(sys.argv[1])
    problem = None
    try:
        core.use_repo()
        check.setup()
    except Exception as exception:
        problem = repr(exception)
    run = core.Run(check)
    if problem:
        run.violations.append(('None', problem))
    else:
        check.explore(eval(sys.argv[2]), run)
    print(json.dumps({'states': run.states, 'calls': run.calls, 'traces': run.traces, 'violations': run.violations}))


if __name__ == '__main__':
    main()
