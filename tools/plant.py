'''Confirm planted bugs and keep them under /verif/seeded.

usage: python3 tools/plant.py SPEC.py [NAME...]      confirm bugs of a spec file, store them, run their check
       python3 tools/plant.py --again [NAME...]      run the check of the property of every kept bug

A spec file defines PLANTS: a list of dicts with name, property, needs, breaks, edits [(file, old, new)...], demo.
Works on throw-away copies of /repo only.
'''
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'b9764a7'
SEEDED = os.path.join(VERIF, 'seeded')
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python -W ignore -B "$here/demo.py"
'''
TEST = ('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 '
        '/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p pytest_timeout --timeout=300 --disable-warnings '
        "-o python_files='*test.py' segeval")


def sh(command, cwd, env=None, timeout=1000):
    env = dict(os.environ, **(env or {}))
    try:
        result = subprocess.run(['bash', '-c', command], cwd=cwd, env=env, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return result.returncode, result.stdout.decode('utf-8', 'replace')


def copy_repo():
    scratch = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    tree = os.path.join(scratch, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', tree])
    return scratch, tree


def run_check(prop, tree, workers):
    began = time.time()
    copy = os.path.join(os.path.dirname(tree), 'verif')
    shutil.copytree(VERIF, copy, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
    code, out = sh('bash check.sh %s quick' % prop, copy, {'MC_REPO': tree, 'MC_WORKERS': str(workers), 'VERIF_SEED': '1'})
    caught = code == 1 and ('VIOLATION property=%s ' % prop) in out
    return caught, code, time.time() - began, out


def plant(spec, workers=3):
    name = spec['name']
    scratch, tree = copy_repo()
    try:
        for path, old, new in spec['edits']:
            full = os.path.join(tree, path)
            with open(full) as handle:
                text = handle.read()
            if text.count(old) != 1:
                return name, 'BAD: %d occurrences of %r in %s' % (text.count(old), old, path)
            with open(full, 'w') as handle:
                handle.write(text.replace(old, new))
        code, diff = sh('git diff', tree)
        removed = [line[1:] for line in diff.splitlines() if line.startswith('-') and not line.startswith('---')]
        original = ''
        for path in set(edit[0] for edit in spec['edits']):
            original += sh('git show %s:%s' % (BASE, path), tree)[1]
        if not any(line.strip() and line in original.splitlines() for line in removed):
            return name, 'BAD: changes no original line'
        code, out = sh(TEST, tree)
        if code or '216 passed' not in out:
            return name, 'BAD: tests: ' + '\n'.join(line for line in out.splitlines() if line.startswith(('FAILED', 'E  ')))[:600]
        target = os.path.join(scratch, 'seed')
        os.mkdir(target)
        with open(os.path.join(target, 'demo.sh'), 'w') as handle:
            handle.write(DEMO_SH)
        with open(os.path.join(target, 'demo.py'), 'w') as handle:
            handle.write(spec['demo'].lstrip('\n'))
        with open(os.path.join(target, 'patch.diff'), 'w') as handle:
            handle.write(diff)
        with open(os.path.join(target, 'meta.json'), 'w') as handle:
            json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, handle, indent=1)
            handle.write('\n')
        demo = os.path.join(target, 'demo.sh')
        code, out = sh('bash ' + demo, tree)
        if code == 0:
            return name, 'BAD: demo passes with the change'
        bad = out.strip().splitlines()[-1:] or ['']
        code, out = sh('bash ' + demo, '/repo')
        if code != 0:
            return name, 'BAD: demo fails without the change: ' + out[-600:]
        kept = os.path.join(SEEDED, name)
        if os.path.isdir(kept):
            shutil.rmtree(kept)
        shutil.copytree(target, kept)
        caught, code, took, out = run_check(spec['property'], tree, workers)
        line = [l for l in out.splitlines() if l.startswith(('problem:', 'ERROR'))][:1]
        return name, '%s by %s (exit %d, %.0f s)  demo: %s  %s' % (
            'caught' if caught else 'MISSED', spec['property'], code, took, bad[0][:120], line[0][:200] if line else '')
    finally:
        shutil.rmtree(scratch)


def again(name, workers=3):
    with open(os.path.join(SEEDED, name, 'meta.json')) as handle:
        prop = json.load(handle)['property']
    scratch, tree = copy_repo()
    try:
        code, out = sh('git apply ' + os.path.join(SEEDED, name, 'patch.diff'), tree)
        if code:
            return name, 'BAD: ' + out[-300:]
        caught, code, took, out = run_check(prop, tree, workers)
        return name, '%s by %s (exit %d, %.0f s)' % ('caught' if caught else 'MISSED', prop, code, took)
    finally:
        shutil.rmtree(scratch)


def main(arguments):
    parallel = int(os.environ.get('PLANT_PARALLEL', '3'))
    with ThreadPoolExecutor(parallel) as pool:
        if arguments[0] == '--again':
            results = pool.map(again, arguments[1:] or sorted(os.listdir(SEEDED)))
        else:
            scope = {}
            with open(arguments[0]) as handle:
                exec(handle.read(), scope)
            results = pool.map(plant, [spec for spec in scope['PLANTS'] if not arguments[1:] or spec['name'] in arguments[1:]])
        for name, result in results:
            print('%-36s %s' % (name, result), flush=True)


main(sys.argv[1:])
