#!/usr/bin/env python3
'''Writes /verif/MANIFEST.json.'''
import json, os
TREE = 'bounded exhaustive state exploration of the real code, every state compared with a reference model'
HIST = 'explicit-state exploration of all operation histories up to a depth on the real code, lock-step with a model'
TECHNIQUE = {
    'C13': HIST, 'C15': HIST, 'C16': HIST, 'C20': HIST,
    'C17': 'exhaustive histories, crash points (all prefixes) and write faults (all byte limits) on the real code, lock-step with a model',
    'C18': 'exhaustive exploration of folder trees and directory listing orders on the real code, compared with a model',
    'C19': 'explicit-state search over import/access orders of the real package, validated in fresh interpreters',
    'C21': 'stateless model checking: all two-thread schedules up to a preemption bound on the real code under a controlled scheduler',
    'C26': 'stateless model checking: all two-thread schedules of first accesses with one preemption on the freshly imported real package under a controlled scheduler',
    'C27': 'exhaustive fault injection: an interruption at every point of every call on the real code, state compared with snapshots and fresh results',
}
NOTE = {
    'C13': 'Exhaustive within the bounds in evidence: every way of assembling every dataset of the bounded space.',
    'C19': 'Exhaustive over access sequences up to depth 3 (quick) or 4 (thorough) with state hashing; assumes that purging modules is a fresh start, which is compared with fresh interpreters.',
    'C20': 'Exhaustive over histories of two calls with a change of input or result in between (thorough: three calls) out of a fixed catalogue of 211 calls and 1260 option combinations.',
    'C21': 'Exhaustive over schedules with one preemption between two lines, two for short calls (thorough: two for all, and between byte codes) for fixed small inputs; preemption inside built-ins is not explored.',
    'C26': 'Exhaustive over schedules with one preemption between two lines for a fixed catalogue of pairs of first accesses and first calls; preemption within the import machinery is not explored.',
    'C27': 'Exhaustive over the points between lines for a fixed catalogue of calls with small inputs; interruption within built-ins is not explored.',
    'C17': 'Exhaustive over the stated names, datasets, histories, truncation points and write limits; write faults are those of a file size limit.',
}
GENERAL = 'Exhaustive within the bounds recorded in the evidence file; trusts the reference model mc/ref.py and the interpreter; nothing is sampled.'
ids = [json.loads(line)['id'] for line in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
manifest = {
    'version': 1, 'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': i, 'quick_cmd': 'bash check.sh %s quick' % i, 'thorough_cmd': 'bash check.sh %s thorough' % i,
        'technique': TECHNIQUE.get(i, TREE), 'level': 'model_checking', 'level_note': NOTE.get(i, GENERAL)} for i in ids],
    'not_applicable': [],
    'notes': 'No hooks in /repo. All checks run the package from /repo with /opt/venv/bin/python (PyPy 3.9). See DESIGN.md.'}
with open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w') as handle:
    json.dump(manifest, handle, indent=1)
    handle.write('\n')
