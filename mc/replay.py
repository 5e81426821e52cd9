'''python -m mc.replay FILE: evaluate the one case of a violation again, without the explorer.'''
from __future__ import print_function
import json
import sys
from mc import core
from mc.checks.registry import load


def main():
    with open(sys.argv[1]) as handle:
        record = json.load(handle)
    check = load(record['property'])
    with core.Scratch():
        return replay(check, record)


def replay(check, record):
    core.use_repo()
    check.setup()
    case = eval(record['case'], dict(core.NAMESPACE))
    run = core.Run(check, tuple(core.findings_of(check.ID)))
    problems = list(run.problems(case))
    print('case: %r' % (case,))
    for problem in problems:
        print('problem: %s' % problem)
    print('%d problem(s); recorded: %s' % (len(problems), record['problem']))
    return 1 if problems else 0


if __name__ == '__main__':
    sys.exit(main())
