'''python -m mc.run ID [quick|thorough]'''
from __future__ import print_function
import os
import sys
from mc import core
from mc.checks.registry import load


def main():
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    return core.run_check(load(sys.argv[1]), tier)


if __name__ == '__main__':
    status = main()
    sys.stdout.flush()
    os._exit(status)
