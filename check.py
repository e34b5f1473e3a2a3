#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
sys.dont_write_bytecode = True
from vsa import report, checks

if __name__ == '__main__':
    # the order of a set of strings decides which of two equal bounds an
    # analysis meets first: fix it, so that every run is the same run
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    prop = sys.argv[1]
    if prop == '--selfcheck':
        import shutil
        assert shutil.which('clang-18'), 'clang-18 is needed'
        print('checks:', ' '.join(sorted(checks.CHECKS)))
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    sys.exit(report.main(prop, checks.CHECKS[prop], tier))
