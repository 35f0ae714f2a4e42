#!/usr/bin/env python3-vt
"""python3-vt /verif/check.py <property id> [--thorough] [--replay FILE]"""
import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':       # the same terms in the same order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [HERE + '/vc', HERE + '/props']
sys.setrecursionlimit(20000)
if __name__ == '__main__':
    import runner
    prop = importlib.import_module(sys.argv[1].lower())
    sys.exit(runner.run_property(prop, sys.argv[2:]))
