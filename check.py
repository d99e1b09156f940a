#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough [-v] [-o SUBSTRING]   decides one property on the current tree of /repo
check.py --selftest                                       translator self-check (setup)"""
import os
import sys

PY = '/opt/veriftools/pyvenv/bin/python3'


def main():
    if os.environ.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        os.execve(PY, [PY, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    args = sys.argv[1:]
    verbose = '-v' in args
    only = None
    if '-o' in args:
        i = args.index('-o')
        only = args[i + 1]
        del args[i:i + 2]
    args = [a for a in args if a != '-v']
    if args and args[0] == '--selftest':
        from symx import selftest
        return selftest.main()
    from symx import runner
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return runner.run_property(args[0], tier, only, verbose)


if __name__ == '__main__':
    sys.exit(main())
