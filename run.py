#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--only REGEX]
   run.py replay <file>
   run.py setup"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.abspath(__file__)))

from mc import build, engine


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    pos = []
    i = 0
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]
            i += 2
        elif a[i] == '--only':
            only = a[i + 1]
            i += 2
        else:
            pos.append(a[i])
            i += 1
    if pos[0] == 'setup':
        build.main.__globals__['sys'].argv = ['build']
        build.main()
        return 0
    if pos[0] == 'replay':
        return engine.replay(pos[1])
    rc = 0
    for p in pos:
        rc |= engine.Runner(p, tier, only).go()
    return rc


if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as e:
        print(e)
        rc = 2
    except SystemExit as e:
        if e.code and not isinstance(e.code, int):
            print(e.code)
            rc = 2
        else:
            raise
    sys.stdout.flush()
    sys.exit(rc)
