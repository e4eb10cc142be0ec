#!/usr/bin/env python3
"""run.py setup | check <property> | replay <file> | seeds <property> <first> <count>"""
import json, os, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'py'))
import common, checks

def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ''
    try:
        if cmd == 'setup': return checks.setup()
        if cmd == 'check': return checks.check(sys.argv[2])
        if cmd == 'replay': return checks.replay(sys.argv[2])
        if cmd == 'determinism': return checks.determinism(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    except common.HarnessError as e:
        sys.stderr.write('harness error: %s\n' % e)
        return 3
    sys.stderr.write(__doc__ + '\n')
    return 2

if __name__ == '__main__':
    sys.exit(main())
