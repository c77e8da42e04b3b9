#!/usr/bin/env python3
"""check.py <property> quick|thorough     decide one property on /repo's tree
   check.py --replay <file>               run a reported violation again
   check.py --setup                       check that the tools are there"""
import os, shutil, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import run, specs

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        ok = shutil.which(run.CLANG) is not None
        print('compiler:', run.CLANG, 'ok' if ok else 'MISSING')
        sys.exit(0 if ok else 1)
    if a[:1] == ['--replay']:
        sys.exit(run.replay(a[1], specs.SPECS))
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(run.main(a[0], tier, specs.SPECS[a[0]]))
