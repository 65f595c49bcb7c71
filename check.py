#!/usr/bin/env python3
"""check.py <property>: decides one property on the working tree in /repo."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
    os.environ['VERIF_TIER'] = sys.argv[2]
import vlib

def main():
    pid = sys.argv[1]
    ck = vlib.Check(pid)
    try:
        importlib.import_module('checks.' + pid.lower()).run(ck)
    except vlib.BuildFail as e:
        # The harnesses only use the public API; a tree they cannot be built with gives no answer.
        print('check could not be built: %s' % e)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3 if not ck.viol else 1)
    sys.exit(ck.finish())
main()
