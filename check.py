#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--tier quick|thorough]: decides one property on /repo's current tree.
exit 0 held, 1 violated (VIOLATION line), 2 the analysis could not be carried out."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/lib', HERE + '/checks']
import prog


def main():
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        mod = importlib.import_module(pid)
        return mod.run(tier).finish()
    except prog.ToolError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 2


sys.exit(main())
