#!/usr/bin/env python3
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
    from vm.report import Report
    R = Report(pid)
    try:
        from vm import registry
        registry.CHECKS[pid](R)
    except Exception:
        traceback.print_exc()
        R.error('internal error of the analysis')
    sys.exit(R.finish())
main()
