#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current sources."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':       # the same order of everything in every run
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from vlib import prog, report, facts
    mod = importlib.import_module('vlib.checks.' + pid.lower())
    R = report.Report(pid, tier)
    try:
        P = prog.program()
    except SystemExit as e:
        print(f'{pid}: {e}'); return 3
    bad = [e for e in P.raw.errs]
    R.set('translation_units', len(P.raw.tu)); R.set('functions_in_program', len(P.funcs))
    if P.raw.missing or bad:
        for e in bad[:5]: print(f'{pid}: {e["ERR"]}:{e["line"]}: {e["msg"]}')
        print(f'{pid}: sources that did not parse: {P.raw.missing or sorted({e["ERR"] for e in bad})}')
        if P.raw.missing: return 3
    try:
        mod.run(P, R, tier)
    except Exception:
        traceback.print_exc(); return 3
    return R.finish(getattr(mod, 'LEVEL', 'other'), mod.EXPLAIN)

if __name__ == '__main__': sys.exit(main())
