#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property on the current tree of /repo."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa.report import Report, Broken, load_known

def main():
    pid = sys.argv[1]
    if pid == '--setup':
        from sa import lin, interp, loops, vsa
        from checks.common import Tree
        T = Tree(None, want_vsa=False)
        print('front end and analyser work: %d functions' % len(T.M.functions))
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    rep = Report(pid, tier)
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        mod.run(rep, tier)
        if not rep.rules: raise Broken('no rule instance was found')
    except Exception as e:
        traceback.print_exc()
        print('%s: the analysis could not be carried out: %s' % (pid, e))
        return 2
    return rep.finish(load_known(pid))
if __name__ == '__main__': sys.exit(main())
