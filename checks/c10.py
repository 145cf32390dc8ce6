"""C10: sample values do not decide what happens: information flow from samples to control, addresses, counts, results, state."""
from .flowroots import analyse
from .common import *

RULES = ('no-branch', 'no-address', 'no-result', 'no-state')
def report(rep, F, rules):
    n = {}
    for r, ok, i, m in F.obs:
        if r not in rules: continue
        n[r] = n.get(r, 0) + 1
        if not ok:
            x, w = F.explain(i)
            if x is not None and x is not i: m += ' (%s at line %s)' % (w, x.line)
        rep.ob(r, ok, m, where(i))
    return n

def run(rep, tier):
    rep.explanation = ('Information-flow typing of the whole library: every value gets a type telling whether it depends on sample values (polyvariant in call contexts, memory cells and call targets from the points-to '
                       'analysis). Every branch and selection, every address and length of an access, every integer kept in memory, every value returned or reported to the caller is an obligation: its type must be '
                       'independent of samples.')
    rep.assumptions = ASSUME
    T = Tree(rep); F = analyse(T)
    n = report(rep, F, RULES)
    rep.need(n.get('no-branch', 0) > 100 and n.get('no-address', 0) > 300 and n.get('no-result', 0) > 10 and n.get('no-state', 0) > 50, 'too few obligations: %s' % n)
    rep.need(any(t[0] == 3 for t in F.cells.values()), 'no sample reaches private memory')
    for f in F.roots: rep.need(f in T.M.functions, f)
