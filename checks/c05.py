"""C05: path conditions of the overlap test of the process call against the definition of overlap."""
from .common import *
from .shapes import shapes
from .havoc import havoc, stub_process, process_functions
from .data import *

def run(rep, tier):
    rep.explanation = ('The process call is interpreted on every kind of handle, after an arbitrary history, with two areas at unrelated symbolic addresses and symbolic frame counts; the converter functions '
                       'behind it are cut off. On every path that reports overlap the path condition must entail that the byte ranges intersect; on every other path with non-empty areas it must '
                       'contradict it. Channel counts are symbolic.')
    rep.assumptions = ASSUME + ['the end of either area is representable as an address']
    T = Tree(rep)
    F = T.M.functions['src_process']; w = (F.file, F.line, 'src_process')
    code = T.err['DATA_OVERLAP']
    seen_codes = 0
    for mode in ('process',):
        for S in shapes(T):
            I = S.I; I.merge_limit = 10 ** 6; st, _ = havoc(T, S)
            I.events = []
            p, x = anydata(T, I, st, S.C)
            accepted = []
            stub_process(T, I, S, lambda I, s, i, a, n: accepted.append(s) or [])
            rets = I.call('src_process', [S.h, p], st)
            rep.absorb(I)
            others = [(s, 'a converter is run') for s in accepted]
            for s, v in rets:
                if isinstance(v, Poly) and v.cval() == code:
                    seen_codes += 1
                    t = s.copy()
                    t.facts = t.facts.add(x['N'] - 1).add(x['M'] - 1)
                    n, m, b, a = overlap(I, t, x, S.C)
                    if t.facts.infeasible_with([x['M'], x['N']]): continue
                    ok = t.facts.entails(a, True) and t.facts.entails(b, True)
                    rep.ob('reported-is-real', ok, '%s: an overlap report means overlap' % S if ok else '%s: overlap can be reported for separate areas (%s)' % (S, describe(s)), w)
                elif isinstance(v, Poly) and v.cval() is not None:
                    if v.cval() == 0: others.append((s, 'success is returned'))
                else: rep.ob('result-known', False, '%s: the result of the process call is not a constant code' % S, w)
            rep.need(accepted, '%s: no path reaches a converter' % S)
            for s, why in others:
                t = s.copy()
                t.facts = t.facts.add(x['N'] - 1).add(x['M'] - 1)
                n, m, b, a = overlap(I, t, x, S.C)
                ok = t.facts.infeasible_with([a, b])
                rep.ob('real-is-reported', ok, '%s: %s only for separate areas' % (S, why) if ok else '%s: %s although the areas can overlap (%s)' % (S, why, describe(s)), w)
    rep.need(seen_codes, 'no path reports overlap')
