"""C12: outputs are homogeneous linear functions of samples: typing of values as zero / coefficient / linear / other."""
from .c10 import report
from .flowroots import analyse
from .shapes import *

def guards(rep, T, F):
    """Fills of sample memory with a non-zero byte must stay in the guard frame behind the last sample."""
    if not F.guards: return
    V = T.V
    ok_fns = {'src_new', 'src_callback_new', 'src_reset', 'src_simple'}
    for g in F.guards:
        by = [f for f in T.decls if g.fn.name in V.reach([f])]
        bad = [f for f in by if f not in ok_fns]
        rep.ob('guard-fill', not bad, 'non-zero fill only while creating or resetting' if not bad else 'sample memory is filled with a constant in %s' % bad[0], where(g))
    seen = set()
    def hook(I, st, instr, ptr, v, ty):
        if instr not in F.guards or not isinstance(v, tuple) or v[0] != 'memset' or I.mute: return
        seen.add(instr)
        ok = ptr.obj.size is not None and st.facts.entails(ptr.off - ptr.obj.size + I.C.scale(4))
        rep.ob('guard-fill', ok, 'the fill covers at most the guard frame at the end of %s' % ptr.obj.name if ok else 'samples of %s from offset [%r] are filled with a constant' % (ptr.obj.name, ptr.off), where(instr))
    for name in T.enabled:
        I, C, rets = created(T, T.E[name], on_store=hook)
        for s, v in rets:
            if is_null(v): continue
            I.call('src_reset', [v], s.copy())
    for g in F.guards: rep.ob('guard-fill', g in seen, 'analysed' if g in seen else 'a constant fill of sample memory is not reached from creation', where(g))

def run(rep, tier):
    rep.explanation = ('Typing of every value of the library as zero, independent of samples, homogeneous linear in samples, or anything else: sums must not mix linear and independent values, products may contain one sample, '
                       'divisors none, no rounding, comparison or function of samples. Every store or block write to the output area is an obligation: the value is linear or zero. Branches and selections must not depend on samples '
                       '(otherwise the coefficients would).')
    rep.assumptions = ASSUME + ['rounding of floating-point sums and products is ignored', 'a guard frame behind the last sample of the filter history, filled with a constant, is never read (see C09)']
    T = Tree(rep); F = analyse(T)
    n = report(rep, F, ('output', 'no-branch'))
    outs = {i for r, ok, i, m in F.obs if r == 'output-seen'}
    rep.need(len(outs) >= 8, 'only %d writes to the output area found' % len(outs))
    fs = {i.fn.name for i in outs}
    rep.need(len({i.file for i in outs}) >= 3, 'converters without output')
    guards(rep, T, F)
