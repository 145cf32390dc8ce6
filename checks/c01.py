"""C01: no mutable state outside handles, no effect besides computing and allocating.
Whole-program points-to analysis: no instruction can write a global object, no pointer to a writable global escapes to
the caller's function, no thread-local or volatile access; every external function called is on the list of pure,
allocating or memory-block functions; no inline assembly."""
from .common import *

def run(rep, tier):
    rep.explanation = ('Field-sensitive whole-program points-to (value-set) analysis over the linked LLVM IR of the library: every instruction that writes memory is an '
                       'obligation (its possible targets contain no global object); every call of an external function is an obligation (callee has no ambient effect); every '
                       'pointer handed to the user callback is an obligation (no writable global).')
    rep.assumptions = ASSUME + ['malloc/calloc/free and the mathematical functions of the C library are free of effects relevant to other handles']
    T = Tree(rep); V, M = T.V, T.M
    nw = 0
    for i, tg in V.writes():
        nw += 1
        bad = [o for o, f in tg if o.kind == 'global']
        rep.ob('write-target', not bad, 'store can reach only handle, stack or caller memory' if not bad else 'writes global object %s, shared by all handles' % ', '.join(sorted({o.name for o in bad})), where(i))
    for F in M.functions.values():
        if F.decl: continue
        for b in F.blocks:
            for i in b.instrs:
                if i.op in ('load', 'store') and i.x:
                    rep.ob('plain-memory', False, 'volatile access', where(i))
                if i.op in ('fence', 'cmpxchg', 'atomicrmw'): rep.ob('plain-memory', False, '%s: state shared between threads' % i.op, where(i))
                if i.op != 'call': continue
                ts = V.callees.get(i, set())
                if not isinstance(i.x, Const):
                    rep.ob('indirect-call', bool(ts), 'resolves to %s' % sorted('caller function' if t is vsa.EXT else t for t in ts) if ts else 'call through a pointer that the analysis cannot resolve', where(i))
                elif i.x.kind != 'func': rep.ob('external-call', False, 'inline assembly or computed callee', where(i))
                for t in ts:
                    if t is vsa.EXT:
                        for a in i.ops:
                            for x in V.v(a):
                                if x[0] == 'o' and x[1].kind == 'global':
                                    rep.ob('escape', x[1].g.const, 'global %s is handed to the caller\'s function' % x[1].name, where(i))
                                else: rep.ok_n('escape', 1)
                        continue
                    G = M.functions.get(t)
                    if G is not None and not G.decl: continue
                    ok = t.startswith(vsa.PURE + vsa.COPY + vsa.SET) or t in vsa.MATH or t in vsa.ALLOC or t in vsa.FREE or t in vsa.STOP
                    if t.startswith('llvm.dbg'): continue
                    rep.ob('external-call', ok, 'calls %s' % t if ok else 'calls %s, which has effects outside the handle' % t, where(i))
    for g in M.globals.values():
        if g.decl:
            rep.ob('own-globals', False, 'refers to the external object %s' % g.name, (None, 0, g.name)); continue
        rep.ob('own-globals', not g.tls, 'global %s' % g.name if not g.tls else 'thread-local state %s' % g.name, (None, 0, g.name))
    rep.need(nw >= 40, 'too few memory writes found (%d)' % nw)
    rep.need(len(M.globals) >= 5, 'constant tables vanished')
