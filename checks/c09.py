"""C09: every access of a converter to its own memory is in bounds, shown from ranges and relations of the remembered positions."""
from .inv import *
from .c07 import counts, given, SIGNS
from sa.report import pmap
from sa import poly as P

LO, HI = const(Fraction(1, 256)), const(256)
CASES = [(g, s) for g in ('rising', 'falling', 'same', 'first') for s in ('below 1', 'from 1')]
EASY = [(1, ('first', 'from 1')), (2, ('first', 'from 1'))]

def ratio_cell(T, S, sy):
    """The remembered ratio: the real cell of the handle that src_set_ratio writes."""
    w = set()
    for o, f in T.V.extents(['src_set_ratio']).items():
        if o.kind == 'heap' and o.site is S.h.obj.seq: w |= set(f)
    c = [k for k, v in sy.items() if k[0] == S.h.obj.id and isinstance(v, Poly) and not v.isint() and any(f is None or vsa.meets(f, k[1]) for f in w)]
    if len(c) != 1: raise Broken('the cell of the remembered ratio is not unique')
    return c[0]

def whole(S, sy):
    """Positions in the converter's memory: unknown 32 bit cells behind the handle."""
    byid = {o.id: o for o, c in owned(S.I, S.st, S.h)}
    small = lambda k: any(f == k[1] and t.k == 'i' and t.bits == 32 for f, t in S.I.layout(byid[k[0]]) or [])
    return [(k, v) for k, v in sy.items() if k[0] in byid and k[0] != S.h.obj.id and not byid[k[0]].array and isinstance(v, Poly) and v.isint() and k[1] != '*' and small(k)]

def relations(T, S, sy):
    """{name: (kind, cells)}: relations that hold of the values creation stores."""
    byid = {o.id: o for o, c in owned(S.I, S.st, S.h)}
    out = {}
    nm = lambda k: '%s:%d+%d' % (byid[k[0]].seq.fn.name, byid[k[0]].seq.line, k[1])
    cells = whole(S, sy); init = lambda k: S.st0.get(k, (ZERO,))[0]
    for k, v in cells:
        if isinstance(init(k), Poly) and init(k).cval() == 0: out['%s is a multiple of the channel count' % nm(k)] = ('mult', k)
        for k2, v2 in cells:
            if k2 != k and isinstance(init(k), Poly) and isinstance(init(k2), Poly) and (init(k2) - init(k)).cval() is not None and (init(k2) - init(k)).cval() >= 0:
                out['%s <= %s' % (nm(k), nm(k2))] = ('le', k, k2)
    r = ratio_cell(T, S, sy)
    for k, v in sy.items():
        if k[0] == S.h.obj.id and isinstance(v, Poly) and not v.isint() and k != r: out['%s < 1' % nm(k)] = ('lt1', k)
    return out

def assume(T, S, case, keep, got, signs='counts given'):
    """The state before a process call: ranges and relations that are kept, one case of the ratios."""
    def facts(I, st, x):
        sy = x['sy']; C = S.C; bs = bounds(T, S)
        S.st0 = S.st.mem
        rel = relations(T, S, sy); cs = candidates(T, S, sy)
        got.update(rel=rel, cs=cs)
        for n, q in rel.items():
            if q[0] == 'mult' and C != ONE and (keep is None or n in keep):
                u = fresh('units', True); v = C * u; I.type_range(st, v, 32)
                st.mem[q[1]] = (v, st.mem[q[1]][1]); sy[q[1]] = v
                if ('lo' in {c[2] for c in cs if ids(S)[c[0]] == q[1][0] and c[1] == q[1][1]}): st.facts = st.facts.add(u + 0 if S.st0.get(q[1], (ZERO,))[0] == ZERO else u + 1)
        grant(T, S, st, sy, cs, keep)
        for q, sg in zip(('N', 'M'), SIGNS[signs]): st.facts = st.facts.add(x[q] if sg > 0 else -x[q] - 1)
        F = st.facts
        for n, q in rel.items():
            if keep is not None and n not in keep: continue
            if q[0] == 'le': F = F.add(sy[q[2]] - sy[q[1]])
            if q[0] == 'lt1': F = F.add(ONE - sy[q[1]], True)
        if case is not None:
            g, s = case
            Lr, R = sy[ratio_cell(T, S, sy)], x['r']
            F = F.add(R - LO).add(HI - R)
            F = F.add(LO - Lr, True) if g == 'first' else F.add(Lr - LO).add(HI - Lr)
            m, M = {'rising': (Lr, R), 'falling': (R, Lr), 'same': (R, Lr), 'first': (R, R)}[g]
            if g in ('rising', 'falling'): F = F.add(M - m, True)
            if g == 'same': F = F.add(M - m).add(m - M)
            F = F.add(ONE - m, True) if s == 'below 1' else F.add(m - ONE)
        st.facts = F
        own = {k[0] for k in sy}
        def limits(la, nums):
            for it in nums:
                if it.obj is not None or it.smp: continue
                X = la.v(it)
                if it.isint:
                    yield X
                    for b in bs: yield b - X
                    if it.mode == 'iv':
                        d = X - P.subst(X, {la.Kid: ZERO})
                        if len(d.t) == 1 and len(next(iter(d.t))) > 1: yield d; yield -d
                else:
                    yield X; yield ONE - X; yield (ONE - X, True)
                    if case is not None: yield X - m; yield m - X; yield X - M; yield M - X
            cells = [it for it in nums if it.kind == 'mem' and it.obj is None and not it.smp and it.isint and it.size == 4]
            for a in cells:
                for b in cells:
                    if a is not b and a.key[0] == b.key[0]: yield la.v(a) - la.v(b)
                for n, q in rel.items():                    # the other one is not changed by the loop
                    if q[0] == 'le' and a.key in q[1:] and (keep is None or n in keep):
                        o = q[2] if q[1] == a.key else q[1]
                        if o not in {b.key for b in cells}: yield (sy[q[2]] - la.v(a)) if q[1] == a.key else la.v(a) - sy[q[1]]
        I.join_bounds = [x['N'] * C, x['M'] * C] + ([x['N'], x['M']] if C != ONE else []) + bs
        I.join_pairs = True; I.strides = True
        I.light_cands = [counts(S, x, bs), limits, ratio_domain()]
        return st
    return facts

def ids(S): return {o.seq: o.id for o, c in owned(S.I, S.st, S.h)}

def lost(T, S, rets, got, keep):
    """{name: (value, state)} of the ranges and relations that some return does not re-establish."""
    out = broken(T, S, rets, got['cs'], keep)
    for n, q in got['rel'].items():
        if keep is not None and n not in keep: continue
        for s, v in rets:
            c = [s.mem.get(k, (None,))[0] for k in q[1:]]
            if not all(isinstance(y, Poly) for y in c): out[n] = (c[0], s); break
            if q[0] == 'mult': d = exact_div(c[0], S.C); ok = d is not None and d.isint()
            elif q[0] == 'le': ok = s.facts.entails(c[1] - c[0])
            else: ok = s.facts.entails(ONE - c[0], True)
            if not ok: out[n] = (c[-1] - c[0] if len(c) > 1 else c[0], s); break
    return out

def sinc_call(T, name, C, case, keep, inp='ptr', signs='counts given'):
    S = shape(T, name, C); I = S.I; I.merge_limit = 10 ** 6; I.keep_ret = True; I.peel = True
    got = {}
    I, rets, x = process(T, S, facts=assume(T, S, case, keep, got, signs), coarse=6 if inp == 'ptr' else 10 ** 6, inp=inp)
    return S, rets, x, got

def names(got): return {inv_name(k) for k in got['cs']} | set(got['rel'])

def keepers(rep, T, name):
    """Ranges and relations of the remembered positions that the simplest calls keep; for all others they are obligations."""
    def one(rep, T, name, C, case, keep):
        S, rets, x, got = sinc_call(T, name, C, case, keep)
        return names(got), set(lost(T, S, rets, got, keep))
    S = shape(T, name, 1); S.st0 = S.st.mem
    st, sy = havoc(T, S, pending='ptr')
    rel = relations(T, S, sy)
    every = names(dict(cs=candidates(T, S, sy), rel=rel))
    both = [q[1:] for q in rel.values() if q[0] == 'le' and ('le', q[2], q[1]) in rel.values()]
    drop = lambda sg: {n for n, q in rel.items() if q[0] == 'le' and q[1:] in both and (q[1][1] - q[2][1]) * sg > 0}
    ks, done = [every - drop(sg) for sg in ((1, -1) if both else (1,))], []         # equal at first: either may stay the smaller one
    for rnd in range(8):
        r = pmap(rep, [(one, (T, name, C, case, k)) for k in ks for C, case in EASY])
        nxt = []
        for n, k in enumerate(ks):
            bad = set().union(*[b for a, b in r[n * len(EASY):(n + 1) * len(EASY)]]) & k
            if bad: nxt.append(k - bad)
            else: done.append(k)
        ks = nxt
        if not ks: return max(done, key=len)
    raise Broken('the kept relations do not stabilise')

BAD = ('oob', 'nullderef', 'unkptr', 'symoff')
def memory(rep, I, x, what, S):
    """Obligations: every access seen."""
    theirs = [x[k] for k in ('in', 'out', 'd') if x.get(k) is not None]
    for e in I.events:
        if e.kind in BAD and e.info.get('obj') not in theirs: rep.event('access-in-bounds', e, '%s, %s: %s' % (S, what, e.msg))
    rep.ok_n('access-in-bounds', I.counts.get('bounds_ok', 0))
    rep.absorb(I)

def sinc(rep, T, name, C, case, keep, inp='ptr', signs='counts given'):
    S, rets, x, got = sinc_call(T, name, C, case, keep, inp, signs)
    F = T.M.functions['src_process']; W = (F.file, F.line, 'src_process'); w = 'ratio %s, %s, %s' % (case + (signs,))
    rep.need(rets and any(isinstance(v, Poly) and v.cval() in (None, 0) for s, v in rets), 'src_process never succeeds on %s' % S)
    for nm, (c, s) in lost(T, S, rets, got, keep).items():
        rep.ob('positions-kept', False, '%s, %s: not shown to hold after the call: %s, with [%r] (%s)' % (S, w, nm, c, describe(s)), W)
    rep.ok_n('positions-kept', len(rets) * len(keep))
    if inp == 'ptr' and signs == 'counts given': rep.need(I_bounds(S) > 50, 'too few accesses on %s' % S)
    memory(rep, S.I, x, w, S)
def I_bounds(S): return S.I.counts.get('bounds', 0)

def simple(rep, T, name, C, case, inp='ptr', keep=None):
    """Zero-order hold and linear: every access of every path, loops closed by ranges of counts."""
    S = shape(T, name, C); I = S.I; I.merge_limit = 10 ** 6; I.keep_ret = True; I.peel = True
    def facts(I, st, x):
        st = given(T, S, case)(I, st, x)
        def f(la, nums):
            for it in nums:
                if it.obj is None and not it.smp and it.isint: yield la.v(it) - S.C
        I.light_cands = I.light_cands + [f]
        return st
    I, rets, x = process(T, S, facts=facts, coarse=10 ** 6, inp=inp)
    rep.need(rets, 'src_process does not return on %s' % S)
    memory(rep, I, x, case, S)

def other(rep, T, name, C, keep):
    """Creation, reset, clone, ratio setting and deletion."""
    S = shape(T, name, C)
    F = T.M.functions['src_reset']; W = (F.file, F.line, F.name)
    memory(rep, S.I, {}, 'creation', S)
    for fn in ('src_reset', 'src_clone', 'src_set_ratio', 'src_delete'):
        S = shape(T, name, C); I = S.I; I.counts.update(dict.fromkeys(I.counts, 0)); del I.events[:]
        st, sy = havoc(T, S, pending='ptr'); S.st0 = S.st.mem
        got = dict(rel=relations(T, S, sy), cs=candidates(T, S, sy)) if keep else None
        if got: grant(T, S, st, sy, got['cs'], keep)
        er = I.mkobj('caller', 'error_out', const(4))
        rets = public(T, I, fn, {'handle': S.h, 'double': fresh('ratio', False, maynan=True), 'int*': Ptr(er, ZERO)}, st)
        rep.need(rets, '%s does not return' % fn)
        if fn == 'src_reset' and got:
            ok = [(s, v) for s, v in rets if isinstance(v, Poly) and v.cval() in (None, 0)]
            rep.need(ok, 'src_reset never succeeds')
            for nm, (c, s) in lost(T, S, ok, got, keep).items():
                rep.ob('positions-kept', False, '%s: not shown to hold after a reset: %s, with [%r] (%s)' % (S, nm, c, describe(s)), W)
            rep.ok_n('positions-kept', len(keep))
        memory(rep, I, {}, fn, S)

def run(rep, tier):
    rep.explanation = ('src_process is interpreted on every kind of handle after any history, for all counts and areas. For the sinc converters ranges and relations of the remembered positions (within the buffer, read position not past the write position, '
                       'whole frames, position below one frame) are found that every call keeps, in every case of remembered and requested ratio, and granted before the call; every access to the structures, channel arrays, filter buffer and '
                       'coefficient table must then be shown inside its allocation. Creation, reset, clone, ratio setting and deletion likewise.')
    rep.assumptions = ASSUME + ['positions and ratios are real numbers (rounding of the position ignored)', 'a failed assertion ends the program', 'a clone starts from the state of its original (C05)', 'the caller\'s areas are the subject of C08',
                                'sample counts fit a long']
    T = Tree(rep)
    ks = keys(T); mutable(T); mode_cells(T); process_functions(T); converter_effects(T)
    sincs = [n for n in dict.fromkeys(n for n, c in ks) if 'SINC' in n]
    keep = {}
    if sincs:
        keep[sincs[0]] = keepers(rep, T, sincs[-1])
        for n in sincs: keep[n] = keep[sincs[0]]
        rep.notes.append('kept by every call: %s' % '; '.join(sorted(keep[sincs[0]])))
    full = ks if tier != 'quick' else [k for k in ks if k[0] in sincs[-1:]]
    some = [('falling', 'below 1'), ('rising', 'from 1'), ('first', 'from 1')]
    def cases(n, c):
        if c is None: return [('rising', 'from 1'), ('first', 'below 1'), ('first', 'from 1')] if n in sincs[-1:] else []      # glides towards small ratios: only for the channel counts with code of their own
        if tier != 'quick' or c == 1 and n in sincs[-1:]: return CASES
        if n not in sincs[-1:]: return [('first', 'from 1')] + ([('falling', 'below 1')] if n == sincs[0] else []) if c == 1 else []
        return some
    jobs = [(sinc, (T, n, c, case, keep[n])) for n, c in ks if 'SINC' in n for case in cases(n, c)]
    jobs.sort(key=lambda j: (j[1][2] is not None, j[1][3][0] not in ('rising', 'falling')))
    jobs += [(sinc, (T, n, c, ('first', 'from 1'), keep[n], 'null')) for n, c in full if 'SINC' in n and (tier != 'quick' or c in (1, 2, None))]
    jobs += [(sinc, (T, n, c, ('first', 'from 1'), keep[n], 'ptr', sg)) for n, c in full if 'SINC' in n and (tier != 'quick' or c in (1, None)) for sg in SIGNS if sg != 'counts given']
    jobs += [(simple, (T, n, c, case, inp)) for n, c in ks if 'SINC' not in n for case in SIGNS for inp in ('ptr', 'null')]
    jobs += [(other, (T, n, c, keep.get(n))) for n, c in ks]
    pmap(rep, jobs)
