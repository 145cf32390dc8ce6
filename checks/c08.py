"""C08: caller memory is read inside the input area only; the output area receives exactly the frames reported."""
from .c07 import *

HI, LO, GAP = ('g', 'hi'), ('g', 'lo'), ('g', 'gap')

class Cover:
    """Samples written to the output area: all of [0, hi) except the gap of samples just below lo."""
    def __init__(w, rep, S, x): w.rep, w.S, w.x, w.n = rep, S, x, 0
    def start(w, st):
        for g in (HI, LO, GAP): st.ghost[g] = ZERO
    def store(w, I, s, instr, ptr, v, ty):
        if ptr.obj is w.x['in'] and not I.mute: w.rep.ob('input-not-written', False, '%s: the input area is written (%s)' % (w.S, describe(s)), where(instr))
        if ptr.obj is not w.x['out']: return
        F = s.facts; n = ONE if not isinstance(v, tuple) else v[2].scale(Fraction(1, 4)) if isinstance(v[2], Poly) else None
        if isinstance(v, tuple) and n is not None and F.entails_eq(n): return
        k = ptr.off.scale(Fraction(1, 4)) if isinstance(ptr.off, Poly) else None
        hi, lo, gap = (s.ghost.get(g) for g in (HI, LO, GAP)); ok = False
        if all(isinstance(q, Poly) for q in (k, n, hi, lo, gap)) and (isinstance(v, tuple) or ty.size == 4):
            if F.entails_eq(k - hi) and F.entails_eq(gap): s.ghost[HI], s.ghost[GAP], ok = k + n, ZERO, True
            elif F.entails_eq(k + n - lo) and F.entails(gap - n): s.ghost[LO], s.ghost[GAP], ok = k, gap - n, True
            elif F.entails_eq(gap) and F.entails(k - hi): s.ghost[LO], s.ghost[GAP], s.ghost[HI], ok = k, k - hi, k + n, True
        if not I.mute:
            w.n += 1
            w.rep.ob('output-without-holes', ok, '%s: each sample written continues those written before' % w.S if ok else
                     '%s: sample [%r] is written where [%r] are complete and [%r] are missing below [%r] (%s)' % (w.S, k, hi, gap, lo, describe(s)), where(instr))
    def cands(w, la, nums):
        gs = {it.key: la.v(it) for it in nums if it.kind == 'ghost'}
        if GAP in gs: yield gs[GAP]; yield -gs[GAP]
        C = w.S.C
        for it in nums:
            if it.isint and not it.smp and it.obj is None and it.kind != 'ghost':
                X = la.v(it); yield X - C
                if HI in gs: yield gs[HI] - X; yield X - gs[HI]
                if GAP in gs: yield gs[GAP] - X; yield X - gs[GAP]
                if GAP in gs and LO in gs: yield gs[GAP] - gs[LO] - X; yield X + gs[LO] - gs[GAP]

def untouched(rep, S, x, s, L, W):
    for f, (v, sz) in x['fields'].items():
        if f in ('input_frames_used', 'output_frames_gen'): continue
        c = s.mem.get((x['d'].id, L[f]), (None,))[0]
        if f in ('input_frames', 'output_frames'):
            q = x['N' if f[0] == 'i' else 'M']
            ok = isinstance(c, Poly) and (s.facts.entails_eq(c - q) or s.facts.entails_eq(c) and s.facts.entails(-q))
        elif isinstance(v, Ptr): ok = isinstance(c, Ptr) and c.obj is v.obj and c.off == v.off
        else: ok = c == v or isinstance(c, Poly) and s.facts.entails_eq(c - v)
        rep.ob('inputs-left-as-given', ok, '%s: %s stays as given' % (S, f) if ok else '%s: %s is changed to [%r] (%s)' % (S, f, c, describe(s)), W)

def area(rep, T, name, C, case, keep=None, inp='ptr', outp='ptr'):
    S = shape(T, name, C); I = S.I; I.merge_limit = 10 ** 6; I.keep_ret = True; I.peel = True; I.join_ghosts = True
    sinc = 'SINC' in name
    F = T.M.functions['src_process']; W = (F.file, F.line, 'src_process'); L = T.L
    got, cs = [], {}
    def facts(I, st, x):
        st = given(T, S, case, keep, cs)(I, st, x); w = Cover(rep, S, x); got.append(w); w.start(st)
        I.on_store.append(w.store); I.light_cands = I.light_cands + [w.cands]
        return st
    I, rets, x = process(T, S, facts=facts, coarse=6 if sinc else 10 ** 6, inp=inp, outp=outp)
    rep.need(rets, 'src_process does not return on %s' % S)
    for nm, (c, s) in broken(T, S, rets, cs, keep).items():
        rep.ob('ranges-kept', False, '%s: the range of a cell (%s) is not shown to be kept: [%r] (%s)' % (S, nm, c, describe(s)), W)
    mine = [o for o in (x['in'], x['out'], x['d']) if o is not None]
    for e in I.events:
        if e.kind == 'oob' and e.info.get('obj') in mine: rep.event('areas-respected', e, '%s, %s: %s' % (S, case, e.msg))
        elif e.kind in ('nullderef', 'unkptr', 'symoff') and (e.kind != 'symoff' or 'data' in e.msg): rep.event('areas-respected', e, '%s, %s: %s' % (S, case, e.msg))
    rep.ok_n('areas-respected', I.counts['bounds_ok'])
    for s, v in rets:
        untouched(rep, S, x, s, L, W)
        if isinstance(v, Poly):
            if v.cval() not in (None, 0): continue
            if v.cval() is None: s.facts = s.facts.add(v).add(-v)
            if s.facts.entails(const(-1)): continue
        g = s.mem[(x['d'].id, L['output_frames_gen'])][0]; hi, gap = s.ghost[HI], s.ghost[GAP]
        ok = isinstance(g, Poly) and s.facts.entails_eq(gap) and s.facts.entails_eq(hi - g * S.C)
        rep.ob('frames-written-are-frames-reported', ok, '%s: all of the reported frames, and nothing else, are written' % S if ok else
               '%s: [%r] frames are reported with [%r] samples written and [%r] missing (%s)' % (S, g, hi, gap, describe(s)), W)
    if case == 'counts given' and inp == outp == 'ptr': rep.need(got[0].n, 'no output is written on %s' % S)
    rep.absorb(I)

def run(rep, tier):
    rep.explanation = ('src_process is interpreted on every kind of handle after any history, with areas of exactly the size the counts give. Every access to SRC_DATA and the areas must be shown inside; the samples written to the output are followed and must form '
                       'the reported frames without a hole; the input area is never written and the input fields stay as given.')
    rep.assumptions = ASSUME + ['positions are real numbers (rounding of the position ignored)', 'the areas of a callback read are those of its accounting, see C16; the helpers are in C18']
    T = Tree(rep)
    ks = keys(T); mutable(T); mode_cells(T); process_functions(T); converter_effects(T)
    if tier == 'quick': ks = [k for k in ks if 'MEDIUM' not in k[0]]
    keep = common_ranges(rep, T, ks)
    jobs = [(area, (T, n, c, 'counts given', keep[n])) for n, c in sorted(ks, key=lambda k: ('SINC' not in k[0], k[1] is not None))]
    for n, c in sorted(ks, key=lambda k: ('SINC' not in k[0], k[1] is not None)):
        if 'SINC' in n and c != 1 and tier == 'quick': continue
        jobs += [(area, (T, n, c, case, keep[n])) for case in SIGNS if case != 'counts given']
        jobs += [(area, (T, n, c, case, keep[n], i, o)) for case, i, o in (('counts given', 'null', 'ptr'), ('negative input count', 'null', 'ptr'), ('counts given', 'ptr', 'null'), ('counts given', 'null', 'null'))]
    pmap(rep, jobs)
