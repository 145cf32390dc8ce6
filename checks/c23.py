"""C23: end of input is acted on (silence appended, further input refused) only in a call that has the flag and has
consumed everything; the state reached then refuses input until reset."""
from .c07 import *
from sa.interp import Cond
from sa import vsa

LOADED = ('g', 'loaded')

class Watch:
    """Follows one src_process call: what is copied from the input area, which constants go into the remembered samples
    and the output, which values go into the handle's whole number cells."""
    def __init__(w, T, S, x):
        w.T, w.S, w.I, w.x, w.C = T, S, S.I, x, S.C
        w.hist, w.consts, w.cells, w.copies = set(), [], [], []
        w.own = {o.id for o, c in owned(w.I, S.st, S.h)}
    def mine(w, o): return w.I.root(o).id in w.own
    def total(w): return w.x['N'] * w.C
    def situation(w, s):
        """What holds at a point: (flag set, all consumed by the copies seen, cells equal to all that was given)."""
        e = w.x['e']; tot = w.total(); g = s.ghost.get(LOADED)
        flag = s.facts.entails(e - 1) or s.facts.entails(-e - 1)
        if not flag: flag = w.I.decide(s, Cond(e, '!=')) is True
        done = isinstance(g, Poly) and s.facts.entails_eq(g - tot)
        eq = {k for k, v in s.mem.items() if k[0] in w.own and isinstance(v[0], Poly) and v[0].isint() and s.facts.entails_eq(v[0] - tot)}
        return flag, done, eq, describe(s)
    def store(w, I, s, instr, ptr, v, ty):
        o = ptr.obj
        if isinstance(v, tuple) and v[0] in ('memcpy', 'memmove'):
            src, n = v[1], v[2]
            if w.x['in'] is not None and src.obj is w.x['in']:
                g = s.ghost.get(LOADED)
                if isinstance(g, Poly) and isinstance(n, Poly): s.ghost[LOADED] = g + n.scale(Fraction(1, 4))
                if not I.mute:
                    if w.mine(o): w.hist.add(o.id)
                    w.copies.append((instr, isinstance(g, Poly) and s.facts.entails_eq(src.off - g * 4), src.off, g, describe(s)))
            return
        if I.mute: return
        if isinstance(v, tuple):
            byte, n = v[1], v[2]
            if isinstance(n, Poly) and s.facts.entails(-n): return
            if w.mine(o) and o.array or o is w.x['out']: w.consts.append((o, instr) + w.situation(s))
            elif w.mine(o): w.cells.append((o.id, None, None, instr, s) + w.situation(s))
            return
        if w.mine(o) and not o.array:
            k = ptr.off.cval()
            if k is not None and ty.k == 'i': w.cells.append((o.id, int(k), v, instr, s.copy()) + w.situation(s))
        elif (w.mine(o) or o is w.x['out']) and isinstance(v, Poly):
            if v.cval() is not None: w.consts.append((o, instr) + w.situation(s))
            else:
                a = v.single()
                if a is not None and a.kind == 'S' and w.x['in'] is not None and a.args[0] == w.x['in'].id: w.hist.add(o.id)

def call(T, S, fact=None, inp='ptr'):
    """src_process after any history; fact(st, x): further assumptions.  (watch, returns, data)"""
    I = S.I; I.merge_limit = 10 ** 6; I.keep_ret = True
    base = given(T, S, 'counts given'); got = []
    def steps(la, nums):
        # whole numbers in step with the samples copied
        for g in [it for it in nums if it.kind == 'ghost' and it.key == LOADED]:
            q = la.v(g)
            yield q; yield got[0].total() - q
            for it in nums:
                if it.isint and not it.smp and it.kind != 'ghost': yield la.v(it) - q; yield q - la.v(it)
    def facts(I, st, x):
        st = base(I, st, x); w = Watch(T, S, x); got.append(w)
        I.light_cands = I.light_cands + [steps]
        st.ghost[LOADED] = ZERO
        I.on_store.append(w.store)
        return st if fact is None else fact(st, x)
    I, rets, x = process(T, S, facts=facts, coarse=6, inp=inp)
    I.on_store.remove(got[0].store)
    return got[0], rets, x

def good(rets, x, L):
    """Successful returns, with the count of frames used."""
    for s, v in rets:
        if isinstance(v, Poly):
            if v.cval() not in (None, 0): continue
            if v.cval() is None: s.facts = s.facts.add(v).add(-v)
            if s.facts.entails(const(-1)): continue
        yield s, s.mem[(x['d'].id, L['input_frames_used'])][0]

def start(T, S):
    """{cell: value creation leaves} of whole number cells that processing may write."""
    eff = converter_effects(T); I = S.I; out = {}
    for o, c in owned(I, S.st, S.h):
        if o.array: continue
        for off, t in I.layout(o) or []:
            if t.k != 'i' or (o.id, off) in {(S.h.obj.id, k) for k in mode_cells(T)}: continue
            if not any(f is None or (f == off if isinstance(f, int) else vsa.meets(f, off)) for f in eff.get(o.seq, {})): continue
            v = S.st.mem.get((o.id, off), (ZERO, 0))[0]
            if isinstance(v, Poly) and v.cval() is not None: out[(o.seq, off)] = v.cval()
    return out

def held(S, key):
    """The cell (object, offset) of this shape that (allocation, offset) names."""
    return next((o.id, key[1]) for o, c in owned(S.I, S.st, S.h) if o.seq == key[0])

def assuming(T, S, key, finished, k0=None, inp='ptr'):
    """call() with the cell on the finished (positive) or on the open side (like after creation)."""
    def fact(st, x):
        v = x['sy'].get(held(S, key))
        if isinstance(v, Poly): st.facts = st.facts.add(v - 1) if finished else st.facts.add(-v - 1) if k0 < 0 else st.facts.add(v).add(-v)
        return st
    return call(T, S, fact, inp)

def probe(rep, T, name, C, key):
    """Does the converter refuse all input while this cell is positive?"""
    S = shape(T, name, C); S.I.mute_events = True
    w, rets, x = assuming(T, S, key, True)
    us = list(good(rets, x, T.L))
    rep.absorb(S.I)
    return bool(us) and not w.copies and all(isinstance(u, Poly) and s.facts.entails_eq(u) for s, u in us)

def plain(rep, T, name, C):
    """One call from any state: which cells are set on the finished side, and where constants go."""
    S = shape(T, name, C)
    w, rets, x = call(T, S)
    rep.absorb(S.I)
    return name, bool([1 for o, *r in w.consts if o.id in w.hist])

def conv(rep, T, name, C, key, k0, inp='ptr'):
    F = T.M.functions['src_process']; W = (F.file, F.line, 'src_process')
    S = shape(T, name, C); L = T.L
    w, rets, x = (call(T, S, None, inp) if key is None else assuming(T, S, key, False, k0, inp))
    rep.need(rets, 'src_process does not return on %s' % S)
    # cells that always hold what the call reports as used
    used = None
    for s, u in good(rets, x, L):
        if not isinstance(u, Poly): continue
        c = {k for k, v in s.mem.items() if k[0] in w.own and isinstance(v[0], Poly) and v[0].isint() and s.facts.entails_eq(v[0] - u * S.C)}
        used = c if used is None else used & c
    n = 0
    def judged(o, instr, flag, done, eq, where_, what, rule):
        ok = flag and (done or bool(eq & (used or set())))
        why = '' if ok else 'without end_of_input' if not flag else 'before all input is consumed'
        rep.ob(rule, ok, '%s: %s only at a declared end with all input consumed' % (S, what) if ok else '%s: %s %s (%s)' % (S, what, why, where_), where(instr))
    for o, instr, flag, done, eq, d in w.consts:
        if o is x['out']: rep.ob('no-invented-output', flag, '%s: constant output only at a declared end' % S if flag else '%s: a constant is written to the output without end_of_input (%s)' % (S, d), where(instr))
        elif o.id in w.hist: n += 1; judged(o, instr, flag, done, eq, d, 'silence is put among the remembered samples', 'padding-at-end-only')
    for instr, ok, off, g, d in w.copies:
        rep.ob('input-in-order', ok, '%s: input is copied from where the last copy ended' % S if ok else '%s: input is copied from offset [%r] after [%r] samples (%s)' % (S, off, g, d), where(instr))
    if key is not None:
        cell = held(S, key)
        for oid, k, v, instr, s, flag, done, eq, d in w.cells:
            if (oid, k) != cell: continue
            if isinstance(v, Poly) and s.facts.entails(-v - (1 if k0 < 0 else 0)): continue
            n += 1; judged(None, instr, flag, done, eq, d, 'the converter is marked finished', 'finished-at-end-only')
        if inp == 'null': rep.absorb(S.I); return
        # the finished side
        S2 = shape(T, name, C)
        w2, rets2, x2 = assuming(T, S2, key, True)
        for instr, ok, off, g, d in w2.copies: rep.ob('finished-consumes-nothing', False, '%s: input is copied although the converter is finished (%s)' % (S, d), where(instr))
        m = 0
        for s, u in good(rets2, x2, L):
            m += 1
            ok = isinstance(u, Poly) and s.facts.entails_eq(u)
            rep.ob('finished-consumes-nothing', ok, '%s: a finished converter uses no input' % S if ok else '%s: a finished converter can use [%r] frames (%s)' % (S, u, describe(s)), W)
        for s, v in rets2:
            c = s.mem.get(held(S2, key), (None,))[0]
            ok = isinstance(c, Poly) and s.facts.entails(c - (1 if k0 == 0 else 0))
            rep.ob('finished-until-reset', ok, '%s: stays finished' % S if ok else '%s: a process call can end the finished state: [%r] (%s)' % (S, c, describe(s)), W)
        rep.need(m, 'no finished conversion succeeds on %s' % S)
        rep.need(n, 'nothing marks %s finished' % S)
        rep.absorb(S2.I)
    rep.absorb(S.I)

def run(rep, tier):
    rep.explanation = ('src_process is interpreted on every kind of handle after any history with any data, following what is copied from the input area. For converters that put silence among the remembered samples, the cell that makes them refuse '
                       'input is found by interpretation; silence and a change of that cell to its finished side must be reached only where end_of_input is set and the copies made amount to all the input given. With the cell on the finished side no '
                       'input is used or copied, and it stays there. Constants never go to the output, nor among remembered samples, without end_of_input.')
    rep.assumptions = ASSUME + ['remembered samples are the arrays of the handle that receive input samples unchanged']
    T = Tree(rep)
    ks = keys(T); mutable(T); mode_cells(T); process_functions(T); converter_effects(T)
    if tier == 'quick': ks = [k for k in ks if 'MEDIUM' not in k[0]]
    one = {}
    for n, c in ks:
        if n not in one or c == 1: one[n] = c
    jobs, cand = [], {}
    for n, c in sorted(one.items(), key=lambda k: 'SINC' not in k[0]):
        jobs.append((plain, (T, n, c)))
        cand[n] = start(T, shape(T, n, c))
        jobs += [(probe, (T, n, c, k)) for k in cand[n]]
    res = pmap(rep, jobs)
    pads, i = {}, 0
    todo = []
    for n, c in sorted(one.items(), key=lambda k: 'SINC' not in k[0]):
        pads[n] = res[i][1]; r = res[i + 1:i + 1 + len(cand[n])]; i += 1 + len(cand[n])
        fin = [k for k, ok in zip(cand[n], r) if ok]
        F = T.M.functions['src_process']
        if pads[n]:
            rep.ob('finished-state', bool(fin), '%s: a finished converter refuses input' % n if fin else '%s: input is padded with silence, but no state of the handle makes the converter refuse further input' % n, (F.file, F.line, F.name))
        rep.notes.append('%s: %s' % (n, 'pads with silence; finished when the cell at offset %s is positive' % [k[1] for k in fin] if fin else 'never pads' if not pads[n] else 'pads'))
        for m, ch in ks:
            if m != n: continue
            for k in (fin or [None]): todo += [(conv, (T, n, ch, k, cand[n].get(k), i)) for i in ('ptr', 'null')]
    rep.need(any(pads.values()) or not any('SINC' in n for n in one), 'no converter pads its input at the end')
    pmap(rep, todo)
