"""C04: argument validation of the process call, scenario by scenario, on path conditions."""
from .calls import *

def process(rep, T, S, mode):
    """The handle S.h (a process or callback handle) with every kind of SRC_DATA."""
    I = S.I; I.merge_limit = 10 ** 6
    F = T.M.functions['src_process']; w = (F.file, F.line, F.name)
    E = T.err
    keep = {(S.h.obj.id, k) for k in mode_cells(T)}
    for inp in ('ptr', 'null'):
        for outp in ('ptr', 'null'):
            sc = '%s, %s handle, input %s, output %s' % (S, mode, inp, outp)
            tag = '_%s%s%s' % (mode[0], inp[0], outp[0])
            st, _ = havoc(T, S, st=S.st, keep=keep, tag=tag)
            p, x = anydata(T, I, st, S.C, inp, outp, tag=tag)
            before = st.copy()
            got = []
            stub_process(T, I, S, lambda I, s, i, a, n: got.append((s, a)) or [])
            I.events = []
            rets = public(T, I, 'src_process', {'handle': S.h, 'data': p}, st)
            deref(rep, I, sc)
            N, M = x['N'], x['M']
            def noptr(s):            # is there a NULL area with a positive count: True / False / None
                r = [I.decide(s, Cond(n - 1, '>=')) for n, k in ((N, inp), (M, outp)) if k == 'null']
                return True if True in r else None if None in r else False
            acc = [(s, 'a converter is run', a) for s, a in got] + [(s, 'success is reported', None) for s, v in rets if isinstance(v, Poly) and v.cval() == 0]
            for s, what, a in acc:
                def ob(rule, ok, why): rep.ob(rule, ok, '%s: %s' % (sc, what) if ok else '%s: %s %s (%s)' % (sc, what, why, describe(s)), w)
                ob('accepted-style', mode == 'process', 'on a callback handle')
                ob('accepted-areas', noptr(s) is False, 'although an area with a positive count can be NULL')
                ob('accepted-ratio', shown_good(I, s, x['r']), 'with a ratio that can be out of range')
                if inp == outp == 'ptr':
                    n, m, b, c = overlap(I, s, x, S.C)
                    ob('accepted-overlap', s.facts.infeasible_with([N, M, b, c]), 'with overlapping areas')
                for nm, q in (('input_frames', N), ('output_frames', M)):
                    v = s.mem[(x['d'].id, T.L[nm])][0]
                    good = isinstance(v, Poly) and (s.facts.entails_eq(v - q) and s.facts.entails(q) or s.facts.entails_eq(v) and s.facts.entails(-q))
                    ob('negative-is-zero', good, 'with %s not max(count,0)' % nm)
            for s, v in rets:
                k = v.cval() if isinstance(v, Poly) else None
                if k is None: rep.ob('refusal-code', False, '%s: the result is not a known code' % sc, w); continue
                if k == 0: continue
                if k == E['BAD_MODE']: ok, why = mode == 'callback', 'bad mode is reported for a process handle'
                elif k == E['BAD_DATA_PTR']: ok, why = noptr(s) is True, 'a bad data pointer is reported although no area with a positive count is NULL'
                elif k == E['BAD_SRC_RATIO']: ok, why = shown_bad(I, s, x['r']), 'a bad ratio is reported for a good one'
                elif k == E['DATA_OVERLAP']:
                    n, m, b, c = overlap(I, s, x, S.C)
                    t = s.copy(); t.facts = t.facts.add(N - 1).add(M - 1)
                    ok, why = inp == outp == 'ptr' and (s.facts.infeasible_with([N, M]) or t.facts.entails(b, True) and t.facts.entails(c, True)) or (inp != outp or inp == 'null') and s.facts.infeasible_with([N, M]), 'overlap is reported for separate areas'
                else: ok, why = False, 'code %d is returned before any converter ran' % k
                rep.ob('refusal-code', ok, '%s: refused with code %d for its reason' % (sc, k) if ok else '%s: %s (%s)' % (sc, why, describe(s)), w)
                ch = changed(I, before, s, S.h)
                rep.ob('refused-handle', not ch, '%s: a refused call leaves the handle alone' % sc if not ch else '%s: a call refused with code %d changes %s' % (sc, k, ', '.join(cellname(I, c) for c in ch)), w)
                if x['out'] is not None:
                    rep.ob('refused-output', s.arr.get(x['out'].id) == before.arr.get(x['out'].id), '%s: nothing is written' % sc, w)
                for nm, (v0, sz) in x['fields'].items():
                    v1 = s.mem[(x['d'].id, T.L[nm])][0]
                    if nm in ('input_frames_used', 'output_frames_gen'): continue
                    good = v1 == v0 or nm in ('input_frames', 'output_frames') and isinstance(v1, Poly) and s.facts.entails_eq(v1) and s.facts.entails(-v0)
                    rep.ob('refused-data', good, '%s: %s is left alone' % (sc, nm) if good else '%s: a refused call changes %s' % (sc, nm), w)
            if mode == 'process': rep.need(got, '%s: no path reaches a converter' % sc)
    # NULL data
    st, _ = havoc(T, S, st=S.st, keep=keep, tag='_nd')
    before = st.copy(); I.events = []
    stub_process(T, I, S, lambda I, s, i, a, n: rep.ob('null-data', False, '%s: a converter is run without data' % S, w) and None or [])
    for s, v in public(T, I, 'src_process', {'handle': S.h, 'data': Ptr(I.NULL, ZERO)}, st):
        k = v.cval() if isinstance(v, Poly) else None
        ok = k == E['BAD_DATA'] and mode == 'process' or k in (E['BAD_MODE'], E['BAD_DATA']) and mode == 'callback'
        rep.ob('null-data', ok, '%s, %s handle: NULL data is refused' % (S, mode) if ok else '%s, %s handle: NULL data gives code %s' % (S, mode, k), w)
        ch = changed(I, before, s, S.h)
        rep.ob('refused-handle', not ch, '%s: NULL data leaves the handle alone' % S if not ch else '%s: a call refused for NULL data changes %s' % (S, ', '.join(cellname(I, c) for c in ch)), w)
    deref(rep, I, '%s, NULL data' % S)
    rep.absorb(I)

def deref(rep, I, sc):
    ev = [e for e in I.events if e.kind in ('nullderef', 'oob', 'uaf', 'unkptr')]
    for e in ev: rep.event('no-bad-access', e, '%s: %s' % (sc, e.msg))
    if not ev: rep.ok_n('no-bad-access', 1, '%s: no path touches a NULL or foreign area' % sc)

def nulls(rep, T):
    """Every public function that takes a handle, called with NULL."""
    for fn, d in sorted(T.decls.items()):
        if not any(is_handle(p) for p in d.params): continue
        F = T.M.functions[fn]; w = (F.file, F.line, fn)
        I = Interp(T.M); st = State(); I.C = const(1); I.merge_limit = 10 ** 6
        given = {'handle': Ptr(I.NULL, ZERO)}
        p, x = anydata(T, I, st, const(1)); given['data'] = p
        given['double'] = fresh('ratio', False, maynan=True); given['long'] = n = fresh('frames', True)
        given['float*'] = Ptr(I.mkobj('caller', 'out', n * 4, array=True, init='hav'), ZERO)
        eo = I.mkobj('stack', 'error', const(4), init='undef'); given['int*'] = Ptr(eo, ZERO)
        rets = public(T, I, fn, given, st)
        deref(rep, I, '%s(NULL)' % fn)
        rep.absorb(I)
        rep.need(rets, '%s(NULL) never returns' % fn)
        for s, v in rets:
            k = v.cval() if isinstance(v, Poly) else None
            if fn == 'src_process' or d.ret == 'int' and fn in ('src_set_ratio', 'src_reset'): ok = k == T.err['BAD_STATE']
            elif fn == 'src_get_channels': ok = k is not None and k < 0
            elif fn == 'src_callback_read': ok = k == 0
            elif fn in ('src_delete', 'src_clone'): ok = is_null(v)
            elif fn == 'src_error': ok = k is not None
            else: ok = k is not None and k != 0
            rep.ob('null-handle', ok, '%s(NULL) answers %s' % (fn, v) if ok else '%s(NULL) answers %r' % (fn, v), w)
    F = T.M.functions['src_simple']; w = (F.file, F.line, F.name)
    for name in T.enabled:
        I, st, C = new_interp(T); I.merge_limit = 10 ** 6
        for s, v in I.call('src_simple', [Ptr(I.NULL, ZERO), const(T.E[name]), C], st):
            k = v.cval() if isinstance(v, Poly) else None
            rep.ob('null-data', k == T.err['BAD_DATA'] or k == T.err['BAD_CHANNEL_COUNT'], 'one-shot call with NULL data, %s: code %s' % (name, k), w)
        deref(rep, I, 'src_simple(NULL)')
        rep.absorb(I)

def run(rep, tier):
    rep.explanation = ('The process call is interpreted with the converters cut off, on process and callback handles of every converter after an arbitrary history, with data NULL or present, areas NULL or anywhere, '
                       'counts of any sign and any ratio. Each refusal code must be implied by its own condition, each accepted path must contradict all refusal conditions; refused paths change no cell of the handle, '
                       'the output area or the input fields. Every function that takes a handle is interpreted with NULL.')
    rep.assumptions = ASSUME + ['a handle keeps its calling style (C15)']
    T = Tree(rep)
    nulls(rep, T)
    for S in shapes(T): process(rep, T, S, 'process')
    for S in shapes(T, mode='callback'): process(rep, T, S, 'callback')
