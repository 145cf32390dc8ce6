"""C06: the ratio domain, decided on the path conditions of every public entry that takes a ratio."""
from .calls import *

def one(rep, T, S, mode):
    I = S.I; I.merge_limit = 10 ** 6
    bad = T.err['BAD_SRC_RATIO']
    W = lambda fn: (T.M.functions[fn].file, T.M.functions[fn].line, fn)
    def judge(rule, s, r, good, what, fn, none_ok=False):
        ok = shown_good(I, s, r) if good else shown_bad(I, s, r)
        rep.ob(rule, ok, '%s: %s' % (S, what) if ok else '%s: %s with a ratio that is not shown to be %s the domain (%s)' % (S, what, 'inside' if good else 'outside', describe(s)), W(fn))
    # --- ratio setter
    st, _ = havoc(T, S, st=S.st)
    r = fresh('new_ratio', False, maynan=True)
    before = st.copy()
    acc = []
    for s, v in public(T, I, 'src_set_ratio', {'handle': S.h, 'double': r}, st):
        if not isinstance(v, Poly) or v.cval() is None: rep.ob('setter', False, '%s: result of the ratio setter is not a constant' % S, W('src_set_ratio')); continue
        if v.cval() == 0:
            judge('setter', s, r, True, 'the setter accepts', 'src_set_ratio'); acc.append(s)
        else:
            rep.ob('setter', v.cval() == bad, '%s: the setter answers %s' % (S, v), W('src_set_ratio'))
            judge('setter', s, r, False, 'the setter refuses', 'src_set_ratio')
            ch = changed(I, before, s, S.h)
            rep.ob('refused-not-stored', not ch, '%s: a refused ratio leaves the handle alone' % S if not ch else '%s: a refused set-ratio changes %s' % (S, ', '.join(cellname(I, k) for k in ch)), W('src_set_ratio'))
    rep.need(acc, 'the ratio setter accepts nothing')
    # --- an accepted ratio is in effect when the converter starts
    if mode == 'process':
        rc = ratio_cells(T, S)
        rep.need(rc, 'no cell of the handle holds the ratio in effect')
    def entered(s, rr, what, fn):
        cells = handle_cells(I, s, S.h)
        live = [k for k in rc if isinstance(cells.get(k), Poly) and cells[k] == rr]
        rep.ob('set-ratio-effective', bool(live), '%s: %s' % (S, what) if live else '%s: %s: the ratio set before is not the one the call starts from' % (S, what), W(fn))
    if mode == 'process':
        for s0 in acc:
            # used straight after setting it
            s1 = s0.copy()
            p, x = anydata(T, I, s1, S.C, tag='_eff')
            got = []
            stub_process(T, I, S, lambda I, s, i, a, n: got.append(s) or [])
            for s, v in public(T, I, 'src_process', {'handle': S.h, 'data': p}, s1): pass
            for s in got: entered(s, r, 'the next call starts from the ratio set', 'src_process')
            rep.need(got, 'no call is accepted after setting a ratio')
        # --- process call
        st, _ = havoc(T, S, st=S.st, tag='p')
        before = st.copy()
        p, x = anydata(T, I, st, S.C, tag='_p')
        got = []
        stub_process(T, I, S, lambda I, s, i, a, n: got.append(s) or [])
        rets = public(T, I, 'src_process', {'handle': S.h, 'data': p}, st)
        for s in got: judge('process-accepts', s, x['r'], True, 'a converter is run', 'src_process')
        rep.need(got, 'no path of the process call reaches a converter')
        for s, v in rets:
            k = v.cval() if isinstance(v, Poly) else None
            if k == bad:
                judge('process-refuses', s, x['r'], False, 'the process call reports a bad ratio', 'src_process')
                ch = changed(I, before, s, S.h)
                rep.ob('refused-not-stored', not ch, '%s: a refused ratio leaves the handle alone' % S if not ch else '%s: a call refused for its ratio changes %s' % (S, ', '.join(cellname(I, k) for k in ch)), W('src_process'))
            elif k == 0: judge('process-accepts', s, x['r'], True, 'success', 'src_process')
        rep.need(any(isinstance(v, Poly) and v.cval() == bad for s, v in rets), 'the process call never reports a bad ratio')
    else:
        st, _ = havoc(T, S, st=S.st, tag='c')
        before = st.copy()
        r = fresh('read_ratio', False, maynan=True); n = fresh('frames', True)
        st.facts = st.facts.add(n - 1)
        out = I.mkobj('caller', 'read_out', n * S.C * 4, array=True, init='hav')
        cbs, got = [], []
        usercb(T, I, lambda I, s, i, a: cbs.append(s.copy()) or None)
        stub_process(T, I, S, lambda I, s, i, a, nm: got.append(s) or [])
        rets = public(T, I, 'src_callback_read', {'handle': S.h, 'double': r, 'long': n, 'float*': Ptr(out, ZERO)}, st)
        for s in got: judge('read-accepts', s, r, True, 'a converter is run', 'src_callback_read')
        for s in cbs: judge('read-accepts', s, r, True, 'the callback is called', 'src_callback_read')
        rep.need(got and cbs, 'no path of the callback read reaches the callback and a converter')
        nb = 0
        for s, v in rets:
            for s2, e in public(T, I, 'src_error', {'handle': S.h}, s.copy()):
                k = e.cval() if isinstance(e, Poly) else None
                if k == bad:
                    nb += 1
                    if not isinstance(v, Poly) or not s2.facts.entails_eq(v): rep.ob('read-refuses', False, '%s: a refused read returns frames' % S, W('src_callback_read'))
                    judge('read-refuses', s2, r, False, 'the read reports a bad ratio', 'src_callback_read')
                    ch = [c for c in changed(I, before, s, S.h) if not same_error_cell(T, I, s, S.h, c, bad)]
                    rep.ob('refused-not-stored', not ch, '%s: a refused ratio leaves the handle alone' % S if not ch else '%s: a read refused for its ratio changes %s' % (S, ', '.join(cellname(I, k) for k in ch)), W('src_callback_read'))
        rep.need(nb, 'the callback read never reports a bad ratio')
    rep.absorb(I)

def same_error_cell(T, I, s, h, c, code):
    v = handle_cells(I, s, h).get(c)
    return isinstance(v, Poly) and v.cval() == code

def validity(rep, T):
    I = Interp(T.M); st = State(); I.C = None; I.merge_limit = 10 ** 6
    r = fresh('ratio', False, maynan=True)
    F = T.M.functions['src_is_valid_ratio']; w = (F.file, F.line, F.name)
    n = [0, 0]
    for s, v in public(T, I, 'src_is_valid_ratio', {'double': r}, st):
        vs = [(s, v.cval() != 0)] if isinstance(v, Poly) and v.cval() is not None else [(a, t) for a, t in I.split(s, Cond(v, '!=') if isinstance(v, Poly) else v)]
        for s, t in vs:
            n[t] += 1
            ok = shown_good(I, s, r) if t else shown_bad(I, s, r)
            rep.ob('validity-query', ok, 'valid exactly inside the domain' if ok else 'the query says %s for ratios that are not (%s)' % ('valid' if t else 'invalid', describe(s)), w)
    rep.need(n[0] and n[1], 'the validity query is constant')
    rep.absorb(I)

def simple(rep, T, name):
    bad = T.err['BAD_SRC_RATIO']
    F = T.M.functions['src_simple']; w = (F.file, F.line, F.name)
    k = T.E[name]
    I, st, C = new_interp(T); I.merge_limit = 10 ** 6; I.fail_alloc = True
    p, x = anydata(T, I, st, C)
    got = []
    stub_process(T, I, None, lambda I, s, i, a, n: got.append(s.copy()) or None)
    F = T.decls['src_simple']
    rets = I.call('src_simple', [p if 'SRC_DATA' in q else None for q in F.params[:1]] + [const(k), C], st)
    nb = 0
    for s in got:
        ok = shown_good(I, s, x['r'])
        rep.ob('one-shot', ok, '%s: converts only inside the domain' % name if ok else '%s: converts with a ratio not shown to be in the domain (%s)' % (name, describe(s)), w)
    for s, v in rets:
        e = v.cval() if isinstance(v, Poly) else None
        if e == bad:
            nb += 1; ok = shown_bad(I, s, x['r'])
            rep.ob('one-shot', ok, '%s: refuses only outside the domain' % name if ok else '%s: reports a bad ratio inside the domain (%s)' % (name, describe(s)), w)
        elif e == 0:
            ok = shown_good(I, s, x['r'])
            rep.ob('one-shot', ok, '%s: success only inside the domain' % name if ok else '%s: success with a ratio not shown to be in the domain (%s)' % (name, describe(s)), w)
    rep.need(got and nb, 'src_simple(%s) reaches no converter or never reports a bad ratio' % name)
    rep.absorb(I)

def run(rep, tier):
    rep.explanation = ('Each public function that takes a ratio is interpreted with a symbolic ratio (or NaN) on handles of every converter and both calling styles after an arbitrary history, the converter '
                       'functions cut off. Acceptance (converter or callback reached, success, validity) must imply 1/256 <= r <= 256 and refusal its negation; refused ratios change no cell; the cell that '
                       'holds the ratio in effect has the set ratio when the next converter starts.')
    rep.assumptions = ASSUME + ['infinities compare like very large numbers']
    T = Tree(rep)
    validity(rep, T)
    for name in T.enabled: simple(rep, T, name)
    for S in shapes(T): one(rep, T, S, 'process')
    for S in shapes(T, mode='callback'): one(rep, T, S, 'callback')
