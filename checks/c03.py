"""C03: outcome of creation, path by path, for every type, channel count, error pointer and allocation failure."""
from .calls import *
from sa.report import pmap

def failed(s): return [k for k in s.ghost if isinstance(k, tuple) and k[0] == 'allocfail']

def creation(rep, T, fn, label, typ, chan, errp, func='user'):
    """fn: src_new, src_callback_new or src_simple.  typ: constant type or 'low'/'high' (outside the enumeration)."""
    I = Interp(T.M); I.fail_alloc = True; I.merge_limit = 10 ** 6
    st = State(); I.consts_pool = [Fraction(0), Fraction(1), Fraction(-1)]
    C = fresh('channels', True); I.C = C; I.type_range(st, C, 32)
    lo, hi = -(1 << 31), (1 << 31) - 1
    st.facts = st.facts.add(C - lo).add(const(hi) - C)
    supported = False
    if typ in ('low', 'high'):
        k = fresh('converter', True); I.type_range(st, k, 32)
        vs = sorted(T.E.values())
        st.facts = st.facts.add(const(vs[0] - 1) - k).add(k - lo) if typ == 'low' else st.facts.add(k - (vs[-1] + 1)).add(const(hi) - k)
    else: k = const(T.E[typ] if isinstance(typ, str) else typ); supported = typ in T.enabled
    maxc = T.maxch if isinstance(typ, str) and 'SINC' in typ else None
    cr = {'bad': [const(0) - C], 'ok': [C - 1], 'big': [C - 1]}[chan]
    if maxc is not None:
        if chan == 'ok': cr.append(const(maxc) - C)
        if chan == 'big': cr = [C - (maxc + 1)]
    for p in cr: st.facts = st.facts.add(p)
    if chan == 'ok' and maxc is None or chan == 'ok': lin.POS.add(C.single().id); lin.MINVAL[C.single().id] = 1
    chan_ok = chan == 'ok'
    eo = None
    if errp: eo = I.mkobj('stack', 'error', const(4), init='undef'); ep = Ptr(eo, ZERO)
    else: ep = Ptr(I.NULL, ZERO)
    fo = I.mkobj('opaque', 'usercb', None, array=True); ud = I.mkobj('opaque', 'userdata', None, array=True)
    F = T.M.functions[fn]; w = (F.file, F.line, fn)
    ints = [k, C]; args = []
    x = None
    for p in T.decls[fn].params:
        q = p.replace(' ', '')
        if q == 'int*': args.append(ep)
        elif q == 'int': args.append(ints.pop(0))
        elif q == 'void*': args.append(Ptr(ud, ZERO))
        elif 'SRC_DATA' in q:
            a, x = anydata(T, I, st, C); args.append(a)
        else: args.append(Ptr(fo, ZERO) if func == 'user' else Ptr(I.NULL, ZERO))
    if fn == 'src_simple': 
        conv = [0]
        stub_process(T, I, None, lambda I, s, i, a, n: [(s, ZERO)])
    rets = I.call(fn, args, st)
    sc = '%s(%s%s, %s channels%s%s)' % (fn, '' if func == 'user' else 'no function, ', label, chan, '' if fn == 'src_simple' else ', error pointer' if errp else ', no error pointer', '')
    for e in I.events:
        if e.kind == 'abort': rep.event('no-abort', e, '%s: %s' % (sc, e.msg))
        elif e.kind in ('nullderef', 'uaf', 'oob', 'badfree', 'doublefree', 'unkcall', 'unkptr'): rep.event('no-bad-access', e, '%s: %s' % (sc, e.msg))
    rep.ok_n('no-abort', 1); rep.need(rets, '%s never returns' % sc)
    E = T.err; made = 0
    for s, v in rets:
        causes = {}
        if not supported: causes[E['BAD_CONVERTER']] = 'the type is not supported'
        if not chan_ok: causes[E['BAD_CHANNEL_COUNT']] = 'the channel count is out of range'
        if func != 'user': causes[E['BAD_CALLBACK']] = 'there is no callback'
        if failed(s): causes[E['MALLOC_FAILED']] = 'an allocation failed'
        if chan == 'big' and typ not in T.enabled: pass
        if fn == 'src_simple':
            code = v.cval() if isinstance(v, Poly) else None
            if code is None: rep.ob('one-shot-code', False, '%s: result is not a known code' % sc, w); continue
            ok = code in causes if causes else code not in (E['BAD_CONVERTER'], E['BAD_CHANNEL_COUNT'], E['BAD_CALLBACK'], E['MALLOC_FAILED'])
            rep.ob('one-shot-code', ok, '%s gives %d' % (sc, code) if ok else '%s gives %d (%s)' % (sc, code, describe(s)), w)
            continue
        code = None
        if eo is not None:
            e = s.mem.get((eo.id, 0))
            code = e[0].cval() if e is not None and isinstance(e[0], Poly) else None
            rep.ob('code-stored', code is not None, '%s: a code is stored' % sc if code is not None else '%s: returns without storing a known code (%s)' % (sc, describe(s)), w)
        if is_null(v):
            rep.ob('failure-has-cause', bool(causes), '%s: NULL because %s' % (sc, ' and '.join(causes.values())) if causes else '%s: NULL although nothing is wrong (%s)' % (sc, describe(s)), w)
            if eo is not None and code is not None and causes:
                rep.ob('code-names-cause', code in causes, '%s: code %d' % (sc, code) if code in causes else '%s: code %d although %s' % (sc, code, ' and '.join(causes.values())), w)
        elif isinstance(v, Ptr) and v.obj.kind == 'heap' and not v.off.t:
            made += 1
            rep.ob('success-has-no-cause', not causes, '%s: a handle' % sc if not causes else '%s: a handle although %s' % (sc, ' and '.join(causes.values())), w)
            if eo is not None: rep.ob('success-stores-0', code == 0, '%s: code 0' % sc if code == 0 else '%s: a handle but code %s' % (sc, code), w)
            for s2, g in public(T, I, 'src_get_channels', {'handle': v}, s.copy()):
                ok = isinstance(g, Poly) and s2.facts.entails_eq(g - C)
                rep.ob('new-handle', ok, '%s: has the requested channels' % sc if ok else '%s: reports %r channels' % (sc, g), w)
            for s2, g in public(T, I, 'src_error', {'handle': v}, s.copy()):
                ok = isinstance(g, Poly) and s2.facts.entails_eq(g)
                rep.ob('new-handle', ok, '%s: has no error' % sc if ok else '%s: has error %r' % (sc, g), w)
            for off, (a, b) in mode_cells(T).items():
                g = handle_cells(I, s, v).get((v.obj.id, off), ZERO); want = b if fn == 'src_callback_new' else a
                ok = isinstance(g, Poly) and s.facts.entails_eq(g - want)
                rep.ob('new-handle', ok, '%s: has the requested style' % sc if ok else '%s: has style %r' % (sc, g), w)
        else: rep.ob('result-is-handle', False, '%s: the result is %r' % (sc, v), w)
    if fn != 'src_simple':
        if supported and chan_ok and func == 'user': rep.need(made, '%s never succeeds' % sc)
    rep.absorb(I)

def clone(rep, T, S, mode, errp):
    I = S.I; I.fail_alloc = True; I.merge_limit = 10 ** 6
    F = T.M.functions['src_clone']; w = (F.file, F.line, 'src_clone')
    for null in (True, False):
        st, _ = havoc(T, S, st=S.st, keep={(S.h.obj.id, k) for k in mode_cells(T)}, tag='_cl')
        eo = I.mkobj('stack', 'clone_error', const(4), init='undef')
        h = Ptr(I.NULL, ZERO) if null else S.h
        I.events = []
        rets = public(T, I, 'src_clone', {'handle': h, 'int*': Ptr(eo, ZERO) if errp else Ptr(I.NULL, ZERO)}, st)
        sc = 'src_clone(%s%s)' % ('NULL' if null else '%s %s handle' % (S, mode), ', error pointer' if errp else '')
        for e in I.events:
            if e.kind == 'abort': rep.event('no-abort', e, '%s: %s' % (sc, e.msg))
            elif e.kind in ('nullderef', 'uaf', 'oob', 'badfree', 'doublefree', 'unkcall', 'unkptr'): rep.event('no-bad-access', e, '%s: %s' % (sc, e.msg))
        made = 0
        for s, v in rets:
            code = s.mem.get((eo.id, 0), (None,))[0] if errp else None
            code = code.cval() if isinstance(code, Poly) else None
            if null: ok = is_null(v) and (not errp or code == T.err['BAD_STATE'])
            elif is_null(v): ok = bool(failed(s)) and (not errp or code == T.err['MALLOC_FAILED'])
            else: made += 1; ok = not failed(s) and (not errp or code == 0) and isinstance(v, Ptr) and v.obj.kind == 'heap'
            rep.ob('clone-outcome', ok, '%s: %s, code %s' % (sc, 'NULL' if is_null(v) else 'a copy', code) if ok else '%s: %r with code %s, %s' % (sc, v, code, 'an allocation failed' if failed(s) else 'no allocation failed'), w)
        if not null: rep.need(made, '%s never succeeds' % sc)
    rep.absorb(I)

def run(rep, tier):
    rep.explanation = ('The creation calls are interpreted for every enumerated type and all others, every 32-bit channel count, with and without error pointer and callback, each allocation succeeding or failing; every '
                       'returning path is matched against the contract (cause of failure, code stored, channels, style and error of the new handle). Paths that reach abort or a failed assertion are reported.')
    rep.assumptions = ASSUME
    T = Tree(rep)
    jobs = []
    mode_cells(T); process_functions(T)
    types = [(n, n) for n in sorted(T.E, key=lambda n: T.E[n])] + [('type below', 'low'), ('type above', 'high')]
    vs = sorted(T.E.values())
    types += [('type %d' % k, k) for k in range(vs[0], vs[-1]) if k not in vs]
    for label, t in types:
        for chan in ('bad', 'ok', 'big'):
            if chan == 'big' and not (isinstance(t, str) and 'SINC' in t): continue
            for errp in (True, False):
                jobs.append((creation, (T, 'src_new', label, t, chan, errp)))
                for f in ('user', 'none'): jobs.append((creation, (T, 'src_callback_new', label, t, chan, errp, f)))
            jobs.append((creation, (T, 'src_simple', label, t, chan, True)))
    for mode in ('process', 'callback'):
        for S in shapes(T, mode=mode):
            for errp in (True, False): jobs.append((clone, (T, S, mode, errp)))
    pmap(rep, jobs)
