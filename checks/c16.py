"""C16: input accounting of the callback read, by ghost counters of what the user supplied and the converters consumed."""
from .calls import *
from sa.report import pmap

G = lambda n: ('g', n)

def reads(rep, T, S):
    I = S.I; I.merge_limit = 10 ** 6
    F = T.M.functions['src_callback_read']; w = (F.file, F.line, F.name)
    keep = {(S.h.obj.id, k) for k in mode_cells(T)}
    C = S.C
    def setup(tag):
        st, syms = havoc(T, S, st=S.st, keep=keep, tag=tag)
        pc = [k for k, v in syms.items() if k[0] == S.h.obj.id and isinstance(v, Ptr)]
        rep.need(len(pc) == 1, 'the handle remembers no single pending input pointer')
        a0 = fresh('pending_at', True)
        st.mem[pc[0]] = (Ptr(I.cb_area, a0), 8)
        r = fresh('ratio' + tag, False, maynan=True); n = fresh('frames' + tag, True)
        out = I.mkobj('opaque', 'read_out' + tag, None, array=True)
        return st, syms, pc[0], a0, r, n, out
    usercb(T, I)
    # which cell holds the number of pending frames: what the first converter call of a read gets as its frame count
    st, syms, pcell, a0, r, n, out = setup('_p')
    cand = {k for k, v in syms.items() if k[0] == S.h.obj.id and isinstance(v, Poly) and v.isint()}
    seen = []
    def enter(I, s, instr, h, get):
        if not s.ghost.get(G('cb')): seen.append({k for k in cand if isinstance(get('input_frames'), Poly) and s.facts.entails_eq(get('input_frames') - syms[k])})
    ext = dict(I.ext)
    usercb(T, I, lambda I, s, i, a: [])            # paths on which the user function is called end there
    stub_effects(T, I, S, lambda *a: enter(*a))
    for k in list(I.ext):
        if k in process_functions(T):
            f = I.ext[k]
            I.ext[k] = lambda I, s, i, a, f=f: (f(I, s, i, a), [])[1]
    I.mute += 1
    st.facts = st.facts.add(n - 1)
    for k in cand: st.facts = st.facts.add(syms[k])
    try: I.call('src_callback_read', call_args(T, 'src_callback_read', {'handle': S.h, 'double': r, 'long': n, 'float*': Ptr(out, ZERO)}), st)
    finally: I.mute -= 1
    I.ext = ext
    nc = None
    for x in seen: nc = x if nc is None else nc & x
    rep.need(nc and len(nc) == 1, 'the handle has no single count of pending frames (%s)' % (nc,))
    ncell = nc.pop()
    # --- the analysis proper
    st, syms, pcell, a0, r, n, out = setup('_r')
    n0 = syms[ncell]
    st.facts = st.facts.add(n0)
    st.ghost.update({G('n'): n0, G('at'): a0, G('gen'): ZERO, G('end'): ZERO, G('cb'): ZERO})
    before = st.copy()
    def ob(rule, s, ok, good, bad, wh=None):
        if I.mute: return
        rep.ob(rule, ok, '%s: %s' % (S, good) if ok else '%s: %s (%s)' % (S, bad, describe(s)), wh or w)
    eq = lambda s, a, b: isinstance(a, Poly) and isinstance(b, Poly) and s.facts.entails_eq(a - b)
    cnt = {'cb': 0, 'conv': 0}
    def oncb(I, s, instr, args):
        cnt['cb'] += 1
        wh = where(instr)
        ob('callback-when-empty', s, eq(s, s.ghost[G('n')], ZERO), 'the user function is called only when no supplied input is left', 'the user function can be called while supplied input is left', wh)
        ob('callback-user-data', s, any(a == I.userdata for a in args), 'the user function gets the user pointer', 'the user function gets another pointer than the user\'s: %r' % (args,), wh)
        ob('callback-request', s, s.facts.entails(n - 1), 'never called for a non-positive request', 'the user function can be called for a non-positive request', wh)
        ob('callback-ratio', s, shown_good(I, s, r), 'never called for a bad ratio', 'the user function can be called for a bad ratio', wh)
        slot = [x for x in args if isinstance(x, Ptr) and x.obj.kind == 'stack']
        ob('callback-slot', s, len(slot) == 1, 'it gets a place for its data pointer', 'it gets no place for its data pointer', wh)
        k = fresh('cb_frames', True); a = fresh('cb_at', True)
        more, zero = s, s.copy()
        more.facts = more.facts.add(k - 1)
        q = slot[0]
        more.mem[(q.obj.id, int(q.off.cval() or 0))] = (Ptr(I.cb_area, a), 8)
        more.ghost[G('n')] = k; more.ghost[G('at')] = a; more.ghost[G('cb')] = ONE
        zero.mem[(q.obj.id, int(q.off.cval() or 0))] = (Ptr(I.cb_area, a), 8); zero.ghost[G('at')] = a
        zero.ghost[G('end')] = ONE; zero.ghost[G('n')] = ZERO; zero.ghost[G('cb')] = ONE
        return [(more, k), (zero, ZERO)]
    def enter(I, s, instr, h, get):
        cnt['conv'] += 1
        wh = where(instr)
        nn, pp, oo, mm, ee = (get(x) for x in ('input_frames', 'data_in', 'data_out', 'output_frames', 'end_of_input'))
        ob('input-offered', s, eq(s, nn, s.ghost[G('n')]), 'a converter is offered the frames left over', 'a converter is offered %r frames where %r are left' % (nn, s.ghost[G('n')]), wh)
        empty = eq(s, s.ghost[G('n')], ZERO)
        ob('input-offered', s, empty or isinstance(pp, Ptr) and pp.obj is I.cb_area and eq(s, pp.off, s.ghost[G('at')]), 'in order, from where the last conversion stopped', 'a converter is offered input that does not start where the last conversion stopped: %r' % (pp,), wh)
        ob('output-contiguous', s, isinstance(oo, Ptr) and oo.obj is out and eq(s, oo.off, s.ghost[G('gen')] * C * 4), 'output continues where the last conversion stopped', 'output goes to %r after %r frames' % (oo, s.ghost[G('gen')]), wh)
        ob('output-bounded', s, eq(s, mm + s.ghost[G('gen')], n), 'the frames still wanted are requested', '%r frames are requested when %r of %r were produced' % (mm, s.ghost[G('gen')], n), wh)
        e = s.ghost[G('end')]
        t1 = eq(s, e, ee) or eq(s, e, ZERO) and eq(s, ee, ZERO) or eq(s, e, ONE) and (isinstance(ee, Poly) and (s.facts.entails(ee - 1)))
        ob('end-of-input', s, t1, 'end of input is declared exactly when the user function had nothing', 'end of input is %r where the user function %s' % (ee, 'had nothing' if eq(s, e, ONE) else 'did not say so'), wh)
    def leave(s, c):
        s.ghost[G('n')] = s.ghost[G('n')] - c['input_frames_used']
        s.ghost[G('at')] = s.ghost[G('at')] + c['input_frames_used'] * C * 4
        s.ghost[G('gen')] = s.ghost[G('gen')] + c['output_frames_gen']
    I.ext[('callobj', 'usercb')] = oncb
    stub_effects(T, I, S, enter, leave)
    def cands(L, items):
        g = {it.key[1]: L.v(it) for it in items if it.kind == 'ghost' and isinstance(it.key, tuple) and it.key[0] == 'g'}
        out = []
        def e(p): out.extend((p, -p))
        for it in items:
            if it.kind == 'ghost' or not it.isint: continue
            v = L.v(it)
            if it.obj is None:
                for k in g: e(v - g[k])
                if 'gen' in g: e(v + g['gen'] - n)
            else:
                if 'gen' in g: e(v - g['gen'] * C * 4)
                if 'at' in g: e(v - g['at'])
        if 'gen' in g: out.extend((g['gen'], n - g['gen']))
        return out
    I.extra_cands = [cands]
    I.events = []
    rets = I.call('src_callback_read', call_args(T, 'src_callback_read', {'handle': S.h, 'double': r, 'long': n, 'float*': Ptr(out, ZERO)}), st)
    I.extra_cands = []
    rep.need(cnt['cb'] and cnt['conv'], 'the read reaches neither the user function nor a converter')
    for s, v in rets:
        c = handle_cells(I, s, S.h)
        gn = s.ghost[G('n')]
        ob('leftover-kept', s, eq(s, c.get(ncell, ZERO), gn), 'after the read exactly the unconsumed frames are pending', 'after a read %r frames are pending where %r were not consumed' % (c.get(ncell), gn))
        p = c.get(pcell)
        ob('leftover-kept', s, eq(s, gn, ZERO) or isinstance(p, Ptr) and p.obj is I.cb_area and eq(s, p.off, s.ghost[G('at')]), 'and start where the conversion stopped', 'the pending input after a read is %r, not where the conversion stopped' % (p,))
        err = [e for _, e in public(T, I, 'src_error', {'handle': S.h}, s.copy())]
        failed = eq(s, v, ZERO) and all(isinstance(e, Poly) and (s.facts.entails(e - 1)) for e in err)
        ob('read-total', s, eq(s, v, s.ghost[G('gen')]) or failed, 'the result is the number of frames produced', 'the result is %r where %r frames were produced' % (v, s.ghost[G('gen')]))
        if not s.facts.feasible_with(n - 1):
            ob('nothing-requested', s, eq(s, v, ZERO) and eq(s, s.ghost[G('cb')], ZERO), 'a non-positive request returns nothing', 'a non-positive request returns %r' % (v,))
    for e in I.events:
        if e.kind in ('nullderef', 'uaf', 'unkcall', 'oob'): rep.event('no-bad-access', e)
    rep.absorb(I)
    rep.notes.append('%s: user function reached on %d, converters on %d abstract paths' % (S, cnt['cb'], cnt['conv']))

def run(rep, tier):
    rep.explanation = ('The callback read is interpreted on callback handles of every converter after an arbitrary history, with ghost counters of the frames the user function supplied, the converters consumed and produced. '
                       'The user function returns any number of frames at any address, the converters consume and produce any number within what they were offered, or fail. Loop invariants are inductive.')
    rep.assumptions = ASSUME + ['the user function returns no negative count', 'converters consume at most what they are offered (C07) and nothing when they fail', 'the user function does not use the handle it is called for']
    T = Tree(rep)
    pmap(rep, [(reads, (T, S)) for S in shapes(T, mode='callback')])
