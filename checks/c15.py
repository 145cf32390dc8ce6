"""C15: the calling style of a handle is kept for life, and the other style's call is refused without effect."""
from .calls import *
from sa.report import pmap

def style(I, s, h, cells):
    out = {}
    c = handle_cells(I, s, h)
    for k in cells: out[k] = c.get((h.obj.id, k), ZERO)
    return out

def user_cells(T, S):
    """Cells that hold the user's function and data."""
    return {k: v for k, v in handle_cells(S.I, S.st, S.h).items() if isinstance(v, Ptr) and v.obj.kind == 'opaque' and v.obj.name in ('usercb', 'userdata')}

def calls(rep, T, S, mode):
    I = S.I; I.merge_limit = 10 ** 6
    mc = mode_cells(T); keep = {(S.h.obj.id, k) for k in mc}
    want = {k: v[0 if mode == 'process' else 1] for k, v in mc.items()}
    ucell = user_cells(T, S) if mode == 'callback' else {}
    if mode == 'callback': rep.need(len({v.obj.name for v in ucell.values()}) == 2, 'the handle does not hold the user function and data')
    W = lambda fn: (T.M.functions[fn].file, T.M.functions[fn].line, fn)
    E = T.err
    def kept(s, h, fn, what=''):
        c = handle_cells(I, s, h)
        for k, v in want.items():
            x = c.get((h.obj.id, k), ZERO)
            ok = isinstance(x, Poly) and s.facts.entails_eq(x - v)
            rep.ob('style-kept', ok, '%s, %s handle: %s%s keeps the calling style' % (S, mode, fn, what) if ok else '%s, %s handle: %s%s can return with another calling style (%s)' % (S, mode, fn, what, describe(s)), W(fn))
        for (oid, k), v in ucell.items():
            x = c.get((h.obj.id if oid == S.h.obj.id else oid, k))
            rep.ob('user-kept', x == v, '%s: %s%s keeps the user function and data' % (S, fn, what) if x == v else '%s: %s%s can return with another user function or data' % (S, fn, what), W(fn))
    n = 0
    for fn, d in sorted(T.decls.items()):
        if not d.params or not is_handle(d.params[0]) or fn == 'src_delete': continue
        tag = '_%s_%s' % (mode[0], fn)
        st, _ = havoc(T, S, st=S.st, keep=keep, tag=tag)
        given = {'handle': S.h}
        p, x = anydata(T, I, st, S.C, tag=tag); given['data'] = p
        given['double'] = fresh('ratio' + tag, False, maynan=True); given['long'] = nf = fresh('frames' + tag, True)
        out = I.mkobj('caller', 'read_out' + tag, None, array=True, init='hav'); given['float*'] = Ptr(out, ZERO)
        eo = I.mkobj('stack', 'error' + tag, const(4), init='undef'); given['int*'] = Ptr(eo, ZERO)
        before = st.copy()
        ext = dict(I.ext)
        stub_effects(T, I, S); cb = []
        def hook(I, s, i, a):
            cb.append(1)
            c = handle_cells(I, s, S.h)
            for k, v in want.items():
                y = c.get((S.h.obj.id, k), ZERO); ok = isinstance(y, Poly) and s.facts.entails_eq(y - v)
                if not I.mute: rep.ob('style-in-callback', ok, '%s: the user function sees a handle of its own style' % S if ok else '%s: the user function is called while the handle has the other style' % S, where(i))
        usercb(T, I, hook)
        I.fail_alloc = fn == 'src_clone'
        I.events = []
        rets = public(T, I, fn, given, st)
        I.ext = ext
        rep.need(rets, '%s does not return' % fn)
        for s, v in rets:
            n += 1
            kept(s, S.h, fn)
            if fn == 'src_clone' and isinstance(v, Ptr) and v.obj.kind == 'heap': kept(s, v, fn, ' (the copy)')
        other = 'src_process' if mode == 'callback' else 'src_callback_read'
        if fn == other:
            for s, v in rets:
                k = v.cval() if isinstance(v, Poly) else None
                if mode == 'callback':
                    rep.ob('other-style-refused', k == E['BAD_MODE'], '%s: a callback handle refuses the process call' % S if k == E['BAD_MODE'] else '%s: the process call on a callback handle gives %s' % (S, k), W(fn))
                    ch = changed(I, before, s, S.h)
                else:
                    pos = I.decide(s, Cond(nf - 1, '>='))
                    es = [e.cval() if isinstance(e, Poly) else None for _, e in public(T, I, 'src_error', {'handle': S.h}, s.copy())]
                    ok = k == 0 and (pos is False or all(e == E['BAD_MODE'] for e in es))
                    rep.ob('other-style-refused', ok, '%s: a process handle refuses the callback read' % S if ok else '%s: the callback read on a process handle gives %s, error %s' % (S, v, es), W(fn))
                    ch = [c for c in changed(I, before, s, S.h) if not same(I, s, S.h, c, E['BAD_MODE'])]
                rep.ob('refused-unchanged', not ch, '%s: the refused call leaves the handle alone' % S if not ch else '%s: the refused %s changes %s' % (S, fn, ', '.join(cellname(I, c) for c in ch)), W(fn))
                ok = out.id not in s.arr and s.arr.get(x['out'].id) == before.arr.get(x['out'].id) and all(s.mem[(x['d'].id, T.L[f])][0] == v0 for f, (v0, sz) in x['fields'].items())
                rep.ob('refused-no-output', ok, '%s: the refused call writes nothing' % S if ok else '%s: the refused %s writes to its arguments' % (S, fn), W(fn))
    rep.need(n > 8, 'too few calls analysed')
    rep.absorb(I)

def same(I, s, h, c, code):
    v = handle_cells(I, s, h).get(c)
    return isinstance(v, Poly) and v.cval() == code

def converters(rep, T):
    """No function behind the process call writes a cell that tells the styles apart or holds the user's function."""
    mc = mode_cells(T)
    S = shapes(T, mode='callback')[0]
    cells = set(mc) | {k for (oid, k) in user_cells(T, S) if oid == S.h.obj.id}
    sites = {s.h.obj.seq for s in shapes(T)}
    eff = converter_effects(T); n = 0
    for site, fs in eff.items():
        if site not in sites: continue
        for off in cells:
            n += 1
            hit = [i for f, i in fs.items() if f is None or vsa.meets(f, off)]
            rep.ob('converters-keep-style', not hit, 'no converter writes offset %d of handles made at %s:%s' % (off, site.fn.name, site.line) if not hit else '%s can write the calling style or user function of a handle (offset %d)' % (hit[0].fn.name, off), where(hit[0]) if hit else (site.file, site.line, site.fn.name))
    rep.need(n, 'no handle allocation is known to the effect analysis')

def run(rep, tier):
    rep.explanation = ('Every public function is interpreted on process and callback handles of every converter after an arbitrary history, converters and user function replaced by their write effects (points-to '
                       'analysis); on every returning path the cells that tell the styles apart and the user function and data are as before, also in clones and at the call of the user function. The other style\'s call '
                       'must give the bad-mode error and change nothing else.')
    rep.assumptions = ASSUME
    T = Tree(rep)
    converters(rep, T)
    pmap(rep, [(calls, (T, S, 'process')) for S in shapes(T)] + [(calls, (T, S, 'callback')) for S in shapes(T, mode='callback')])
