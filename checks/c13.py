"""C13: after a reset every cell of the handle is as creation leaves it, except scratch cells that every call overwrites
before it looks at them."""
from .calls import *
from .c14 import value
from sa.report import pmap

def segments(I, s, o, c):
    """Content of an array as disjoint segments [(lo, hi, byte or base)]; None when the pieces cannot be ordered."""
    F = s.facts; n = o.size
    if n is None: return None
    b = c[0]
    if b[0] == 'fill': segs = [(b[1], b[2], b[3])] if F.entails_eq(b[1]) and F.entails(b[2] - n) else None
    elif b[0] == 'zero': segs = [(ZERO, n, 0)]
    else: segs = [(ZERO, n, b)]
    if segs is None: return None
    for e in c[1:]:
        if e[0] != 'fill': return None
        _, lo, hi, v = e
        out = []
        for x, y, w in segs:
            if F.entails(lo - y) or F.entails(x - hi): out.append((x, y, w)); continue
            if not F.entails(x - lo):
                if not F.entails(lo - x): return None
                out.append((x, lo, w))
            if not F.entails(hi - y):
                if not F.entails(y - hi): return None
                out.append((hi, y, w))
        out.append((lo, hi, v))
        segs = out
    segs = [g for g in segs if not F.entails_eq(g[1] - g[0])]
    ch = True
    while ch:
        ch = False
        for i, g in enumerate(segs):
            for j, h in enumerate(segs):
                if i != j and g[2] == h[2] and F.entails_eq(g[1] - h[0]):
                    segs = [x for k, x in enumerate(segs) if k not in (i, j)] + [(g[0], h[1], g[2])]; ch = True; break
            if ch: break
    return segs

def same_array(I, s, t, o):
    """Array o holds the same bytes in s (after reset) as in t (after creation)."""
    a, b = I.content(s, o), I.content(t, o)
    if a == b: return True
    x, y = segments(I, s, o, a), segments(I, t, o, b)
    if x is None or y is None or len(x) != len(y): return False
    return all(any(g[2] == h[2] and s.facts.entails_eq(g[0] - h[0]) and s.facts.entails_eq(g[1] - h[1]) for h in y) for g in x)

def equal(s, u, v):
    if u == v: return True
    if isinstance(u, Ptr) and isinstance(v, Ptr): return u.obj is v.obj and s.facts.entails_eq(u.off - v.off)
    if isinstance(u, Cond) and isinstance(v, Cond): return u is v
    return isinstance(u, Poly) and isinstance(v, Poly) and s.facts.entails_eq(u - v)

def compare(rep, T, S, mode):
    """Cells that differ between the reset and the new handle: {(object, offset, type or None)}."""
    I = S.I; I.merge_limit = 10 ** 6
    w = (T.M.functions['src_reset'].file, T.M.functions['src_reset'].line, 'src_reset')
    diff = {}; E = T.err
    for pend in ('ptr', 'null'):
        st, _ = havoc(T, S, st=S.st, keep={(S.h.obj.id, k) for k in mode_cells(T)}, pending=pend, tag='_rs' + pend)
        ext = dict(I.ext)
        rets = public(T, I, 'src_reset', {'handle': S.h}, st)
        I.ext = ext
        good = [(s, v) for s, v in rets if isinstance(v, Poly) and not s.facts.add(v).add(-v).entails(const(-1))]
        rep.need(good, 'src_reset never succeeds on %s' % S)
        for s, v in good:
            for o, c in owned(I, s, S.h):
                if o.array:
                    if same_array(I, s, S.st, o): rep.ob('cell-reset', True, '%s, %s handle: contents of %s' % (S, mode, o.name))
                    else: diff[(o, None, None)] = 'the contents of %s' % o.name
                    continue
                lay = I.layout(o)
                rep.need(lay is not None, 'layout of %s unknown' % o.name)
                for off, t in lay:
                    if t.k == 'arr':
                        a = I.sub_obj(o, off, t.size, t.el.size)
                        if same_array(I, s, S.st, a): rep.ob('cell-reset', True, '%s, %s handle: array at offset %d of %s' % (S, mode, off, o.name))
                        else: diff[(o, off, 'arr')] = 'the array at offset %d of %s' % (off, o.name)
                        continue
                    x, y = value(I, s, o, off, t), value(I, S.st.copy(), o, off, t)
                    if equal(s, x, y): rep.ob('cell-reset', True, '%s, %s handle: offset %d of %s' % (S, mode, off, o.name))
                    else: diff[(o, off, t)] = '[%r] at offset %d of %s, [%r] when new' % (x, off, o.name, y)
    return diff, w

def one(rep, T, S, mode, P):
    I = S.I
    diff, w = compare(rep, T, S, mode)
    if not diff: return
    if mode != 'process':
        # scratch cells of the converter are followed on the process handle; there must be no others here
        from sa.report import Report
        d2, _ = compare(Report('x', 'quick'), T, P, 'process')
        have = {(o.seq, off) for o, off, t in d2}
        mine = {k: v for k, v in diff.items() if (k[0].seq, k[1]) not in have}
        for k, what in mine.items():
            rep.ob('cell-reset', k[0].seq is S.h.obj.seq and k[1] is not None, '%s, callback handle: after a reset the handle still holds %s, unlike a process handle' % (S, what), w)
    why = scratch(rep, T, S, mode, diff)
    for k, what in sorted(diff.items(), key=lambda x: (x[0][0].id, str(x[0][1]))):
        r = why.get(k)
        if r is None: rep.ob('scratch-overwritten', True, '%s, %s handle: %s is overwritten by every call before it is read' % (S, mode, what), w)
        else: rep.ob('cell-reset', False, '%s, %s handle: after a reset the handle still holds %s, and %s' % (S, mode, what, r), w)
    rep.absorb(I)

def scratch(rep, T, S, mode, diff):
    """{cell: where its left-over value is read}"""
    I = S.I; I.light = True; I.coarse = 4; I.max_states = 4000
    why = {}
    scal = {(o.id, off): (o, off, t) for (o, off, t) in diff if off is not None and t != 'arr'}
    arrs = {}
    for (o, off, t) in diff:
        if off is None: arrs[o.id] = (o, off, t)
        elif t == 'arr': arrs[next(s for s in o.subs.values() if s.start == off).id] = (o, off, t)
    stacks = {}
    # large arrays that hold samples from call to call are never scratch
    for fn, d in sorted(T.decls.items()):
        if not d.params or not is_handle(d.params[0]) or fn in ('src_delete', 'src_clone'): continue
        if fn == 'src_process' and mode != 'process': continue      # the converter behind it is that of a process handle
        tag = '_%s_%s' % (mode[0], fn)
        st, sy = havoc(T, S, st=S.st, keep={(S.h.obj.id, k) for k in mode_cells(T)}, tag=tag)
        I.poison = set()
        for k, (o, off, t) in scal.items():
            v = st.mem[k][0]
            if isinstance(v, Poly):
                p = fresh('leftover', v.isint()); st.mem[k] = (p, st.mem[k][1]); I.poison.add(p.single().id)
                if v.isint(): I.type_range(st, p, t.bits)
        given = {'handle': S.h}
        p, x = anydata(T, I, st, S.C, tag=tag); given['data'] = p
        given['double'] = fresh('ratio' + tag, False, maynan=True); given['long'] = fresh('frames' + tag, True)
        out = I.mkobj('caller', 'read_out' + tag, None, array=True, init='hav'); given['float*'] = Ptr(out, ZERO)
        eo = I.mkobj('stack', 'error' + tag, const(4), init='undef'); given['int*'] = Ptr(eo, ZERO)
        usercb(T, I)
        ext = dict(I.ext)
        if fn != 'src_process': stub_process(T, I, S, lambda I, s, i, a, n: [(s, fresh('status', True))])
        def on_load(I, s, i, ptr, ty):
            if isinstance(ty, tuple): 
                if ptr.obj.id in arrs: stacks.setdefault(ptr.obj.id, set()).add(tuple(I.stack) + (i,))
                return
            if ptr.obj.id in arrs: stacks.setdefault(ptr.obj.id, set()).add(tuple(I.stack) + (i,)); return
            if I.mute or ptr.off.cval() is None: return
            k = (ptr.obj.id, int(ptr.off.cval()))
            e = s.mem.get(k)
            if k in scal and e is not None and isinstance(e[0], Poly) and any(a in I.poison for a in e[0].atoms()):
                why.setdefault(scal[k], '%s reads it at %s:%s before anything is stored there' % (fn, (i.file or i.fn.file), i.line))
        I.on_load.append(on_load)
        def touch(I, s, i, ptr, v, ty):
            if ptr.obj.id in arrs: stacks.setdefault(ptr.obj.id, set()).add(tuple(I.stack) + (i,))
        I.on_store.append(touch)
        I.events = []
        try: rets = public(T, I, fn, given, st)
        finally: I.on_load.remove(on_load); I.on_store.remove(touch); I.ext = ext
        rep.need(rets, '%s does not return' % fn)
        rep.ob('call-analysed', True, '%s: %s from an arbitrary history' % (S, fn))
        for e in I.events:
            if e.kind in ('unkptr', 'unkcall', 'symoff'): rep.ob('call-analysed', False, '%s: %s' % (S, e.msg), (e.file, e.line, e.fn))
        I.events = []
    for oid, (o, off, t) in arrs.items():
        if oid not in stacks or mode != 'process': continue
        why_a = array_scratch(rep, T, S, I.objs[oid], stacks[oid])
        if why_a: why[(o, off, t)] = why_a
    I.light = False
    return why

def array_scratch(rep, T, S, arr, stacks):
    """The function below which all accesses lie fills the array before it reads it."""
    I = S.I
    seqs = [[i.fn.name for i in s] for s in stacks]
    n = 0
    while all(len(q) > n and q[n] == seqs[0][n] for q in seqs): n += 1
    F = seqs[0][n - 1]
    # what that function is called with
    calls = []
    ext = dict(I.ext)
    def grab(I, s, i, args): calls.append((s, args)); return [(s, UNDEF if I.M.functions[F].ret.k == 'void' else I.fresh_val(s, I.M.functions[F].ret, 'stub'))]
    I.ext[F] = grab
    st, _ = havoc(T, S, st=S.st, tag='_sc')
    p, x = anydata(T, I, st, S.C, tag='_sc')
    I.mute += 1
    try: public(T, I, 'src_process', {'handle': S.h, 'data': p}, st)
    finally: I.mute -= 1; I.ext = ext
    rep.need(calls, '%s is not reached' % F)
    st, _ = havoc(T, S, st=S.st, tag='_sk')
    args = []
    for n, a in enumerate(T.M.functions[F].args):
        vs = [c[1][n] for c in calls]
        v = vs[0]
        if isinstance(v, Ptr) and all(isinstance(x, Ptr) and x.obj is v.obj and not x.off.t for x in vs) and I.root(v.obj).kind == 'heap': args.append(v)
        elif isinstance(v, Poly) and all(x == v for x in vs) and (v.cval() is not None or v == S.C): args.append(v)
        elif a.ty.k == 'ptr': args.append(Ptr(I.mkobj('caller', 'arg%d' % n, None, array=True, init='hav'), ZERO))
        else: args.append(I.fresh_val(st, a.ty, 'arg%d' % n))
    bad = []
    st.ghost[('clean', arr.id)] = ZERO
    def fill(I, s, o, lo, hi):
        if o is not arr: return
        c = s.ghost[('clean', arr.id)]
        if isinstance(c, Poly) and s.facts.entails(c - lo) and s.facts.entails(hi - c): s.ghost[('clean', arr.id)] = hi
    def load(I, s, i, ptr, ty):
        if ptr.obj is not arr or I.mute or isinstance(ty, tuple) and False: return
        c = s.ghost[('clean', arr.id)]
        size = ty[1] if isinstance(ty, tuple) else const(ty.size)
        ok = isinstance(c, Poly) and s.facts.entails(ptr.off) and s.facts.entails(c - ptr.off - size)
        if not ok: bad.append(i)
        rep.ob('scratch-load', ok, '%s:%s reads elements of %s set in the same call of %s' % (i.file or i.fn.file, i.line, arr.name, F)) if ok else None
    I.light = False; I.coarse = 6; I.events = []
    I.on_fill = [fill]; I.on_load.append(load)
    try: I.call(F, args, st)
    finally: I.on_fill = []; I.on_load.remove(load)
    I.events = []
    if bad: return '%s reads elements at %s:%s that are not shown to be set before in the same call' % (F, bad[0].file or bad[0].fn.file, bad[0].line)
    return None

def run(rep, tier):
    rep.explanation = ('src_reset is interpreted on handles of every converter and both styles after an arbitrary history; every scalar cell and whole array is compared with the handle as creation leaves it. Cells that differ must be scratch: '
                       'their left-over value is followed through every public call and must never be read before it is overwritten.')
    rep.assumptions = ASSUME + ['a converter function works alike behind src_process and behind src_callback_read']
    T = Tree(rep)
    mode_cells(T); mutable(T)
    PS, CS = shapes(T), shapes(T, mode='callback')
    rep.need([(a.conv, a.C.cval()) for a in PS] == [(a.conv, a.C.cval()) for a in CS], 'process and callback creation differ')
    jobs = [(one, (T, S, mode, P)) for mode, L in (('process', PS), ('callback', CS)) for S, P in zip(L, PS)]
    jobs.sort(key=lambda j: j[1][1].C.cval() is not None)
    pmap(rep, jobs)
