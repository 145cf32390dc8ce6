"""C02: ownership of every allocation, with each allocation failing or not."""
from .calls import *
from sa.report import pmap

BADEV = ('nullderef', 'uaf', 'oob', 'badfree', 'doublefree', 'unkcall', 'unkptr', 'uninit')

def heap(I): return [o for o in I.objs if o.kind == 'heap' and o.parent is None]
def live(I, s, since=0): return {o for o in heap(I) if o.id >= since and s.status.get(o.id) == 'live'}

def events(rep, I, sc):
    n = 0
    for e in I.events:
        if e.kind in BADEV: n += 1; rep.event('no-bad-access', e, '%s: %s' % (sc, e.msg))
    if not n: rep.ok_n('no-bad-access', 1, '%s: no path touches freed or NULL memory or frees twice' % sc)
    I.events = []

def reach(I, s, h): return {o for o, c in owned(I, s, h)}

def outcome(rep, I, s, v, since, sc, w, base=frozenset()):
    """Ownership after a creating call: since = first object number of the call."""
    lv = live(I, s, since)
    if isinstance(v, Ptr) and v.obj.kind == 'heap':
        r = reach(I, s, v)
        lost = lv - r
        rep.ob('handle-owns-all', not lost, '%s: the handle owns the %d blocks allocated' % (sc, len(lv)) if not lost else '%s: %s is allocated but not owned by the handle (%s)' % (sc, ', '.join(o.name for o in lost), describe(s)), w)
        dead = [o for o in r if s.status.get(o.id) == 'freed']
        rep.ob('handle-owns-live', not dead, '%s: the handle owns only live blocks' % sc if not dead else '%s: the handle refers to freed %s' % (sc, dead[0].name), w)
        shared = r & base
        rep.ob('owned-once', not shared, '%s: owns nothing another handle owns' % sc if not shared else '%s: shares %s with the original' % (sc, ', '.join(o.name for o in shared)), w)
        return True
    rep.ob('failure-frees-all', not lv, '%s: nothing stays allocated' % sc if not lv else '%s: %s stays allocated (%s)' % (sc, ', '.join(o.name for o in lv), describe(s)), w)

def delete(rep, T, I, s, h, sc, keep=frozenset()):
    F = T.M.functions['src_delete']; w = (F.file, F.line, 'src_delete')
    own = reach(I, s, h); I.events = []
    before = live(I, s)
    rets = public(T, I, 'src_delete', {'handle': h}, s.copy())
    rep.need(rets, 'src_delete never returns')
    for t, v in rets:
        fr = {o for o in before if t.status.get(o.id) == 'freed'}
        ok = fr == own
        rep.ob('delete-frees-all', ok, '%s: delete frees the %d blocks owned, nothing else' % (sc, len(own)) if ok else '%s: delete leaves %s allocated%s' % (sc, ', '.join(o.name for o in own - fr) or 'nothing', ' and frees %s, which it does not own' % ', '.join(o.name for o in fr - own) if fr - own else ''), w)
    events(rep, I, '%s: delete' % sc)

def create(rep, T, name, fn, C):
    I = Interp(T.M); I.fail_alloc = True; I.merge_limit = 10 ** 6
    I.consts_pool = [Fraction(0), Fraction(1), Fraction(-1)]
    st = State()
    if C is None:
        C = fresh('channels', True); I.C = C
        st.facts = st.facts.add(C - 1).add(const((1 << 31) - 1) - C); I.type_range(st, C, 32)
        lin.POS.add(C.single().id); lin.MINVAL[C.single().id] = 1
    else: C = const(C); I.C = C
    F = T.M.functions[fn]; w = (F.file, F.line, fn)
    k = const(T.E[name]); sc = '%s(%s)' % (fn, name)
    if fn == 'src_simple':
        p, x = anydata(T, I, st, C)
        stub_effects(T, I, None)
        args = [p, k, C]
    elif fn == 'src_new':
        eo = I.mkobj('stack', 'error', const(4), init='undef'); args = [k, C, Ptr(eo, ZERO)]
    else: args = cb_args(T)(T.E[name], I, st, C)
    n0 = len(I.objs)
    rets = I.call(fn, args, st)
    events(rep, I, sc)
    hs = []
    for s, v in rets:
        if outcome(rep, I, s, v, n0, sc, w): hs.append((s, v))
    for s, v in hs: delete(rep, T, I, s, v, '%s, %s channels' % (sc, C))
    if fn != 'src_simple': rep.need(hs, '%s never succeeds' % sc)
    else: rep.need(any(s.status for s, v in rets), 'src_simple allocates nothing')
    rep.absorb(I)

def clones(rep, T, S, mode):
    I = S.I; I.fail_alloc = True; I.merge_limit = 10 ** 6
    F = T.M.functions['src_clone']; w = (F.file, F.line, 'src_clone')
    st, _ = havoc(T, S, st=S.st, keep={(S.h.obj.id, k) for k in mode_cells(T)}, tag='_cl')
    own = reach(I, st, S.h); n0 = len(I.objs); I.events = []
    eo = I.mkobj('stack', 'clone_error', const(4), init='undef')
    sc = 'src_clone(%s %s handle)' % (S, mode)
    rets = public(T, I, 'src_clone', {'handle': S.h, 'int*': Ptr(eo, ZERO)}, st)
    events(rep, I, sc)
    made = 0
    for s, v in rets:
        if outcome(rep, I, s, v, n0, sc, w, frozenset(own)):
            made += 1
            delete(rep, T, I, s, v, sc + ', the copy')
        ok = reach(I, s, S.h) == own and all(s.status.get(o.id) == 'live' for o in own)
        rep.ob('original-kept', ok, '%s: the original owns what it owned' % sc if ok else '%s: the original loses memory' % sc, w)
        delete(rep, T, I, s, S.h, sc + ', the original')
    rep.need(made, '%s never succeeds' % sc)
    rep.absorb(I)

def others(rep, T):
    """No function apart from creation, cloning, deletion and the one-shot call reaches the allocator or changes an owning pointer."""
    V = T.V
    creators = ('src_new', 'src_callback_new', 'src_clone', 'src_simple', 'src_delete')
    alloc = set(vsa.ALLOC) | set(vsa.FREE)
    for fn in sorted(T.decls):
        if fn in creators: continue
        F = T.M.functions[fn]; hit = sorted(V.reach([fn]) & alloc)
        ok = not hit
        rep.ob('no-allocation', ok, '%s reaches no allocation or release' % fn if ok else '%s reaches %s: %s' % (fn, hit[0], ' -> '.join(str(x) for x in V.path(fn, hit[0]))), (F.file, F.line, fn))
    n = 0
    for site, fs in mutable(T).items():
        for f, i in fs.items():
            tg = {x[1] for o, ff in V.offs.items() if o.kind == 'heap' and o.site is site for g in ff if vsa.meets(g, f if isinstance(f, (int, type(None))) else f[0]) for x in V.cell[(o, g)] if x[0] == 'o' and x[1].kind == 'heap'}
            if not isinstance(f, int): continue
            n += 1
            rep.ob('owner-kept', not tg, 'offset %s of blocks from %s:%s never holds an owning pointer' % (f, site.fn.name, site.line) if not tg else 'the owning pointer at offset %s of blocks from %s:%s is overwritten by %s' % (f, site.fn.name, site.line, i.fn.name), where(i))
    rep.need(n > 10, 'no writes to handles found')
    I = Interp(T.M); I.C = const(1)
    for s, v in public(T, I, 'src_delete', {'handle': Ptr(I.NULL, ZERO)}, State()):
        rep.ob('delete-null', is_null(v), 'deleting NULL returns NULL', (T.M.functions['src_delete'].file, T.M.functions['src_delete'].line, 'src_delete'))
    n = [e for e in I.events if e.kind == 'free']
    rep.ob('delete-null', not n, 'deleting NULL frees nothing')
    events(rep, I, 'src_delete(NULL)')

def run(rep, tier):
    rep.explanation = ('Creation, cloning and the one-shot call are interpreted for every converter with each allocation both succeeding and failing: on every path that yields no handle all blocks are freed, on every path that '
                       'yields one the live blocks are exactly those it owns, and deleting it frees each of them once. Points-to analysis shows that no other call reaches the allocator or overwrites an owning pointer.')
    rep.assumptions = ASSUME
    T = Tree(rep)
    others(rep, T)
    jobs = []
    for name in T.enabled:
        for fn in ('src_new', 'src_callback_new', 'src_simple'): jobs.append((create, (T, name, fn, None)))
    process_functions(T); converter_effects(T); mode_cells(T); mutable(T)
    for mode in ('process', 'callback'):
        for S in shapes(T, mode=mode): jobs.append((clones, (T, S, mode)))
    pmap(rep, jobs)
