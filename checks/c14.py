"""C14: a clone equals the original cell by cell, owns its memory, and leaves the original alone."""
from .calls import *
from sa.report import pmap

def pairs(I, s, a, b):
    """Owned blocks of original and copy matched along the same path of pointers: ({original: copy}, problems)."""
    m, work, bad = {a.obj: b.obj}, [a.obj], []
    while work:
        o = work.pop(); c = m[o]
        for (oid, k), (x, sz) in sorted(s.mem.items()):
            if oid != o.id or not isinstance(x, Ptr): continue
            r = I.root(x.obj)
            if r.kind != 'heap' or r in m: continue
            y = s.mem.get((c.id, k))
            if y is None or not isinstance(y[0], Ptr) or I.root(y[0].obj).kind != 'heap': bad.append((o, k, 'has no block of its own at offset %d of %s' % (k, o.name))); continue
            m[r] = I.root(y[0].obj); work.append(r)
    return m, bad

def reloc(I, m, v):
    if isinstance(v, Ptr):
        r = I.root(v.obj)
        if r in m:
            if v.obj is r: return Ptr(m[r], v.off)
            return ('inside', m[r].id, v.obj.start, v.off)
    return v
def key(I, v):
    if isinstance(v, Ptr) and v.obj.parent is not None: return ('inside', I.root(v.obj).id, v.obj.start, v.off)
    return v

def equal(I, s, m, u, v):
    u = reloc(I, m, u)
    if u == v or u == key(I, v): return True
    if isinstance(u, Ptr) and isinstance(v, Ptr) and u.obj is v.obj: return s.facts.entails_eq(u.off - v.off)
    return isinstance(u, Poly) and isinstance(v, Poly) and s.facts.entails_eq(u - v)

def value(I, s, o, off, t):
    I.mute += 1
    try: return I.load(s, None, Ptr(o, const(off)), t)
    finally: I.mute -= 1

def content(I, s, o): return I.content(s, o)

def same_content(I, s, o, c):
    """Array c holds what array o holds, over all of o."""
    x, y = content(I, s, o), content(I, s, c)
    n = o.size
    if c.size is None or n is None or not s.facts.entails(c.size - n): return False, 'is smaller than the original'
    if len(y) == 1 and y[0][0] == 'copy':
        _, d, k, src, cs, so = y[0]
        if src == o.id and cs == x and s.facts.entails_eq(d) and s.facts.entails_eq(so): return (True, '') if s.facts.entails(k - n) else (False, 'holds only the first [%r] bytes of [%r]' % (k, n))
    if len(x) == 1 and len(y) == 1 and x[0][0] in ('zero', 'fill') and x[0][0] == y[0][0] and x[0][1:] == y[0][1:] and x[0][0] == 'fill': return True, ''
    if x == (('zero', o.id),) and y == (('zero', c.id),): return True, ''
    if len(y) == 2 and y[1][0] == 'copy':
        _, d, k, src, cs, so = y[1]
        if src == o.id and cs == x and s.facts.entails_eq(d) and s.facts.entails_eq(so) : return (True, '') if s.facts.entails(k - n) else (False, 'holds only the first [%r] bytes of [%r]' % (k, n))
    return False, 'does not hold a copy of the original contents'

def clones(rep, T, S, mode):
    I = S.I; I.merge_limit = 10 ** 6
    F = T.M.functions['src_clone']; w = (F.file, F.line, 'src_clone')
    for pend in ('ptr', 'null'):
        st, _ = havoc(T, S, st=S.st, keep={(S.h.obj.id, k) for k in mode_cells(T)}, tag='_cl' + pend, pending=pend)
        before = st.copy(); own0 = {o for o, c in owned(I, st, S.h)}
        eo = I.mkobj('stack', 'clone_error', const(4), init='undef'); I.fail_alloc = False
        sc = 'src_clone(%s %s handle)' % (S, mode)
        rets = public(T, I, 'src_clone', {'handle': S.h, 'int*': Ptr(eo, ZERO)}, st)
        made = 0
        for s, h in rets:
            ch = changed(I, before, s, S.h)
            rep.ob('original-unchanged', not ch, '%s: the original is unchanged' % sc if not ch else '%s: cloning changes %s of the original' % (sc, ', '.join(cellname(I, c) for c in ch)), w)
            ok = isinstance(h, Ptr) and h.obj.kind == 'heap'
            rep.ob('clone-made', ok, '%s: a handle is returned when memory suffices' % sc if ok else '%s: no handle is returned although memory suffices (%s)' % (sc, describe(s)), w)
            if not ok: continue
            made += 1
            e = s.mem.get((eo.id, 0)); ok = e is not None and isinstance(e[0], Poly) and e[0].cval() == 0
            rep.ob('clone-made', ok, '%s: error 0 is stored' % sc if ok else '%s: error 0 is not stored for a successful clone' % sc, w)
            own = {o for o, c in owned(I, s, h)}
            sh = own & own0
            rep.ob('nothing-shared', not sh, '%s: the copy shares no memory with the original' % sc if not sh else '%s: the copy shares %s with the original' % (sc, ', '.join(o.name for o in sh)), w)
            m, bad = pairs(I, s, S.h, h)
            rep.ob('same-shape', not bad, '%s: the copy has a block for each of the original' % sc if not bad else '%s: the copy %s' % (sc, bad[0][2]), w)
            for o, c in m.items():
                if o.array:
                    ok, why = same_content(I, s, o, c)
                    rep.ob('same-contents', ok, '%s: %s has the contents of %s' % (sc, c.name, o.name) if ok else '%s: the copy of %s %s' % (sc, o.name, why), w); continue
                lay = I.layout(o)
                rep.need(lay is not None, 'layout of %s unknown' % o.name)
                for off, t in lay:
                    if t.k == 'arr':
                        if dead_cell(T, o, off): continue
                        a, b = I.sub_obj(o, off, t.size, t.el.size), I.sub_obj(c, off, t.size, t.el.size)
                        ok, why = same_content(I, s, a, b)
                        rep.ob('same-contents', ok, '%s: array at offset %d of %s' % (sc, off, o.name) if ok else '%s: the array at offset %d of the copy of %s %s' % (sc, off, o.name, why), w); continue
                    if dead_cell(T, o, off): continue
                    u, v = value(I, s, o, off, t), value(I, s, c, off, t)
                    ok = equal(I, s, m, u, v)
                    rep.ob('same-cells', ok, '%s: offset %d of %s' % (sc, off, o.name) if ok else '%s: offset %d of %s is [%r] in the original and [%r] in the copy' % (sc, off, o.name, u, v), w)
        rep.need(made, '%s never succeeds' % sc)
    rep.absorb(I)

def dead_cell(T, o, off): return False

def run(rep, tier):
    rep.explanation = ('src_clone is interpreted on handles of every converter and both styles after an arbitrary history: blocks of the copy are matched with blocks of the original along the same pointers; every scalar cell must be '
                       'equal up to that matching, every array must hold a copy of the whole original array, no block may be shared, and no cell of the original may change.')
    rep.assumptions = ASSUME
    T = Tree(rep)
    mode_cells(T); mutable(T)
    pmap(rep, [(clones, (T, S, mode)) for mode in ('process', 'callback') for S in shapes(T, mode=mode)])
