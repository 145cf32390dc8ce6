"""Handles after an arbitrary history: every cell that a non-creating public call may write (points-to analysis) holds
an unknown value, all others still hold what creation stored there."""
from .common import *
from .shapes import owned
NONCREATING = ('src_process', 'src_callback_read', 'src_set_ratio', 'src_reset')

def mutable(T):
    """{allocation instruction: {offset: writing instruction}}"""
    if not hasattr(T, '_mut'):
        T._mut = {}
        for o, f in T.V.extents([n for n in T.decls if n in NONCREATING]).items():
            if o.kind == 'heap': T._mut.setdefault(o.site, {}).update(f)
    return T._mut

def vrange(T, site, off):
    """Smallest and largest integer a cell can hold, when it only holds known constants."""
    lo = hi = None
    for o, fs in T.V.offs.items():
        if o.kind != 'heap' or o.site is not site: continue
        for f in fs:
            if not vsa.meets(f, off): continue
            for x in T.V.cell[(o, f)]:
                if x[0] != 'i': return None
                lo = x[1] if lo is None else min(lo, x[1]); hi = x[1] if hi is None else max(hi, x[1])
    return None if lo is None else (min(lo, 0), max(hi, 0))      # zero initialised memory

def havoc(T, S, pending='ptr', keep=(), st=None, tag='', mut=None):
    """(state, {(obj id, offset): symbol}) of shape S with every mutable cell unknown.  keep: (object, offset) pairs left alone."""
    I = S.I; st = (st or S.st).copy()
    syms = {}
    mut = mutable(T) if mut is None else mut
    for o, cell in owned(I, st, S.h):
        fs = mut.get(o.seq, {})
        if not fs: continue
        if o.array:
            st.arr[o.id] = (('hav', fresh('hist_' + o.name + tag, True)),); syms[(o.id, '*')] = st.arr[o.id][0][1]
            continue
        lay = I.layout(o)
        if lay is None: raise Broken('layout of %s unknown' % o.name)
        for off, t in lay:
            if (o.id, off) in keep: continue
            hit = [f for f in fs if f is None or (vsa.meets(f, off) if not isinstance(f, int) else off <= f < off + t.size)]
            if not hit: continue
            if t.k == 'arr':
                s = I.sub_obj(o, off, t.size, t.el.size)
                st.arr[s.id] = (('hav', fresh('hist_' + s.name + tag, True)),); syms[(s.id, '*')] = st.arr[s.id][0][1]
            elif t.k == 'ptr':
                cur = st.mem.get((o.id, off))
                tgt = {x[0] if x[0] != 'o' else x[1].kind for oo, ff in T.V.offs.items() if oo.kind == 'heap' and oo.site is o.seq for f in ff if vsa.meets(f, off) for x in T.V.cell[(oo, f)]}
                if 'heap' in tgt or 'f' in tgt and not 'caller' in tgt:
                    raise Broken('the pointer at offset %d of %s is replaced after creation; its ownership is not modelled' % (off, o.name))
                if pending == 'ptr':
                    c = I.mkobj('caller', 'pending' + tag, None, array=True, init='sym', esize=4)
                    st.mem[(o.id, off)] = (Ptr(c, ZERO), 8)
                else: st.mem[(o.id, off)] = (Ptr(I.NULL, ZERO), 8)
                syms[(o.id, off)] = st.mem[(o.id, off)][0]
            elif t.k == 'i':
                v = fresh('hist_%d%s' % (off, tag), True); I.type_range(st, v, t.bits)
                r = vrange(T, o.seq, off)
                if r is not None: st.facts = st.facts.add(v - r[0]).add(const(r[1]) - v)
                st.mem[(o.id, off)] = (v, t.size); syms[(o.id, off)] = v
            else:
                v = fresh('hist_%d%s' % (off, tag), False)
                st.mem[(o.id, off)] = (v, t.size); syms[(o.id, off)] = v
    return st, syms

def mode_cells(T):
    """{offset: (process value, callback value)} of the handle cells in which process and callback handles differ by a
    constant (pointers to the user's function and data aside)."""
    if not hasattr(T, '_mode'):
        from .shapes import shapes
        a, b = shapes(T)[0], shapes(T, mode='callback')[0]
        x = {k[1]: v[0] for k, v in a.st.mem.items() if k[0] == a.h.obj.id}; y = {k[1]: v[0] for k, v in b.st.mem.items() if k[0] == b.h.obj.id}
        T._mode = {}
        for k in set(x) | set(y):
            u, v = x.get(k, ZERO), y.get(k, ZERO)
            if isinstance(u, Poly) and isinstance(v, Poly) and u.cval() is not None and v.cval() is not None and u != v: T._mode[k] = (u, v)
        if not T._mode: raise Broken('process and callback handles do not differ')
    return T._mode

def converter_effects(T):
    """Cells that the converter functions behind the process call may write, as in mutable."""
    if not hasattr(T, '_ceff'):
        T._ceff = {}
        for o, f in T.V.extents(sorted(process_functions(T))).items():
            if o.kind == 'heap': T._ceff.setdefault(o.site, {}).update(f)
    return T._ceff

def process_functions(T):
    """The converter functions behind the process call: targets of indirect calls reachable from it."""
    if not hasattr(T, '_pf'):
        fs = T.V.reach(['src_process']); r = set()
        for i, ts in T.V.callees.items():
            if i.fn.name in fs and not isinstance(i.x, ir.Const):
                r |= {t for t in ts if isinstance(t, str) and t in T.M.functions and not T.M.functions[t].decl}
        T._pf = r
    return T._pf

def stub_process(T, I, S, hook, effects=True):
    """Replace the converter functions: hook(I, st, instr, args) is called, then every cell of the handle they may write
    gets an unknown value and the result is an unknown error code (or none)."""
    pf = process_functions(T)
    for name in pf:
        def h(I, st, instr, args, name=name):
            r = hook(I, st, instr, args, name)
            if r is not None: return r
            return [(st, ZERO)]
        I.ext[name] = h
    return pf
