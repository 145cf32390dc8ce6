"""Symbolic SRC_DATA for calls that are analysed with arbitrary (also invalid) arguments."""
from .common import *

def anydata(T, I, st, C, inp='ptr', outp='ptr', same=False, tag=''):
    """Counts of any sign, any ratio, areas NULL or anywhere.  Returns (pointer, fields)."""
    L = T.L
    d = I.mkobj('stack', 'data' + tag, const(L['sizeof']), init='undef')
    N, M = fresh('in_frames' + tag, True), fresh('out_frames' + tag, True)
    r = fresh('ratio' + tag, False, maynan=True); e = fresh('end' + tag, True); I.type_range(st, e, 32)
    u, g = fresh('old_used' + tag, True), fresh('old_gen' + tag, True)
    x = dict(N=N, M=M, r=r, e=e, d=d, u=u, g=g)
    for nm, kind, n, init in (('in', inp, N, 'sym'), ('out', outp, M, 'hav')):
        if kind == 'ptr':
            x[nm] = I.mkobj('caller', 'data_%s%s' % (nm, tag), n * C * 4, array=True, init=init); p = Ptr(x[nm], ZERO)
        else: x[nm] = None; p = Ptr(I.NULL, ZERO)
        x['p' + nm] = p
    f = dict(data_in=(x['pin'], 8), data_out=(x['pout'], 8), input_frames=(N, 8), output_frames=(M, 8), input_frames_used=(u, 8), output_frames_gen=(g, 8), end_of_input=(e, 4), src_ratio=(r, 8))
    for k, v in f.items(): st.mem[(d.id, L[k])] = v
    x['fields'] = f
    return Ptr(d, ZERO), x

def bad_ratio(I, st, r):
    """True / False / None: is the ratio outside the documented domain (or NaN) on this path?"""
    a = r.single().id if r.single() is not None else None
    if a is not None and st.nan.get(a): return True
    lo = I.decide(st, Cond(r - const(Fraction(1, 256)), '>='))
    hi = I.decide(st, Cond(const(256) - r, '>='))
    if lo is False or hi is False:
        return True if st.nan.get(a) is False or a is None or not ATOMS[a].maynan else None
    if lo and hi and (a is None or not ATOMS[a].maynan or st.nan.get(a) is False): return False
    return None

def overlap(I, st, x, C):
    """Polynomials whose joint positivity says that both areas are non-empty and share memory."""
    A, B = I.paddr(st, x['pin']), I.paddr(st, x['pout'])
    return [x['N'], x['M'], B + x['M'] * C * 4 - A, A + x['N'] * C * 4 - B]

def describe(st): return '; '.join(st.trail()[-8:])
