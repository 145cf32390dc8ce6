"""Process calls on handles with an arbitrary history, with the converters interpreted and loops kept light: closed forms
and strides, plus the few inequalities a check asks for."""
from .calls import *

def ratio_domain(lo=Fraction(1, 256), hi=256):
    """Candidates: real valued loop variables stay inside the ratio domain."""
    def f(la, nums):
        for it in nums:
            if it.obj is None and not it.isint and not it.smp:
                X = la.v(it); yield X - const(lo); yield const(hi) - X
    return f

def process(T, S, coarse=6, tag='', facts=None, pending='ptr', inp='ptr', outp='ptr', setup=None, fn='src_process'):
    """(I, returns, data) of src_process on shape S after any history, for any data."""
    I = S.I; I.light = True; I.coarse = coarse; I.max_states = 5000
    st, sy = havoc(T, S, keep={(S.h.obj.id, k) for k in mode_cells(T)}, tag=tag, pending=pending)
    p, x = anydata(T, I, st, S.C, inp=inp, outp=outp, tag=tag)
    x['sy'] = sy
    if facts is not None: st = facts(I, st, x)
    if setup is not None: setup(I, st, x)
    return I, public(T, I, fn, {'handle': S.h, 'data': p}, st), x

def keys(T):
    """(converter, channel count or None when symbolic) of every kind of handle."""
    return [(S.conv_name, None if S.C.cval() is None else int(S.C.cval())) for S in shapes(T)]
def shape(T, name, C, mode='process'):
    return next(S for S in shapes(T, [name], mode) if (None if S.C.cval() is None else int(S.C.cval())) == C)
