"""Analysis contexts: handles as created by the library, symbolic arguments for the public calls."""
from fractions import Fraction
from .build_ir import Build, data_layout
from . import ir, lin
from .interp import *
from .poly import *

class World:
    """One configuration of the current tree."""
    def __init__(self, defines=(), extra=(), tag='base'):
        with Build() as b:
            self.path_units = [u[0] for u in b.configure()]
            self.M = ir.load(b.compile(defines, extra, tag))
            self.L, self.E = data_layout(b)

class Shape:
    """A kind of handle: converter type, channel count class, and the state just after creation."""
    def __repr__(s): return '%s/C=%s' % (s.conv_name, s.C if s.C.cval() is None else int(s.C.cval()))

def shapes(W, only=None, fail=False):
    """All successful outcomes of src_new, by interpreting it; channel counts the code singles out become constants."""
    out = []
    for name, k in sorted(W.E.items(), key=lambda x: x[1]):
        if only and name not in only: continue
        I, st, C = new_interp(W)
        rets = I.call('src_new', [const(k), C, Ptr(I.NULL, ZERO)], st)
        succ = [(s, v) for s, v in rets if isinstance(v, Ptr) and v.obj.kind != 'null']
        consts = []
        for s, v in succ:
            for p, strict in s.facts.items:
                if len(p.t) <= 2 and set(p.t) <= {(C.single().id,), ()}:
                    c = Fraction(-p.k()) / p.t[(C.single().id,)]
                    if s.facts.entails_eq(C - const(c)): consts.append(int(c))
        for c in sorted(set(consts)):
            I2, s2, C2 = new_interp(W, c)
            r2 = [(s, v) for s, v in I2.call('src_new', [const(k), C2, Ptr(I2.NULL, ZERO)], s2) if isinstance(v, Ptr) and v.obj.kind != 'null']
            for s, v in r2: out.append(mkshape(W, I2, s, v, name, k, C2))
        gen = [(s, v) for s, v in succ if not any(s.facts.entails_eq(C - const(c)) for c in consts)]
        for s, v in gen:
            set_scale(I, s, C)
            out.append(mkshape(W, I, s, v, name, k, C))
    return out

def new_interp(W, C=None):
    I = Interp(W.M); I.fail_alloc = False; I.V = getattr(W, 'V', None)
    st = State()
    if C is None:
        C = fresh('channels', True)
        I.rng0 = C
    else: C = const(C)
    I.C = C
    I.consts_pool = [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 256), Fraction(256)]
    return I, st, C

def set_scale(I, st, C):
    if C.cval() is not None: return
    a = C.single().id
    lin.POS.add(a)
    mn = 1
    for k in range(1, 9):
        if st.facts.entails(C - k): mn = k
    lin.MINVAL[a] = mn

def mkshape(W, I, st, v, name, k, C):
    s = Shape(); s.W, s.I, s.st, s.h, s.conv_name, s.conv, s.C = W, I, st, v, name, k, C
    # status markers of the creation are irrelevant from here on
    return s

def mkdata(I, st, L, C, inp='ptr', outp='ptr', tag=''):
    """A caller-owned SRC_DATA with symbolic contents.  Returns (ptr, dict)."""
    d = I.mkobj('stack', 'data' + tag, const(L['sizeof']), init='undef')
    N = fresh('N' + tag, True); M = fresh('M' + tag, True)
    r = fresh('ratio' + tag, False, maynan=True)
    e = fresh('eoi' + tag, True); I.type_range(st, e, 32)
    x = dict(N=N, M=M, r=r, e=e, d=d)
    st.facts = st.facts.add(N).add(M)
    if inp == 'ptr':
        x['in'] = I.mkobj('caller', 'data_in' + tag, N * C * 4, array=True, init='sym'); pi = Ptr(x['in'], ZERO)
    else:
        x['in'] = None; pi = Ptr(I.NULL, ZERO)
    if outp == 'ptr':
        x['out'] = I.mkobj('caller', 'data_out' + tag, M * C * 4, array=True, init='undef'); po = Ptr(x['out'], ZERO)
    else:
        x['out'] = None; po = Ptr(I.NULL, ZERO)
    def put(f, v, sz): st.mem[(d.id, L[f])] = (v, sz)
    put('data_in', pi, 8); put('data_out', po, 8); put('input_frames', N, 8); put('output_frames', M, 8)
    put('input_frames_used', UNDEF, 8); put('output_frames_gen', UNDEF, 8); put('end_of_input', e, 4); put('src_ratio', r, 8)
    return Ptr(d, ZERO), x
