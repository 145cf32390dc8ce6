"""Helpers to interpret public calls with the converters and the user's callback cut off."""
from .common import *
from .shapes import *
from .havoc import *
from .data import *

def call_args(T, fn, given):
    """Arguments of a public function in declaration order; given: parameter kind -> value."""
    out = []
    for p in T.decls[fn].params:
        q = p.replace(' ', '').replace('const', '')
        k = 'handle' if is_handle(p) else 'data' if q.startswith(('SRC_DATA*', 'structSRC_DATA*')) else 'float*' if q == 'float*' else 'int*' if q == 'int*' else 'double' if q == 'double' else 'long' if q == 'long' else q
        if k not in given: raise Broken('%s takes an unexpected %s' % (fn, p))
        v = given[k]
        out.append(v.pop(0) if isinstance(v, list) else v)
    return out

def public(T, I, fn, given, st):
    if fn not in T.M.functions or T.M.functions[fn].decl: raise Broken('%s is not defined' % fn)
    return I.call(fn, call_args(T, fn, given), st)

def usercb(T, I, hook=None):
    """Model of the user's function: any number of frames, in an area of its own; or nothing at all."""
    area = I.mkobj('opaque', 'cb_area', None, array=True)
    I.cb_area = area
    def h(I, st, instr, args):
        if hook is not None:
            r = hook(I, st, instr, args)
            if r is not None: return r
        n = fresh('cb_frames', True); a = fresh('cb_at', True)
        out = []
        p = [x for x in args if isinstance(x, Ptr) and x.obj.kind == 'stack']
        s2 = st.copy()
        if p:
            st.mem[(p[0].obj.id, int(p[0].off.cval()))] = (Ptr(area, a), 8) if not p[0].obj.array else None
        st.facts = st.facts.add(n)
        out.append((st, n))
        out.append((s2, ZERO))
        return out
    I.ext[('callobj', 'usercb')] = h
    return area

def stub_effects(T, I, S, enter=None, leave=None):
    """Converter functions replaced by their write effects: unknown values in every cell they may write, counts within the
    requested ones, success or any error."""
    eff = converter_effects(T)
    off = lambda d, f: (d.obj.id, int(d.off.cval()) + T.L[f])
    def hook(I, s, instr, args, name):
        h = next((a for a in args if isinstance(a, Ptr) and a.obj.kind == 'heap'), None)
        d = next((a for a in args if isinstance(a, Ptr) and a.obj.kind == 'stack'), None)
        if h is None: raise Broken('a converter function does not get the handle')
        class H: pass
        hh = H(); hh.I, hh.h = I, h
        get = lambda f: s.mem[off(d, f)][0]
        if enter is not None: enter(I, s, instr, h, get if d is not None else None)
        t, _ = havoc(T, hh, st=s, mut=eff, tag='_conv')
        ok = t.copy(); cnt = {}
        if d is not None:
            for f, lim in (('input_frames_used', 'input_frames'), ('output_frames_gen', 'output_frames')):
                v = fresh(f, True); n = t.mem.get(off(d, lim)); cnt[f] = v
                ok.mem[off(d, f)] = (v, 8)
                ok.facts = ok.facts.add(v)
                if n is not None and isinstance(n[0], Poly): ok.facts = ok.facts.add(n[0] - v)
        if leave is not None: leave(ok, cnt)
        e = fresh('conv_error', True); t.facts = t.facts.add(e - 1).add(const(100) - e)
        return [(t, e), (ok, ZERO)]
    return stub_process(T, I, S, hook)

def handle_cells(I, st, h):
    """Everything a handle consists of: {(obj id, offset): value}, with arrays as (obj id, 'content')."""
    ids = {o.id for o, c in owned(I, st, h)}
    m = {k: v[0] for k, v in st.mem.items() if k[0] in ids}
    for o in list(I.objs):
        if I.root(o).id in ids and (o.array) and (o.id in st.arr): m[(o.id, 'content')] = st.arr[o.id]
    return m

def changed(I, a, b, h, ignore=()):
    """Cells of the handle that differ between two states."""
    x, y = handle_cells(I, a, h), handle_cells(I, b, h)
    out = []
    for k in sorted(set(x) | set(y), key=repr):
        if k in ignore: continue
        u, v = x.get(k), y.get(k)
        if u == v: continue
        if isinstance(u, Poly) and isinstance(v, Poly) and b.facts.entails_eq(u - v): continue
        if k not in x or k not in y:
            # never touched on one side: its initial content
            o = I.objs[k[0]]
            w = v if k not in x else u
            if k[1] == 'content' and w == ((o.init, o.id),): continue
            if k[1] != 'content' and o.init == 'zero' and (isinstance(w, Poly) and not w.t or is_null(w)): continue
            if k[1] != 'content' and o.init != 'zero' and not isinstance(w, Unk) and k not in x: continue   # read for the first time
        out.append(k)
    return out

def cellname(I, k): return '%s of %s' % ('contents' if k[1] == 'content' else 'offset %s' % k[1], I.objs[k[0]].name)

def domain(r): return [r - const(Fraction(1, 256)), const(256) - r]
def shown_good(I, s, r):
    """The path condition implies 1/256 <= r <= 256 and not NaN."""
    a = r.single()
    if a is not None and a.maynan and s.nan.get(a.id) is not False: return False
    return all(s.facts.entails(p) for p in domain(r))
def shown_bad(I, s, r):
    """The path condition contradicts a number in 1/256 <= r <= 256."""
    a = r.single()
    if a is not None and a.maynan and s.nan.get(a.id): return True
    lo, hi = domain(r)
    return s.facts.add(lo).entails(-hi, True) or s.facts.add(hi).entails(-lo, True)

def ratio_cells(T, S):
    """Cells of the handle that take the ratio of the first call: found by interpreting a call on the new handle."""
    I = S.I
    ext = dict(I.ext)
    st = S.st.copy()
    p, x = anydata(T, I, st, S.C, tag='_probe')
    st.facts = st.facts.add(x['N'] - 1).add(x['M'] - 1)
    got = []
    stub_process(T, I, S, lambda I, s, i, a, n: got.append(s) or [])
    I.mute += 1
    try: I.call('src_process', [S.h, p], st)
    finally: I.mute -= 1; I.ext = ext
    cells = None
    for s in got:
        c = {k for k, v in handle_cells(I, s, S.h).items() if isinstance(v, Poly) and v == x['r']}
        cells = c if cells is None else cells & c
    return cells or set()
