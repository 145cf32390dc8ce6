"""Handles as src_new makes them, by abstract interpretation of the creation path, for every converter that is built."""
from .common import *

def created(T, conv, C=None, fail=False, fn='src_new', args=None, on_store=None):
    """[(interp, state, result)] of creating a converter; C None = symbolic channel count."""
    I, st, c = new_interp(T, C)
    I.fail_alloc = fail
    if on_store is not None: I.on_store.append(on_store)
    r = I.call(fn, [const(conv), c, Ptr(I.NULL, ZERO)] if args is None else args(I, st, c), st)
    return I, c, r

def is_null(v): return isinstance(v, Ptr) and v.obj.kind == 'null'

def cb_args(T):
    """Arguments of src_callback_new by parameter type: a user function, a user pointer, no error location."""
    def args(conv, I, st, c):
        fo = I.mkobj('opaque', 'usercb', None, array=True); ud = I.mkobj('opaque', 'userdata', None, array=True)
        I.usercb, I.userdata = Ptr(fo, ZERO), Ptr(ud, ZERO)
        out, ints = [], [const(conv), c]
        for p in T.decls['src_callback_new'].params:
            q = p.replace(' ', '')
            if q == 'int*': out.append(Ptr(I.NULL, ZERO))
            elif q == 'int': out.append(ints.pop(0))
            elif q == 'void*': out.append(I.userdata)
            else: out.append(I.usercb)
        return out
    return args

def shapes(T, only=None, mode='process'):
    """Shape objects (see sa.ctx) of every way creation can succeed; channel counts that the code singles out are
    analysed as constants of their own."""
    from sa.ctx import mkshape
    out = []
    for name, k in sorted(T.E.items(), key=lambda x: x[1]):
        if name not in T.enabled or (only and name not in only): continue
        def make(C=None):
            if mode == 'process': return created(T, k, C)
            a = cb_args(T)
            return created(T, k, C, fn='src_callback_new', args=lambda I, st, c: a(k, I, st, c))
        I, C, rets = make()
        succ = [(s, v) for s, v in rets if isinstance(v, Ptr) and v.obj.kind != 'null']
        if not succ: raise Broken('%s cannot be created' % name)
        cs = set()
        cid = C.single().id
        for s, v in succ:
            for p, strict in s.facts.items:
                if set(p.t) <= {(cid,), ()} and (cid,) in p.t:
                    c = Fraction(-p.k()) / p.t[(cid,)]
                    if c.denominator == 1 and s.facts.entails_eq(C - const(c)): cs.add(int(c))
        for c in sorted(cs):
            I2, C2, r2 = make(c)
            for s, v in r2:
                if isinstance(v, Ptr) and v.obj.kind != 'null': out.append(mkshape(T, I2, s, v, name, k, C2))
        gen = [(s, v) for s, v in succ if not any(s.facts.entails_eq(C - const(c)) for c in cs)]
        for s, v in gen:
            set_scale(I, s, C)
            out.append(mkshape(T, I, s, v, name, k, C))
    return out

def owned(I, st, v):
    """Heap objects reachable from the handle, with the cell they hang on."""
    seen, work, out = {v.obj.id}, [v.obj], [(v.obj, None)]
    while work:
        o = work.pop()
        for (oid, k), (x, sz) in sorted(st.mem.items()):
            if oid != o.id or not isinstance(x, Ptr): continue
            r = I.root(x.obj)
            if r.kind == 'heap' and r.id not in seen:
                seen.add(r.id); work.append(r); out.append((r, (o, k)))
    return out
