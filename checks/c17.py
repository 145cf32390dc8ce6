"""C17: messages, names and descriptions, by abstract interpretation of the lookup functions on a symbolic number, and
value-set analysis of every error code that can be returned or stored."""
from .common import *

def cstr(T, v):
    """Text of a pointer to a constant string."""
    if not isinstance(v, Ptr) or v.obj.g is None or v.obj.g.init is None or v.off.cval() is None: return None
    c = v.obj.g.init; t = v.obj.g.ty
    if t.k != 'arr' or t.el.size != 1: return None
    if c.kind == 'zero': return ''
    b = bytes((int(x.v) & 255) for x in c.v)[int(v.off.cval()):]
    return b.split(b'\0')[0].decode('latin1') if b'\0' in b else None

def table(rep, T, fn):
    """{k: text} plus default, of a function from int to string; every path is decided."""
    F = T.M.functions[fn]
    I = Interp(T.M); I.fail_alloc = False
    k = fresh('k', True); st = State()
    st.facts = st.facts.add(k + (1 << 31)).add(const((1 << 31) - 1) - k)
    try: rets = I.call(fn, [k], st)
    except AnalysisError as e: raise Broken(str(e))
    rep.absorb(I)
    out, rest = {}, []
    w = (F.file, F.line, fn)
    for e in I.events: rep.event('lookup-safe', e)
    for s, v in rets:
        lo = hi = None
        for p, strict in s.facts.items:
            if set(p.t) <= {(k.single().id,), ()} and (k.single().id,) in p.t:
                c = p.t[(k.single().id,)]; b = Fraction(-p.k()) / c
                if c > 0: lo = b if lo is None or b > lo else lo
                else: hi = b if hi is None or b < hi else hi
        null = isinstance(v, Ptr) and v.obj.kind == 'null'
        txt = None if null else cstr(T, v)
        if null: rest.append((lo, hi)); continue
        if txt is None: 
            # a table lookup indexed by the number
            v2 = expand(I, T, v, lo, hi)
            rep.ob('constant-text', v2 is not None, '%s returns a constant string' % fn if v2 is not None else '%s does not return a constant string for %s..%s' % (fn, lo, hi), w)
            if v2: out.update({n: t for n, t in v2.items() if t is not None})
            continue
        rep.ob('constant-text', lo is not None and hi is not None and hi - lo < 64, '%s gives text for %s..%s' % (fn, lo, hi) if lo == hi else '%s gives one text for the numbers %s..%s' % (fn, lo, hi), w)
        if hi - lo >= 64: continue
        for n in range(int(lo), int(hi) + 1):
            if not (n in s_excl(s, k)): out[n] = txt
    return out, w
def s_excl(s, k):
    r = set()
    for p in s.neq:
        if set(p.t) <= {(k.single().id,), ()} and (k.single().id,) in p.t: r.add(-p.k() / p.t[(k.single().id,)])
    return r
def expand(I, T, v, lo, hi): 
    """Evaluate per number when the result is looked up in a table."""
    return None

def bynumber(rep, T, fn, lo, hi):
    out = {}
    for n in range(lo, hi + 1):
        I = Interp(T.M)
        r = I.call(fn, [const(n)], State())
        rep.absorb(I)
        for e in I.events: rep.event('lookup-safe', e)
        if len(r) != 1: raise Broken('%s(%d) is not a constant' % (fn, n))
        v = r[0][1]
        if isinstance(v, Ptr) and v.obj.kind == 'null': continue
        t = cstr(T, v)
        if t is None: raise Broken('%s(%d) is not a constant string' % (fn, n))
        out[n] = t
    return out

def outside(rep, T, fn, lo, hi):
    """Numbers outside [lo,hi] give NULL."""
    F = T.M.functions[fn]; w = (F.file, F.line, fn)
    for a, b in ((-(1 << 31), lo - 1), (hi + 1, (1 << 31) - 1)):
        I = Interp(T.M); k = fresh('k', True); st = State(); st.facts = st.facts.add(k - a).add(const(b) - k)
        r = I.call(fn, [k], st); rep.absorb(I)
        for e in I.events: rep.event('lookup-safe', e)
        for s, v in r:
            ok = isinstance(v, Ptr) and v.obj.kind == 'null'
            rep.ob('outside-none', ok, '%s gives NULL for every number in %d..%d' % (fn, a, b) if ok else '%s gives text for a number outside the defined ones (%s)' % (fn, '; '.join(s.trail()[-4:])), w)

KEYS = {'SRC_SINC_BEST_QUALITY': ('best',), 'SRC_SINC_MEDIUM_QUALITY': ('medium',), 'SRC_SINC_FASTEST': ('fastest',), 'SRC_ZERO_ORDER_HOLD': ('zoh', 'zero order hold'), 'SRC_LINEAR': ('linear',)}

def run(rep, tier):
    rep.explanation = ('Abstract interpretation of src_strerror, src_get_name and src_get_description: per defined number the returned constant is evaluated from the IR, and for all '
                       'numbers below and above the defined range one symbolic run shows NULL. The set of error codes that can be returned or stored by any public function comes from a '
                       'whole-program value-set analysis.')
    rep.assumptions = ASSUME
    T = Tree(rep); V, M = T.V, T.M
    # every code that can reach a result or an error location
    codes = {}
    for fn in ('src_process', 'src_simple', 'src_set_ratio', 'src_reset', 'src_error'):
        for x in V.ret.get(fn, ()):
            if x[0] == 'i': codes.setdefault(x[1], fn)
            elif x[0] == 'n': rep.ob('code-known', False, '%s can return a computed number' % fn, (M.functions[fn].file, M.functions[fn].line, fn))
    for x in V.ret.get('src_get_channels', ()):
        if x[0] == 'i' and x[1] < 0: codes.setdefault(-x[1], 'src_get_channels')
    for fn in ('src_new', 'src_callback_new', 'src_clone'):
        F = M.functions[fn]
        for a, p in zip(F.args, T.decls[fn].params):
            if p.replace(' ', '') != 'int*': continue
            o = vsa.Obj('probe', fn)
        # the error location is a caller int: codes stored through it
    intw = set()
    for i, tg in V.writes():
        if i.op == 'store' and i.ops[0].ty.k == 'i' and i.ops[0].ty.bits == 32 and any(o.kind == 'caller' for o, f in tg) and i.fn.name not in ('src_float_to_int_array',):
            if V.reach(['src_new', 'src_callback_new', 'src_clone']) & {i.fn.name}:
                for x in V.v(i.ops[0]):
                    if x[0] == 'i': codes.setdefault(x[1], i.fn.name + ' (*error)')
                    elif x[0] == 'n': rep.ob('code-known', False, 'stores a computed number as error', where(i))
    rep.need(len(codes) >= 8 and 0 in codes, 'error codes not found')
    err = bynumber(rep, T, 'src_strerror', -3, 60)
    F = M.functions['src_strerror']; w = (F.file, F.line, 'src_strerror')
    for c, src in sorted(codes.items()):
        ok = bool(err.get(c))
        rep.ob('code-described', ok, 'code %d (from %s): "%s"' % (c, src, err.get(c)) if ok else 'error code %d, which %s can deliver, has no message' % (c, src), w)
    for k, t in err.items():
        rep.ob('non-empty', bool(t.strip()), 'message %d is not empty' % k if t.strip() else 'message of code %d is empty' % k, w)
    mx = max(err) if err else 0
    for k in range(0, mx + 1):
        rep.ob('range', k in err, 'code %d of 0..%d has a message' % (k, mx) if k in err else 'code %d inside the defined range has no message' % k, w)
    rep.ob('range', all(k >= 0 for k in err), 'no message below zero' if all(k >= 0 for k in err) else 'a negative number has a message', w)
    rep.ob('range', mx < 60, 'the defined range ends', w)
    ok = 0 in err and all(err[k] != err[0] for k in err if k) and 'no error' in err[0].lower()
    rep.ob('zero-is-none', ok, 'code 0: "%s"' % err.get(0) if ok else 'code 0 is not described as the absence of an error ("%s")' % err.get(0), w)
    outside(rep, T, 'src_strerror', -3, 60)
    # names
    want = {v: k for k, v in T.E.items()}
    tabs = {}
    for fn in ('src_get_name', 'src_get_description'):
        t = tabs[fn] = bynumber(rep, T, fn, -8, 40); F = M.functions[fn]; w = (F.file, F.line, fn)
        for k, n in sorted(want.items()):
            rep.ob('converter-text', bool((t.get(k) or '').strip()), '%s(%s) = "%s"' % (fn, n, t.get(k)) if t.get(k) else '%s gives no text for %s' % (fn, n), w)
        for k in t:
            rep.ob('converter-text', k in want, '%d is a documented converter' % k if k in want else '%s gives text for %d, which is no converter' % (fn, k), w)
        for k in t:
            for j in t:
                if j > k: rep.ob('distinct', t[k] != t[j], '%s differs for %d and %d' % (fn, k, j) if t[k] != t[j] else '%s gives the same text for %d and %d' % (fn, k, j), w)
        outside(rep, T, fn, -8, 40)
        for k, n in sorted(want.items()):
            txt = (t.get(k) or '').lower()
            rep.need(n in KEYS, 'unknown converter %s' % n)
            ok = any(x in txt for x in KEYS[n]) and not any(x in txt for m, xs in KEYS.items() if m != n for x in xs if not (m == 'SRC_SINC_FASTEST' and 'very fast' in txt and x == 'fast'))
            rep.ob('same-converter', ok, '%s(%s) names %s' % (fn, n, '/'.join(KEYS[n])) if ok else '%s(%s) = "%s" describes another converter' % (fn, n, t.get(k)), w)
