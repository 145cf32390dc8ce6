"""Coarse join: states that agree in structure (objects pointed to, statuses, constants) become one, in which differing
values are new symbols bounded by what all joined states have in common."""
from fractions import Fraction
from . import poly as P
from .poly import Poly, ATOMS, ZERO, ONE, const, atom, fresh, exact_div, subst, poly_deps

def classify(I, v, exact):
    from .interp import Ptr, Cond, Unk, FuncP, TRUE, FALSE, UNDEF, has_smp
    if isinstance(v, Poly):
        k = v.cval()
        if k is not None and (exact or k.denominator != 1): return ('c', k) if exact else ('n',)
        if I.join_reals and not v.isint() and not has_smp(v): return ('r', v)
        return ('s',) if has_smp(v) else ('n',)
    if isinstance(v, Ptr): return ('p', id(v.obj))
    if v is UNDEF or v is TRUE or v is FALSE or isinstance(v, FuncP): return ('x', v if isinstance(v, FuncP) else id(v))
    if isinstance(v, Unk): return ('u',)
    if isinstance(v, Cond): return ('u',)
    return ('x', v)

GH = ('inv', 'hull', 'trk')

def returned(I, fn):
    """Values that a function returns as they are, through choices."""
    r = I.returned.get(fn.name)
    if r is None:
        r = I.returned[fn.name] = set(); work = [x for b in fn.blocks if b.instrs[-1].op == 'ret' for x in b.instrs[-1].ops]
        while work:
            x = work.pop()
            if x in r or getattr(x, 'op', None) not in ('phi', 'select', 'call', 'load'): continue
            r.add(x)
            if x.op in ('phi', 'select'): work += x.ops
    return r

def coarse(I, states, names, sizes, limit):
    """states: [(st, env)]; names: environment keys that matter.  Returns a shorter list of (st, env)."""
    rn = [n == 'ret' or getattr(n, 'op', None) == 'phi' and n in returned(I, n.bb.fn) for n in names] if I.keep_ret else [False] * len(names)
    for exact in (True, False):
        groups = {}
        ks = set()
        for s, e in states: ks |= set(s.mem)
        for s, e in states:
            for k in ks:
                if k in s.mem: continue
                o = I.objs[k[0]]
                if o.init in ('zero', 'sym') and o.kind != 'stack':
                    r = next(x[0].mem[k] for x in states if k in x[0].mem)
                    materialise(I, s, k, r[1], r[0])
            key = (frozenset((k, classify(I, v, exact), sz) for k, (v, sz) in s.mem.items()), frozenset(s.status.items()),
                   frozenset((k, classify(I, v, True)) for k, v in s.ghost.items() if k[0] not in GH),
                   tuple(classify(I, e[n], exact or k) if n in e else None for n, k in zip(names, rn)))
            groups.setdefault(key, []).append((s, e))
        if len(groups) <= limit: break
    return [join_group(I, g, names, sizes) if len(g) > 1 else g[0] for g in groups.values()]

def materialise(I, st, k, size, like):
    from .interp import Ptr
    class T: pass
    t = T(); t.size = size; t.bits = size * 8
    t.k = 'ptr' if isinstance(like, Ptr) else 'f' if isinstance(like, Poly) and not like.isint() else 'i'
    I.mute += 1
    try: I.load(st, None, Ptr(I.objs[k[0]], const(k[1])), t)
    finally: I.mute -= 1

def join_group(I, g, names, sizes):
    from .interp import Ptr, Unk, Cond, has_smp
    sts = [s for s, e in g]
    st = I.join_facts(sts); env = dict(g[0][1])
    st.nan = {a: b for a, b in st.nan.items() if all(s.nan.get(a) == b for s in sts[1:])}
    C = I.C
    fixed = {}
    new, syms = {}, []          # vector of old values -> symbol ; [(symbol, vector)]
    ints, reals = [], []; cells = set()
    def poisoned(vec): return I.poison and any(a in I.poison for v in vec for a in v.atoms())
    def widen(vals, bits, chan_of=None):
        v0 = vals[0]
        if all(v == v0 for v in vals):
            if isinstance(v0, Poly) and v0.cval() is None and not has_smp(v0) and len(v0.t) <= 2:
                l = ints if v0.isint() else reals
                if v0 not in l and len(l) < 16: l.append(v0)
                if I.join_ghosts and v0.isint(): fixed[v0] = tuple(vals)
            return v0
        if isinstance(v0, Ptr):
            offs = tuple(v.off for v in vals)
            return Ptr(v0.obj, number(offs, None, C.scale(4) if C is not None else None))
        if not isinstance(v0, Poly): return Unk('join')
        return number(tuple(vals), bits, C)
    def number(vec, bits, scale):
        r = new.get(vec)
        if r is not None: return r
        isint = all(v.isint() for v in vec)
        smp = any(has_smp(v) for v in vec)
        if smp:
            s = fresh('join', isint, smp=True); s.single().chan = I.chan_join([(x, None) for x in sts], list(vec)); new[vec] = s; return s
        if isint and scale is not None and scale != ONE:
            q = [exact_div(v, scale) for v in vec]
            if all(x is not None and x.isint() for x in q):
                u = fresh('join', True); r = scale * u
                if poisoned(vec): I.poison.add(u.single().id)
                new[vec] = r; syms.append((u, tuple(q), r, vec)); return r
        r = fresh('join', isint, any(I.nanset(s, v) for s, v in zip(sts, vec)))
        if isint and bits and bits <= 32: I.type_range(st, r, bits)
        if poisoned(vec): I.poison.add(r.single().id)
        new[vec] = r; syms.append((r, vec, r, vec)); return r
    for k in list(st.mem):
        vals = [s.mem[k][0] for s in sts]; sz = st.mem[k][1]
        st.mem[k] = (widen(vals, sz * 8), sz)
        if sz == 4: cells.add(tuple(vals))
    for n in names:
        if n in env: env[n] = widen([e[n] for s, e in g], sizes.get(n))
    ghosts = []
    for k in list(st.ghost):
        if k[0] in GH: continue
        vals = [s.ghost.get(k) for s in sts]
        st.ghost[k] = widen(vals, None)
        if I.join_ghosts and isinstance(vals[0], Poly) and tuple(vals) in new: ghosts.append((st.ghost[k], vals))
    for k in set().union(*[set(s.arr) for s in sts]):
        vals = [s.arr.get(k, ((I.objs[k].init, k),)) for s in sts]
        st.arr[k] = vals[0] if all(v == vals[0] for v in vals) else (('hav', fresh('hav', True)),)
    for r, vals in ghosts:
        # what is counted stays equal to the cells and variables that count it
        for vec, r2 in list(new.items()) + [(w, v) for v, w in fixed.items()]:
            if r2 == r or not r2.isint() or not r.isint() or any(has_smp(v) for v in vec): continue
            for m in {ONE, C} if C is not None else {ONE}:
                if all(s.facts.entails_eq(a - m * b) for s, a, b in zip(sts, vals, vec)): d = r - m * r2; st.facts = st.facts.add(d).add(-d)
    bound(I, st, sts, syms, ints, reals, cells)
    return st, env

def bound(I, st, sts, syms, ints, reals, cells=()):
    if not syms: return
    cands, seen = [], set()
    def add(p, s=False):
        if p.cval() is None and (p, s) not in seen and len(p.t) <= 6: seen.add((p, s)); cands.append((p, s))
    val = [{r.single().id if r.single() is not None else u.single().id: q[j] for u, q, r, vec in syms} for j in range(len(sts))]
    for n, (u, q, r, vec) in enumerate(syms):
        isint = r.isint()
        cs = [ZERO, ONE] + ([] if isint else [const(Fraction(1, 256)), const(256)])
        for c in I.const_bounds(sts[0], vec[0]):
            if const(c) not in cs and len(cs) < 10: cs.append(const(c))
        for o in cs + (ints + I.join_bounds if isint else reals) + [x[2] for x in syms[:n] if x[2].isint() == isint][:12]:
            add(r - o); add(o - r)
            if not isint: add(r - o, True); add(o - r, True)
    for u, q, r, vec in syms:
        if r.isint():
            for b in I.join_bounds:
                for v in ints: add(b - v - r)
    if I.join_pairs:
        # distances between joined cells, against what stayed the same
        for u, q, r, vec in syms:
            for u2, q2, r2, vec2 in syms:
                if r is r2 or not (r.isint() and r2.isint()) or vec not in cells or vec2 not in cells: continue
                for o in ints: add(r - r2 - o - 1); add(r - r2 - o); add(o + r2 - r)
    if not I.light:
        ren = {}
        for u, q, r, vec in syms:
            a = q[0].single()
            if a is not None and a.id not in ren: ren[a.id] = u
        if ren:
            for p, s in sts[0].facts.items[-60:]:
                if len(p.t) <= 5 and poly_deps(p) & set(ren): add(subst(p, ren), s)
    # real versus integer bounds are rare; the pairwise templates above are what the loops need
    F = st.facts
    for p, s in cands[:400 if not I.join_pairs else 1500]:
        if all(x.facts.entails(subst(p, v), s) for x, v in zip(sts, val)): F = F.add(p, s)
    if I.join_bounds:
        # the tightest constant bounds of each joined whole number, within some per cent
        def upper(ws, known):
            def ok(c): return all(x.facts.entails(const(c) - w) for x, w in zip(sts, ws))
            if known or not ok(1 << 26): return None
            if ok(-1):
                lo, hi = -26, 0          # in [-2**-lo, -2**-hi]
                while hi - lo > 1:
                    m = (lo + hi) // 2
                    if ok(-(1 << -m)): hi = m
                    else: lo = m
                return closest(ok, -(1 << -lo), -(1 << -hi))
            lo, hi = -1, 26
            while hi - lo > 1:
                m = (lo + hi) // 2
                if ok(1 << m): hi = m
                else: lo = m
            return closest(ok, 1 << lo, 1 << hi) if lo >= 0 else None
        def closest(ok, a, b):
            while b - a > max(0, abs(b) >> 6):
                m = (a + b) // 2
                if m == a: break
                if ok(m): b = m
                else: a = m
            return b
        for u, q, r, vec in syms:
            if not r.isint(): continue
            for sg in (1, -1):
                b = upper([w.scale(sg) for w in vec], not I.join_pairs and F.entails(-r.scale(sg)))
                if b is not None and (b >= 0 or I.join_pairs): F = F.add(const(b) - r.scale(sg))
        if I.join_pairs:
            for u, q, r, vec in syms:
                for u2, q2, r2, vec2 in syms:
                    if r is r2 or not (r.isint() and r2.isint()) or vec not in cells or vec2 not in cells: continue
                    b = upper([w - w2 for w, w2 in zip(vec, vec2)], False)
                    if b is not None: F = F.add(const(b) - r + r2)
    st.facts = F
