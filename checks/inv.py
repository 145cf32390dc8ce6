"""Ranges that the cells of a handle keep through every process call: candidates from the values creation stores, reduced
to the inductive ones by interpretation (assume all, drop those not re-established, repeat)."""
from .proc import *
from sa import vsa

def bounds(T, S):
    """Whole numbers fixed at creation that may bound positions in the handle's history buffer, largest first."""
    I = S.I; out = []
    hs = owned(I, S.st, S.h)
    mut = mutable(T)
    for a, c in hs:
        if not a.array or a.esize != 4 or not isinstance(a.size, Poly): continue
        n = a.size.scale(Fraction(1, 4))
        for o, c2 in hs:
            if o.array: continue
            for off, t in I.layout(o) or []:
                if t.k != 'i' or t.bits != 32: continue
                v = S.st.mem.get((o.id, off), (None,))[0]
                if isinstance(v, Poly) and v not in out and not any(f is None or vsa.meets(f, off) for f in mut.get(o.seq, {})):
                    if S.st.facts.entails(n - v) and S.st.facts.entails(v + S.C - n) and (v.cval() is None or v.cval() > 128): out.append(v)
    return out

def candidates(T, S, sy):
    """{(allocation, offset, kind): polynomial kept non-negative} for the unknown cells of a state after any history."""
    I = S.I; byid = {o.id: o for o, c in owned(I, S.st, S.h)}
    out = {}
    B = bounds(T, S)
    for (oid, off), v in sy.items():
        o = byid.get(oid)
        if o is None or o.array or not isinstance(v, Poly) or off == '*': continue
        k0 = S.st.mem.get((oid, off), (ZERO,))[0]
        if not isinstance(k0, Poly) or k0.cval() is None: continue
        k = k0.cval()
        if not v.isint():
            if k >= 0: out[(o.seq, off, 'lo')] = lambda p: p
            continue
        out[(o.seq, off, 'lo')] = lambda p, k=min(k, 0): p - k
        if any(c and f == off and t.bits == 64 for f, t in I.layout(o) or [] for c in [t.k == 'i']): continue        # counts of the caller
        for j, b in enumerate(B): out[(o.seq, off, 'hi%d' % j)] = lambda p, b=b: b - p
    return out

def grant(T, S, st, sy, cs, only=None):
    """Assume the candidates (those named in only)."""
    byid = {o.id: o.seq for o, c in owned(S.I, S.st, S.h)}
    for (oid, off), v in sy.items():
        for (seq, f, kind), g in cs.items():
            if byid.get(oid) is seq and f == off and (only is None or inv_name((seq, f, kind)) in only): st.facts = st.facts.add(g(v))
    return st

def inv_name(key): return '%s:%d+%d %s' % (key[0].fn.name, key[0].line, key[1], key[2])

def broken(T, S, rets, cs, only=None):
    """Names of candidates some return does not re-establish, with a state that shows it."""
    ids = {o.seq: o.id for o, c in owned(S.I, S.st, S.h)}
    out = {}
    for key, g in cs.items():
        n = inv_name(key)
        if only is not None and n not in only: continue
        for s, v in rets:
            c = s.mem.get((ids[key[0]], key[1]), (None,))[0]
            if not (isinstance(c, Poly) and s.facts.entails(g(c))): out[n] = (c, s); break
    return out
