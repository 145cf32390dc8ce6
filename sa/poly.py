"""Exact polynomials over hash-consed atoms (the value domain of the analysis)."""
from fractions import Fraction
from math import gcd

F0, F1 = 0, 1

def norm(c):
    """Exact rational, as an int when it is one."""
    if type(c) is int: return c
    c = Fraction(c)
    return c.numerator if c.denominator == 1 else c
def qdiv(a, b):
    if type(a) is int and type(b) is int:
        q, r = divmod(a, b)
        return q if r == 0 else Fraction(a, b)
    return norm(Fraction(a) / b)

class Atom:
    __slots__ = ('id', 'kind', 'args', 'isint', 'name', 'maynan', 'chan', 'inv_of', 'inv_atom', 'deps', 'smp')
    def __repr__(s): return s.name or '%s(%s)' % (s.kind, ','.join(map(str, s.args)))

ATOMS = []
_intern = {}
def mkatom(kind, args, isint, name=None, maynan=False, chan=None, smp=False, fresh=False):
    key = (kind, args, isint, name if kind == 'sym' else None)
    if not fresh:
        a = _intern.get(key)
        if a is not None: return a
    a = Atom(); a.id = len(ATOMS); a.kind = kind; a.args = args; a.isint = isint; a.name = name; a.maynan = maynan; a.chan = chan
    a.inv_of = None; a.inv_atom = None; a.deps = None; a.smp = smp
    ATOMS.append(a)
    if not fresh: _intern[key] = a
    return a

def fresh(name, isint, maynan=False, chan=None, smp=False):
    """A new symbol, distinct from every other one."""
    a = mkatom('sym', (), isint, '%s#%d' % (name, len(ATOMS)), maynan, chan, smp, fresh=True)
    return Poly({(a.id,): F1})

class Poly:
    __slots__ = ('t', '_h', '_int')
    def __init__(s, t): s.t = t; s._h = None; s._int = None
    def __hash__(s):
        if s._h is None: s._h = hash(frozenset(s.t.items()))
        return s._h
    def __eq__(s, o): return isinstance(o, Poly) and (s is o or (hash(s) == hash(o) and s.t == o.t))
    def __ne__(s, o): return not s == o
    def __add__(s, o):
        if not isinstance(o, Poly): o = const(o)
        if not o.t: return s
        if not s.t: return o
        r = dict(s.t)
        for m, c in o.t.items():
            v = r.get(m, F0) + c
            if v: r[m] = v if type(v) is int else norm(v)
            else: r.pop(m, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(s): return Poly({m: -c for m, c in s.t.items()})
    def __sub__(s, o):
        if not isinstance(o, Poly): o = const(o)
        return s + (-o)
    def __rsub__(s, o): return const(o) - s
    def scale(s, c):
        c = norm(c)
        if not c: return ZERO
        if c == 1: return s
        if type(c) is int: return Poly({m: norm(v * c) for m, v in s.t.items()})
        return Poly({m: norm(v * c) for m, v in s.t.items()})
    def __mul__(s, o):
        if not isinstance(o, Poly): return s.scale(o)
        k = o.cval()
        if k is not None: return s.scale(k)
        k = s.cval()
        if k is not None: return o.scale(k)
        r = {}
        for m1, c1 in s.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2); v = r.get(m, F0) + c1 * c2
                if v: r[m] = v if type(v) is int else norm(v)
                else: r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def cval(s):
        if not s.t: return F0
        if len(s.t) == 1:
            (m, c), = s.t.items()
            if m == (): return c
        return None
    def k(s): return s.t.get((), F0)
    def atoms(s):
        r = set()
        for m in s.t: r.update(m)
        return r
    def isint(s):
        if s._int is None:
            s._int = all(c.denominator == 1 for c in s.t.values()) and all(ATOMS[a].isint for m in s.t for a in m)
        return s._int
    def single(s):
        """The atom if this is exactly one atom with coefficient 1."""
        if len(s.t) == 1:
            (m, c), = s.t.items()
            if c == 1 and len(m) == 1: return ATOMS[m[0]]
        return None
    def __repr__(s):
        if not s.t: return '0'
        out = []
        for m, c in sorted(s.t.items(), key=lambda x: (len(x[0]), x[0])):
            mm = '*'.join(repr(ATOMS[a]) for a in m)
            if not mm: out.append(str(c) if c.denominator < 10**6 else '%.9g' % float(c))
            elif c == 1: out.append(mm)
            elif c == -1: out.append('-' + mm)
            else: out.append('%s*%s' % (c if c.denominator < 10**6 else '%.9g' % float(c), mm))
        return ' + '.join(out).replace('+ -', '- ')

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    m = sorted(a + b)
    # cancel x * inv(x)
    for x in m:
        at = ATOMS[x]
        if at.inv_of is not None and at.inv_of in m:
            m.remove(x); m.remove(at.inv_of)
            return mono_mul(tuple(m), ())
    return tuple(m)

def const(c):
    c = norm(c)
    return Poly({(): c}) if c else ZERO
def atom(a): return Poly({(a.id,): F1})
ZERO = Poly({})
ONE = Poly({(): F1})

def inv(p):
    """1/p as a polynomial over inv-atoms."""
    c = p.cval()
    if c is not None:
        return const(qdiv(1, c)) if c else None
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = const(qdiv(1, c))
        for x in m:
            at = ATOMS[x]
            if at.inv_of is not None: r = r * atom(ATOMS[at.inv_of]); continue
            if at.inv_atom is None:
                if at.kind == 'inv':
                    r = r * at.args[0]; continue
                ia = mkatom('inv', (atom(at),), False); ia.inv_of = at.id; at.inv_atom = ia
            r = r * atom(at.inv_atom)
        return r
    lead = min(p.t)  # normalise by a leading coefficient
    lead = sorted(p.t)[-1]
    c = p.t[lead]
    q = p.scale(qdiv(1, c))
    return atom(mkatom('inv', (q,), False)).scale(qdiv(1, c))

def inv_cancel(p):
    """Rewrites q*inv(q) -> 1 where it occurs as a whole (multi-term q)."""
    ids = {a for m in p.t for a in m if ATOMS[a].kind == 'inv' and ATOMS[a].inv_of is None}
    for a in ids:
        q = ATOMS[a].args[0]
        part = {tuple(y for i, y in enumerate(m) if i != m.index(a)): c for m, c in p.t.items() if a in m}
        d = exact_div(Poly(part), q)
        if d is not None:
            p = Poly({m: c for m, c in p.t.items() if a not in m}) + d
    return p

def exact_div(p, q):
    """p/q if the polynomial division is exact, else None."""
    if not p.t: return ZERO
    k = q.cval()
    if k is not None: return p.scale(qdiv(1, k)) if k else None
    lq = max(q.t, key=lambda m: (len(m), m)); cq = q.t[lq]
    r, res, n = p, ZERO, 0
    while r.t:
        n += 1
        if n > 60: return None
        lr = max(r.t, key=lambda m: (len(m), m))
        rest = list(lr)
        for a in lq:
            if a in rest: rest.remove(a)
            else: return None
        term = Poly({tuple(rest): qdiv(r.t[lr], cq)})
        res = res + term
        r = r - term * q
    return res

def div_atom(p, a):
    """p / a when every monomial contains atom id a, else None."""
    r = {}
    for m, c in p.t.items():
        if a not in m: return None
        l = list(m); l.remove(a); r[tuple(l)] = c
    return Poly(r)

def subst(p, mp):
    """Substitute atom ids -> Poly (also inside composite atoms)."""
    if not mp: return p
    r = ZERO; ch = False
    for m, c in p.t.items():
        if not any(depends(a, mp) for a in m):
            r = r + Poly({m: c}); continue
        ch = True
        x = const(c)
        for a in m:
            x = x * subst_atom(a, mp)
        r = r + x
    return r if ch else p

_depcache = {}
def alldeps(a):
    at = ATOMS[a]
    if at.deps is None:
        s = {a}
        for x in at.args:
            if isinstance(x, Poly):
                for b in x.atoms(): s |= alldeps(b)
        at.deps = frozenset(s)
    return at.deps
def depends(a, mp):
    d = alldeps(a)
    return any(x in d for x in mp)

REBUILD = {}   # kind -> function(args, atom) -> Poly, registered by the interpreter
def subst_atom(a, mp):
    if a in mp: return mp[a]
    at = ATOMS[a]
    if not depends(a, mp): return atom(at)
    args = tuple(subst(x, mp) if isinstance(x, Poly) else x for x in at.args)
    if at.kind == 'inv': return inv(args[0])
    f = REBUILD.get(at.kind)
    if f: return f(args, at)
    return atom(mkatom(at.kind, args, at.isint, None, at.maynan, at.chan, at.smp))

def poly_deps(p):
    s = set()
    for a in p.atoms(): s |= alldeps(a)
    return s
