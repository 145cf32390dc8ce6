"""Entailment between polynomial inequalities: the closure operator of the numeric domain.

A fact is (p, strict): p >= 0 or p > 0.  Monomials are treated as variables; integrality,
positive common factors and products of bounds are used to saturate, then linear infeasibility is
decided exactly (simplex over integers, infinitesimals for strict bounds)."""
from fractions import Fraction
from math import gcd
from .poly import Poly, ATOMS, ZERO, ONE, const, atom, div_atom, mono_mul, norm, qdiv

STATS = dict(queries=0, lps=0, hits=0, pivots=0)

def floor_div(a, b): return a // b


def lcm(a, b): return a * b // gcd(a, b)

def tighten(p, strict):
    """Divide by the content; for integer polynomials make strict facts non-strict and floor the constant."""
    t = p.t
    if not t: return p, strict
    den = 1
    for c in t.values():
        if type(c) is not int: den = lcm(den, c.denominator)
    g = 0
    for m, c in t.items():
        if m: g = gcd(g, int(c * den))
    if g == 0: return p, strict
    if p.isint() if den == 1 else all(ATOMS[a].isint for m in t for a in m):
        k = t.get((), 0)
        # q + k' with q integer valued of content 1
        num, dd = (k * den).numerator, g
        if strict: nk = -((-num) // dd) - 1
        else: nk = num // dd
        if den == 1 and g == 1 and nk == k: return p, False
        r = {m: int(c * den) // g for m, c in t.items() if m}
        if nk: r[()] = nk
        return Poly(r), False
    if den == 1 and g == 1: return p, strict
    return p.scale(Fraction(den, g)), strict

import ctypes, os, subprocess, tempfile, shutil
_lib = None
def native():
    """The floating point core finder, compiled on first use into a scratch directory."""
    global _lib
    if _lib is None:
        d = tempfile.mkdtemp(prefix='sa_lp_')
        here = os.path.dirname(os.path.abspath(__file__))
        try:
            so = os.path.join(d, 'prover.so')
            subprocess.run(['g++', '-std=c++17', '-O2', '-shared', '-fPIC', os.path.join(here, 'prover.cpp'), '-fpermissive', '-w', '-o', so], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            _lib = ctypes.CDLL(so)
            _lib.sa_pos.argtypes = [ctypes.c_int, ctypes.c_double]
        finally: shutil.rmtree(d, ignore_errors=True)
    return _lib

_reg_atoms = 0
_reg_pos = {}
_pid = {}
def register(L, p):
    """Native number of a polynomial."""
    global _reg_atoms
    i = _pid.get(p)
    if i is not None: return i
    while _reg_atoms < len(ATOMS):
        a = ATOMS[_reg_atoms]
        L.sa_atom(a.id, 1 if a.isint else 0, -1)
        _reg_atoms += 1
    ln, at, cs, rat = [], [], [], 0
    for m, c in p.t.items():
        ln.append(len(m)); at += m
        for a in m:
            x = ATOMS[a].inv_of
            if x is not None: L.sa_atom(a, 1 if ATOMS[a].isint else 0, x); L.sa_atom(x, 1 if ATOMS[x].isint else 0, a)
        if type(c) is not int: rat = 1
        try: cs.append(float(c))
        except OverflowError: cs.append(1e300)
    n = len(ln)
    i = _pid[p] = L.sa_poly(n, (ctypes.c_int * n)(*ln), (ctypes.c_int * len(at))(*at), (ctypes.c_double * n)(*cs), rat)
    return i

_OUT = (ctypes.c_int * 60000)()
TINY = Fraction(1, 10 ** 8)
def native_prove(facts, ids, extra):
    if native_prove1(facts, ids, extra): return True
    # nearly equal bounds can hide the reason from the floating point search: without them
    f = tuple(x for x in facts if abs(x[0].k()) >= TINY or not x[0].k())
    if len(f) == len(facts) or not FAILED[0]: return False
    return native_prove1(f, ids_of(f), extra)
FAILED = [False]
def native_prove1(facts, ids, extra):
    """facts: ((p, strict), ...) with native ids/strictness arrays; extra: the negated goal."""
    L = native()
    g = register(L, extra[0])
    for a in POS:
        if _reg_pos.get(a) != MINVAL.get(a, 1):
            _reg_pos[a] = MINVAL.get(a, 1); L.sa_pos(a, float(_reg_pos[a]))
    STATS['lps'] += 1
    r = L.sa_prove(len(facts), ids[0], ids[1], g, 1 if extra[1] else 0, _OUT, 60000)
    FAILED[0] = r >= 0
    if r < 0: return False
    n, nc = _OUT[0], _OUT[1]
    tab = {}
    for i in range(n):
        o = 2 + 4 * i
        tab[_OUT[o]] = (_OUT[o + 1], _OUT[o + 2], _OUT[o + 3])
    memo = {}
    def ent(i):
        r = memo.get(i)
        if r is not None: return r
        k, x, y = tab[i]
        if k == 0: r = extra if x < 0 else facts[x]
        elif k == 1:
            src = extra if x < 0 else facts[x]
            r = quotient1(src[0], src[1], y)
        elif k == 2:
            p, s = ent(x); r = (p * atom(ATOMS[y]), s)
        elif k == 3:
            p, s = ent(x); q, t = ent(y); r = (p * q, s and t)
        else: r = (atom(ATOMS[y]) - MINVAL.get(y, 1), False)
        r = memo[i] = tighten(*r)
        return r
    cons = []
    key = frozenset(ent(_OUT[2 + 4 * n + i]) for i in range(nc))
    r = _cores.get(key)
    if r is not None: STATS['corehits'] = STATS.get('corehits', 0) + 1; return r
    _cores[key] = True
    for i in range(nc):
        p, s = ent(_OUT[2 + 4 * n + i])
        t = dict(p.t); k = t.pop((), 0)
        if not t and (k < 0 or (s and k <= 0)): return True
        cons.append((t, k, s))
    if LP.infeasible(cons) is not None: return True
    STATS['recheck'] = STATS.get('recheck', 0) + 1
    r = EXACT_FALLBACK and prove_infeasible_exact(facts, extra)
    if r: STATS['recheck_ok'] = STATS.get('recheck_ok', 0) + 1
    else: _cores[key] = False
    return r
EXACT_FALLBACK = True
_cores = {}

class LP:
    """s_i = sum a_ij x_j >= l_i (+delta).  Only lower bounds; x_j free."""
    def __init__(self): self.rows = []
    @staticmethod
    def infeasible(cons, limit=4000):
        """cons: list of (dict mono->Fraction (no constant), constant, strict) meaning sum + constant >= 0.
        Returns list of indices (a core) when infeasible, None when feasible (or limit hit)."""
        # variables: monomials -> index 0..n-1 (free nonbasic); slack i -> n+i (basic)
        vs = {}
        for t, k, s in cons:
            for m in t:
                if m not in vs: vs[m] = len(vs)
        n = len(vs); M = len(cons)
        lower = {}
        rows = {}      # basic var -> (den, dict nonbasic -> int)   den*basic = sum
        beta = {}
        cols = {}
        for i, (t, k, s) in enumerate(cons):
            v = n + i
            den = 1
            for c in t.values(): den = lcm(den, c.denominator)
            r = {vs[m]: int(c * den) for m, c in t.items()}
            if not r:
                if k < 0 or (s and k <= 0): return [i]
                continue
            lower[v] = (-k, 1 if s else 0)
            rows[v] = (den, r)
            beta[v] = (Fraction(0), Fraction(0))
        for j in range(n): beta[j] = (Fraction(0), Fraction(0))
        basic = set(rows)
        it = 0
        Z = (Fraction(0), Fraction(0))
        while True:
            it += 1
            if it > limit: return None
            # pick violated basic var, smallest index (Bland) after some iterations; largest violation first early
            viol = None
            if it < 60:
                best = None
                for v in rows:
                    l = lower.get(v)
                    if l is not None and beta[v] < l:
                        d = l[0] - beta[v][0]
                        if best is None or d > best: best = d; viol = v
            else:
                for v in sorted(rows):
                    l = lower.get(v)
                    if l is not None and beta[v] < l: viol = v; break
            if viol is None: return None
            den, r = rows[viol]
            piv = None
            for j in sorted(r):
                c = r[j]
                if c > 0: piv = j; break
                lj = lower.get(j)
                if lj is None or beta[j] > lj: piv = j; break
            if it < 60 and piv is not None:
                # prefer free variables (they never block again)
                for j in sorted(r):
                    if j not in lower: piv = j; break
            if piv is None:
                return [viol - n] + [j - n for j in r if j >= n]
            STATS['pivots'] += 1
            a = r[piv]
            l = lower[viol]
            th0 = Fraction((l[0] - beta[viol][0]) * den) / a; th1 = Fraction((l[1] - beta[viol][1]) * den) / a
            beta[viol] = l
            b = beta[piv]; beta[piv] = (b[0] + th0, b[1] + th1)
            for v, (d2, r2) in rows.items():
                if v != viol:
                    c = r2.get(piv)
                    if c:
                        bb = beta[v]; beta[v] = (bb[0] + th0 * c / d2, bb[1] + th1 * c / d2)
            # pivot: den*viol = a*piv + rest  ->  a*piv = den*viol - rest
            del rows[viol]
            nr = {viol: den}
            for j, c in r.items():
                if j != piv: nr[j] = -c
            nd = a
            if nd < 0: nd = -nd; nr = {j: -c for j, c in nr.items()}
            g = nd
            for c in nr.values(): g = gcd(g, c)
            if g > 1: nd //= g; nr = {j: c // g for j, c in nr.items()}
            for v in list(rows):
                d2, r2 = rows[v]
                c = r2.get(piv)
                if c:
                    # d2*v = c*piv + R ; piv = (nr)/nd  -> d2*nd*v = c*nr + nd*R
                    x = {}
                    for j, cc in r2.items():
                        if j != piv: x[j] = cc * nd
                    for j, cc in nr.items():
                        y = x.get(j, 0) + cc * c
                        if y: x[j] = y
                        else: x.pop(j, None)
                    dd = d2 * nd; g = dd
                    for cc in x.values():
                        g = gcd(g, cc)
                        if g == 1: break
                    if g > 1: dd //= g; x = {j: cc // g for j, cc in x.items()}
                    rows[v] = (dd, x)
            rows[piv] = (nd, nr)

POS = set()      # atom ids known to be >= 1 integers used as scale (channel counts)
MINVAL = {}      # atom id -> known integer lower bound for scale atoms

def quotient(p, strict):
    """p = C*X + c0 >= 0 with C a scale atom  ->  fact about X, or None."""
    out = []
    cand = set()
    for m in p.t:
        if m:
            s = {a for a in m if a in POS}
            cand = s if not cand else cand & s
            if not cand: return out
    for a in cand:
        q = quotient1(p, strict, a)
        if q is not None: out.append(q)
    return out
def quotient1(p, strict, a):
    k = p.k()
    t = {}
    for m, c in p.t.items():
        if m:
            l = list(m); l.remove(a); t[tuple(l)] = c
    X = Poly(t)
    xint = X.isint()
    if k == 0: return (X, strict)
    if k < 0: return (X - 1, False) if xint else (X, True)
    if xint and k.denominator == 1:
        mn = MINVAL.get(a, 1)
        if mn > k or (strict and mn >= k): return (X, False)    # C*X >= -k > -C  -> X > -1
    return None

_cache = {}
def closure_key(facts, goal, gs): return (facts, goal, gs)

def saturate(facts, goal, depth=2):
    """facts: iterable of (p, strict).  goal: (p, strict) already negated and included by the caller as a fact.
    Returns the list of constraints for the LP."""
    pool = {}
    def add(p, s):
        p, s = tighten(p, s)
        if not p.t: return
        c = p.cval()
        if c is not None and (c > 0 or (c == 0 and not s)): return
        o = pool.get(p)
        if o is None or (s and not o): pool[p] = s; return True
    # relevance by shared monomials
    base = []
    for p, s in facts:
        base.append((p, s))
        for q in quotient(p, s): base.append(q)
    gl = [goal] + quotient(*goal)
    rel_m = set()
    sel = []
    for p, s in gl:
        add(p, s); rel_m.update(m for m in p.t if m)
    def stripped(m): return tuple(a for a in m if a not in POS)
    relk = {stripped(m) for m in rel_m}
    rest = base
    for rnd in range(12):
        nxt = []; ch = False
        for p, s in rest:
            if any(stripped(m) in relk for m in p.t if m):
                add(p, s); ch = True
                for m in p.t:
                    if m: relk.add(stripped(m))
            else: nxt.append((p, s))
        rest = nxt
        if not ch: break
    # product atoms: nonlinear monomials
    monos = set()
    for p in pool:
        for m in p.t:
            if len(m) >= 2: monos.add(m)
    # scale lifting: if C*m occurs, multiply C-free facts mentioning m by C
    scales = {a for m in monos for a in m if a in POS}
    for a in scales:
        need = set()
        for m in monos:
            if a in m:
                l = list(m); l.remove(a); need.add(tuple(l))
        for p, s in list(pool.items()):
            if any(mm in need and mm for mm in p.t) and not any(a in m for m in p.t):
                add(p * atom(ATOMS[a]), s)
        # bounds of the scale atom itself
        add(atom(ATOMS[a]) - MINVAL.get(a, 1), False)
    # products of single-atom bounds for remaining bilinear monomials
    lows = {}; ups = {}
    for p, s in pool.items():
        ats = [m for m in p.t if m]
        if len(ats) == 1 and len(ats[0]) == 1:
            a = ats[0][0]; c = p.t[ats[0]]; k = p.k()
            if c > 0: lows.setdefault(a, []).append((p, s))
            else: ups.setdefault(a, []).append((p, s))
    for m in monos:
        if len(m) == 2:
            a, b = m
            fa = lows.get(a, []) + ups.get(a, []); fb = lows.get(b, []) + ups.get(b, [])
            if a in POS and not fa: fa = [(atom(ATOMS[a]) - MINVAL.get(a, 1), False)]
            if b in POS and not fb: fb = [(atom(ATOMS[b]) - MINVAL.get(b, 1), False)]
            for p1, s1 in fa[:4]:
                for p2, s2 in fb[:4]:
                    add(p1 * p2, s1 and s2)
        elif len(m) == 3:
            # split one atom off, use bounds on it times a bound on the pair when the pair is itself bounded by a fact
            pass
    return pool

def ids_of(facts):
    L = native()
    n = len(facts)
    return ((ctypes.c_int * n)(*[register(L, p) for p, s in facts]), bytes([1 if s else 0 for p, s in facts]))
def prove_infeasible_exact(facts, extra):
    """facts plus the extra fact have no common point (exact arithmetic throughout)."""
    pool = saturate(facts, extra)
    cons = []
    for p, s in pool.items():
        t = dict(p.t); k = t.pop((), 0)
        cons.append((t, k, s))
    return LP.infeasible(cons) is not None

class Facts:
    """Persistent set of facts."""
    __slots__ = ('items', 'set', 'key')
    def __init__(self, items=(), st=None):
        self.items = items; self.set = st if st is not None else frozenset(items); self.key = None
    def ids(self):
        if self.key is None: self.key = ids_of(self.items)
        return self.key
    def add(self, p, strict=False):
        p, strict = tighten(p, strict)
        c = p.cval()
        if c is not None:
            if c > 0 or (c == 0 and not strict): return self
        f = (p, strict)
        if f in self.set: return self
        return Facts(self.items + (f,), self.set | {f})
    def entails(self, p, strict=False):
        """p >= 0 (or > 0) follows from the facts."""
        c = p.cval()
        if c is not None: return c > 0 or (c == 0 and not strict) or self.inconsistent_quick()
        if (p, strict) in self.set or (p, True) in self.set: return True
        STATS['queries'] += 1
        k = (self.set, p, strict)
        r = _cache.get(k)
        if r is not None: STATS['hits'] += 1; return r
        neg = tighten(-p, not strict)
        q, s = tighten(p, strict)
        if (q, s) in self.set or (q, True) in self.set: r = True
        else:
            r = native_prove(self.items, self.ids(), neg)
            if not r: r = self.scale_cut(p, strict, neg)
        _cache[k] = r
        return r
    def scale_cut(self, p, strict, neg):
        """Integer rounding of the part of the goal that is multiplied by a scale atom."""
        sc = {a for m in p.t for a in m if a in POS}
        for a in sc:
            q = {}
            for m, c in p.t.items():
                if a in m:
                    l = list(m); l.remove(a); q[tuple(l)] = c
            q, _ = tighten(Poly(q), False)
            if not q.t or q.cval() is not None or not q.isint() or any(b in POS for m in q.t for b in m): continue
            qq = Poly({m: c for m, c in q.t.items() if m})
            if not qq.t: continue
            if native_prove(self.items, self.ids(), tighten(-qq, False)):      # qq > 0, hence qq >= 1
                f2 = self.items + ((qq - 1, False),)
                if native_prove(f2, ids_of(f2), neg): return True
        return False
    def infeasible_with(self, ps):
        """The facts and all of ps (> 0) are shown contradictory, trying each of ps as the goal."""
        for k in range(len(ps) - 1, -1, -1):
            f = self
            for j, q in enumerate(ps):
                if j != k: f = f.add(q, True)
            if f.entails(-ps[k]): return True
        return False
    def inconsistent_quick(self):
        return any(p.cval() is not None for p, s in self.items)
    def entails_eq(self, p):
        return not p.t or (self.entails(p) and self.entails(-p))
    def feasible_with(self, p, strict=False):
        """False when facts and p>=0 (>0) are contradictory."""
        c = p.cval()
        if c is not None: return c > 0 or (c == 0 and not strict)
        return not self.entails(-p, not strict)
