"""Value-set (points-to) analysis: which objects, functions and integer constants every value and every memory
cell of the library can hold.  Field-sensitive for constant offsets, flow- and context-insensitive, whole program."""
from .ir import Instr, Arg, Const

EXT = ('ext',)             # memory and functions of the caller
PURE = ('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.fabs', 'llvm.fma', 'llvm.fmuladd', 'llvm.floor', 'llvm.ceil', 'llvm.rint', 'llvm.lrint',
        'llvm.llrint', 'llvm.nearbyint', 'llvm.round', 'llvm.trunc', 'llvm.minnum', 'llvm.maxnum', 'llvm.smin', 'llvm.smax', 'llvm.umin', 'llvm.umax',
        'llvm.abs', 'llvm.copysign', 'llvm.sqrt', 'llvm.x86.sse.cvt', 'llvm.x86.sse2.cvt', 'llvm.objectsize', 'llvm.expect', 'llvm.is.fpclass',
        'llvm.vector.reduce', 'llvm.experimental.constrained', 'llvm.umul.with', 'llvm.smul.with', 'llvm.sadd.with', 'llvm.uadd.with', 'llvm.ssub.with',
        'llvm.donothing', 'llvm.sin', 'llvm.cos', 'llvm.pow', 'llvm.exp', 'llvm.log', 'llvm.powi', 'llvm.ctpop', 'llvm.ctlz', 'llvm.cttz', 'llvm.bswap',
        'llvm.x86.sse2.sqrt', 'llvm.x86.sse.sqrt', 'llvm.x86.sse41.round', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.ucmp', 'llvm.scmp')
MATH = {p + s for p in ('fabs fmod floor ceil rint nearbyint lrint llrint lround llround round trunc sqrt sin cos tan asin acos atan atan2 sinh cosh tanh exp exp2 '
        'log log2 log10 pow hypot fmin fmax fma copysign ldexp frexp modf remainder isnan isinf cbrt').split() for s in ('', 'f', 'l')} | {
        '__isnan', '__isinf', '__finite', '__fpclassify', '__fpclassifyf', 'abs', 'labs', 'llabs', 'strcmp', 'strlen', 'memcmp', 'strncmp', 'strchr', 'memchr', '__isnanf', '__finitef'}
ALLOC = {'malloc', 'calloc', 'realloc', 'aligned_alloc', 'memalign', 'valloc', 'strdup', 'reallocarray'}
FREE = {'free', 'realloc', 'reallocarray'}
COPY = ('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
SET = ('llvm.memset', 'memset', 'bzero')
STOP = {'__assert_fail', 'abort', 'llvm.trap', 'llvm.ubsantrap', '__assert'}

def plus(a, b):
    """Offset a (int, (lo, hi) for an element of an array field, None for anywhere) moved by the constant b."""
    return None if a is None or b is None else a if isinstance(a, tuple) else a + b
def meets(a, b):
    if a is None or b is None: return True
    if isinstance(a, tuple):
        return max(a[0], b[0]) < min(a[1], b[1]) if isinstance(b, tuple) else a[0] <= b < a[1]
    return b[0] <= a < b[1] if isinstance(b, tuple) else a == b

class Obj:
    __slots__ = ('kind', 'name', 'g', 'site', 'size')
    def __init__(s, kind, name, g=None, site=None, size=None): s.kind, s.name, s.g, s.site, s.size = kind, name, g, site, size
    def __repr__(s): return '%s:%s' % (s.kind, s.name)

class VSA:
    def __init__(self, M, api):
        """api: {function name: [is handle parameter, ...]} of the public functions."""
        self.M, self.api = M, api
        self.val = {}            # (Instr|Arg) -> set
        self.cell = {}           # (obj, off|None) -> set
        self.offs = {}           # obj -> set of offsets seen
        self.ret = {}            # function -> set
        self.callees = {}        # call instr -> set of names (or EXT)
        self._fits = {}; self.obj = {}; self._types = {}; self._structs = None
        self.extobj = Obj('caller', 'caller memory')
        self.changed = True
        self.seed()
        n = 0
        while self.changed:
            self.changed = False; n += 1
            for F in M.functions.values():
                if not F.decl:
                    for b in F.blocks:
                        for i in b.instrs: self.step(F, i)
            if n > 200: raise RuntimeError('points-to analysis does not stabilise')
            if not self.changed:
                # whole numbers read from memory of which no store is known
                for F in M.functions.values():
                    for b in F.blocks:
                        for i in b.instrs:
                            if i.op == 'load' and i.ty.k == 'i' and not self.v(i) and not all(x[0] == 'o' and x[1].kind == 'heap' for x in self.v(i.ops[0])): self.add(self.val, i, {('n',)})
        self.rounds = n
    # ------------------------------------------------------------------
    def mk(self, key, *a, **k):
        o = self.obj.get(key)
        if o is None: o = self.obj[key] = Obj(*a, **k)
        return o
    def add(self, d, k, vs):
        s = d.get(k)
        if s is None: s = d[k] = set()
        n = len(s); s |= vs
        if len(s) != n: self.changed = True
    def seed(self):
        for g in self.M.globals.values():
            o = self.mk(('g', g.name), 'global', g.name, g=g, size=g.size)
            def walk(c, off):
                if c is None or c.kind in ('zero', 'undef', 'other', 'fp'): return
                if c.kind == 'agg':
                    t = c.ty
                    if t.k == 'arr' and t.el.k in ('f',): return
                    for n, x in enumerate(c.v): walk(x, off + (t.offs[n] if t.k == 'struct' else n * t.el.size))
                    return
                self.put(o, off, self.const(c))
            walk(g.init, 0)
        for fn, hs in self.api.items():
            F = self.M.functions.get(fn)
            if F is None or F.decl: continue
            for a, h in zip(F.args, hs):
                if a.ty.k == 'ptr':
                    self.add(self.val, a, {('o', self.extobj, None)} if not h else set())
                elif a.ty.k == 'i': self.add(self.val, a, {('n',)})
        self.cell[(self.extobj, None)] = {('o', self.extobj, None), ('x',)}
        self.offs[self.extobj] = {None}
    def put(self, o, off, vs):
        self.add(self.cell, (o, off), vs); self.offs.setdefault(o, set()).add(off)
    def get(self, o, off):
        r = set()
        for f in self.offs.get(o, ()):
            if meets(f, off): r |= self.cell[(o, f)]
        return r
    def const(self, c):
        if c.kind == 'int': return {('i', c.v)}
        if c.kind == 'func': return {('f', c.v)}
        if c.kind == 'glob': return {('o', self.mk(('g', c.v), 'global', c.v, g=self.M.globals[c.v]), c.off)}
        if c.kind == 'agg' and c.ty.k == 'vec':
            r = set()
            for x in c.v: r |= self.const(x)
            return r
        if c.kind == 'null' : return {('i', 0)}
        if c.kind == 'zero' and c.ty.k in ('i', 'ptr'): return {('i', 0)}
        return set()
    def v(self, x):
        if isinstance(x, Const): return self.const(x)
        r = self.val.get(x)
        return r if r is not None else set()
    # ------------------------------------------------------------------
    def moved(self, o, base, off, dyn, rng):
        if base is None: return None
        if isinstance(base, tuple): return base
        if dyn:                                  # pointer arithmetic stays inside the array field it starts in
            return self.field(o, base)
        if rng: return (base + rng[0], base + rng[1])
        return base + off
    def field(self, o, off):
        for t in self.types(o):
            for e, eo in zip(t.elems, t.offs):
                if e.k == 'arr' and eo <= off < eo + e.size: return (eo, eo + e.size)
        return None
    def size(self, o):
        t = self.types(o)
        return t[0].size if t else None
    def types(self, o):
        r = self._types.get(o)
        if r is None:
            n = None; t = None
            if o.kind == 'heap':
                c = o.site.ops
                if all(isinstance(x, Const) and x.kind == 'int' for x in c):
                    n = 1
                    for x in c: n *= x.v
            elif o.kind == 'global': t = o.g.ty
            elif o.kind == 'stack' and o.site is not None: t = o.site.x
            r = [t] if t is not None and t.k == 'struct' else [x for x in self.structs() if x.size == n] if n else []
            self._types[o] = r
        return r
    def fits(self, o, t):
        """Can this memory be addressed as a t?  Memory with the size of a struct is used as such a struct."""
        c = self.types(o)
        def within(u): return repr(u) == repr(t) or any(within(e) for e in (u.elems if u.k == 'struct' else [u.el] if u.k == 'arr' else []))
        r = self._fits.get((o, id(t)))
        if r is None: r = self._fits[(o, id(t))] = not c or any(within(u) for u in c)
        return r
    def used_types(self, site):
        """Struct types through which the start of memory allocated at this instruction is addressed."""
        if not hasattr(self, '_used'):
            self._used = {}
            for f in self.M.functions.values():
                for b in f.blocks:
                    for i in b.instrs:
                        if i.op != 'getelementptr' or i.x.k != 'struct': continue
                        for x in self.v(i.ops[0]):
                            if x[0] == 'o' and x[1].kind == 'heap' and x[2] in (0, None): self._used.setdefault(id(x[1].site), {})[repr(i.x)] = i.x
        return list(self._used.get(id(site), {}).values())
    def structs(self):
        if self._structs is None:
            seen = {}
            for f in self.M.functions.values():
                for b in f.blocks:
                    for i in b.instrs:
                        if i.op in ('getelementptr', 'alloca') and i.x.k == 'struct': seen[repr(i.x)] = i.x
            self._structs = list(seen.values())
        return self._structs
    def step(self, F, i):
        o = i.op
        if o in ('phi', 'freeze', 'bitcast', 'sext', 'zext', 'trunc', 'addrspacecast', 'ptrtoint', 'inttoptr', 'extractelement', 'insertelement', 'extractvalue', 'insertvalue', 'shufflevector'):
            r = set()
            for x in i.ops: r |= self.v(x)
            if o in ('zext',) and i.ops[0].ty.bits == 1: r |= {('i', 0), ('i', 1)}
            self.add(self.val, i, r)
        elif o == 'select': self.add(self.val, i, self.v(i.ops[1]) | self.v(i.ops[2]))
        elif o in ('add', 'sub', 'and', 'or', 'xor'):
            self.add(self.val, i, {('o', x[1], None) for y in i.ops for x in self.v(y) if x[0] == 'o'} | {('n',)})
        elif o == 'alloca':
            self.add(self.val, i, {('o', self.mk(('a', i), 'stack', i.name or 'local', site=i), 0)})
        elif o == 'getelementptr':
            off, t, dyn, rng = 0, i.x, False, None
            for n, x in enumerate(i.ops[1:]):
                k = x.v if isinstance(x, Const) and x.kind in ('int',) else 0 if isinstance(x, Const) and x.kind == 'zero' else None
                if n == 0:
                    if k is None: dyn = True
                    else: off += k * t.size
                elif t.k == 'struct': off += t.offs[k]; t = t.elems[k]
                else:
                    if k is None: rng = rng or (off, off + t.size)
                    else: off += k * t.el.size
                    t = t.el
            r = set()
            for x in self.v(i.ops[0]):
                if x[0] == 'o':
                    n = self.size(x[1])
                    if n is not None and isinstance(x[2], int) and x[2] >= n: continue       # outside: of another kind of object
                    if x[2] == 0 and x[1].kind == 'heap' and i.x.k == 'struct' and not self.fits(x[1], i.x): continue
                    f = self.moved(x[1], x[2], off, dyn, rng)
                    if n is not None and f is not None and (f[0] if isinstance(f, tuple) else f) > n: continue
                    r.add(('o', x[1], f))
                elif x[0] == 'x': r.add(x)
            self.add(self.val, i, r)
        elif o == 'load':
            r = set()
            for x in self.v(i.ops[0]):
                if x[0] == 'o': r |= self.get(x[1], x[2])
            if i.ty.k == 'i' and (any(x[0] == 'o' and x[1].kind not in ('heap', 'stack') for x in self.v(i.ops[0]))): r.add(('n',))
            self.add(self.val, i, r)
        elif o == 'store':
            vs = self.v(i.ops[0])
            for x in list(self.v(i.ops[1])):
                if x[0] == 'o': self.put(x[1], x[2], vs)
        elif o in ('cmpxchg', 'atomicrmw'):
            for x in list(self.v(i.ops[0])):
                if x[0] == 'o': self.put(x[1], x[2], self.v(i.ops[1]) | {('n',)})
        elif o == 'ret':
            if i.ops: self.add(self.ret, F.name, self.v(i.ops[0]))
            if F.name in self.api and F.ret.k == 'ptr': self.handle_returned(F)
        elif o == 'call': self.call(F, i)
        elif o in ('icmp', 'fcmp'): self.add(self.val, i, {('i', 0), ('i', 1)})
        elif i.ty is not None and i.ty.k in ('i', 'vec'): self.add(self.val, i, {('n',)})      # computed some other way
    def handle_returned(self, F):
        hs = {x for x in self.ret.get(F.name, ()) if x[0] == 'o' and x[1].kind == 'heap'}
        for fn, fl in self.api.items():
            G = self.M.functions.get(fn)
            if G is None or G.decl: continue
            for a, h in zip(G.args, fl):
                if h: self.add(self.val, a, hs)
    def shifted(self, f, a, b):
        if f is None or a is None or b is None: return None
        if isinstance(a, tuple) or isinstance(b, tuple): return b if isinstance(b, tuple) and isinstance(a, tuple) else None
        if isinstance(f, tuple): return (f[0] - a + b, f[1] - a + b)
        return f - a + b
    def targets(self, i):
        if isinstance(i.x, Const): return {i.x.v} if i.x.kind == 'func' else {EXT}
        r = set()
        for x in self.v(i.x):
            if x[0] == 'f': r.add(x[1])
            elif x[0] == 'x' or x[0] == 'o' and x[1].kind == 'caller': r.add(EXT)
        return r
    def call(self, F, i):
        ts = self.targets(i)
        self.callees[i] = ts
        for t in ts:
            if t is EXT:
                # the caller's function: may store anything of its own through the pointers it gets
                for a in i.ops:
                    for x in list(self.v(a)):
                        if x[0] == 'o': self.put(x[1], x[2], {('o', self.extobj, None), ('x',)})
                self.add(self.val, i, {('o', self.extobj, None), ('n',)} if i.ty.k == 'ptr' else {('n',)})
                continue
            G = self.M.functions.get(t)
            if G is not None and not G.decl:
                for a, x in zip(G.args, i.ops): self.add(self.val, a, self.v(x))
                self.add(self.val, i, self.ret.get(t, set()))
                continue
            if t in ALLOC:
                self.add(self.val, i, {('o', self.mk(('h', i), 'heap', '%s:%s' % ((i.file or '').split('/')[-1], i.line), site=i), 0), ('i', 0)})
                if t in ('realloc', 'reallocarray'):
                    self.add(self.val, i, self.v(i.ops[0]))
            elif t.startswith(COPY):
                for d in list(self.v(i.ops[0])):
                    for s in list(self.v(i.ops[1])):
                        if d[0] == 'o' and s[0] == 'o':
                            for f in list(self.offs.get(s[1], ())):
                                nf = self.shifted(f, s[2], d[2])
                                self.put(d[1], nf, self.cell[(s[1], f)])
                self.add(self.val, i, self.v(i.ops[0]))
            elif t.startswith(SET): self.add(self.val, i, self.v(i.ops[0]))
            elif i.ty.k == 'i': self.add(self.val, i, {('n',)})
    # ------------------------------------------------------------------ queries
    def writes(self):
        """(instr, [(obj, off)]) for every instruction that writes memory."""
        for F in self.M.functions.values():
            if F.decl: continue
            for b in F.blocks:
                for i in b.instrs:
                    p = None
                    if i.op == 'store': p = i.ops[1]
                    elif i.op in ('cmpxchg', 'atomicrmw'): p = i.ops[0]
                    elif i.op == 'call':
                        for t in self.callees.get(i, ()):
                            if t is EXT: continue
                            if t.startswith(COPY) or t.startswith(SET): p = i.ops[0]
                            elif t in ('frexp', 'frexpf', 'modf', 'modff', 'posix_memalign'): p = i.ops[-1] if t != 'posix_memalign' else i.ops[0]
                    if p is None: continue
                    yield i, [(x[1], x[2]) for x in self.v(p) if x[0] == 'o']
    def extents(self, roots):
        """{obj: set of offsets (int, (lo, hi), None)} that functions reachable from roots may write, with the writing instruction."""
        fs = self.reach(roots); out = {}
        for i, tg in self.writes():
            if i.fn.name not in fs: continue
            n = None
            if i.op == 'call':
                l = i.ops[2] if len(i.ops) > 2 else None
                n = l.v if isinstance(l, Const) and l.kind == 'int' else None
            for o, f in tg:
                if i.op == 'call':
                    f = (f, f + n) if n is not None and isinstance(f, int) else self.field(o, f) if isinstance(f, int) else f
                out.setdefault(o, {}).setdefault(f, i)
        return out
    def reach(self, roots):
        """Functions reachable from roots (names) in the resolved call graph, externals included."""
        seen, work = set(), list(roots)
        while work:
            f = work.pop()
            if f in seen: continue
            seen.add(f)
            F = self.M.functions.get(f)
            if F is None or F.decl: continue
            for b in F.blocks:
                for i in b.instrs:
                    if i.op == 'call': work += [t for t in self.callees.get(i, ()) if t is not EXT]
        return seen
    def path(self, root, target):
        prev, work = {root: None}, [root]
        while work:
            f = work.pop(0)
            if f == target: break
            F = self.M.functions.get(f)
            if F is None or F.decl: continue
            for b in F.blocks:
                for i in b.instrs:
                    if i.op == 'call':
                        for t in self.callees.get(i, ()):
                            if t is not EXT and t not in prev: prev[t] = f; work.append(t)
        if target not in prev: return []
        out = []; x = target
        while x is not None: out.append(x); x = prev[x]
        return out[::-1]
