"""Whole-program typing of values by how they depend on samples: nothing / zero / coefficient / linear / other.
Polyvariant in the argument types of functions, flow-insensitive in memory; memory cells and call targets are those
of the points-to analysis."""
from .ir import Instr, Arg, Const
from . import vsa as A

BOT, Z, K, L, X = range(5)
NAMES = ('nothing', 'zero', 'a value independent of samples', 'a linear combination of samples', 'a nonlinear or mixed function of samples')
NOP = frozenset()
D, S = frozenset('D'), frozenset('S')       # pointers to the caller's SRC_DATA, to sample areas
ROUND = ('llvm.lrint', 'lrint', 'lrintf', 'llrint')

def jn(a, b):
    if a == b or b == BOT: return a
    if a == BOT: return b
    if a == Z: return b
    if b == Z: return a
    return X
def join(a, b): return (jn(a[0], b[0]), a[1] | b[1])
NONE = (BOT, NOP)
tainted = lambda t: t[0] >= L

class Flow:
    def __init__(self, V, roots):
        """roots: {function: [argument type]}"""
        self.V, self.M = V, V.M
        self.cells = {}; self.why = {}
        self.ret = {}; self.ctx = {}; self.todo = []
        self.obs = None
        self.roots = roots
        self.guards = []
        n = 0
        for f, a in roots.items(): self.ask(f, tuple(a))
        self.dirty = True
        while self.dirty:
            self.dirty = False; n += 1
            for k in list(self.ctx): self.run(*k)
            if n > 60: raise RuntimeError('typing does not stabilise')
        self.rounds = n
        self.obs = []
        for k in list(self.ctx): self.run(*k)
    # ------------------------------------------------------------------
    def ask(self, f, args):
        k = (f, args)
        if k not in self.ctx: self.ctx[k] = {}; self.ret[k] = NONE; self.dirty = True
        return self.ret[k]
    def note(self, rule, ok, i, msg):
        if self.obs is not None: self.obs.append((rule, ok, i, msg))
    def origin(self, i, what):
        """Remember why a value is X."""
        self.why.setdefault(i, what)
        return X
    def put(self, o, off, t):
        k = (o, off); a = self.cells.get(k, NONE); b = join(a, t)
        if b != a: self.cells[k] = b; self.dirty = True
    def get(self, o, off):
        r = NONE
        for (x, f), t in self.cells.items():
            if x is o and A.meets(f, off): r = join(r, t)
        return r
    # ------------------------------------------------------------------
    def run(self, f, args):
        F = self.M.functions[f]; env = self.ctx[(f, args)]
        for a, t in zip(F.args, args): env[a] = t
        ch = True
        while ch:
            ch = False
            for b in F.blocks:
                for i in b.instrs:
                    t = self.step(F, (f, args), env, i)
                    if t is not None:
                        o = env.get(i, NONE); t = join(o, t)
                        if t != o: env[i] = t; ch = True; self.dirty = True
            if self.obs is not None: break
    def val(self, env, x):
        if isinstance(x, Const):
            if x.kind == 'int': return (Z if x.v == 0 else K, NOP)
            if x.kind == 'fp': return (Z if x.v == 0 else K, NOP)
            if x.kind in ('null', 'zero'): return (Z, NOP)
            if x.kind == 'undef': return NONE
            if x.kind == 'agg':
                r = NONE
                for y in x.v: r = join(r, self.val(env, y))
                return r
            return (K, NOP)
        return env.get(x, NONE)
    def mul(self, i, a, b):
        if BOT in (a, b): return BOT
        if Z in (a, b): return Z if X not in (a, b) else X
        if X in (a, b): return X
        if a == L and b == L: return self.origin(i, 'product of two samples')
        return L if L in (a, b) else K
    def addn(self, i, a, b):
        if BOT in (a, b): return max(a, b) if max(a, b) != X else X
        if a == Z: return b
        if b == Z: return a
        if a == b: return a
        if X in (a, b): return X
        return self.origin(i, 'sum of samples and a value independent of them')
    def step(self, F, key, env, i):
        o = i.op; v = lambda n: self.val(env, i.ops[n])
        if o in ('phi', 'insertelement', 'extractelement', 'shufflevector', 'insertvalue', 'extractvalue'):
            r = NONE
            for x in i.ops[:2 if o != 'phi' else None] if o != 'extractelement' else i.ops[:1]: r = join(r, self.val(env, x))
            if r[0] == X and o == 'phi' and all(self.val(env, x)[0] != X for x in i.ops): self.origin(i, 'either samples or a value independent of them')
            return r
        if o in ('freeze', 'bitcast', 'fneg', 'fptrunc', 'fpext', 'addrspacecast', 'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr'):
            t = v(0)
            if o == 'bitcast' and t[0] == L and i.ty.k == 'i' or o in ('trunc', 'sext', 'zext', 'sitofp', 'uitofp') and t[0] == L: return (self.origin(i, 'bits of a sample'), NOP)
            return t
        if o in ('fadd', 'fsub'): return (self.addn(i, v(0)[0], v(1)[0]), NOP)
        if o == 'fmul': return (self.mul(i, v(0)[0], v(1)[0]), NOP)
        if o == 'fdiv':
            a, b = v(0)[0], v(1)[0]
            if BOT in (a, b): return NONE
            if b >= L: return (self.origin(i, 'division by a sample'), NOP)
            return (a, NOP)
        if o in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'frem', 'icmp', 'fcmp'):
            a, b = v(0), v(1)
            if tainted(a) or tainted(b): return (self.origin(i, 'comparison of samples' if o in ('icmp', 'fcmp') else 'integer operation on samples'), NOP)
            return (max(K if BOT not in (a[0], b[0]) else BOT, BOT), a[1] | b[1] if o in ('add', 'sub') else NOP)
        if o in ('fptosi', 'fptoui'):
            t = v(0)
            return (self.origin(i, 'a sample turned into an integer'), NOP) if tainted(t) else (t[0] and K, NOP)
        if o == 'select':
            c = v(0)
            r = join(v(1), v(2))
            if tainted(c): self.note('no-branch', False, i, 'a selection depends on sample values'); return (self.origin(i, 'a selection by sample values'), r[1])
            if r[0] == X and v(1)[0] != X and v(2)[0] != X: self.origin(i, 'either samples or a value independent of them')
            return r
        if o in ('br', 'switch'):
            if i.ops:
                c = v(0); self.note('no-branch', not tainted(c), i, 'control flow is independent of samples' if not tainted(c) else 'a branch depends on sample values')
            return None
        if o == 'alloca': return (K, NOP)
        if o == 'getelementptr':
            r = v(0)
            for x in i.ops[1:]:
                t = self.val(env, x)
                if tainted(t): self.note('no-address', False, i, 'sample values decide which memory is accessed'); r = (X, r[1])
            return r
        if o == 'load':
            p = v(0); self.addr(i, p)
            return self.load(i.ops[0], p, i.ty)
        if o == 'store':
            p = v(1); self.addr(i, p)
            self.store(i, i.ops[1], p, v(0), i.ops[0].ty)
            return None
        if o == 'ret':
            if i.ops:
                t = v(0); a = self.ret[key]; b = join(a, t)
                if b != a: self.ret[key] = b; self.dirty = True
                if key[0] in self.roots: self.note('no-result', not tainted(t), i, 'the result is independent of samples' if not tainted(t) else 'the result of %s depends on sample values' % key[0])
            return None
        if o == 'call': return self.call(F, env, i)
        if o in ('unreachable', 'fence'): return None
        r = NONE
        for x in i.ops or ():
            r = join(r, self.val(env, x))
        return (X if tainted(r) else r[0], r[1])
    def addr(self, i, p): 
        if tainted(p): self.note('no-address', False, i, 'sample values decide which memory is accessed')
        else: self.note('no-address', True, i, 'the address is independent of samples')
    def load(self, op, p, ty):
        r = NONE
        for x in self.V.v(op):
            if x[0] != 'o': continue
            if x[1].kind == 'caller':
                if not p[1] and self.other(op): continue
                if ty.k == 'ptr': r = join(r, (K, S))
                elif p[1] != D: r = join(r, (L, NOP))
                else: r = join(r, (L if ty.k == 'f' and ty.bits == 32 else K, NOP))
            elif x[1].kind == 'global': r = join(r, (K, NOP))
            else: r = join(r, self.get(x[1], x[2]))
        return r
    def other(self, op):
        """The pointer can refer to something else than caller memory (it has no caller provenance in this context)."""
        return any(x[0] == 'o' and x[1].kind != 'caller' for x in self.V.v(op))
    def store(self, i, op, p, t, ty):
        for x in self.V.v(op):
            if x[0] != 'o': continue
            if x[1].kind == 'caller':
                if not p[1] and self.other(op): continue
                if p[1] != D or ty is not None and ty.k == 'f' and ty.bits == 32:
                    self.note('output', t[0] in (Z, L, BOT), i, 'the output sample is linear in the samples' if t[0] in (Z, L, BOT) else 'the output sample is %s' % NAMES[t[0]])
                    self.note('output-seen', True, i, '')
                else: self.note('no-result', not tainted(t), i, 'the reported value is independent of samples' if not tainted(t) else 'a value reported to the caller depends on sample values')
            elif x[1].kind != 'global':
                if ty is not None and ty.k != 'f': self.note('no-state', not tainted(t), i, 'the stored number is independent of samples' if not tainted(t) else 'a number derived from sample values is kept')
                self.put(x[1], x[2], t)
    def block(self, i, env):
        p = self.val(env, i.ops[0]); n = self.val(env, i.ops[2]); self.addr(i, p)
        if tainted(n): self.note('no-address', False, i, 'sample values decide how much memory is accessed')
        return p
    def call(self, F, env, i):
        r = NONE
        for t in self.V.callees.get(i, ()):
            if t is A.EXT:
                for x in i.ops:
                    if tainted(self.val(env, x)): self.note('no-result', False, i, 'sample values are passed to the user function')
                    for y in self.V.v(x):
                        if y[0] == 'o' and y[1].kind in ('stack', 'heap'): self.put(y[1], y[2], (K, S))
                r = join(r, (K, S if i.ty.k == 'ptr' else NOP)); continue
            G = self.M.functions.get(t)
            if G is not None and not G.decl:
                r = join(r, self.ask(t, tuple(self.val(env, x) for x in i.ops[:len(G.args)]))); continue
            if t.startswith(('llvm.dbg', 'llvm.lifetime')): continue
            if t in A.ALLOC:
                for x in i.ops:
                    if tainted(self.val(env, x)): self.note('no-address', False, i, 'sample values decide how much memory is allocated')
                for y in self.V.v(i):
                    if y[0] == 'o' and t == 'calloc': self.put(y[1], None if self.V.size(y[1]) is None else None, (Z, NOP)) if False else None
                r = join(r, (K, NOP)); self.zero(i, t)
            elif t.startswith(A.COPY):
                p = self.block(i, env); q = self.val(env, i.ops[1]); self.addr(i, q)
                for s in self.V.v(i.ops[1]):
                    if s[0] != 'o': continue
                    for d in self.V.v(i.ops[0]):
                        if d[0] != 'o': continue
                        if s[1].kind == 'caller': items = [] if not q[1] and self.other(i.ops[1]) else [(None, (L, NOP) if q[1] != D else (K, S))]
                        elif s[1].kind == 'global': items = [(None, (K, NOP))]
                        else: items = [(f, c) for (x, f), c in list(self.cells.items()) if x is s[1]]
                        for f, c in items:
                            if d[1].kind == 'caller':
                                if not p[1] and self.other(i.ops[0]): continue
                                if p[1] != D: self.note('output', c[0] in (Z, L, BOT), i, 'block copied to the output is linear in the samples' if c[0] in (Z, L, BOT) else 'a block copied to the output holds %s' % NAMES[c[0]]); self.note('output-seen', True, i, '')
                            elif d[1].kind != 'global': self.put(d[1], self.V.shifted(f, s[2], d[2]), c)
                r = join(r, p)
            elif t.startswith(A.SET):
                p = self.block(i, env); b = self.val(env, i.ops[1])
                if tainted(b): b = (X, NOP)
                if b[0] == Z or not self.guard(i):
                    for d in self.V.v(i.ops[0]):
                        if d[0] != 'o': continue
                        if d[1].kind == 'caller':
                            if not p[1] and self.other(i.ops[0]): continue
                            self.note('output', b[0] == Z, i, 'block fill of the output is silence' if b[0] == Z else 'the output is filled with a constant')
                        else:
                            f = d[2]; n = i.ops[2]
                            if isinstance(f, int): f = (f, f + n.v) if isinstance(n, Const) and n.kind == 'int' else self.V.field(d[1], f)
                            self.put(d[1], f, b)
                r = join(r, p)
            else:
                ts = [self.val(env, x)[0] for x in i.ops]
                if t.startswith(('llvm.fmuladd', 'llvm.fma')) or t in ('fma', 'fmaf'): r = join(r, (self.addn(i, self.mul(i, ts[0], ts[1]), ts[2]), NOP))
                elif any(x >= L for x in ts):
                    r = join(r, (self.origin(i, '%s applied to samples' % t), NOP))
                    if not (t.startswith('llvm') or t in A.MATH): self.note('no-result', False, i, 'sample values are passed to %s' % t)
                else: r = join(r, (K if i.ty.k != 'void' else BOT, NOP))
        return r
    def zero(self, i, t): pass
    def guard(self, i):
        """A fill with a non-zero byte of memory that is not read afterwards: left to the caller of the analysis."""
        if i not in self.guards: self.guards.append(i)
        return True
    def explain(self, i):
        """Where the values reaching i turned nonlinear."""
        seen, work = set(), [i]
        for k, env in self.ctx.items():
            if k[0] != i.fn.name: continue
        while work:
            x = work.pop(0)
            if x in seen or not isinstance(x, Instr): continue
            seen.add(x)
            if x in self.why: return x, self.why[x]
            work += [y for y in x.ops or () if isinstance(y, Instr)]
        return None, ''
