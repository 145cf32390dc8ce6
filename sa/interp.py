"""Abstract interpreter over the LLVM IR of the library.

Disjunctive (path-sensitive) abstract states, each a conjunction of polynomial inequalities over
symbols plus a field-sensitive memory; calls are interpreted in context; loops are summarised by
induction-variable closed forms, strides and inductive template inequalities.  Arithmetic is that
of unbounded integers and reals (machine overflow and rounding are excluded by assumption and
reported as such); nothing is executed on concrete inputs."""
import math
from fractions import Fraction
from . import poly as P
from .poly import Poly, ATOMS, ZERO, ONE, const, atom, mkatom, fresh, inv, exact_div, subst, alldeps
from . import lin
from .lin import Facts
from .ir import Instr, Arg, Const, Block

class AnalysisError(Exception): pass

# ------------------------------------------------------------------ values
class Obj:
    __slots__ = ('id', 'kind', 'name', 'size', 'parent', 'start', 'array', 'subs', 'loc', 'addr', 'esize', 'init', 'g', 'seq')
    def __repr__(s): return s.name
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj, s.off = obj, off
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj is o.obj and s.off == o.off
    def __hash__(s): return hash((id(s.obj), s.off))
    def __repr__(s): return '&%s%s' % (s.obj.name, '' if not s.off.t else '+[%r]' % s.off)
class FuncP:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __eq__(s, o): return isinstance(o, FuncP) and s.name == o.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return '@' + s.name
class Cond:
    """p >0 / >=0 / ==0 / !=0; un: truth value when one of the nan atoms is a NaN."""
    __slots__ = ('p', 'op', 'nan', 'un', 'key')
    def __init__(s, p, op, nan=frozenset(), un=False): s.p, s.op, s.nan, s.un, s.key = p, op, nan, un, None
    def __eq__(s, o): return isinstance(o, Cond) and s.op == o.op and s.p == o.p and s.nan == o.nan and s.un == o.un
    def __hash__(s): return hash((s.op, s.p))
    def neg(s):
        o = {'>': '<=', '>=': '<', '==': '!=', '!=': '=='}[s.op]
        if o == '<=': return Cond(-s.p, '>=', s.nan, not s.un)
        if o == '<': return Cond(-s.p, '>', s.nan, not s.un)
        return Cond(s.p, o, s.nan, not s.un)
    def __repr__(s): return '(%r %s 0%s)' % (s.p, s.op, ' nan->%s' % s.un if s.nan else '')
TRUE, FALSE = Cond(ONE, '>'), Cond(ZERO, '>')
class Vec:
    __slots__ = ('el',)
    def __init__(s, el): s.el = tuple(el)
    def __eq__(s, o): return isinstance(o, Vec) and s.el == o.el
    def __hash__(s): return hash(s.el)
class Unk:
    __slots__ = ('why',)
    def __init__(s, why=''): s.why = why
    def __repr__(s): return 'UNK(%s)' % s.why
    def __eq__(s, o): return s is o
    def __hash__(s): return id(s)
UNDEF = Unk('undef')

class State:
    __slots__ = ('facts', 'mem', 'arr', 'status', 'nan', 'path', 'neq', 'ghost', 'rng')
    def __init__(s):
        s.facts = Facts(); s.mem = {}; s.arr = {}; s.status = {}; s.nan = {}; s.path = None; s.neq = (); s.ghost = {}; s.rng = frozenset()
    def copy(s):
        t = State.__new__(State)
        t.facts = s.facts; t.mem = dict(s.mem); t.arr = dict(s.arr); t.status = dict(s.status); t.nan = dict(s.nan); t.path = s.path
        t.neq = s.neq; t.ghost = dict(s.ghost); t.rng = s.rng
        return t
    def trail(s):
        out = []; p = s.path
        while p is not None: out.append(p[1]); p = p[0]
        return out[::-1]

def has_smp(p):
    if isinstance(p, Poly):
        return any(_asmp(a) for a in p.atoms())
    if isinstance(p, Cond): return has_smp(p.p)
    if isinstance(p, Ptr): return has_smp(p.off)
    if isinstance(p, Vec): return any(has_smp(x) for x in p.el)
    return False
_smpc = {}
def _asmp(a):
    r = _smpc.get(a)
    if r is None:
        r = _smpc[a] = any(ATOMS[b].smp for b in alldeps(a) if True) if ATOMS[a].kind != 'S' else True
    return r
def smp_atoms(p):
    return {a for a in p.atoms() if ATOMS[a].smp}

def round_half_even(c):
    f = math.floor(c); d = c - f
    if d < Fraction(1, 2): return f
    if d > Fraction(1, 2): return f + 1
    return f if f % 2 == 0 else f + 1
def ctrunc(c): return -((-c).__floor__()) if c < 0 else c.__floor__()

def mk_lrint(p):
    c = p.cval()
    if c is not None: return const(round_half_even(c))
    if p.isint(): return p
    return atom(mkatom('lrint', (p,), True, smp=has_smp(p)))
def mk_ftoi(p):
    c = p.cval()
    if c is not None: return const(ctrunc(c))
    if p.isint(): return p
    return atom(mkatom('ftoi', (p,), True, smp=has_smp(p)))
def mk_floor(p):
    c = p.cval()
    if c is not None: return const(c.__floor__())
    if p.isint(): return p
    return atom(mkatom('floor', (p,), True, smp=has_smp(p)))
def mk_idiv(p, q):
    a, b = p.cval(), q.cval()
    if b is not None and b == 1: return p
    if a is not None and b is not None and b != 0: return const(ctrunc(P.qdiv(a, b)))
    d = exact_div(p, q)
    if d is not None and d.isint(): return d
    return atom(mkatom('idiv', (p, q), True, smp=has_smp(p) or has_smp(q)))
def mk_abs(p):
    c = p.cval()
    if c is not None: return const(abs(c))
    # normalise the sign so that |a-b| and |b-a| agree
    lead = sorted(p.t)[-1]
    if p.t[lead] < 0: p = -p
    return atom(mkatom('abs', (p,), False, smp=has_smp(p)))
def mk_fn(name, args, isint=False):
    return atom(mkatom('fn', (name,) + tuple(args), isint, smp=any(has_smp(a) for a in args if isinstance(a, Poly))))
P.REBUILD.update(lrint=lambda a, t: mk_lrint(a[0]), ftoi=lambda a, t: mk_ftoi(a[0]), floor=lambda a, t: mk_floor(a[0]),
                 idiv=lambda a, t: mk_idiv(a[0], a[1]), abs=lambda a, t: mk_abs(a[0]))

class Event:
    __slots__ = ('kind', 'file', 'line', 'fn', 'msg', 'trail', 'info', 'stack')
    def __repr__(s): return '%s:%s: %s: %s (in %s)' % (s.file, s.line, s.kind, s.msg, s.fn)

class Interp:
    def __init__(self, module):
        self.M = module
        self.objs = []
        self.NULL = self.mkobj('null', 'NULL', ZERO)
        self.gobj = {}
        self.events = []
        self.mute = 0
        self.C = None              # channel count (Poly) of the handle under analysis
        self.stack = []
        self.counts = dict(instrs=0, calls=0, branches=0, loops=0, loads=0, stores=0, memops=0, bounds=0, bounds_ok=0, states=0)
        self.seen_instr = set(); self.seen_fn = set(); self.loop_log = {}
        self.ext = {}              # name -> handler(self, st, instr, args) -> [(st, value)]
        self.structsizes = self._structsizes()
        self.fail_alloc = True
        self.max_states = 400
        self.merge_limit = 4
        self.maxpath = 400
        self.live = {}
        self.alloc_seq = {}
        self.on_store = []; self.on_load = []; self.on_branch = []; self.on_call = []
        self.hooks_ret = {}
        self.consts_pool = [Fraction(0), Fraction(1), Fraction(-1)]
        self.on_iter = []          # functions(loop, 'begin'|'end'|'drop', back states) around the final analysis of a loop body
        self.join_bounds = []      # integer quantities that joined values are compared with
        self.strides = False      # loops of a light analysis also look for cells that stay multiples of the channel count
        self.join_pairs = False   # joins compare distances between joined cells with what stayed the same
        self.join_ghosts = False   # joins keep equalities between ghost counts and other whole numbers
        self.peel = False          # loops left in their first round on every path are not summarised
        self.returned = {}
        self.keep_ret = False      # coarse joins keep states with different constant results apart
        self.join_reals = False    # coarse joins keep states with different real values (other than samples) apart
        self.on_round = []         # functions(st, instr, argument) for every rounding to an integer
        self.light_cands = []; self.rank_light = False      # light mode: candidates to try all the same; rank loops all the same
        self.extra_cands = []      # functions(st_header, items) -> polys
        self.deadline = None
        self.assume_noabort = False
        self.no_probe_guard = False
        self.light = False        # loops without inductive inequalities
        self.quot_cases = None
        self.poison = set()       # symbols whose spread is followed through loops and joins
        self.on_fill = []
        self.maps = None; self.check_conv = False          # set: remember ranges that loops write element by element
        self.coarse = None        # number of states at a block above which states of one structure are joined
        self.use_summaries = True; self.summaries = {}; self.badsum = False

    # -------------------------------------------------------------- objects
    def _structsizes(self):
        s = set()
        for f in self.M.functions.values():
            for b in f.blocks:
                for i in b.instrs:
                    if i.op == 'getelementptr' and i.x.k == 'struct': s.add(i.x.size)
        return s
    def mkobj(self, kind, name, size, array=False, parent=None, start=None, loc=None, init='undef', esize=4):
        o = Obj(); o.id = len(self.objs); o.kind = kind; o.name = name; o.size = size; o.parent = parent; o.start = start
        o.array = array; o.subs = {}; o.loc = loc; o.esize = esize; o.init = init; o.g = None; o.seq = None
        o.addr = None
        self.objs.append(o)
        return o
    def addr(self, st, o):
        """Address of the object's first byte as a polynomial (byte units)."""
        if o.kind == 'null': return ZERO
        if o.addr is None:
            o.addr = fresh('addr_' + o.name, True)
        if st is not None: st.facts = st.facts.add(o.addr - 1)
        return o.addr
    def global_obj(self, name):
        o = self.gobj.get(name)
        if o is None:
            g = self.M.globals[name]
            arr = g.ty.k == 'arr'
            o = self.mkobj('global', name, const(g.size), array=arr, esize=g.ty.el.size if arr else 0, init='init')
            o.g = g; self.gobj[name] = o
        return o
    def sub_obj(self, o, start, n_bytes, esize):
        s = o.subs.get(start)
        if s is None:
            s = self.mkobj(o.kind, '%s.field@%d' % (o.name, start), const(n_bytes), array=True, parent=o, start=start, loc=o.loc, esize=esize, init=o.init)
            s.g = o.g
            o.subs[start] = s
        return s
    def root(self, o):
        while o.parent is not None: o = o.parent
        return o
    def status(self, st, o): return st.status.get(self.root(o).id, 'live')

    # -------------------------------------------------------------- events
    def event(self, kind, st, instr, msg, **info):
        if self.mute: return
        e = Event(); e.kind = kind; e.msg = msg; e.info = info
        self.fill_loc(e, instr)
        e.trail = st.trail() if st is not None else []
        e.stack = [(c.fn.name, c.file, c.line) for c in self.stack]
        self.events.append(e)
    def fill_loc(self, e, instr):
        e.fn = instr.fn.name if instr is not None else ''
        f, l = None, 0
        if instr is not None:
            f, l = instr.file, instr.line
            if not l:
                for j in instr.bb.instrs[instr.idx:] + instr.bb.instrs[:instr.idx]:
                    if j.line: f, l = j.file, j.line; break
            if not l:
                # nothing in this block: nearest numbered block following
                for s in instr.bb.succs:
                    for j in s.instrs:
                        if j.line: f, l = j.file, j.line; break
                    if l: break
            if not f: f = instr.fn.file
        e.file, e.line = f, l
    def count(self, k, n=1):
        if not self.mute: self.counts[k] = self.counts.get(k, 0) + n

    # -------------------------------------------------------------- facts
    def add_fact(self, st, p, strict=False):
        st.facts = st.facts.add(p, strict)
    def assume(self, st, c):
        """Restrict st to condition c.  Returns a list of states (st is consumed)."""
        if isinstance(c, Unk): return [st]
        if c.nan:
            unknown = [a for a in c.nan if a not in st.nan]
            if any(st.nan.get(a) for a in c.nan):
                return [st] if c.un else []
            if unknown:
                a = unknown[0]
                s2 = st.copy(); s2.nan[a] = True; st.nan[a] = False
                return self.assume(st, c) + self.assume(s2, c)
        p, op = c.p, c.op
        if op == '!=':
            if p.cval() is not None: return [st] if p.cval() != 0 else []
            if st.facts.entails_eq(p): return []
            if p.isint():
                if st.facts.entails(p): st.facts = st.facts.add(p - 1); return self._recheck(st)
                if st.facts.entails(-p): st.facts = st.facts.add(-p - 1); return self._recheck(st)
            st.neq = st.neq + (p,)
            return [st]
        if op == '==':
            k = p.cval()
            if k is not None: return [st] if k == 0 else []
            if not st.facts.feasible_with(p) or not st.facts.feasible_with(-p): return []
            if p in st.neq or -p in st.neq: return []
            st.facts = st.facts.add(p).add(-p)
            self._abs_facts(st, p, False)
            return self._recheck(st)
        strict = op == '>'
        k = p.cval()
        if k is not None: return [st] if (k > 0 or (k == 0 and not strict)) else []
        if not st.facts.feasible_with(p, strict): return []
        st.facts = st.facts.add(p, strict)
        self._abs_facts(st, p, strict)
        return self._recheck(st)
    def _abs_facts(self, st, p, strict):
        """A bound on |x| from above bounds x on both sides."""
        if len(p.t) <= 2:
            for m, c in p.t.items():
                if len(m) == 1 and ATOMS[m[0]].kind == 'abs' and c < 0:
                    x = ATOMS[m[0]].args[0]; rest = Poly({mm: cc for mm, cc in p.t.items() if mm != m}).scale(P.qdiv(-1, c))
                    st.facts = st.facts.add(rest - x, strict).add(rest + x, strict)
    def _recheck(self, st):
        if st.neq:
            keep = []
            for q in st.neq:
                if q.isint() and q.cval() is None:
                    if st.facts.entails(q):
                        if not st.facts.feasible_with(q - 1): return []
                        st.facts = st.facts.add(q - 1); continue
                    if st.facts.entails(-q):
                        if not st.facts.feasible_with(-q - 1): return []
                        st.facts = st.facts.add(-q - 1); continue
                elif q.cval() is None and st.facts.entails_eq(q): return []
                keep.append(q)
            st.neq = tuple(keep)
        return [st]
    def decide(self, st, c):
        """True / False / None."""
        if isinstance(c, Unk): return None
        if c.nan:
            if any(st.nan.get(a) for a in c.nan): return c.un
            if any(a not in st.nan for a in c.nan): return None
        p, op = c.p, c.op
        F = st.facts
        if op == '==':
            if p.cval() is not None: return p.cval() == 0
            if p in st.neq or -p in st.neq: return False
            if F.entails_eq(p): return True
            if not F.feasible_with(p) or not F.feasible_with(-p): return False
            return None
        if op == '!=':
            r = self.decide(st, Cond(p, '==')); return None if r is None else not r
        s = op == '>'
        if F.entails(p, s): return True
        if F.entails(-p, not s): return False
        return None
    def split(self, st, c):
        """[(state, bool)] for both feasible outcomes."""
        if isinstance(c, Unk): return [(st.copy(), True), (st, False)]
        out = []
        a = self.assume(st.copy(), c)
        out += [(x, True) for x in a]
        out += [(x, False) for x in self.assume(st, c.neg())]
        return out

    # -------------------------------------------------------------- values of constants
    def cval(self, c, st=None):
        k = c.kind
        if k == 'int':
            if c.ty.k == 'i' and c.ty.bits == 1: return TRUE if c.v else FALSE
            return const(c.v)
        if k == 'fp':
            if c.v != c.v or c.v in (float('inf'), float('-inf')): return Unk('nonfinite const')
            return const(Fraction(c.v))
        if k == 'null': return Ptr(self.NULL, ZERO)
        if k == 'func': return FuncP(c.v)
        if k == 'glob':
            o = self.global_obj(c.v)
            return self.gep_const(o, c.off)
        if k in ('undef',): return UNDEF
        if k == 'zero':
            if c.ty.k == 'vec': return Vec([ZERO] * c.ty.n)
            return ZERO
        if k == 'agg' and c.ty.k == 'vec': return Vec([self.cval(x) for x in c.v])
        return Unk('const ' + k)
    def gep_const(self, o, off):
        if o.g is not None and o.g.ty.k == 'struct' and off:
            t = o.g.ty
            for e, eo in zip(t.elems, t.offs):
                if e.k == 'arr' and eo <= off < eo + e.size:
                    return Ptr(self.sub_obj(o, eo, e.size, e.el.size), const(off - eo))
        return Ptr(o, const(off))
    def val(self, env, v):
        if isinstance(v, Const): return self.cval(v)
        try: return env[v]
        except KeyError: return UNDEF

    def global_const(self, o, off, ty):
        """Value of a constant initialiser at byte offset off."""
        g = o.g
        def walk(c, t, base):
            if t.k == 'struct':
                for i, (e, eo) in enumerate(zip(t.elems, t.offs)):
                    if base + eo <= off < base + eo + e.size:
                        return walk(c.v[i] if c.kind == 'agg' else None, e, base + eo) if c is not None and c.kind in ('agg',) else (ZERO if c is not None and c.kind == 'zero' else None)
                return None
            if t.k == 'arr':
                i = (off - base) // t.el.size
                if c is None: return None
                if c.kind == 'zero': return ZERO if ty.k != 'ptr' else Ptr(self.NULL, ZERO)
                return walk(c.v[i], t.el, base + i * t.el.size)
            return self.cval(c) if base == off else None
        start = o.start or 0
        off = off + (start if o.parent is not None else 0)
        r = walk(g.init, g.ty, 0) if g.init is not None else None
        return r

    # -------------------------------------------------------------- memory
    def check_access(self, st, instr, ptr, size, what):
        """Null / lifetime / bounds obligations.  size: Poly bytes.  Returns False when the path cannot continue."""
        if isinstance(ptr, Unk):
            self.event('unkptr', st, instr, '%s through an unresolved pointer (%s)' % (what, ptr.why)); return False
        if isinstance(ptr, FuncP):
            self.event('unkptr', st, instr, '%s through a function pointer' % what); return False
        if not isinstance(ptr, Ptr):
            self.event('unkptr', st, instr, '%s through a non-pointer value' % what); return False
        o = ptr.obj
        if o.kind == 'null':
            self.event('nullderef', st, instr, '%s through a null pointer' % what); return False
        if self.status(st, o) == 'freed':
            self.event('uaf', st, instr, '%s of freed memory %s' % (what, o.name)); return False
        if has_smp(ptr.off) or has_smp(size):
            self.event('ctrl', st, instr, 'sample values decide which memory is accessed (%s of %s)' % (what, o.name))
        if o.size is not None:
            self.count('bounds')
            ok = self.in_bounds(st, o, ptr.off, size)
            if ok: self.count('bounds_ok')
            else:
                self.event('oob', st, instr, '%s of %s bytes at offset [%r] of %s (size [%r]) not shown in bounds' % (what, size, ptr.off, o.name, o.size), obj=o, off=ptr.off, size=size)
        return True
    def in_bounds(self, st, o, off, size):
        if off.cval() is not None and size.cval() is not None and o.size.cval() is not None:
            return 0 <= off.cval() and off.cval() + size.cval() <= o.size.cval()
        if self.mute: return True
        F = st.facts
        if size.cval() == 0 or size.cval() is None and F.entails(-size): return True      # zero-length block operation
        return F.entails(off) and F.entails(o.size - off - size)
    def load(self, st, instr, ptr, ty):
        self.count('loads')
        if not self.check_access(st, instr, ptr, const(ty.size), 'read'): return None
        o, off = ptr.obj, ptr.off
        for h in self.on_load: h(self, st, instr, ptr, ty)
        if o.array: return self.arr_load(st, instr, o, off, ty)
        k = off.cval()
        if k is None:
            self.event('symoff', st, instr, 'read at a computed offset [%r] inside structure %s' % (off, o.name))
            return self.fresh_val(st, ty, o.name + '.?')
        k = int(k); e = st.mem.get((o.id, k))
        if e is not None:
            if e[1] == ty.size:
                v = e[0]
                if v is UNDEF: self.event('uninit', st, instr, 'read of uninitialised field at offset %d of %s' % (k, o.name))
                if isinstance(v, Poly) and not v.t and ty.k == 'ptr': return Ptr(self.NULL, ZERO)
                return v
            return self.fresh_val(st, ty, '%s.%d!' % (o.name, k))
        if o.kind == 'global':
            v = self.global_const(o, k, ty)
            if v is None: v = self.fresh_val(st, ty, '%s.%d' % (o.name, k))
            return v
        base = o.init
        for (oid, kk), (v, sz) in st.mem.items():
            if oid == o.id and kk < k + ty.size and k < kk + sz:
                return self.fresh_val(st, ty, '%s.%d!' % (o.name, k))
        if base == 'zero':
            v = Ptr(self.NULL, ZERO) if ty.k == 'ptr' else (FALSE if ty.k == 'i' and ty.bits == 1 else ZERO)
        elif base == 'sym':
            v = self.fresh_val(st, ty, '%s.%d' % (o.name, k), maynan=True)
        else:
            self.event('uninit', st, instr, 'read of uninitialised memory at offset %d of %s' % (k, o.name))
            v = self.fresh_val(st, ty, '%s.%d?' % (o.name, k))
        st.mem[(o.id, k)] = (v, ty.size)
        return v
    def fresh_val(self, st, ty, name, maynan=False):
        if ty.k == 'i':
            if ty.bits == 1: return Unk(name)
            v = fresh(name, True)
            if st is not None: self.type_range(st, v, ty.bits)
            return v
        if ty.k == 'f': return fresh(name, False, maynan)
        if ty.k == 'ptr': return Ptr(self.mkobj('opaque', name, None, array=True), ZERO)
        return Unk(name)
    def type_range(self, st, v, bits):
        if bits <= 32: st.rng = st.rng | {(v, bits)}
    def store(self, st, instr, ptr, v, ty):
        self.count('stores')
        if not self.check_access(st, instr, ptr, const(ty.size), 'write'): return False
        o, off = ptr.obj, ptr.off
        if o.kind == 'global':
            self.event('gstore', st, instr, 'store to global object %s' % o.name, obj=o)
        for h in self.on_store: h(self, st, instr, ptr, v, ty)
        if o.array:
            self.arr_store(st, instr, o, off, v, ty); return True
        k = off.cval()
        if k is None:
            self.event('symoff', st, instr, 'write at a computed offset [%r] inside structure %s' % (off, o.name))
            for key in [x for x in st.mem if x[0] == o.id]: st.mem[key] = (Unk('clobbered'), st.mem[key][1])
            return True
        k = int(k)
        e = st.mem.get((o.id, k))
        if e is None or e[1] != ty.size:
            for key in [x for x, (vv, sz) in st.mem.items() if x[0] == o.id and x[1] < k + ty.size and k < x[1] + sz]: del st.mem[key]
        st.mem[(o.id, k)] = (v, ty.size)
        return True

    # arrays: content is a tuple of entries, base first
    def content(self, st, o):
        c = st.arr.get(o.id)
        if c is None:
            b = o.init
            if o.parent is not None and self.root(o).id in st.ghost.get('structhavoc', ()): b = 'undef'
            c = ((b, o.id),)
        return c
    def arr_load(self, st, instr, o, off, ty):
        c = self.content(st, o)
        if o.kind == 'global' and len(c) == 1:
            k = off.cval()
            if k is not None:
                v = self.global_const(o, int(k), ty)
                if v is not None: return v
            if ty.k == 'ptr': return Unk('pointer table')
            a = mkatom('G', (o.id, off), ty.k == 'i')
            return atom(a)
        i = len(c) - 1
        while i >= 0:
            e = c[i]
            if e[0] == 'elem':
                d = (e[1] - off).cval()
                if d is not None:
                    if d == 0 and e[2] == ty.size: return e[3]
                    if abs(d) >= max(e[2], ty.size): i -= 1; continue
                elif not self.mute and i == len(c) - 1 and st.facts.entails_eq(e[1] - off): return e[3]
            elif e[0] == 'fill' and e[3] == 0:
                if st.facts.entails(off - e[1]) and st.facts.entails(e[2] - off - ty.size): return self.zero_of(ty)
            elif e[0] == 'zero' and i == 0:
                return self.zero_of(ty)
            elif e[0] == 'undef' and i == 0 and len(c) == 1 and o.kind in ('heap', 'stack'):
                self.event('uninit', st, instr, 'read of uninitialised array %s' % o.name)
            break
        return self.elem_atom(o, off, c[:i + 1], ty)
    def zero_of(self, ty):
        return Ptr(self.NULL, ZERO) if ty.k == 'ptr' else ZERO
    def elem_atom(self, o, off, c, ty):
        if ty.k == 'ptr': return Unk('array of pointers')
        smp = ty.k == 'f' or self.is_sample_area(o)
        a = mkatom('S', (o.id, off, c), ty.k == 'i', smp=smp)
        if smp: a.chan = off.scale(Fraction(1, ty.size))
        a.name = '%s[%r]' % (o.name, off.scale(Fraction(1, ty.size)))
        return atom(a)
    def is_sample_area(self, o): return o.kind == 'caller'
    def arr_store(self, st, instr, o, off, v, ty):
        c = self.content(st, o)
        if isinstance(v, Cond): v = Unk('bool in array')
        keep = []
        for i, e in enumerate(c):
            if i and e[0] == 'elem':
                d = (e[1] - off).cval()
                if d is not None and d == 0 and e[2] == ty.size: continue
            keep.append(e)
        c = tuple(keep) + (('elem', off, ty.size, v),)
        st.arr[o.id] = self.trim(c)
    def trim(self, c):
        if len(c) > 24:
            return (('hav', fresh('hav', True)),)
        return c
    def arr_fill(self, st, o, lo, hi, byte):
        for h in self.on_fill: h(self, st, o, lo, hi)
        c = self.content(st, o)
        if st.facts.entails_eq(lo) and o.size is not None and st.facts.entails(hi - o.size):
            st.arr[o.id] = (('zero', o.id),) if byte == 0 else (('fill', ZERO, o.size, byte),)
        else:
            st.arr[o.id] = self.trim(c + (('fill', lo, hi, byte),))
    def arr_copy(self, st, o, dlo, src, slo, n, cs=None):
        if cs is None: cs = self.content(st, src)
        for h in self.on_fill: h(self, st, o, dlo, dlo + n)
        c = self.content(st, o)
        if st.facts.entails_eq(dlo) and o.size is not None and st.facts.entails(n - o.size): base = ()
        else: base = c
        if cs == (('zero', src.id),) : ent = ('fill', dlo, dlo + n, 0)
        else: ent = ('copy', dlo, n, src.id, cs, slo)
        if not base and ent[0] == 'fill': st.arr[o.id] = (('zero', o.id),)
        else: st.arr[o.id] = self.trim(base + (ent,))

    # -------------------------------------------------------------- block memory operations
    def sizes_covering(self, o): return [s for s in o.subs.values()]
    def memset(self, st, instr, ptr, byte, n):
        self.count('memops')
        if not isinstance(n, Poly):
            self.event('unkptr', st, instr, 'memset with unknown length'); return False
        if not isinstance(ptr, Unk) and isinstance(ptr, Ptr) and ptr.obj.kind == 'null' and st.facts.entails(-n): return True
        if not self.check_access(st, instr, ptr, n, 'memset'): return False
        o = ptr.obj; b = byte.cval() if isinstance(byte, Poly) else None
        if o.kind == 'global': self.event('gstore', st, instr, 'memset of global object %s' % o.name, obj=o)
        for h in self.on_store: h(self, st, instr, ptr, ('memset', byte, n), None)
        if o.array:
            self.arr_fill(st, o, ptr.off, ptr.off + n, int(b) & 255 if b is not None else 'x'); return True
        k, l = ptr.off.cval(), n.cval()
        if k is None or l is None:
            self.event('symoff', st, instr, 'memset with computed extent inside structure %s' % o.name); return True
        k, l = int(k), int(l)
        for key in [x for x, (v, sz) in st.mem.items() if x[0] == o.id and x[1] < k + l and k < x[1] + sz]: del st.mem[key]
        for s in o.subs.values():
            if k <= s.start and s.start + int(s.size.cval()) <= k + l:
                st.arr[s.id] = (('zero', s.id),) if b == 0 else (('fill', ZERO, s.size, b),)
        if b == 0:
            if k == 0 and o.size is not None and l >= (o.size.cval() or 0) and o.init == 'zero': return True
            self._zero_cells(st, o, k, l, instr)
        else:
            self._zero_cells(st, o, k, l, instr, Unk('memset pattern'))
        return True
    def _zero_cells(self, st, o, k, l, instr, val=None):
        """Set all the scalar fields of the (structure) object in [k,k+l)."""
        lay = self.layout(o)
        if lay is None:
            if o.size is not None and o.size.cval() is not None and k == 0 and l == o.size.cval():
                o.init = 'zero' if val is None and not any(x[0] == o.id for x in st.mem) else o.init
                if o.init == 'zero': return
            self.event('symoff', st, instr, 'memset over untyped object %s' % o.name); return
        for off, t in lay:
            if t.k == 'arr': continue
            if k <= off and off + t.size <= k + l:
                z = Ptr(self.NULL, ZERO) if t.k == 'ptr' else ZERO
                st.mem[(o.id, off)] = (z if val is None else val, t.size)
    def layout(self, o):
        """Scalar layout of a structure object, from the struct types used in the module with that size."""
        t = o.g.ty if o.g is not None and o.parent is None else None
        if t is None and o.loc is not None and hasattr(o.loc, 'k'): t = o.loc
        if t is None:
            n = o.size.cval() if o.size is not None else None
            c = [x for x in self.structtypes() if x.size == n]
            V = getattr(self, 'V', None)
            if len(c) > 1 and V is not None and o.seq is not None:
                c = [x for x in V.used_types(o.seq) if x.size == n] or c
            if len(c) >= 1: t = c[0]
            if len(c) > 1:
                sig = {repr(x) for x in c}
                if len(sig) > 1: return None
        if t is None or t.k != 'struct': return None
        out = []
        def walk(t, b):
            if t.k == 'struct':
                for e, eo in zip(t.elems, t.offs): walk(e, b + eo)
            else: out.append((b, t))
        walk(t, 0)
        return out
    def structtypes(self):
        if not hasattr(self, '_st'):
            seen = {}
            for f in self.M.functions.values():
                for b in f.blocks:
                    for i in b.instrs:
                        if i.op in ('getelementptr', 'alloca') and i.x.k == 'struct': seen[id(i.x)] = i.x
            self._st = list(seen.values())
        return self._st
    def memcpy(self, st, instr, d, s, n, what='memcpy'):
        self.count('memops')
        if not isinstance(n, Poly):
            self.event('unkptr', st, instr, what + ' with unknown length'); return False
        if st.facts.entails_eq(n) and all(isinstance(x, Ptr) and x.obj.kind == 'null' for x in (s,)): return True
        if not self.check_access(st, instr, s, n, what + ' read'): return False
        if not self.check_access(st, instr, d, n, what + ' write'): return False
        o, so = d.obj, s.obj
        if o.kind == 'global': self.event('gstore', st, instr, what + ' into global object %s' % o.name, obj=o)
        for h in self.on_load: h(self, st, instr, s, ('block', n))
        for h in self.on_store: h(self, st, instr, d, (what, s, n), None)
        if o.array and so.array:
            if n.cval() == 0: return True
            self.arr_copy(st, o, d.off, so, s.off, n); return True
        k, l, sk = d.off.cval(), n.cval(), s.off.cval()
        if o.array or so.array or k is None or l is None or sk is None:
            self.event('symoff', st, instr, '%s between unlike objects %s and %s' % (what, o.name, so.name)); return True
        k, l, sk = int(k), int(l), int(sk)
        src = {}
        for (oid, kk), (v, sz) in st.mem.items():
            if oid == so.id and sk <= kk and kk + sz <= sk + l: src[kk] = (v, sz)
        lay = self.layout(so) or []
        for off, t in lay:
            if t.k == 'arr' or off in src or not (sk <= off and off + t.size <= sk + l): continue
            self.mute += 1
            v = self.load(st, instr, Ptr(so, const(off)), t)
            self.mute -= 1
            if v is not None: src[off] = (v, t.size)
        for key in [x for x, (v, sz) in st.mem.items() if x[0] == o.id and x[1] < k + l and k < x[1] + sz]: del st.mem[key]
        for kk, e in src.items(): st.mem[(o.id, kk - sk + k)] = e
        for off, t in lay:
            if t.k == 'arr' and sk <= off and off + t.size <= sk + l:
                a = self.sub_obj(so, off, t.size, t.el.size); b = self.sub_obj(o, off - sk + k, t.size, t.el.size)
                self.arr_copy(st, b, ZERO, a, ZERO, const(t.size))
        return True

    # -------------------------------------------------------------- arithmetic with facts
    def num(self, st, v):
        """Coerce to Poly (bool -> 0/1 undecided is left as None)."""
        return v if isinstance(v, Poly) else None
    def op_idiv(self, st, instr, p, q):
        if q.cval() == 0: return Unk('division by zero')
        if q.cval() is None and not st.facts.entails(q, True) and not st.facts.entails(-q, True):
            self.event('divzero', st, instr, 'integer divisor [%r] not shown nonzero' % q)
        r = mk_idiv(p, q)
        a = r.single()
        if a is not None and a.kind == 'idiv' and a.args == (p, q):
            F = st.facts
            if F.entails(q, True) or q.cval() is not None and q.cval() > 0:
                if F.entails(p):
                    for n in (0, 1, 2):   # small quotient: exact
                        if F.entails(p - q.scale(n)) and F.entails(q.scale(n + 1) - p, True): return const(n)
                    F2 = F.add(r).add(p - q * r).add(q * r + q - 1 - p)
                    lo = 0
                    for n in (1, 2):       # integer cuts of the quotient
                        if F.entails(p - q.scale(n)): F2 = F2.add(r - n); lo = n
                        else: break
                    for n in range(lo, 3):
                        if F.entails(q.scale(n + 1) - p, True):
                            F2 = F2.add(const(n) - r)
                            if n == lo + 1: self.quot_cases = (a.id, (lo, n))
                            break
                    st.facts = F2
                else:
                    if F.entails(p + q, True) and F.entails(q - p, True): return ZERO
                    st.facts = F.add(p - q * r + q - 1).add(q * r + q - 1 - p)
        return r
    def op_floor(self, st, p):
        r = mk_floor(p)
        if r.single() is not None and r.single().kind == 'floor':
            st.facts = st.facts.add(p - r).add(r + 1 - p, True)
        return r
    def op_lrint(self, st, p):
        r = mk_lrint(p)
        a = r.single()
        if a is None and r.cval() is None and len(r.t) <= 4 and st.facts.entails(r): st.facts = st.facts.add(r)
        if a is not None and a.kind == 'lrint':
            h = Fraction(1, 2)
            pos = st.facts.entails(p + h)
            st.facts = st.facts.add(p - r + h).add(r - p + h)
            ms = [m for m in p.t if m]
            if not pos and len(ms) == 1 and p.t[ms[0]] > 0 and p.k() >= 0 and all(st.facts.entails(atom(ATOMS[x])) for x in ms[0]):
                pos = True; st.facts = st.facts.add(p - p.k())
            if pos: st.facts = st.facts.add(r)
            if len(ms) <= 3 and not has_smp(p):
                # the rounding of the largest value is the largest rounding
                ub = p.k()
                for m in ms:
                    x = Poly({m: 1}); k = p.t[m]
                    if x.single() is None and len(ms) > 1: ub = None; break
                    u = [k * c for c in self.const_bounds(st, x) if st.facts.entails(const(c) - x if k > 0 else x - c)]
                    if not u: ub = None; break
                    ub += min(u)
                if ub is not None: st.facts = st.facts.add(const((ub + h).__floor__()) - r)
            # monotone with respect to the other roundings known on this path
            for b in self.tracked(st, 'lrint'):
                if b is a or alldeps(b.id).isdisjoint(alldeps(a.id) - {a.id}): continue
                q = b.args[0]
                if self.nonneg(st, q - p): st.facts = st.facts.add(atom(b) - r)
                if self.nonneg(st, p - q): st.facts = st.facts.add(r - atom(b))
            self.track(st, 'lrint', a)
        return r
    def nonneg(self, st, d):
        """At least zero, also as the product of a common factor and the rest."""
        if st.facts.entails(d): return True
        if not d.t or len(d.t) > 2: return False
        for x in set.intersection(*[set(m) for m in d.t]):
            f = atom(ATOMS[x]); e = exact_div(d, f)
            if e is not None and st.facts.entails(f) and st.facts.entails(e): return True
        return False
    def tracked(self, st, kind): return st.ghost.get(('trk', kind), ())
    def track(self, st, kind, a):
        t = st.ghost.get(('trk', kind), ())
        if a not in t: st.ghost[('trk', kind)] = t[-7:] + (a,)
    def op_fdiv(self, st, instr, p, q):
        k = q.cval()
        if k is not None:
            if k == 0: return Unk('x/0')
            return p.scale(P.qdiv(1, k))
        d = exact_div(p, q)
        if d is not None: return d
        iv = inv(q)
        r = P.inv_cancel(p * iv)
        # facts about the new inv atoms
        F = st.facts
        for a in iv.atoms():
            at = ATOMS[a]
            if at.kind != 'inv': continue
            x = at.args[0]; ia = atom(at)
            if ('inv', a) in st.ghost: continue
            pos = F.entails(x, True)
            if not pos: continue
            st.ghost[('inv', a)] = True
            F = F.add(ia, True)
            if at.inv_of is None:
                F = F.add(x * ia - 1).add(1 - x * ia)
            for c in self.const_bounds(st, x):
                if c > 0:
                    if F.entails(x - c): F = F.add(const(P.qdiv(1, c)) - ia)
                    if F.entails(const(c) - x): F = F.add(ia - const(P.qdiv(1, c)))
            for b in self.tracked(st, 'inv'):
                if b is at: continue
                y = b.args[0]
                if F.entails(y - x): F = F.add(ia - atom(b))
                if F.entails(x - y): F = F.add(atom(b) - ia)
            self.track(st, 'inv', at)
        st.facts = F
        return r
    def hull(self, st, p):
        """p = a + t*(b-a) with 0<=t<=1: p lies between a and b (convex combination)."""
        key = ('hull', p)
        if key in st.ghost or has_smp(p): return
        # find invs in p
        ids = [a for a in p.atoms() if ATOMS[a].kind == 'inv']
        if not ids: return
        base, slope = {}, {}
        for m, c in p.t.items():
            (slope if any(a in ids for a in m) else base)[m] = c
        base = Poly(base); slope = Poly(slope)
        a0 = base.single()
        if a0 is None or a0.isint: return
        # slope = t*(b - a0): coefficient of a0 inside slope is -t
        t = {}
        other = {}
        for m, c in slope.t.items():
            if a0.id in m:
                l = list(m); l.remove(a0.id); t[tuple(l)] = -c
            else: other[m] = c
        t = Poly(t); other = Poly(other)
        if not t.t: return
        b = exact_div(other, t)
        if b is None: return
        st.ghost[key] = True
        F = st.facts
        a = base
        if not (self.prove_ratio(st, t) ): return
        F = st.facts
        if F.entails(b - a): st.facts = F.add(p - a).add(b - p); return
        if F.entails(a - b): st.facts = F.add(a - p).add(p - b); return
        for c in self.const_bounds(st, a):
            if F.entails(a - c) and F.entails(b - c): F = F.add(p - c)
            if F.entails(const(c) - a) and F.entails(const(c) - b): F = F.add(const(c) - p)
        for x in self.common_bounds(st, a, b): 
            if F.entails(a - x) and F.entails(b - x): F = F.add(p - x)
            if F.entails(x - a) and F.entails(x - b): F = F.add(x - p)
        st.facts = F
    def common_bounds(self, st, a, b):
        return ()
    def prove_ratio(self, st, t):
        """0 <= t <= 1 for t = n*inv(d)..."""
        den = ONE; num = t
        for a in list(t.atoms()):
            at = ATOMS[a]
            if at.kind == 'inv': den = den * at.args[0]
        num = P.inv_cancel(t * den)
        if any(ATOMS[x].kind == 'inv' for x in num.atoms()): return False
        F = st.facts
        return F.entails(den, True) and F.entails(num) and F.entails(den - num)
    def const_bounds(self, st, x):
        """Constants that are candidate bounds of x: those occurring in facts with x's monomials."""
        cs = set(self.consts_pool)
        mons = [m for m in x.t if m]
        for p, s in st.facts.items:
            if len(p.t) <= 3 and mons and mons[0] in p.t:
                k = p.k(); c = p.t[mons[0]]; cs.add(P.qdiv(-k, c))
        return [c for c in cs]
    def narrow(self, st, instr, p, bits):
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        self.count('narrowings')
        if self.in_range(st, p, lo, hi): return p
        self.event('narrow', st, instr, 'value [%r] narrowed to %d bits is not shown to fit' % (p, bits), poly=p, bits=bits)
        a = mkatom('trunc', (p, bits), True, smp=has_smp(p))
        r = atom(a); st.facts = st.facts.add(r - lo).add(const(hi) - r)
        return r
    def conv(self, st, instr, r, bits):
        """A floating point value converted to an integer type it may not fit."""
        if self.check_conv and isinstance(r, Poly) and not self.fits(st, r, -(1 << (bits - 1)), (1 << (bits - 1)) - 1):
            self.event('convrange', st, instr, 'value [%r] converted to a %d bit integer is not shown to fit' % (r, bits))
        return r
    def fits(self, st, r, lo, hi):
        if self.in_range(st, r, lo, hi): return True
        a = r.single()
        return a is not None and a.kind == 'lrint' and st.facts.entails(a.args[0] - lo) and st.facts.entails(const(hi) - a.args[0])
    def in_range(self, st, p, lo, hi):
        c = p.cval()
        if c is not None: return lo <= c <= hi
        F = st.facts
        if F.entails(p - lo) and F.entails(const(hi) - p): return True
        # use machine ranges of narrow typed subvalues
        for q, b in st.rng:
            if b <= 32 and any(a in p.atoms() for a in q.atoms()):
                l2, h2 = -(1 << (b - 1)), (1 << (b - 1)) - 1
                F = F.add(q - l2).add(const(h2) - q)
        return F.entails(p - lo) and F.entails(const(hi) - p)

    # -------------------------------------------------------------- comparison
    def nanset(self, st, *ps):
        s = set()
        for p in ps:
            for a in p.atoms():
                for b in alldeps(a):
                    if ATOMS[b].maynan and st.nan.get(b) is not False: s.add(b)
        return frozenset(s)
    def icmp(self, st, pred, a, b):
        if isinstance(a, Cond) or isinstance(b, Cond):
            # comparison of booleans with 0/1
            if isinstance(b, Cond) and b in (TRUE, FALSE) and isinstance(a, Cond):
                t = (b is TRUE) == (pred == 'eq')
                return a if t else a.neg()
            return Unk('bool compare')
        if isinstance(a, FuncP) or isinstance(b, FuncP):
            if isinstance(a, FuncP) and isinstance(b, FuncP):
                e = a == b
            else:
                o = b if isinstance(a, FuncP) else a
                if isinstance(o, Ptr) and o.obj.kind == 'null': e = False
                else: return Unk('function pointer compare')
            return (TRUE if e else FALSE) if pred == 'eq' else (FALSE if e else TRUE)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj: p, q = a.off, b.off
            elif pred in ('eq', 'ne') and (a.obj.kind == 'null' or b.obj.kind == 'null'):
                x = a if b.obj.kind == 'null' else b; z = b if b.obj.kind == 'null' else a
                if not z.off.t and not x.off.t:
                    return FALSE if pred == 'eq' else TRUE
                p, q = self.addr(st, a.obj) + a.off, self.addr(st, b.obj) + b.off
            else:
                p, q = self.paddr(st, a), self.paddr(st, b)
            pred = {'ugt': 'sgt', 'uge': 'sge', 'ult': 'slt', 'ule': 'sle'}.get(pred, pred)
        elif isinstance(a, Poly) and isinstance(b, Poly): p, q = a, b
        elif isinstance(a, Ptr) and isinstance(b, Poly): p, q = self.paddr(st, a), b
        elif isinstance(b, Ptr) and isinstance(a, Poly): p, q = a, self.paddr(st, b)
        else: return Unk('icmp')
        if pred[0] == 'u':
            if st.facts.entails(p) and st.facts.entails(q): pred = 's' + pred[1:]
            elif q.cval() is not None and q.cval() >= 0 and pred in ('ult', 'ule', 'ugt', 'uge') and p.isint():
                return Unk('unsigned compare')
            else: return Unk('unsigned compare')
        if pred == 'eq': return Cond(p - q, '==')
        if pred == 'ne': return Cond(p - q, '!=')
        if pred == 'sgt': return Cond(p - q, '>')
        if pred == 'sge': return Cond(p - q, '>=')
        if pred == 'slt': return Cond(q - p, '>')
        return Cond(q - p, '>=')
    def paddr(self, st, x):
        r = self.root(x.obj)
        return self.addr(st, r) + x.off + (x.obj.start or 0)
    def fcmp(self, st, pred, p, q):
        if pred == 'false': return FALSE
        if pred == 'true': return TRUE
        if not isinstance(p, Poly) or not isinstance(q, Poly): return Unk('fcmp')
        nan = self.nanset(st, p, q)
        if pred in ('ord', 'uno'):
            if not nan: return TRUE if pred == 'ord' else FALSE
            return Cond(ONE if pred == 'ord' else ZERO, '>', nan, pred == 'uno')
        un = pred[0] == 'u'
        o = pred[1:]
        if o == 'ne' and pred == 'one': un = False
        d = p - q
        if o == 'eq': return Cond(d, '==', nan, un)
        if o == 'ne': return Cond(d, '!=', nan, un)
        if o == 'gt': return Cond(d, '>', nan, un)
        if o == 'ge': return Cond(d, '>=', nan, un)
        if o == 'lt': return Cond(-d, '>', nan, un)
        return Cond(-d, '>=', nan, un)

    # -------------------------------------------------------------- functions
    def liveness(self, fn):
        r = self.live.get(fn.name)
        if r is not None: return r
        use, defs = {}, {}
        for b in fn.blocks:
            u, d = set(), set()
            for i in b.instrs:
                if i.op == 'phi': d.add(i); continue
                for o in (i.ops or ()):
                    if isinstance(o, (Instr, Arg)) and o not in d: u.add(o)
                if i.op == 'call' and isinstance(i.x, (Instr, Arg)) and i.x not in d: u.add(i.x)
                d.add(i)
            use[b], defs[b] = u, d
        livein = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set()
                for s in b.succs:
                    out |= livein[s]
                    for i in s.instrs:
                        if i.op != 'phi': break
                        out.discard(i)
                    for i in s.instrs:
                        if i.op != 'phi': break
                        for v, pb in zip(i.ops, i.blocks):
                            if pb is b and isinstance(v, (Instr, Arg)): out.add(v)
                new = use[b] | (out - defs[b])
                if new != livein[b]: livein[b] = new; ch = True
        self.live[fn.name] = livein
        return livein
    def rpo(self, fn):
        r = getattr(self, '_rpo', None)
        if r is None: r = self._rpo = {}
        if fn.name not in r:
            from .ir import dominators
            r[fn.name] = dominators(fn)[0]
        return r[fn.name]

    def call(self, fname, args, st):
        """Interpret a defined function.  Returns [(state, value)]."""
        fn = self.M.functions[fname]
        if fn.decl: raise AnalysisError('no body for ' + fname)
        self.seen_fn.add(fname)
        if len(self.stack) > 40: raise AnalysisError('recursion through ' + fname)
        env = {a: v for a, v in zip(fn.args, args)}
        self.count('calls')
        n0 = len(self.objs)
        rets, exits, backs = self.region(fn, fn.blocks[0], [(st, env, None)], None)
        loc = {o.id for o in self.objs[n0:] if o.kind == 'stack'}
        if loc:                                   # locals of the callee die here
            for s, v in rets:
                for k in [k for k in s.mem if k[0] in loc]: del s.mem[k]
                for k in [k for k in s.arr if k in loc]: del s.arr[k]
        if self.coarse and len(rets) > self.coarse and len(self.stack) > 0:
            from .join import coarse
            key = 'ret'
            rets = [(s, e['ret']) for s, e in coarse(self, [(s, {'ret': v}) for s, v in rets], ['ret'], {'ret': fn.ret.bits if getattr(fn, 'ret', None) is not None and fn.ret.k == 'i' else None}, self.coarse)]
        elif len(rets) > 1 and len(self.stack) > 0 and self.merge_limit < 1000: rets = self.merge_rets(rets)
        return rets
    def merge_rets(self, rets):
        groups = {}
        for st, v in rets:
            k = (self.statekey(st), v if not isinstance(v, Unk) else id(v))
            groups.setdefault(k, []).append((st, v))
        out = []
        for g in groups.values():
            if len(g) == 1: out.append(g[0]); continue
            out.append((self.join_facts([x[0] for x in g]), g[0][1]))
        return out
    def statekey(self, st):
        return (frozenset(st.mem.items()), frozenset(st.arr.items()), frozenset(st.status.items()), frozenset(st.nan.items()),
                frozenset((k, v) for k, v in st.ghost.items() if k[0] not in ('inv', 'hull', 'trk')))
    def join_facts(self, sts):
        a = sts[0].copy()
        common = set(a.facts.set)
        for s in sts[1:]: common &= s.facts.set
        items = [f for f in a.facts.items if f in common]
        # keep facts of one state entailed in the others (weak polyhedral join)
        if len(sts) <= 6:
            cand = []
            for s in sts:
                for f in s.facts.items[-14:]:
                    if f not in common and f not in cand: cand.append(f)
            for f in cand[:24]:
                if all(f in s.facts.set or s.facts.entails(f[0], f[1]) for s in sts): items.append(f)
        a.facts = Facts(tuple(items))
        a.neq = tuple(q for q in a.neq if all(q in s.neq for s in sts[1:]))
        g = dict(a.ghost)
        for k in list(g):
            if k[0] in ('inv', 'hull') and not all(k in s.ghost for s in sts[1:]): del g[k]
            if k[0] == 'trk': g[k] = tuple(x for x in g[k] if all(x in s.ghost.get(k, ()) for s in sts[1:]))
        a.ghost = g
        r = a.rng
        for s in sts[1:]: r &= s.rng
        a.rng = r
        return a

    def merge_states(self, fn, block, states):
        """states: [(st, env)] with phis already evaluated."""
        if len(states) <= 1: return states
        live = self.liveness(fn)[block]
        phis = [i for i in block.instrs if i.op == 'phi']
        names = sorted((x for x in live), key=lambda x: x.name if isinstance(x, Arg) else (x.bb.idx, x.idx).__repr__())
        groups = {}
        for st, env in states:
            k = (self.statekey(st), tuple(env.get(n) for n in names), tuple(env.get(p) for p in phis))
            groups.setdefault(k, []).append((st, env))
        out = []
        lim = self.merge_limit
        for g in groups.values():
            g = self.drop_subsumed(g)
            if len(g) == 1 or len(states) <= lim: out += g; continue
            out.append((self.join_facts([s for s, e in g]), g[0][1]))
        if self.coarse and len(out) > self.coarse:
            from .join import coarse
            out = coarse(self, out, names + [p for p in phis if p not in live], {n: n.ty.bits for n in names + phis if n.ty.k == 'i'}, self.coarse)
        return out
    def drop_subsumed(self, g):
        """Drop states whose facts include those of another (more general) one."""
        if len(g) == 1: return g
        keep = []
        for i, (s, e) in enumerate(g):
            dom = False
            for j, (s2, e2) in enumerate(g):
                if i == j: continue
                if s2.facts.set <= s.facts.set and set(s2.neq) <= set(s.neq) and (s2.facts.set != s.facts.set or j < i): dom = True; break
            if not dom: keep.append((s, e))
        return keep

    def region(self, fn, entry, inc, loop):
        """inc: [(st, env, pred)]; pred None = phis already set.  Returns rets, exits [(target, pred, st, env)], backs [(st, env, pred)]."""
        rets, exits, backs = [], [], []
        pend = {entry: list(inc)}
        order = self.rpo(fn)
        loops = fn.loops
        for b in order:
            if loop is not None and b not in loop.blocks: continue
            if b not in pend: continue
            sts = pend.pop(b)
            ready = []
            for st, env, pred in sts:
                if pred is not None: env = self.eval_phis(b, env, pred)
                ready.append((st, env))
            ready = self.merge_states(fn, b, ready)
            if len(ready) > self.max_states:
                raise AnalysisError('state limit exceeded in %s (%d states)' % (fn.name, len(ready)))
            if b in loops and (loop is None or b is not loop.header):
                for st, env in ready:
                    for (t, p, s2, e2) in self.run_loop(fn, loops[b], st, env):
                        self.route(fn, t, p, s2, e2, loop, pend, exits, backs)
                continue
            for st, env in ready:
                for (t, s2, e2, rv) in self.block(fn, b, st, env):
                    if t is None: rets.append((s2, rv))
                    else: self.route(fn, t, b, s2, e2, loop, pend, exits, backs)
        return rets, exits, backs
    def route(self, fn, t, p, st, env, loop, pend, exits, backs):
        if loop is not None and t is loop.header: backs.append((st, env, p))
        elif loop is not None and t not in loop.blocks: exits.append((t, p, st, env))
        else: pend.setdefault(t, []).append((st, env, p))
    def eval_phis(self, b, env, pred):
        new = {}
        for i in b.instrs:
            if i.op != 'phi': break
            for v, pb in zip(i.ops, i.blocks):
                if pb is pred: new[i] = self.val(env, v); break
        if new:
            env = dict(env); env.update(new)
        return env

    def block(self, fn, b, st, env):
        """Execute block b.  Returns [(target block or None, st, env, retval)]."""
        work = [(0, st, dict(env))]
        out = []
        self.count('states')
        while work:
            i, st, env = work.pop()
            n = len(b.instrs)
            dead = False
            while i < n:
                I = b.instrs[i]
                o = I.op
                if o == 'phi': i += 1; continue
                if not self.mute:
                    self.counts['instrs'] += 1; self.seen_instr.add(I)
                if o in ('br', 'switch', 'ret', 'unreachable'):
                    self.term(fn, b, I, st, env, out); dead = True; break
                r = self.instr(fn, I, st, env)
                if r is None: dead = True; break
                if len(r) == 1:
                    st, v = r[0]; env[I] = v
                elif not r: dead = True; break
                else:
                    for s2, v in r[1:]:
                        e2 = dict(env); e2[I] = v; work.append((i + 1, s2, e2))
                    st, v = r[0]; env[I] = v
                i += 1
        return out

    def loc(self, I): return '%s:%s' % ((I.file or I.fn.file or '?').split('/')[-1], I.line)
    def note(self, st, I, what):
        st.path = (st.path, '%s %s' % (self.loc(I), what))

    def term(self, fn, b, I, st, env, out):
        if I.op == 'ret':
            v = self.val(env, I.ops[0]) if I.ops else None
            out.append((None, st, env, v)); return
        if I.op == 'unreachable': return
        if I.op == 'br':
            if not I.ops: out.append((I.blocks[0], st, env, None)); return
            c = self.val(env, I.ops[0])
            self.count('branches')
            if isinstance(c, Poly): c = Cond(c, '!=')
            if has_smp(c): self.event('ctrl', st, I, 'a branch depends on sample values: %r' % (c,))
            for h in self.on_branch: h(self, st, I, c)
            if isinstance(c, Cond) and not c.nan and c.p.cval() is not None:
                t = self.decide(st, c)
                # successors order: LLVM operand order is (true, false) for getSuccessor
                out.append((I.blocks[0] if t else I.blocks[1], st, env, None)); return
            res = self.split(st, c)
            if len(res) > 1:
                for s2, t in res:
                    self.note(s2, I, 'taken' if t else 'not taken')
            for k, (s2, t) in enumerate(res):
                out.append((I.blocks[0] if t else I.blocks[1], s2, env if k == len(res) - 1 else dict(env), None))
            return
        if I.op == 'switch':
            v = self.val(env, I.ops[0])
            if has_smp(v): self.event('ctrl', st, I, 'a switch depends on sample values')
            if isinstance(v, Unk):
                for _, t in I.cases: out.append((t, st.copy(), dict(env), None))
                out.append((I.blocks[0], st, env, None)); return
            rest = [st]
            for c, t in I.cases:
                nxt = []
                for s in rest:
                    for s2, tr in self.split(s, Cond(v - c, '==')):
                        if tr:
                            self.note(s2, I, 'case %d' % c); out.append((t, s2, dict(env), None))
                        else: nxt.append(s2)
                rest = nxt
            for s in rest:
                self.note(s, I, 'default'); out.append((I.blocks[0], s, dict(env), None))

    # -------------------------------------------------------------- instructions
    def instr(self, fn, I, st, env):
        """Returns [(st, value)], or None when the path ends."""
        o = I.op
        V = lambda k: self.val(env, I.ops[k])
        if o == 'load':
            v = self.load(st, I, V(0), I.ty)
            if v is None: return None
            return [(st, v)]
        if o == 'store':
            v = V(0)
            t = I.ops[0].ty
            if isinstance(v, Cond):
                d = self.decide(st, v)
                if d is None:
                    res = []
                    for s2, tr in self.split(st, v):
                        if self.store(s2, I, V(1), ONE if tr else ZERO, t): res.append((s2, None))
                    return res or None
                v = ONE if d else ZERO
            if not self.store(st, I, V(1), v, t): return None
            return [(st, None)]
        if o == 'getelementptr': return [(st, self.gep(st, I, env))]
        if o in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul'):
            a, b = V(0), V(1)
            if isinstance(a, Cond) or isinstance(b, Cond): return self.with_bools(fn, I, st, env, (a, b), lambda s, x, y: self.arith(s, I, o, x, y))
            return [(st, self.arith(st, I, o, a, b))]
        if o == 'fneg':
            a = V(0); return [(st, -a if isinstance(a, Poly) else Unk('fneg'))]
        if o in ('sdiv', 'srem', 'udiv', 'urem'):
            a, b = V(0), V(1)
            if not (isinstance(a, Poly) and isinstance(b, Poly)): return [(st, Unk(o))]
            if o[0] == 'u' and not (st.facts.entails(a) and st.facts.entails(b)):
                return [(st, mk_fn(o, (a, b), True))]
            q = self.op_idiv(st, I, a, b)
            if isinstance(q, Unk): return [(st, q)]
            if self.quot_cases is not None:      # one of two quotients: look at both
                at, ns = self.quot_cases; self.quot_cases = None
                if q.single() is not None and q.single().id == at:
                    out = []
                    for n in ns:
                        s2 = st.copy(); lo, hi = a - b.scale(n), b.scale(n + 1) - a - 1
                        if not s2.facts.feasible_with(lo) or not s2.facts.feasible_with(hi): continue
                        s2.facts = s2.facts.add(lo).add(hi)
                        out.append((s2, const(n) if o[1:] == 'div' else a - b.scale(n)))
                    return out or None
            return [(st, q if o[1:] == 'div' else a - b * q)]
        if o == 'fdiv':
            a, b = V(0), V(1)
            if not (isinstance(a, Poly) and isinstance(b, Poly)): return [(st, Unk('fdiv'))]
            return [(st, self.op_fdiv(st, I, a, b))]
        if o == 'frem':
            a, b = V(0), V(1)
            if isinstance(a, Poly) and isinstance(b, Poly):
                r = mk_fn('frem', (a, b))
                if st.facts.entails(a) and st.facts.entails(b, True): st.facts = st.facts.add(r).add(b - r, True)
                return [(st, r)]
            return [(st, Unk('frem'))]
        if o in ('shl', 'ashr', 'lshr', 'and', 'or', 'xor'): return self.bitop(fn, I, st, env, V(0), V(1))
        if o == 'icmp':
            a, b = V(0), V(1)
            return [(st, self.icmp(st, I.pred, a, b))]
        if o == 'fcmp': return [(st, self.fcmp(st, I.pred, V(0), V(1)))]
        if o == 'select':
            c = V(0)
            if isinstance(c, Poly): c = Cond(c, '!=')
            if has_smp(c): self.event('ctrl', st, I, 'a selection depends on sample values: %r' % (c,))
            for h in self.on_branch: h(self, st, I, c)
            a, b = V(1), V(2)
            if a == b: return [(st, a)]
            return [(s2, a if t else b) for s2, t in self.split(st, c)]
        if o in ('sext', 'zext'):
            v = V(0); src = I.ops[0].ty
            if isinstance(v, Cond) or (src.bits == 1):
                if isinstance(v, Unk): return [(s, (ONE if o == 'zext' else const(-1)) if t else ZERO) for s, t in self.split(st, v)]
                one = ONE if o == 'zext' else const(-1)
                d = self.decide(st, v)
                if d is not None: return [(st, one if d else ZERO)]
                if has_smp(v): self.event('ctrl', st, I, 'a truth value depends on sample values')
                return [(s2, one if t else ZERO) for s2, t in self.split(st, v)]
            if isinstance(v, Poly):
                if src.bits <= 32 and v.cval() is None and len(st.rng) < 60: st.rng = st.rng | {(v, src.bits)}
                if o == 'zext' and v.cval() is not None and v.cval() < 0: return [(st, v + (1 << src.bits))]
                if o == 'zext' and v.cval() is None and not st.facts.entails(v):
                    r = atom(mkatom('zext', (v, src.bits), True, smp=has_smp(v))); st.facts = st.facts.add(r)
                    return [(st, r)]
            return [(st, v)]
        if o == 'trunc':
            v = V(0)
            if isinstance(v, Poly):
                if I.ty.bits == 1: return [(st, Cond(v, '!=') if v.cval() is None else (TRUE if int(v.cval()) & 1 else FALSE))]
                return [(st, self.narrow(st, I, v, I.ty.bits))]
            return [(st, v)]
        if o in ('fpext', 'fptrunc', 'sitofp', 'bitcast', 'freeze', 'addrspacecast'):
            v = V(0)
            if o == 'sitofp' and isinstance(v, Cond): return [(st, Unk('bool to fp'))]
            if o in ('sitofp', 'fptrunc') and I.ty.bits == 32 and isinstance(v, Poly) and v.cval() is None and not has_smp(v):
                self.count('narrowings')
                if not self.in_range(st, v, -(1 << 24), 1 << 24): self.event('tofloat', st, I, 'value [%r] rounded to single precision is not shown to stay below 2^24' % v)
            return [(st, v)]
        if o == 'uitofp':
            v = V(0)
            if isinstance(v, Cond):
                return [(s2, ONE if t else ZERO) for s2, t in self.split(st, v)]
            if isinstance(v, Poly) and not st.facts.entails(v): v = mk_fn('uitofp', (v,))
            return [(st, v)]
        if o in ('fptosi', 'fptoui'):
            v = V(0)
            if not isinstance(v, Poly): return [(st, Unk(o))]
            for f in self.on_round: f(self, st, I, v)
            r = mk_ftoi(v)
            a = r.single()
            if a is not None and a.kind == 'ftoi':
                F = st.facts
                if F.entails(v): F = F.add(r).add(v - r).add(r + 1 - v, True)
                elif F.entails(-v): F = F.add(-r).add(r - v).add(v - r + 1, True)
                else: F = F.add(r + 1 - v, True).add(v + 1 - r, True)
                st.facts = F
            return [(st, self.conv(st, I, r, I.ty.bits))]
        if o == 'ptrtoint':
            v = V(0)
            if isinstance(v, Ptr): return [(st, self.paddr(st, v))]
            return [(st, Unk(o))]
        if o == 'inttoptr': return [(st, Unk(o))]
        if o == 'alloca':
            t = I.x
            n = V(0)
            n = n.cval() if isinstance(n, Poly) else None
            arr = t.k == 'arr' or n != 1
            size = const(t.size * n) if n is not None else (None if not isinstance(V(0), Poly) else V(0) * t.size)
            ob = self.mkobj('stack', '%s' % (I.name or 'local'), size, array=arr, loc=t if t.k == 'struct' else None, init='undef',
                            esize=(t.el.size if t.k == 'arr' else t.size))
            ob.seq = I
            return [(st, Ptr(ob, ZERO))]
        if o == 'insertelement':
            v, x, k = V(0), V(1), V(2)
            n = I.ty.n
            el = list(v.el) if isinstance(v, Vec) else [UNDEF] * n
            if isinstance(k, Poly) and k.cval() is not None: el[int(k.cval())] = x
            return [(st, Vec(el))]
        if o == 'extractelement':
            v, k = V(0), V(1)
            if isinstance(v, Vec) and isinstance(k, Poly) and k.cval() is not None: return [(st, v.el[int(k.cval())])]
            return [(st, Unk(o))]
        if o == 'call': return self.do_call(fn, I, st, env)
        self.event('unsupported', st, I, 'instruction %s is not modelled' % o)
        return [(st, Unk(o))]

    def with_bools(self, fn, I, st, env, vals, f):
        """Split on boolean operands used arithmetically."""
        outs = [(st, ())]
        for v in vals:
            nxt = []
            for s, acc in outs:
                if isinstance(v, Cond):
                    for s2, t in self.split(s, v): nxt.append((s2, acc + (ONE if t else ZERO,)))
                else: nxt.append((s, acc + (v,)))
            outs = nxt
        return [(s, f(s, *acc)) for s, acc in outs]
    def arith(self, st, I, o, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr): a = self.paddr(st, a)
            if isinstance(b, Ptr): b = self.paddr(st, b)
        if not (isinstance(a, Poly) and isinstance(b, Poly)): return Unk(o)
        if o in ('add', 'fadd'): r = a + b
        elif o in ('sub', 'fsub'): r = a - b
        else: r = a * b
        if len(r.t) > 60: return mk_fn('big', (const(len(ATOMS)),), r.isint())
        if o[0] == 'f' and a.t and b.t and o != 'fmul': self.hull(st, r)
        return r
    def bitop(self, fn, I, st, env, a, b):
        o = I.op
        if I.ty.k == 'i' and I.ty.bits == 1:
            if isinstance(a, Poly): a = Cond(a, '!=')
            if isinstance(b, Poly): b = Cond(b, '!=')
            if o == 'xor' and b == TRUE: return [(st, a.neg() if isinstance(a, Cond) else Unk('not'))]
            if o == 'xor' and b == FALSE: return [(st, a)]
            if o in ('and', 'or'):
                out = []
                for s, t in self.split(st, a):
                    if o == 'and': out.append((s, b if t else FALSE))
                    else: out.append((s, TRUE if t else b))
                return out
            return [(st, Unk(o))]
        if not (isinstance(a, Poly) and isinstance(b, Poly)): return [(st, Unk(o))]
        k = b.cval()
        if o == 'shl' and k is not None: return [(st, a.scale(1 << int(k)))]
        if o in ('ashr', 'lshr') and k is not None:
            if o == 'lshr' and not st.facts.entails(a): return [(st, mk_fn(o, (a, b), True))]
            return [(st, self.op_floor_div(st, a, 1 << int(k)))]
        if a.cval() is not None and k is not None:
            x, y = int(a.cval()), int(k)
            return [(st, const({'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': x << y if 0 <= y < 64 else 0}.get(o, 0)))]
        if o == 'and' and k is not None:
            m = int(k)
            if m > 0 and (m & (m + 1)) == 0: return [(st, a - self.op_floor_div(st, a, m + 1).scale(m + 1))]
            r = mk_fn('and', (a, b), True)
            if m >= 0: st.facts = st.facts.add(r).add(b - r)
            return [(st, r)]
        return [(st, mk_fn(o, (a, b), True))]
    def op_floor_div(self, st, a, n):
        p = a.scale(Fraction(1, n))
        if p.isint(): return p
        return self.op_floor(st, p)

    def gep(self, st, I, env):
        b = self.val(env, I.ops[0])
        if isinstance(b, Unk): return b
        if not isinstance(b, Ptr): return Unk('gep')
        t = I.x; obj, off = b.obj, b.off
        for n, x in enumerate(I.ops[1:]):
            k = self.val(env, x)
            if isinstance(k, Cond): k = ONE if self.decide(st, k) else ZERO
            if not isinstance(k, Poly): return Unk('gep index')
            if n == 0:
                off = off + k * t.size; continue
            if t.k == 'struct':
                j = int(k.cval()); eo = t.offs[j]; t = t.elems[j]
                off = off + eo
                if t.k == 'arr' and not obj.array and obj.kind != 'null':
                    c = off.cval()
                    if c is not None:
                        obj = self.sub_obj(obj, int(c), t.size, t.el.size); off = ZERO
            elif t.k in ('arr', 'vec'):
                t = t.el; off = off + k * t.size
        return Ptr(obj, off)

    # -------------------------------------------------------------- calls
    def do_call(self, fn, I, st, env):
        args = [self.val(env, a) for a in I.ops]
        tgt = I.x
        if isinstance(tgt, Const): name = tgt.v if tgt.kind == 'func' else None
        else:
            v = self.val(env, tgt)
            if isinstance(v, FuncP): name = v.name
            elif isinstance(v, Ptr) and v.obj.kind == 'null':
                self.event('nullderef', st, I, 'call through a null function pointer'); return None
            elif isinstance(v, Ptr) and ('callobj', v.obj.name) in self.ext:
                return self.ext[('callobj', v.obj.name)](self, st, I, args)
            else:
                self.event('unkcall', st, I, 'call through an unresolved pointer %r' % (v,)); return [(st, Unk('call'))]
        if name is None:
            self.event('unkcall', st, I, 'unresolved call'); return [(st, Unk('call'))]
        for h in self.on_call:
            r = h(self, st, I, name, args)
            if r is not None: return r
        F = self.M.functions.get(name)
        if F is not None and not F.decl and name not in self.ext:
            key = None
            if F.loops and self.use_summaries:
                key = (name, I, tuple(a.obj.id if isinstance(a, Ptr) else None for a in args))
                sm = self.summaries.get(key)
                if sm and self.mute: return self.apply_summary(sm, st)
                s0 = st.copy()
            self.stack.append(I)
            try: r = self.call(name, args, st) or None
            finally: self.stack.pop()
            if key is not None:
                n = self.summarise(s0, r)
                if sm is None: self.summaries[key] = n
                elif not self.mute and sm and n != sm: 
                    self.summaries[key] = False; self.badsum = True
            return r
        return self.external(name, I, st, args)

    # Calls that only combine samples (no cell other than array elements changes) are replaced, while invariants
    # are being searched, by what an earlier analysis of the same call said; the final pass over a loop analyses
    # every call in full and rejects the invariants when a summary used before does not hold there.
    def summarise(self, s0, res):
        if not res: return False
        arrs, gh, ret = set(), {}, None
        base = {k: v for k, v in s0.ghost.items() if k[0] not in ('inv', 'hull', 'trk')}
        for st, v in res:
            if st.status != s0.status or st.nan != s0.nan: return False
            for k, e in st.mem.items():
                if s0.mem.get(k) != e and self.objs[k[0]].kind != 'stack': return False
                if self.objs[k[0]].kind == 'stack' and k in s0.mem and s0.mem[k] != e: return False
            for k, c in st.arr.items():
                if s0.arr.get(k) != c and not (self.objs[k].kind == 'stack' and k not in s0.arr): arrs.add(k)
            g = {k: x for k, x in st.ghost.items() if k[0] not in ('inv', 'hull', 'trk')}
            d = {}
            for k, x in g.items():
                y = base.get(k)
                if x == y: continue
                if not (isinstance(x, Poly) and isinstance(y, Poly)): return False
                d[k] = x - y
            if set(g) != set(base): return False
            if gh and gh != d: return False
            gh = d
            if v is None: r = 'void'
            elif isinstance(v, Poly) and has_smp(v): r = ('smp', self.stype(v))
            elif isinstance(v, Poly) and not v.t: continue
            else: return False
            if ret is not None and ret != r: return False
            ret = r
        if any(self.C is None or not x.atoms() <= self.C.atoms() for x in gh.values()): return False
        return (frozenset(arrs), tuple(sorted(gh.items(), key=lambda x: repr(x[0]))), ret)
    def apply_summary(self, sm, st):
        arrs, gh, ret = sm
        for k in arrs: st.arr[k] = (('hav', fresh('hav', True)),)
        for k, d in gh: st.ghost[k] = st.ghost[k] + d
        if ret is None: v = ZERO
        elif ret == 'void': v = None
        else: v = fresh('sample', False, chan=None if ret[1] in ('any', None) else ret[1], smp=True)
        return [(st, v)]

    def external(self, name, I, st, args):
        if name in self.ext: return self.ext[name](self, st, I, args)
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume'): return [(st, None)]
        if name.startswith('llvm.memset') or name == 'memset':
            return [(st, args[0])] if self.memset(st, I, args[0], args[1], args[2]) else None
        if name.startswith('llvm.memcpy') or name == 'memcpy':
            return [(st, args[0])] if self.memcpy(st, I, args[0], args[1], args[2]) else None
        if name.startswith('llvm.memmove') or name == 'memmove':
            return [(st, args[0])] if self.memcpy(st, I, args[0], args[1], args[2], 'memmove') else None
        if name == '__assert_fail':
            self.event('abort', st, I, 'assertion can fail')
            return None
        if name in ('abort', 'exit', '_exit', 'llvm.trap'):
            self.event('abort', st, I, name + ' reached')
            return None
        if name in ('malloc', 'calloc'): return self.alloc(name, I, st, args)
        if name == 'free': return self.do_free(I, st, args[0])
        A = args
        if all(isinstance(a, Poly) for a in A):
            if name.startswith('llvm.fabs') or name in ('fabs', 'fabsf'):
                p = A[0]
                if p.cval() is None:
                    if st.facts.entails(p): return [(st, p)]
                    if st.facts.entails(-p): return [(st, -p)]
                r = mk_abs(p)
                if r.cval() is None: st.facts = st.facts.add(r - p).add(r + p).add(r)
                return [(st, r)]
            if name.startswith(('llvm.fmuladd', 'llvm.fma.')) or name in ('fma', 'fmaf'):
                r = A[0] * A[1] + A[2]
                self.hull(st, r)
                return [(st, r)]
            if name.startswith(('llvm.lrint', 'llvm.rint', 'llvm.nearbyint', 'llvm.llrint')) or name in ('lrint', 'lrintf', 'rint', 'rintf', 'nearbyint', 'nearbyintf', 'llrint', 'llrintf'):
                for f in self.on_round: f(self, st, I, A[0])
                r = self.op_lrint(st, A[0])
                return [(st, self.conv(st, I, r, I.ty.bits) if I.ty.k == 'i' else r)]
            if name.startswith('llvm.floor') or name in ('floor', 'floorf'): return [(st, self.op_floor(st, A[0]))]
            if name.startswith('llvm.ceil') or name in ('ceil', 'ceilf'): return [(st, -self.op_floor(st, -A[0]))]
            if name.startswith(('llvm.smax', 'llvm.maxnum')) or name in ('fmax', 'fmaxf'):
                return [(s, A[0] if t else A[1]) for s, t in self.split(st, Cond(A[0] - A[1], '>='))]
            if name.startswith(('llvm.smin', 'llvm.minnum')) or name in ('fmin', 'fminf'):
                return [(s, A[0] if t else A[1]) for s, t in self.split(st, Cond(A[1] - A[0], '>='))]
            if name.startswith('llvm.abs'):
                return [(s, A[0] if t else -A[0]) for s, t in self.split(st, Cond(A[0], '>='))]
            if name in ('fmod', 'fmodf'):
                r = mk_fn('fmod', (A[0], A[1]))
                if st.facts.entails(A[0]) and st.facts.entails(A[1], True): st.facts = st.facts.add(r).add(A[1] - r, True)
                return [(st, r)]
            if name.startswith('llvm.') or name in ('sqrt', 'sin', 'cos', 'pow', 'exp', 'log', 'trunc', 'round'):
                return [(st, mk_fn(name, A, I.ty.k == 'i'))]
        if name in ('llvm.x86.sse.cvtss2si', 'llvm.x86.sse2.cvtsd2si', 'llvm.x86.sse.cvtss2si64', 'llvm.x86.sse2.cvtsd2si64'):
            v = A[0].el[0] if isinstance(A[0], Vec) else None
            if isinstance(v, Poly):
                for f in self.on_round: f(self, st, I, v)
                return [(st, self.conv(st, I, self.op_lrint(st, v), I.ty.bits))]
            return [(st, Unk(name))]
        self.event('extcall', st, I, 'call of external function %s' % name, name=name)
        return [(st, self.fresh_val(st, I.ty, 'ret_' + name) if I.ty.k != 'void' else None)]

    def alloc(self, name, I, st, args):
        size = args[0] * args[1] if name == 'calloc' else args[0]
        if not isinstance(size, Poly):
            self.event('unkptr', st, I, 'allocation of unknown size'); return [(st, Unk('alloc'))]
        el = args[1].cval() if name == 'calloc' else None
        if name == 'calloc' and args[0].cval() == 1 and size.cval() in self.structsizes: arr = False
        elif el is not None and el <= 8: arr = True
        elif size.cval() is not None and size.cval() in self.structsizes: arr = False
        elif el is not None and el in self.structsizes and args[0].cval() == 1: arr = False
        else: arr = True
        n = self.alloc_seq.get(I, 0); self.alloc_seq[I] = n + 1
        o = self.mkobj('heap', 'heap%d@%s' % (len(self.objs), self.loc(I)), size, array=arr, init='zero' if name == 'calloc' else 'undef')
        o.seq = I
        self.event('alloc', st, I, 'allocates', obj=o)
        res = []
        if self.fail_alloc:
            s2 = st.copy(); self.note(s2, I, '%s fails' % name)
            s2.ghost[('allocfail', I)] = True
            res.append((s2, Ptr(self.NULL, ZERO)))
        st.status[o.id] = 'live'
        res.insert(0, (st, Ptr(o, ZERO)))
        return res
    def do_free(self, I, st, p):
        if isinstance(p, Ptr) and p.obj.kind == 'null': return [(st, None)]
        if not isinstance(p, Ptr):
            self.event('badfree', st, I, 'free of an unresolved pointer'); return [(st, None)]
        o = p.obj
        self.event('free', st, I, 'frees ' + o.name, obj=o)
        if o.parent is not None or p.off.t or o.kind not in ('heap', 'opaqueheap'):
            self.event('badfree', st, I, 'free of %r, which is not the start of an allocation' % (p,)); return [(st, None)]
        if self.status(st, o) == 'freed':
            self.event('doublefree', st, I, 'second free of %s' % o.name); return [(st, None)]
        st.status[o.id] = 'freed'
        return [(st, None)]

    # -------------------------------------------------------------- sample types
    def chan_nf(self, p):
        """Channel of a sample: its element index modulo the channel count, in normal form."""
        if not isinstance(p, Poly): return p
        C = self.C
        if C is None: return ZERO
        c = C.cval()
        if c is not None:
            t = {}
            for m, k in p.t.items():
                if k.denominator != 1 or not all(ATOMS[a].isint for a in m): return 'mixed'
                k = k % c
                if k: t[m] = k
            return Poly(t)
        ca = C.single().id
        t = {}
        for m, k in p.t.items():
            if k.denominator != 1 or not all(ATOMS[a].isint for a in m): return 'mixed'
            if ca not in m: t[m] = k
        return Poly(t)
    def stype(self, v, exclude=()):
        """None (no sample inside or exact zero), channel normal form, 'mixed' or 'nonlinear'."""
        if not isinstance(v, Poly): return 'nonlinear' if has_smp(v) else None
        if not has_smp(v): return None if not v.t else 'offset'
        ch = None; off = False
        for m, c in v.t.items():
            n = 0
            for a in m:
                at = ATOMS[a]
                if not _asmp(a): continue
                if at.kind not in ('S', 'sym'):
                    return 'nonlinear'
                n += 1
                if a in exclude: continue
                k = at.chan
                if at.kind == 'S' and k is not None and has_smp(k): return 'nonlinear'
                if k is None: continue
                if k in ('mixed', 'nonlinear', 'offset'): return k
                k = self.chan_nf(k)
                if ch is None: ch = k
                elif ch != k: ch = 'mixed'
            if n == 0: off = True
            if n > 1: return 'nonlinear'
        if off: return 'offset'
        return ch if ch is not None else 'any'
    def chan_join(self, live, vals, exclude=()):
        ch = None
        for v in vals:
            t = self.stype(v, exclude)
            if t is None or t == 'any': continue
            if t in ('mixed', 'nonlinear', 'offset'): return t
            if ch is None: ch = t
            elif ch != t: return 'mixed'
        return ch

    # -------------------------------------------------------------- substitution in states
    def sub_val(self, v, mp):
        if isinstance(v, Poly): return subst(v, mp)
        if isinstance(v, Ptr):
            o = subst(v.off, mp)
            return v if o is v.off else Ptr(v.obj, o)
        if isinstance(v, Cond):
            p = subst(v.p, mp)
            return v if p is v.p else Cond(p, v.op, v.nan, v.un)
        if isinstance(v, Vec): return Vec([self.sub_val(x, mp) for x in v.el])
        if isinstance(v, tuple): return tuple(self.sub_val(x, mp) for x in v)
        return v
    def substitute(self, st, mp):
        t = st.copy()
        F = Facts(())
        for p, s in st.facts.items: F = F.add(subst(p, mp), s)
        t.facts = F
        t.mem = {k: (self.sub_val(v, mp), sz) for k, (v, sz) in st.mem.items()}
        t.arr = {k: tuple(self.sub_val(e, mp) for e in c) for k, c in st.arr.items()}
        t.ghost = {k: (v if k[0] in ('inv', 'hull', 'trk', 'allocfail') else self.sub_val(v, mp)) for k, v in st.ghost.items()}
        t.neq = tuple(subst(p, mp) for p in st.neq)
        t.rng = frozenset((subst(p, mp), b) for p, b in st.rng)
        return t
    def sub_env(self, env, mp):
        return {k: self.sub_val(v, mp) for k, v in env.items()}

    # -------------------------------------------------------------- loops
    def run_loop(self, fn, loop, st, env):
        from .loops import LoopAnalysis
        return LoopAnalysis(self, fn, loop, [(st, env)]).run()
