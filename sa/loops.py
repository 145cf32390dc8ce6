"""Loop summaries: closed forms for induction variables, strides, discrete phases, and inductive
linear invariants found by template instantiation and elimination (Houdini)."""
from fractions import Fraction
from . import poly as P
from .poly import Poly, ATOMS, ZERO, ONE, const, atom, mkatom, fresh, exact_div, subst, alldeps, poly_deps
from .lin import Facts
from .ir import Instr, Arg, Const

import os
DEBUG = os.environ.get('SA_DEBUG'); WATCH = os.environ.get('SA_WATCH')

class Item:
    __slots__ = ('kind', 'key', 'ty', 'init', 'mode', 'val', 'atoms', 'delta', 'scale', 'unit', 'isint', 'smp', 'chan', 'obj', 'name', 'size', 'scale_base')
    def __repr__(s): return '%s:%s=%r' % (s.name, s.mode, s.val)

class LoopAnalysis:
    def __init__(self, I, fn, loop, entries):
        self.I, self.fn, self.loop = I, fn, loop
        self.entries = entries
        self.header = loop.header
        self.phis = []
        for i in self.header.instrs:
            if i.op != 'phi': break
            self.phis.append(i)

    # ------------------------------------------------------------------ driver
    def run(self, depth=0):
        I = self.I
        from .interp import AnalysisError
        if len(self.entries) == 1:
            r = self.try_unroll(*self.entries[0])
            if r is not None: return r
        if I.peel:
            r = self.never()
            if r is not None: return r
        self.find_items()
        self.first = None
        for rnd in range(24):
            self.make_header()
            backs = self.body(mute=True)
            if not self.adjust(backs): break
        else: raise AnalysisError('loop modes do not stabilise in ' + self.fn.name)
        isolated = self.isolated()
        if not (isolated and I.mute) and (not I.light or I.strides) and self.upgrade():
            # optimistic second attempt at strides, now under the assumed invariants
            self.make_header(); keep = self.candidates(backs)
            for rnd in range(12):
                self.make_header(keep)
                backs = self.body(mute=True)
                if not self.adjust(backs): break
                self.make_header(); keep = self.candidates(backs)
        else: keep = [] if isolated and I.mute else self.candidates(backs)
        for rnd in range(40):
            if isolated and I.mute: break
            self.make_header(keep)
            backs = self.body(mute=True)
            if self.adjust(backs):          # more precise states may expose a mode change
                isolated = self.isolated()
                self.make_header()
                keep = [] if isolated and I.mute else self.candidates(backs); continue
            k2 = self.filter(keep, backs)
            if len(k2) == len(keep): break
            # cheap elimination on the same back states before the next body run
            while True:
                k3 = self.filter(k2, backs)
                if len(k3) == len(k2): break
                k2 = k3
            keep = k2
        else: raise AnalysisError('invariants do not stabilise in ' + self.fn.name)
        if DEBUG and not I.mute:
            print('LOOP %s %r' % (self.fn.name, self.loop)); print('   items', self.items)
            for c in keep: print('   inv', c[0], '>' if c[1] else '>=', 0)
        self.keep = keep
        self.make_header(keep)
        if not I.mute:
            I.badsum = False; ne = len(I.events); cn = dict(I.counts)
            for f in I.on_iter: f(self, 'begin', None)
        rets, exits, backs = self.raw_body()
        if not I.mute:
            for f in I.on_iter: f(self, 'drop' if I.badsum else 'end', [(st, self.env_at_header(st, e, p)) for st, e, p in backs])
        if not I.mute and I.badsum:
            del I.events[ne:]; I.counts = cn; I.badsum = False
            if depth > 20: raise AnalysisError('call summaries do not stabilise in ' + self.fn.name)
            return LoopAnalysis(I, self.fn, self.loop, self.entries).run(depth)
        if rets: raise AnalysisError('return inside a loop body region')
        if not I.mute:
            I.count('loops')
            if not I.light or I.rank_light: self.rank(backs, exits)
        out = []
        for t, p, s2, e2 in exits:
            s2 = self.finish(s2, e2)
            if isolated and all(self.hst.mem.get(k) == v for k, v in s2.mem.items() if ('mem', k) not in self.have): s2 = self.forget(s2)
            else: s2, e2 = self.pin(s2, e2)
            out.append((t, p, s2, e2))
        if isolated and len(out) > 1: out = self.dedupe(out)
        esc = [(st, self.env_at_header(st, e, p)) for st, e, p in backs if self.escapes(st, e, p)]
        if esc:
            if depth >= 4: raise AnalysisError('too many loop phases in ' + self.fn.name)
            esc = [(self.finish(st, None, True), e) for st, e in esc]
            for grp in self.group(esc):
                out += LoopAnalysis(I, self.fn, self.loop, grp).run(depth + 1)
        return out

    def never(self):
        """Exits of a loop that is left in its first round on every path."""
        I = self.I
        go = lambda: [I.region(self.fn, self.header, [(s.copy(), dict(e), None)], self.loop) for s, e in self.entries]
        I.mute += 1
        try: rs = go()
        finally: I.mute -= 1
        if any(r or b for r, x, b in rs): return None
        if not I.mute: rs = go(); I.count('loops'); I.loop_log.setdefault((self.fn.name, self.header), ('not entered', True))
        return [y for r, x, b in rs for y in x]
    def upgrade(self):
        C = self.I.C; ch = False
        if C is None: return False
        for it in self.items:
            if it.mode != 'fresh' or it.smp or (it.obj is None and not it.isint): continue
            if C.cval() == 1 and it.obj is None: continue
            before = it.mode
            self.to_stride(it, len({(x.off if it.obj is not None else x) for x in it.init}) == 1)
            if it.mode != before: ch = True
        return ch
    def isolated(self):
        """True when nothing but sample values leaves the loop: no other cell is changed and no other value defined
        or changed in the loop is used behind it."""
        I = self.I
        from .interp import Ptr
        if I.maps is not None: return False
        for it in self.items:
            if it.mode == 'fixed': return False
            if it.kind in ('mem', 'ghost') and not it.smp: return False
        live = I.liveness(self.fn)
        phis = {it.key: it for it in self.items if it.kind in ('phi', 'env')}
        for b in self.loop.blocks:
            for s in b.succs:
                if s in self.loop.blocks: continue
                out = set(live[s])
                for i in s.instrs:
                    if i.op != 'phi': break
                    out.discard(i)
                    for v, pb in zip(i.ops, i.blocks):
                        if pb is b: out.add(v)
                for v in out:
                    if not isinstance(v, Instr): continue
                    if v in phis:
                        if not phis[v].smp and phis[v].mode != 'try': return False
                    elif v.bb in self.loop.blocks and v.ty.k != 'f': return False
                    elif v.bb in self.loop.blocks and self.henv is not None and not self.smp_instr(v, phis): return False
        return True
    def smp_instr(self, v, phis, depth=0):
        """The floating point value v is computed from sample-typed items (so it is not used in any bound)."""
        if depth > 6: return False
        return any(isinstance(o, Instr) and (o in phis and phis[o].smp or (o.op in ('fadd', 'fsub', 'fmul', 'fptrunc', 'fpext', 'call', 'select', 'phi') and o.bb in self.loop.blocks and self.smp_instr(o, phis, depth + 1))) for o in v.ops)
    def forget(self, s2):
        """The facts gathered inside say nothing about what is used later."""
        b = self.entries[0][0] if len(self.entries) == 1 else self.I.join_facts([s for s, e in self.entries])
        s2 = s2.copy(); s2.facts = b.facts; s2.neq = b.neq; s2.rng = b.rng
        g = {k: v for k, v in s2.ghost.items() if k[0] not in ('inv', 'hull', 'trk')}
        g.update({k: v for k, v in b.ghost.items() if k[0] in ('inv', 'hull', 'trk')})
        s2.ghost = g
        return s2
    def dedupe(self, out):
        seen, res = set(), []
        for t, p, s, e in out:
            lv = self.I.liveness(self.fn)[t]
            k = (t, p, self.I.statekey(s), frozenset((x, e[x]) for x in e if x in lv or (isinstance(x, Instr) and x.bb is p)), s.facts.set)
            if k in seen: continue
            seen.add(k); res.append((t, p, s, e))
        return res

    def group(self, esc):
        """Entry states of the following phase, grouped by their discrete configuration."""
        g = {}
        for st, env in esc:
            k = []
            for it in self.items:
                if it.mode == 'fixed' or it.mode == 'ptr':
                    v = self.cur(st, env, it)
                    k.append(v if it.mode == 'fixed' and v == it.init[0] else ('o', id(v.obj)) if hasattr(v, 'obj') else 'changed')
            g.setdefault((tuple(k), frozenset(st.status.items()), frozenset(st.nan.items())), []).append((st, env))
        return list(g.values())

    # ------------------------------------------------------------------ constant trip counts
    def try_unroll(self, st, env):
        I = self.I
        ok = False
        if not self.phis: return None
        for ph in self.phis:
            v = env.get(ph)
            if isinstance(v, Poly) and v.cval() is not None and v.isint() and ph.ty.k == 'i':
                # the phi feeds a comparison with something constant right now
                for b in self.loop.blocks:
                    if not any(s not in self.loop.blocks for s in b.succs): continue
                    for i in b.instrs:
                        if i.op == 'icmp' and ph in i.ops:
                            o = [x for x in i.ops if x is not ph]
                            if len(o) == 1:
                                w = I.val(env, o[0]) if not isinstance(o[0], Instr) or o[0] in env else None
                                if w is None and isinstance(o[0], Instr) and o[0].op == 'load': 
                                    p = I.val(env, o[0].ops[0])
                                    w = self.peek(st, p)
                                if isinstance(w, Poly) and w.cval() is not None and abs(w.cval() - v.cval()) <= 8: ok = True
        if not ok: return None
        out, cur = [], [(st, env)]
        I.mute += 1
        try:
            test = [(st.copy(), dict(env))]
            for n in range(10):
                nxt = []
                for s, e in test:
                    r, x, b = I.region(self.fn, self.header, [(s, e, None)], self.loop)
                    if x and b: return None
                    nxt += [(s2, I.eval_phis(self.header, e2, p)) for s2, e2, p in b]
                if len(nxt) > 4: return None
                test = nxt
                if not test: break
            else: return None
        finally: I.mute -= 1
        while cur:
            nxt = []
            for s, e in cur:
                r, x, b = I.region(self.fn, self.header, [(s, e, None)], self.loop)
                out += x
                nxt += [(s2, I.eval_phis(self.header, e2, p)) for s2, e2, p in b]
            cur = nxt
        if not I.mute: I.count('loops'); I.loop_log[(self.fn.name, self.header)] = ('unrolled', True)
        return out
    def peek(self, st, p):
        from .interp import Ptr
        if isinstance(p, Ptr) and not p.obj.array and p.off.cval() is not None:
            e = st.mem.get((p.obj.id, int(p.off.cval())))
            if e: return e[0]
        return None

    # ------------------------------------------------------------------ items
    def add_item(self, kind, key, ty=None, size=None):
        it = Item(); it.kind, it.key, it.ty, it.size = kind, key, ty, size
        it.mode = None; it.val = None; it.atoms = (); it.delta = None; it.scale = None; it.unit = None; it.smp = False; it.chan = None; it.obj = None
        if kind == 'phi': it.init = [e[key] if key in e else None for s, e in self.entries]; it.name = key.name or 'phi'
        elif kind == 'mem':
            it.init = [s.mem[key][0] if key in s.mem else None for s, e in self.entries]; it.name = '%s.%d' % (self.I.objs[key[0]].name, key[1])
        elif kind == 'ghost': it.init = [s.ghost.get(key) for s, e in self.entries]; it.name = 'ghost:' + str(key)
        elif kind == 'arr': it.init = [s.arr.get(key) for s, e in self.entries]; it.name = self.I.objs[key].name + '[]'
        elif kind == 'env': it.init = [e.get(key) for s, e in self.entries]; it.name = key.name or 'v'
        self.items.append(it); self.have.add((kind, key))
        self.first_mode(it)
        return it
    def find_items(self):
        I = self.I
        self.items = []; self.have = set()
        # objects whose cells are materialised lazily: make all entries agree on the key set
        st0 = self.entries[0][0]
        keys = set()
        for s, e in self.entries: keys |= set(s.mem)
        for s, e in self.entries:
            for k in keys:
                if k not in s.mem: self.materialise(s, k, next(x[0].mem[k][1] for x in self.entries if k in x[0].mem), next(x[0].mem[k][0] for x in self.entries if k in x[0].mem))
        for ph in self.phis: self.add_item('phi', ph)
        if len(self.entries) > 1:
            for k in keys:
                if any(s.mem.get(k) != st0.mem.get(k) for s, e in self.entries): self.add_item('mem', k, size=st0.mem[k][1])
            for k in set().union(*[set(s.arr) for s, e in self.entries]):
                if any(s.arr.get(k) != st0.arr.get(k) for s, e in self.entries): self.add_item('arr', k)
            for k in set().union(*[set(s.ghost) for s, e in self.entries]):
                if k[0] in ('inv', 'hull', 'trk'): continue
                if any(s.ghost.get(k) != st0.ghost.get(k) for s, e in self.entries): self.add_item('ghost', k)
            live = I.liveness(self.fn)[self.header]
            for v in live:
                if v in self.phis: continue
                if any(e.get(v) != self.entries[0][1].get(v) for s, e in self.entries): self.add_item('env', v)
    def materialise(self, st, k, size, like):
        I = self.I; o = I.objs[k[0]]
        from .interp import Ptr
        class T: pass
        t = T(); t.size = size; t.bits = size * 8
        t.k = 'ptr' if isinstance(like, Ptr) else 'f' if isinstance(like, Poly) and not like.isint() else 'i'
        I.mute += 1
        try: I.load(st, None, Ptr(o, const(k[1])), t)
        finally: I.mute -= 1

    def first_mode(self, it):
        from .interp import Ptr, has_smp, Unk
        v = it.init
        if it.kind == 'arr': it.mode = 'arr'; return
        if any(x is None for x in v): it.mode = 'unk'; it.isint = False; return
        if all(isinstance(x, Poly) for x in v):
            if it.kind == 'phi': it.isint = it.key.ty.k == 'i'
            else: it.isint = all(x.isint() for x in v) and not (it.kind == 'mem' and self.realcell(it))
            it.smp = any(has_smp(x) for x in v)
            it.mode = 'try'
        elif all(isinstance(x, Ptr) for x in v) and len({id(x.obj) for x in v}) == 1:
            it.obj = v[0].obj; it.isint = True; it.mode = 'try'
        else: it.mode = 'unk'; it.isint = False
    def realcell(self, it):
        """Field type of a memory cell: a double that happens to hold an integer is still a double."""
        o = self.I.objs[it.key[0]]
        lay = self.I.layout(o)
        if lay:
            for off, t in lay:
                if off == it.key[1]: return t.k == 'f'
        return False

    # ------------------------------------------------------------------ header construction
    def make_header(self, cands=()):
        I = self.I
        from .interp import Ptr, Unk, State
        st0, env0 = self.entries[0]
        st = st0.copy() if len(self.entries) == 1 else I.join_facts([s for s, e in self.entries])
        env = dict(env0)
        if not hasattr(self, 'K'):
            self.K = fresh('K_%s' % (self.header.name if hasattr(self.header, 'name') else ''), True); self.Kid = self.K.single().id
            self.vals = {}
        st.facts = st.facts.add(self.K)
        for it in self.items:
            it.val = self.header_val(it, st)
            self.put(st, env, it, it.val)
        for p, s in cands: st.facts = st.facts.add(p, s)
        self.hst, self.henv = st, env
    def put(self, st, env, it, v):
        if it.kind in ('phi', 'env'): env[it.key] = v
        elif it.kind == 'mem': st.mem[it.key] = (v, it.size)
        elif it.kind == 'ghost': st.ghost[it.key] = v
        else: st.arr[it.key] = v
    def sym(self, it, tag, isint):
        """One symbol per item and mode, reused over rounds."""
        k = (it.kind, it.key, tag)
        v = self.vals.get(k)
        if v is None:
            v = self.vals[k] = fresh('%s.%s' % (it.name, tag), isint, smp=it.smp)
        return v
    def header_val(self, it, st):
        from .interp import Ptr, Unk
        m = it.mode
        if m == 'arr':
            k = (it.kind, it.key, 'hav'); v = self.vals.get(k)
            if v is None: v = self.vals[k] = (('hav', fresh('hav', True)),)
            return v
        if m == 'unk':
            k = (it.kind, it.key, 'unk'); v = self.vals.get(k)
            if v is None: v = self.vals[k] = Unk('loop:' + it.name)
            return v
        if m in ('try', 'fixed'):
            return it.init[0]
        base = it.init[0].off if it.obj is not None else it.init[0]
        if m == 'iv': v = base + self.K * it.delta
        elif m == 'stride':
            u = self.sym(it, 'U', True); it.unit = u.single().id
            if self.I.poison and any(isinstance(x, Poly) and any(a in self.I.poison for a in x.atoms()) for x in it.init): self.I.poison.add(it.unit)
            v = (base if it.scale_base else ZERO) + it.scale * u
        else:
            v = self.sym(it, 'X', it.isint); it.unit = v.single().id
            if self.I.poison and any(isinstance(x, Poly) and any(a in self.I.poison for a in x.atoms()) for x in it.init): self.I.poison.add(it.unit)
            if it.smp:
                a = v.single(); a.chan = it.chan
            if it.kind == 'phi' and it.isint and it.obj is None: self.I.type_range(st, v, it.key.ty.bits)
            elif it.kind == 'mem' and it.isint and it.obj is None: self.I.type_range(st, v, it.size * 8)
        if it.obj is not None: return Ptr(it.obj, v)
        return v

    def raw_body(self):
        return self.I.region(self.fn, self.header, [(self.hst.copy(), dict(self.henv), None)], self.loop)
    def body(self, mute):
        I = self.I
        I.mute += 1
        try: r, x, b = self.raw_body()
        finally: I.mute -= 1
        return [(st, self.env_at_header(st, e, p), None) for st, e, p in b]
    def env_at_header(self, st, e, p):
        return self.I.eval_phis(self.header, e, p) if p is not None else e
    def cur(self, st, env, it):
        if it.kind in ('phi', 'env'): return env.get(it.key)
        if it.kind == 'mem': x = st.mem.get(it.key); return x[0] if x else None
        if it.kind == 'ghost': return st.ghost.get(it.key)
        return st.arr.get(it.key)

    # ------------------------------------------------------------------ modes
    def escapes(self, st, e, p):
        """True when this back edge leads to another phase."""
        env = self.env_at_header(st, e, p)
        return self.esc_env(st, env)
    def esc_env(self, st, env):
        for it in self.items:
            if it.mode == 'fixed' and self.cur(st, env, it) != it.init[0]: return True
            if it.obj is not None and it.mode not in ('unk',):
                v = self.cur(st, env, it)
                if not hasattr(v, 'obj') or v.obj is not it.obj: return True
        return False
    def leafs_new(self, p):
        """Symbols of p created by this header."""
        mine = {self.Kid} | {v.single().id for k, v in self.vals.items() if isinstance(v, Poly)}
        return bool(poly_deps(p) & mine)

    def adjust(self, backs):
        """Check item modes against the back states; returns True when something changed."""
        from .interp import Ptr, has_smp, Unk, Cond
        I = self.I
        ch = False
        # newly varying cells
        h = self.hst
        for st, env, _ in backs:
            for k, (v, sz) in st.mem.items():
                if ('mem', k) in self.have: continue
                o = h.mem.get(k)
                if o is None:
                    # first touched inside the loop: an object materialised lazily or local to the body
                    b = self.entries_mem(k, sz, v)
                    if b is not None and b == v: continue
                    for s, e in self.entries:
                        if k not in s.mem: s.mem[k] = (b, sz)
                    if any(s.mem[k][0] is None for s, e in self.entries):
                        for s, e in self.entries: del s.mem[k]
                        continue
                    self.add_item('mem', k, size=sz); ch = True
                elif o[0] != v:
                    self.add_item('mem', k, size=sz); ch = True
            for k, v in st.arr.items():
                if ('arr', k) in self.have: continue
                if h.arr.get(k) != v:
                    self.add_item('arr', k); ch = True
            for k, v in st.ghost.items():
                if k[0] in ('inv', 'hull', 'trk', 'allocfail') or ('ghost', k) in self.have: continue
                if h.ghost.get(k) != v:
                    self.add_item('ghost', k); ch = True
        if ch: return True
        live = [(st, env) for st, env, _ in backs]
        if not live: return False
        for it in self.items:
            if it.mode in ('unk', 'arr'): continue
            vs = [self.cur(st, env, it) for st, env in live]
            if it.mode == 'fixed':
                for (st, env), v in zip(live, vs):
                    if v == it.init[0]: continue
                    if not self.differs(st, v, it.init[0]): it.mode = 'fresh' if isinstance(it.init[0], Poly) else 'unk'; ch = True; break
                continue
            if it.obj is not None:
                ok = all(isinstance(v, Ptr) for v in vs)
                if not ok: it.mode = 'unk'; ch = True; continue
                same = [(x, v.off) for x, v in zip(live, vs) if v.obj is it.obj]
                base = it.init[0].off
                if it.obj.kind == 'null' and len(same) != len(vs): it.mode = 'fixed'; ch = True; continue
            else:
                if not all(isinstance(v, Poly) for v in vs): it.mode = 'unk'; ch = True; continue
                same = [(x, v) for x, v in zip(live, vs)]
                base = it.init[0]
            # states that leave this phase do not constrain the closed forms
            same = [(x, v) for x, v in same if not self.esc_env(*x)]
            single = len({(x.off if it.obj is not None else x) for x in it.init}) == 1
            if it.obj is None:
                smp = any(has_smp(v) for v in vs) or any(has_smp(x) for x in it.init)
                if smp and not it.smp:
                    it.smp = True; it.mode = 'fresh'; self.drop_syms(it); ch = True
                if smp:
                    if it.mode != 'fresh': it.mode = 'fresh'; ch = True
                    c = I.chan_join(live, vs + it.init, exclude=self.unit_of(it))
                    if it.chan is not None and c != it.chan: c = it.chan if c is None else c if c in ('mixed', 'nonlinear', 'offset') and it.chan != 'mixed' else 'mixed'
                    if c != it.chan or not self.chan_set(it): it.chan = c; ch = True
                    continue
            cur = self.header_val(it, self.hst) if it.mode != 'try' else it.init[0]
            cur = cur.off if it.obj is not None else cur
            ds = [v - cur for x, v in same]
            if it.mode == 'try':
                if single and all(not d.t for d in ds): continue       # unchanged so far
                if single and ds and it.obj is None and it.isint and base.cval() is not None and not (len(set(ds)) == 1):
                    if all(v == base or self.differs(x[0], v, base) for x, v in zip(live, vs)):
                        it.mode = 'fixed'; ch = True; continue
                if single and ds and len(set(ds)) == 1 and not self.leafs_new(ds[0]) and (it.isint or not poly_smp(ds[0])):
                    if it.obj is None and it.isint and base.cval() is not None and ds[0].cval() is None and len(live) > 0 and self.peelable(it, live, vs, base, ds[0]):
                        it.mode = 'fixed'; ch = True; continue
                    it.mode = 'iv'; it.delta = ds[0]; ch = True; continue
                self.to_stride(it, single); ch = True; continue
            if it.mode == 'iv':
                if all(d == it.delta or x[0].facts.entails_eq(d - it.delta) for (x, v), d in zip(same, ds)): continue
                self.to_stride(it, single); ch = True; continue
            if it.mode == 'stride':
                if all(self.quot(d, it.scale) is not None for d in ds): continue
                it.mode = 'fresh'; ch = True; continue
        return ch
    def peelable(self, it, live, vs, base, d):
        """A constant start value left for good by a loop invariant, non constant step is a phase change only
        when the step is not a stride of the iteration counter; channel strides stay induction variables."""
        C = self.I.C
        if C is not None and C.t and exact_div(d, C) is not None: return False
        return False
    def chan_set(self, it):
        k = (it.kind, it.key, 'X'); v = self.vals.get(k)
        return v is not None and v.single().chan == it.chan
    def unit_of(self, it):
        k = (it.kind, it.key, 'X'); v = self.vals.get(k)
        return {v.single().id} if v is not None else set()
    def drop_syms(self, it):
        for t in ('X', 'U'): self.vals.pop((it.kind, it.key, t), None)
    def differs(self, st, v, w):
        from .interp import Cond, Ptr
        if isinstance(v, Poly) and isinstance(w, Poly): return self.I.decide(st, Cond(v - w, '!=')) is True
        if isinstance(v, Ptr) and isinstance(w, Ptr): return v.obj is not w.obj
        return type(v) is not type(w)
    def entries_mem(self, k, sz, like):
        out = None
        for s, e in self.entries:
            if k in s.mem: v = s.mem[k][0]
            else:
                o = self.I.objs[k[0]]
                if o.init in ('zero', 'sym') or o.kind == 'global':
                    self.materialise(s, k, sz, like); v = s.mem.get(k, (None,))[0]
                else: v = None
            if out is not None and v != out: return out
            out = v
        return out
    def to_stride(self, it, single):
        it.mode = 'fresh'
        C = self.I.C
        if it.obj is None and not it.isint: return
        if C is None: return
        sc = C if it.obj is None else C.scale(4)
        if C.cval() is not None and C.cval() == 1 and it.obj is None: return
        vals = [x.off if it.obj is not None else x for x in it.init]
        if all(self.quot(v, sc) is not None for v in vals): it.mode = 'stride'; it.scale = sc; it.scale_base = False
        elif single: it.mode = 'stride'; it.scale = sc; it.scale_base = True
    def quot(self, d, s):
        q = exact_div(d, s)
        return q if q is not None and q.isint() else None

    # ------------------------------------------------------------------ invariants
    def nums(self):
        """Numeric items that are not samples."""
        return [it for it in self.items if it.mode in ('iv', 'stride', 'fresh') and not it.smp]
    def v(self, it):
        return it.val.off if it.obj is not None else it.val
    def at(self, it, v):
        return v.off if it.obj is not None else v
    def sub_for(self, get):
        """Substitution of the header symbols by the item values delivered by get(item); None where impossible."""
        mp = {}
        for it in self.nums():
            if it.mode == 'iv': continue
            w = get(it)
            if w is None: return None
            if it.mode == 'fresh': mp[it.unit] = w
            else:
                b = self.at(it, it.init[0]) if it.scale_base else ZERO
                q = exact_div(w - b, it.scale)
                if q is None: return None
                mp[it.unit] = q
        return mp
    def init_subs(self):
        out = []
        for n, (s, e) in enumerate(self.entries):
            mp = self.sub_for(lambda it: self.at(it, it.init[n]))
            if mp is None: raise Exception('entry state outside the stride')
            mp[self.Kid] = ZERO
            out.append((s, mp))
        return out
    def back_subs(self, backs):
        out = []
        for st, env, _ in backs:
            if self.esc_env(st, env): continue
            mp = self.sub_for(lambda it: self.at(it, self.cur(st, env, it)))
            if mp is None: return None
            mp[self.Kid] = self.K + 1
            out.append((st, mp))
        return out
    def candidates(self, backs):
        I = self.I
        if I.light and not I.light_cands: return []
        from .interp import has_smp
        nums = self.nums()
        if I.light:
            inits = self.init_subs(); out = []
            for f in I.light_cands:
                for c in f(self, nums):
                    c = c if isinstance(c, tuple) else (c, False)
                    if c[0].cval() is None and c not in out and all(st.facts.entails(subst(c[0], mp), c[1]) for st, mp in inits): out.append(c)
            return out
        cands = []
        seen = set()
        def add(p, s=False):
            if p.cval() is not None: return
            if s and p.isint(): p, s = p - 1, False
            if (p, s) in seen or len(p.t) > 6 or has_smp(p): return
            seen.add((p, s)); cands.append((p, s))
        inits = self.init_subs()
        mine = {self.Kid} | {it.unit for it in nums if it.mode != 'iv'}
        # per item bounds
        for it in nums:
            X = self.v(it)
            if it.mode != 'iv':
                for n, (s, e) in enumerate(self.entries):
                    v0 = self.at(it, it.init[n])
                    if len(v0.t) <= 3: add(X - v0); add(v0 - X)
            for c in I.consts_pool:
                if it.isint and Fraction(c).denominator != 1: continue
                add(X - const(c)); add(const(c) - X)
                if not it.isint: add(X - const(c), True); add(const(c) - X, True)
        # pairs
        vals = [(it, self.v(it)) for it in nums]
        for a in range(len(vals)):
            for b in range(a + 1, len(vals)):
                (ia, va), (ib, vb) = vals[a], vals[b]
                if ia.isint != ib.isint or (ia.obj is not None) != (ib.obj is not None): continue
                if ia.mode == 'iv' and ib.mode == 'iv': continue
                add(va - vb); add(vb - va)
                d0 = self.at(ia, ia.init[0]) - self.at(ib, ib.init[0])
                if d0.t and len(d0.t) <= 3: add(va - vb - d0); add(vb - va + d0)
        # against loop invariant quantities held in memory or live variables
        inv_i, inv_r = self.invariants()
        for it, X in vals:
            if it.obj is not None: continue
            for w in (inv_i if it.isint else inv_r):
                if it.mode == 'iv' and not it.isint: continue
                add(w - X); add(X - w)
        # guards seen on back paths, shifted by one iteration
        shift = {self.Kid: self.K - 1}
        for st, env, _ in backs:
            if self.esc_env(st, env): continue
            mp = self.sub_for(lambda it: self.at(it, self.cur(st, env, it)))
            hs = self.hst.facts.set
            for p, s in st.facts.items:
                if (p, s) in hs or len(p.t) > 5: continue
                d = poly_deps(p)
                if not (d & mine): continue
                if d & (mine - {self.Kid}):
                    # X_back = X + delta  =>  X = X_back - delta, when delta is invariant
                    m2 = dict(shift); ok = True
                    for it in nums:
                        if it.mode == 'iv' or it.unit not in d: continue
                        delta = mp[it.unit] - atom(ATOMS[it.unit]) if mp else None
                        if delta is None or poly_deps(delta) & mine: ok = False; break
                        m2[it.unit] = atom(ATOMS[it.unit]) - delta
                    if ok: add(subst(p, m2), s)
                    add(p, s)
                else:
                    add(subst(p, shift), s)
            # exits by inequality (i != n) bound a counter that meets them one step at a time
            hn = set(self.hst.neq)
            for p in st.neq:
                if p in hn or not p.isint() or len(p.t) > 4: continue
                d = poly_deps(p)
                if not (d & mine): continue
                for m2 in ({}, shift) if not d & (mine - {self.Kid}) else ({},):
                    q = subst(p, m2); add(q); add(-q); add(q - 1); add(-q - 1)
        # facts about the initial values, restated for the current values
        ren = {}
        for it in nums:
            if len(self.entries) == 1 and it.mode != 'iv':
                v0 = self.at(it, it.init[0])
                a = v0.single()
                if a is None and it.mode == 'stride' and not it.scale_base:
                    q = exact_div(v0, it.scale)
                    a = q.single() if q is not None else None
                    if a is not None: ren.setdefault(a.id, atom(ATOMS[it.unit]))
                elif a is not None and it.mode == 'fresh': ren.setdefault(a.id, atom(ATOMS[it.unit]))
                elif a is not None: ren.setdefault(a.id, self.v(it))
        if ren:
            for p, s in self.entries[0][0].facts.items:
                if len(p.t) <= 5 and poly_deps(p) & set(ren): add(subst(p, ren), s)
        for f in I.extra_cands:
            for p in f(self, nums): add(*p) if isinstance(p, tuple) else add(p)
        # keep those that hold on entry
        out = []
        for p, s in cands:
            if all(st.facts.entails(subst(p, mp), s) for st, mp in inits): out.append((p, s))
        bs = self.back_subs(backs)
        # first elimination with all candidates assumed
        return out
    def invariants(self):
        st, env = self.entries[0]
        ii, rr = [], []
        var = {it.key for it in self.items if it.kind == 'mem'}
        oids = {it.key[0] for it in self.items if it.kind == 'mem' and it.mode in ('stride', 'fresh', 'iv')}
        from .interp import has_smp
        for k, (v, sz) in st.mem.items():
            if k in var or not isinstance(v, Poly) or v.cval() is not None or has_smp(v): continue
            if all(s.mem.get(k, (None,))[0] == v for s, e in self.entries) and len(v.t) <= 2:
                (ii if v.isint() else rr).append(v)
        live = self.I.liveness(self.fn)[self.header]
        evar = {it.key for it in self.items if it.kind == 'env'}
        for x in live:
            v = env.get(x)
            if x in self.phis or x in evar or not isinstance(v, Poly) or v.cval() is not None or has_smp(v) or len(v.t) > 2: continue
            (ii if v.isint() else rr).append(v)
        return list(dict.fromkeys(ii))[:14], list(dict.fromkeys(rr))[:8]
    def filter(self, keep, backs):
        bs = self.back_subs(backs)
        if bs is None: return []
        out = []
        for p, s in keep:
            ok = True
            for st, mp in bs:
                q = subst(p, mp)
                if q == p: continue
                if not st.facts.entails(q, s):
                    ok = False
                    if WATCH and WATCH in repr(p): print('DROP', p, '->', q, '\n    trail', st.trail()[-12:], '\n    facts', [f for f in st.facts.items if poly_deps(f[0]) & poly_deps(q)])
                    break
            if ok: out.append((p, s))
        return out

    # ------------------------------------------------------------------ after the loop
    def finish(self, st, env, atback=False):
        """Replace havocked array contents by element-wise fills and copies where the body is one."""
        for it in self.items:
            if it.kind != 'arr': continue
            c = st.arr.get(it.key)
            if not c or c[0] != self.vals[(it.kind, it.key, 'hav')][0]: continue
            if len({x for x in it.init}) != 1: continue
            s = self.fill_summary(it)
            if s is None:
                if self.I.maps is not None: self.map_summary(st, it, c)
                continue
            lo, step, ent = s
            base = it.init[0] if it.init[0] is not None else self.I.content(self.entries[0][0], self.I.objs[it.key])
            n = len(c) - 1
            if n == 0: K = self.K
            elif n == 1 and c[1][0] == 'elem': K = self.K + 1
            else: continue
            hi = lo + K * step
            o = self.I.objs[it.key]
            st.arr[it.key] = base
            self.apply(st, o, lo, hi, ent)
        return st
    def pin(self, st, env):
        """After the loop, replace the iteration count by its final value where that is known."""
        for p, s in self.keep:
            c = p.t.get((self.Kid,))
            if c != -1 or s: continue
            n = p + self.K
            if poly_deps(n) & ({self.Kid} | {it.unit for it in self.items if it.unit}): continue
            if st.facts.entails(self.K - n):
                mp = {self.Kid: n}
                return self.I.substitute(st, mp), self.I.sub_env(env, mp)
        return st, env
    def map_summary(self, st, it, c):
        """Every iteration writes the same number of consecutive elements, next to those of the iteration before: remember
        the range written so far as a ('map', lo, hi) entry."""
        bs = getattr(self, 'final_backs', None)
        if bs is None: bs = self.final_backs = self.body(True)
        K = self.K
        def shape(entries):
            offs = {}
            for e in entries:
                if e[0] != 'elem': return None
                o0 = subst(e[1], {self.Kid: ZERO}); offs[o0] = (e[1] - o0, e[2])
            if not offs: return None
            ks = list(offs); base = ks[0]
            ds = [(k - base).cval() for k in ks]
            if any(d is None for d in ds): return None
            size = offs[base][1]
            if any(v != offs[base] for v in offs.values()): return None
            ds = sorted(ds); lo = base + const(ds[0])
            if any(b - a != size for a, b in zip(ds, ds[1:])): return None
            return lo, const(len(ds) * size), offs[base][0]
        res = None
        for s, env, _ in bs:
            x = s.arr.get(it.key)
            r = shape(x[1:]) if x else None
            if r is None or res is not None and r != res: return
            res = r
        if res is None: return
        lo, n, step = res
        if step == K * n: a, b = lo, lo + K * n
        elif step == -(K * n): a, b = lo - K * n + n, lo + n
        else: return
        base = it.init[0] if it.init[0] is not None else self.I.content(self.entries[0][0], self.I.objs[it.key])
        st.arr[it.key] = base + (('map', a, b),) + tuple(c[1:])
    def apply(self, st, o, lo, hi, ent):
        if ent[0] == 'fill': self.I.arr_fill(st, o, lo, hi, 0)
        else: self.I.arr_copy(st, o, lo, self.I.objs[ent[1]], ent[2], hi - lo, ent[3])
    def fill_summary(self, it):
        """(lo, step, ('fill',)|('copy', src, slo, content)) when every iteration writes exactly the next element."""
        if hasattr(it, '_') : pass
        bs = getattr(self, 'final_backs', None)
        if bs is None:
            bs = self.final_backs = self.body(True)
        res = None
        for st, env, _ in bs:
            c = st.arr.get(it.key)
            if not c or len(c) != 2 or c[1][0] != 'elem': return None
            _, off, size, v = c[1]
            if not isinstance(v, Poly): return None
            lo = subst(off, {self.Kid: ZERO}); step = off - lo
            if step != self.K * size: return None
            if not v.t: r = (lo, const(size), ('fill',))
            else:
                a = v.single()
                if a is None or a.kind != 'S': return None
                so, soff, cont = a.args
                slo = subst(soff, {self.Kid: ZERO})
                if soff - slo != self.K * size or so in {i.key for i in self.items if i.kind == 'arr'}: return None
                r = (lo, const(size), ('copy', so, slo, cont))
            if res is not None and res != r: return None
            res = r
        return res

    # ------------------------------------------------------------------ ranking
    def rank(self, backs, exits):
        """A measure bounded below and decreasing by a positive amount on every way round."""
        I = self.I
        key = (self.fn.name, self.header)
        bs = [(st, self.env_at_header(st, e, p)) for st, e, p in backs]
        bs = [(st, env) for st, env in bs if not self.esc_env(st, env)]
        if not bs:
            I.loop_log.setdefault(key, ('acyclic', True)); return
        mine = {self.Kid} | {it.unit for it in self.nums() if it.mode != 'iv'}
        subs = []
        for st, env in bs:
            mp = self.sub_for(lambda it: self.at(it, self.cur(st, env, it)))
            if mp is None: subs = None; break
            mp[self.Kid] = self.K + 1
            subs.append((st, mp))
        found = None
        if subs:
            st0, mp0 = subs[0]
            ms = []
            for p, s in st0.facts.items:
                if len(p.t) <= 5 and poly_deps(p) & mine: ms.append(p)
            for m in ms[::-1]:
                ok = True
                for st, mp in subs:
                    d = m - subst(m, mp)
                    if not st.facts.entails(m): ok = False; break
                    if m.isint(): good = st.facts.entails(d - 1)
                    else:
                        good = any(st.facts.entails(d - const(c)) for c in (1, Fraction(1, 2), Fraction(1, 256), Fraction(1, 65536)))
                    if not good: ok = False; break
                if ok: found = m; break
        old = I.loop_log.get(key)
        if found is not None:
            if old is None: I.loop_log[key] = (repr(found), True)
        else:
            I.loop_log[key] = ('none', False)
            I.event('norank', bs[0][0], self.header.instrs[-1], 'no measure shows that the loop terminates')

def poly_smp(p):
    from .interp import has_smp
    return has_smp(p)
