"""C22: the step between two output frames is 1/ratio, with the ratio gliding linearly from the one in effect to the one given."""
from .proc import *
from sa.report import pmap
from sa import poly as P
from sa.poly import inv_cancel, exact_div
from sa.interp import has_smp

def deep(p):
    """All symbols a polynomial is made of, also inside 1/x, rounding and the like."""
    return P.poly_deps(p)

class Watch:
    """Follows the output loops of one conversion: last ratio L, given ratio R, output frames M."""
    def __init__(w, rep, T, I, S, x, L, glide, what):
        w.rep, w.T, w.I, w.S, w.x, w.L, w.glide, w.what = rep, T, I, S, x, L, glide, what
        w.stack, w.good, w.claimed, w.stores = [], {L}, set(), {}
        w.bad = []
        I.on_store.append(w.store); I.on_round.append(w.round); I.on_iter.append(w.iter)
    def store(w, I, s, i, ptr, v, ty):
        if I.mute or not w.stack or I.root(ptr.obj) is not w.x['out']: 
            if not I.mute and I.root(ptr.obj) is w.x['out']: w.stores.setdefault(i, []).append(False)
            return
        rec = [s.copy(), ptr.off, i, False]
        for f in w.stack: f['out'].append(rec)
        w.stores.setdefault(i, []).append(rec)
    def round(w, I, s, i, p):
        if I.mute or not w.stack or not isinstance(p, Poly) or has_smp(p): return
        for f in w.stack: f['round'].append((p, i))
    def iter(w, la, what, backs):
        if what == 'begin': w.stack.append(dict(out=[], round=[], mark=len(ATOMS))); return
        f = w.stack.pop()
        if what == 'drop':
            for r in f['out']: r[3] = True
            return
        w.check(la, f, backs)
    def check(w, la, f, backs):
        rep, I = w.rep, w.I
        items = [it for it in la.items if it.obj is None and it.kind in ('phi', 'mem', 'env') and not it.isint and not it.smp and it.mode not in ('unk', 'fixed', 'ptr')]
        at = where(la.header.instrs[-1]); fn = la.fn.name
        per = []
        for st, env in backs:
            steps = []
            for it in items:
                c = la.cur(st, env, it)
                if not isinstance(c, Poly): continue
                d = la.at(it, c) - la.v(it)
                if not d.t: continue
                for a in d.atoms():
                    if ATOMS[a].kind != 'inv' or (d - atom(ATOMS[a])).isint() is False: continue
                    steps.append((it, ATOMS[a].args[0])); break
                else:
                    k = d.cval()
                    q = d if k is None and len(d.t) == 1 else None
                    if q is not None:
                        # a step by the inverse of a product shows as a product of inverses
                        r = P_inverse(q)
                        if r is not None: steps.append((it, r))
            per.append((st, env, steps))
        if not f['out']: return
        if not any(steps for st, env, steps in per): return     # an inner loop over channels; the stores must be claimed further out
        frames = []
        for st, env, steps in per:
            if not steps: continue
            ratios = list(dict.fromkeys(r for it, r in steps))
            frames += [r for r in ratios if r not in frames]
        pos = {it.key for st, env, steps in per for it, r in steps}
        gs = []
        for r in frames:
            ok, g, why = w.formula(r)
            rep.ob('ratio-of-frame', ok, '%s: a step in %s is 1/ratio with %s' % (w.what, fn, why) if ok else '%s: the position in %s advances by 1/[%r], %s' % (w.what, fn, r, why), at)
            if ok: gs.append((r, g))
        if len(gs) != len(frames): 
            for rec in f['out']: rec[3] = True
            return
        # the stores of this iteration belong to the frame whose ratio it is
        for rec in f['out']:
            s, off, i, _ = rec
            rec[3] = True
            if not w.glide: rep.ob('frame-number', True, '%s: constant ratio' % w.what, where(i)); continue
            C4 = w.S.C * 4
            inside = lambda F, g: F.entails(off - g * C4) and F.entails(g * C4 + C4 - off - 4)
            ok = True
            for r, g in gs:
                if inside(s.facts, g): continue
                # only on the ways round that use this ratio and pass this store
                for st, env, steps in per:
                    if not any(x == r for it, x in steps): continue
                    # symbols of inner loops mean different moments in the two states
                    loc = {a for q, _ in s.facts.items for a in deep(q) | deep(off) if a >= f['mark'] and ATOMS[a].kind == 'sym'}
                    ren = {a: fresh(ATOMS[a].name or 'x', ATOMS[a].isint) for a in loc}
                    F, o2 = st.facts, P.subst(off, ren)
                    for q, strict in s.facts.items: F = F.add(P.subst(q, ren), strict)
                    if F.entails(const(-1)): continue
                    if not (F.entails(o2 - g * C4) and F.entails(g * C4 + C4 - o2 - 4)): ok = False; break
                if not ok: break
            rep.ob('frame-number', ok, '%s: the samples of frame k are computed with the k-th ratio' % w.what if ok else '%s: output at offset [%r] is produced in the step that uses the ratio of frame [%r]' % (w.what, off, g), where(i))
        # loop variables that carry the ratio used last
        for it in items:
            if it.key in pos: continue
            ok = True
            for st, env, steps in per:
                c = la.cur(st, env, it); c = la.at(it, c) if isinstance(c, Poly) else None
                if steps: ok = ok and c is not None and c in [r for _, r in steps]
                else: ok = ok and c == la.v(it)
            if ok and all(isinstance(v, Poly) and v in w.good for v in it.init): w.good.add(la.v(it))
        # other quantities of the step depend on the ratios only through the ratio of the frame
        g0 = gs[0] if gs else None
        carry = {v.single().id for v in w.good if v.single() is not None} | {w.L.single().id, w.x['r'].single().id}
        if w.glide and g0:
            Lp, R, M = w.L, w.x['r'], w.x['M']
            rr = fresh('ratio_k', False)
            for p, i in f['round']:
                q = p
                shallow = set(q.atoms())
                ok = True; opaque = set()
                for a in shallow:
                    A = ATOMS[a]
                    if A.kind == 'inv' and any(A.args[0] == r for r, g in gs): opaque.add(a)
                if carry & shallow or any(deep(atom(ATOMS[a])) & carry for a in shallow if a not in opaque and ATOMS[a].kind != 'lrint'):
                    mp = {R.single().id: Lp + (rr - Lp) * M * P_inv(g0[1])}
                    q2 = inv_cancel(P.subst(q, mp))
                    left = {a for a in q2.atoms() if a in carry}
                    ok = not left
                rep.ob('one-ratio-per-frame', ok, '%s: rounded quantities of a step use the ratio of its frame' % w.what if ok else '%s: [%r] is computed from another ratio than the one of the frame' % (w.what, p), where(i))
    def formula(w, r):
        """(ok, frame index, text)"""
        if not w.glide:
            ok = r == w.L
            return ok, ZERO, 'the ratio in effect' if ok else 'not by 1/ratio although the ratio does not change'
        Lp, R, M = w.L, w.x['r'], w.x['M']
        g = exact_div(inv_cancel((r - Lp) * M), R - Lp)
        if g is None: return False, None, 'which is not on the line from the last to the given ratio over the output frames'
        return True, g, 'ratio = last + k (given - last) / frames, k = [%r]' % g
    def finish(w, rets, cells, W, empty):
        rep = w.rep
        n = 0
        for i, rs in w.stores.items():
            ok = any(r is not False and r[3] for r in rs)
            rep.ob('frame-number', ok, '%s: output is stored in a loop that steps through the input' % w.what if ok else '%s: output is stored outside of any loop that advances the position by 1/ratio' % w.what, where(i)); n += 1
        for s, v in rets:
            if not (isinstance(v, Poly) and v.cval() == 0): continue
            for k in cells:
                c = s.mem.get(k)
                c = c[0] if c else ZERO
                ok = isinstance(c, Poly) and (c in w.good or any(s.facts.entails_eq(c - g) for g in w.good))
                rep.ob('ratio-afterwards', ok, '%s: the ratio in effect afterwards is the one used last' % w.what if ok else '%s: the ratio kept is [%r], which is not shown to be the one used for the last frame (%s)' % (w.what, c, describe(s)), W)
        rep.need(n or empty, '%s: no output was stored' % w.what)

def P_inv(p):
    from sa.poly import inv
    return inv(p)
def P_inverse(q):
    """x when q is the monomial 1/x."""
    (m, c), = q.t.items()
    r = const(Fraction(1) / Fraction(c))
    for a in m:
        if ATOMS[a].kind != 'inv': return None
        r = r * ATOMS[a].args[0]
    return r if m else None

def conv(rep, T, name, C, case):
    S = shape(T, name, C); I = S.I
    rc = sorted(ratio_cells(T, S))
    rep.need(len(rc) == 1, 'the cell with the ratio in effect is not unique')
    I.join_reals = True; I.merge_limit = 10 ** 6
    W = {}
    def facts(I, st, x):
        k = rc[0]; L = x['sy'].get(k)
        rep.need(isinstance(L, Poly), 'the ratio cell holds no number')
        st.facts = st.facts.add(x['r'] - Fraction(1, 256)).add(const(256) - x['r']); st.nan[x['r'].single().id] = False
        if case == 'new': st.mem[k] = (ZERO, 8); L = x['r']
        else:
            st.facts = st.facts.add(L - Fraction(1, 256)).add(const(256) - L)
            if case == 'same':
                st.mem[(x['d'].id, T.L['src_ratio'])] = (L, 8); x['r'] = L
            else:
                for p in (L - x['r'],): st.facts = st.facts.add(mk_abs(p) - const(Fraction(1, 10 ** 6)))
        st.facts = st.facts.add(-x['M']) if case == 'no output' else st.facts.add(x['M'] - 1)
        W['w'] = Watch(rep, T, I, S, x, L, case in ('glide', 'no output'), '%s, %s' % (S, {'new': 'first call', 'same': 'unchanged ratio', 'glide': 'changed ratio', 'no output': 'changed ratio, no output wanted'}[case]))
        return st
    I, rets, x = process(T, S, facts=facts)
    F = T.M.functions['src_process']
    W['w'].finish(rets, rc, (F.file, F.line, 'src_process'), case == 'no output')
    rep.absorb(I)

def effective(rep, T, name, C, mode):
    """What the converters are started with: the given ratio as target; as starting point the last one, or the given one
    when none is in effect (new, reset) or when it was just set."""
    S = shape(T, name, C, mode); I = S.I; I.merge_limit = 10 ** 6; I.extra_cands = [ratio_domain()]
    P0 = S if mode == 'process' else shape(T, name, C)
    rc = sorted((S.h.obj.id, k) for o, k in ratio_cells(T, P0)); rep.need(len(rc) == 1, 'the cell with the ratio in effect is not unique')
    fn = 'src_process' if mode == 'process' else 'src_callback_read'
    F = T.M.functions[fn]; W = (F.file, F.line, fn)
    for case in ('kept', 'unset', 'set'):
        st, sy = havoc(T, S, st=S.st, keep={(S.h.obj.id, k) for k in mode_cells(T)}, tag='_' + case, pending='ptr')
        r = fresh('ratio_' + case, False)
        st.facts = st.facts.add(r - Fraction(1, 256)).add(const(256) - r)
        L = sy.get(rc[0]); rep.need(isinstance(L, Poly), 'the ratio cell holds no number')
        sts = [st]
        if case == 'unset': st.mem[rc[0]] = (ZERO, 8); want = r
        elif case == 'kept': st.facts = st.facts.add(L - Fraction(1, 256)).add(const(256) - L); want = L
        else:
            sts = [s for s, v in public(T, I, 'src_set_ratio', {'handle': S.h, 'double': r}, st) if isinstance(v, Poly) and v.cval() == 0]; want = r
            rep.need(sts, 'the ratio setter refuses a good ratio')
        usercb(T, I)
        seen = []
        def enter(I, s, i, h, get):
            if get is None or I.mute: return
            seen.append(1)
            t = get('src_ratio'); rep.ob('target-given', t == r or isinstance(t, Poly) and s.facts.entails_eq(t - r), '%s, %s: the converter gets the ratio of the call' % (S, case) if t == r else '%s, %s: the converter gets ratio [%r] instead of the one given' % (S, case, t), where(i))
            c = s.mem[rc[0]][0]
            # later rounds of a callback read start from what the converter left
            ok = c == want or isinstance(c, Poly) and s.facts.entails_eq(c - want)
            if not ok and mode != 'process' and isinstance(c, Poly) and c not in (L, r): return

            rep.ob('start-ratio', ok, '%s, %s ratio: the call starts from the right ratio' % (S, case) if ok else '%s, %s ratio: the call starts from [%r] instead of [%r]' % (S, case, c, want), where(i))
        def leave(ok, cnt):
            # shown for every converter by the other jobs: the ratio kept is one of the glide
            c = ok.mem[rc[0]][0]; ok.facts = ok.facts.add(c - Fraction(1, 256)).add(const(256) - c)
        ext = dict(I.ext); stub_effects(T, I, S, enter=enter, leave=leave)
        for s1 in sts:
            if mode == 'process':
                p, x = anydata(T, I, s1, S.C, tag='_e' + case)
                s1.mem[(x['d'].id, T.L['src_ratio'])] = (r, 8)
                public(T, I, 'src_process', {'handle': S.h, 'data': p}, s1)
            else:
                out = I.mkobj('caller', 'out', None, array=True); n = fresh('frames', True); s1.facts = s1.facts.add(n - 1)
                public(T, I, 'src_callback_read', {'handle': S.h, 'float*': Ptr(out, ZERO), 'double': r, 'long': n}, s1)
        I.ext = ext
        rep.need(seen, '%s never reaches a converter (%s ratio)' % (fn, case))
    rep.absorb(I)

def run(rep, tier):
    rep.explanation = ('Every converter is interpreted after an arbitrary history in three cases (ratio differs from the one in effect, equals it, none in effect). In every loop that stores output the position must advance by 1/r plus '
                       'whole frames on every way round, where r = last + k (given - last) / output_frames as a polynomial identity, the stores of that iteration lie in frame k, every rounded quantity of the iteration depends on the two '
                       'ratios through r only, and the ratio kept at the end is the last r (or the one in effect before when no frame was produced). Both entries must start converters with the given ratio and the right starting ratio.')
    rep.assumptions = ASSUME + ['real arithmetic for ratios and positions', 'ratios that differ by less than 1e-6 may be treated as equal']
    T = Tree(rep)
    ks = keys(T); mutable(T); mode_cells(T); process_functions(T); converter_effects(T)
    skip = () if tier == 'thorough' else ('SRC_SINC_MEDIUM_QUALITY', 'SRC_SINC_BEST_QUALITY') if 'SRC_SINC_FASTEST' in T.enabled else ()
    jobs = [(conv, (T, n, c, case)) for n, c in sorted(ks, key=lambda k: (k[1] is not None, 'SINC' not in k[0])) for case in ('glide', 'same', 'new', 'no output') if n not in skip]
    for mode in ('process', 'callback'): jobs += [(effective, (T, n, c, mode)) for n, c in ks if n not in skip]
    pmap(rep, jobs)
