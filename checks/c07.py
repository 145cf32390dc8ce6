"""C07: reported frame counts are set on every success and lie between zero and what the caller gave."""
from .inv import *
from sa import poly as P
from sa.report import pmap

def counts(S, x, bs=()):
    """Candidates: whole numbers in loops are at least zero and at most the samples or frames the caller gave."""
    def f(la, nums):
        C = S.C
        for it in nums:
            if it.obj is not None or it.smp: continue
            X = la.v(it)
            yield X
            if it.isint:
                yield C - X
                for b in bs: yield b - X
                for n in (x['N'], x['M']):
                    yield n * C - X
                    if C != ONE: yield n - X
    return f

SIGNS = {'counts given': (1, 1), 'negative input count': (-1, 1), 'negative output count': (1, -1), 'negative counts': (-1, -1)}
def given(T, S, case, keep=None, got=None):
    """The facts the caller grants, and the candidates the loops need; keep: names of the kept ranges to assume."""
    def facts(I, st, x):
        bs = bounds(T, S)
        I.join_bounds = [x['N'] * S.C, x['M'] * S.C] + ([x['N'], x['M']] if S.C != ONE else []) + bs
        I.light_cands = [counts(S, x, bs), ratio_domain()]
        for q, sg in zip(('N', 'M'), SIGNS[case]):
            st.facts = st.facts.add(x[q] if sg > 0 else -x[q] - 1)
        cs = candidates(T, S, x['sy'])
        if got is not None: got.update(cs)
        return grant(T, S, st, x['sy'], cs, keep)
    return facts

def kept(T, name, C, keep=None):
    """Ranges kept by every process call on this kind of handle, given that they hold before."""
    while True:
        S = shape(T, name, C); I = S.I; I.merge_limit = 10 ** 6; I.keep_ret = True
        cs = {}
        I, rets, x = process(T, S, facts=given(T, S, 'counts given', keep, cs), coarse=6)
        b = broken(T, S, rets, cs, keep)
        if keep is None: keep = {inv_name(k) for k in cs}
        if not b: return keep
        keep = keep - set(b)

def common_ranges(rep, T, ks):
    """{converter: names of the ranges kept by its simplest kind of handle}; for the other kinds they are obligations."""
    one = {}
    for n, c in ks:
        if n not in one or c == 1: one[n] = c
    r = pmap(rep, [(lambda rep, *a: kept(*a), (T, n, c)) for n, c in sorted(one.items())])
    for (n, c), k in zip(sorted(one.items()), r): rep.notes.append('%s keeps through every call: %s' % (n, ', '.join(sorted(k))))
    return {n: k for (n, c), k in zip(sorted(one.items()), r)}

def conv(rep, T, name, C, case='counts given', keep=None):
    S = shape(T, name, C); I = S.I; I.merge_limit = 10 ** 6
    I.keep_ret = True
    L = T.L; cs = {}
    I, rets, x = process(T, S, facts=given(T, S, case, keep, cs), coarse=6)
    F = T.M.functions['src_process']; W = (F.file, F.line, 'src_process')
    for nm, (c, s) in broken(T, S, rets, cs, keep).items():
        rep.ob('ranges-kept', False, '%s: the range of a cell (%s) is not shown to be kept: [%r] (%s)' % (S, nm, c, describe(s)), W)
    rep.ok_n('ranges-kept', len(rets) * len([k for k in cs if keep is None or inv_name(k) in keep]))
    n = 0
    for s, v in rets:
        if isinstance(v, Poly):
            if v.cval() not in (None, 0): continue
            if v.cval() is None: s.facts = s.facts.add(v).add(-v)
            if s.facts.entails(const(-1)): continue
        n += 1
        for fld, lim, old in (('input_frames_used', 'N', 'u'), ('output_frames_gen', 'M', 'g')):
            c = s.mem[(x['d'].id, L[fld])][0]
            isset = isinstance(c, Poly) and x[old].single().id not in P.poly_deps(c)
            rep.ob('counts-set', isset, '%s: %s is set on success' % (S, fld) if isset else '%s: a successful call leaves %s unset (%s)' % (S, fld, describe(s)), W)
            if not isset: continue
            lo = s.facts.entails(c)
            hi = s.facts.entails(x[lim] - c) or s.facts.entails(-c)      # nothing is reported for a negative request
            rep.ob('counts-bounded', lo, '%s: %s >= 0' % (S, fld) if lo else '%s: %s = [%r] is not shown to be at least zero (%s)' % (S, fld, c, describe(s)), W)
            rep.ob('counts-bounded', hi, '%s: %s <= given' % (S, fld) if hi else '%s: %s = [%r] is not shown to be within what was given (%s)' % (S, fld, c, describe(s)), W)
            rep.ob('counts-bounded', c.isint(), '%s: %s is whole' % (S, fld), W)
    rep.need(n, 'src_process never succeeds on %s' % S)
    rep.absorb(I)


def read(rep, T, name, C):
    """src_callback_read, with converters that keep the contract shown above."""
    S = shape(T, name, C, 'callback'); I = S.I; I.merge_limit = 10 ** 6
    F = T.M.functions['src_callback_read']; W = (F.file, F.line, F.name)
    usercb(T, I)
    st, sy = havoc(T, S, keep={(S.h.obj.id, k) for k in mode_cells(T)}, pending='ptr')
    r = fresh('ratio', False, maynan=True); n = fresh('frames', True)
    out = I.mkobj('opaque', 'read_out', None, array=True)
    gen = ('g', 'gen')
    st.ghost[gen] = ZERO
    def leave(s, c): s.ghost[gen] = s.ghost[gen] + c['output_frames_gen']
    stub_effects(T, I, S, None, leave)
    def cands(L, items):
        g = [L.v(it) for it in items if it.kind == 'ghost' and it.key == gen]
        for it in items:
            if it.kind == 'ghost' or not it.isint or it.obj is not None: continue
            v = L.v(it)
            for q in g: yield v - q; yield q - v; yield n - v - q; yield v + q - n
        for q in g: yield q; yield n - q
    I.extra_cands = [cands]
    k = 0
    for s, v in I.call('src_callback_read', call_args(T, 'src_callback_read', {'handle': S.h, 'double': r, 'long': n, 'float*': Ptr(out, ZERO)}), st):
        k += 1
        ok = isinstance(v, Poly) and v.isint() and s.facts.entails(v) and (s.facts.entails(n - v) or s.facts.entails(-v))
        rep.ob('read-bounded', ok, '%s: the read returns 0 to frames' % S if ok else '%s: the read returns [%r], not shown to lie in 0 to the frames asked for (%s)' % (S, v, describe(s)), W)
    rep.need(k, 'src_callback_read does not return')
    rep.absorb(I)

def simple(rep, T, name):
    """src_simple succeeds only with the counts of a process call on the same data that succeeded."""
    I, st, chan = new_interp(T, None); I.merge_limit = 10 ** 6
    F = T.M.functions['src_simple']; W = (F.file, F.line, F.name)
    p, x = anydata(T, I, st, chan)
    off = lambda f: (p.obj.id, int(p.off.cval()) + T.L[f])
    def hook(I, s, instr, args, name):
        bad = s.copy(); e = fresh('error', True); bad.facts = bad.facts.add(e - 1)
        if p in args:
            for f, l in (('input_frames_used', 'input_frames'), ('output_frames_gen', 'output_frames')):
                v = fresh(f, True); lim = s.mem[off(l)][0]
                s.mem[off(f)] = (v, 8); s.facts = s.facts.add(v)
                # a converter keeps within what it is asked for, and does nothing for a negative request
                if isinstance(lim, Poly): s.facts = s.facts.add(lim - v)
        return [(bad, e), (s, ZERO)]
    stub_process(T, I, None, hook)
    n = 0
    st.facts = st.facts.add(x['N']).add(x['M'])
    for s, v in public(T, I, 'src_simple', {'data': p, 'int': [const(T.E[name]), chan]}, st):
        if not isinstance(v, Poly): continue
        if v.cval() is None: s.facts = s.facts.add(v).add(-v)
        elif v.cval(): continue
        if s.facts.entails(const(-1)): continue
        n += 1
        for f, l, old in (('input_frames_used', 'N', 'u'), ('output_frames_gen', 'M', 'g')):
            c = s.mem[off(f)][0]
            ok = isinstance(c, Poly) and c.isint() and x[old].single().id not in P.poly_deps(c) and s.facts.entails(c) and (s.facts.entails(x[l] - c) or s.facts.entails(-c))
            rep.ob('simple-counts', ok, 'src_simple(%s): %s is set and bounded' % (name, f) if ok else 'src_simple(%s) succeeds with %s = [%r], which is unset or not bounded (%s)' % (name, f, c, describe(s)), W)
    rep.need(n, 'src_simple(%s) never succeeds' % name)
    rep.absorb(I)

def run(rep, tier):
    rep.explanation = ('src_process is interpreted on every kind of handle after an arbitrary history (sinc with 1, 2, 4, 6 and any number of channels) for all counts; on every path that returns success both result cells must have been assigned, '
                       'be whole, and lie between zero and the count given, zero for a negative request. Ranges of the remembered numbers are granted before the call when they are shown to hold after it (and hold after creation). src_callback_read is interpreted with converters that keep this contract, src_simple with a process call that does.')
    rep.assumptions = ASSUME + ['the user function returns no negative count', 'sample counts (frames times channels) fit a long, block sizes of the filter buffer stay below 2^26 samples']
    T = Tree(rep)
    ks = keys(T); mutable(T); mode_cells(T); process_functions(T); converter_effects(T)
    if tier == 'quick': ks = [k for k in ks if 'MEDIUM' not in k[0]]       # shares every instruction with the other sinc converters, differs in its table
    keep = common_ranges(rep, T, ks)
    jobs = [(conv, (T, n, c, case, keep[n])) for n, c in sorted(ks, key=lambda k: ('SINC' not in k[0], k[1] is not None)) for case in SIGNS]
    jobs += [(read, (T, n, c)) for n, c in ks] + [(simple, (T, t)) for t in T.enabled]
    pmap(rep, jobs)
