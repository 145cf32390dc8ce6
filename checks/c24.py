"""C24: no frame or sample count is cut to fewer bits than it may need."""
from .c07 import *

def judge(rep, I, what):
    n = I.counts.get('narrowings', 0)
    for e in I.events:
        if e.kind == 'narrow': rep.event('counts-keep-width', e, '%s: %s' % (what, e.msg))
        if e.kind == 'tofloat': rep.event('counts-keep-precision', e, '%s: %s' % (what, e.msg))
    rep.ok_n('counts-keep-width', n)
    rep.absorb(I)
    return n

def full(rep, T, name, C, keep):
    S = shape(T, name, C); I = S.I; I.merge_limit = 10 ** 6; I.keep_ret = True
    I, rets, x = process(T, S, facts=given(T, S, 'counts given', keep), coarse=6)
    rep.need(rets, 'src_process does not return')
    return judge(rep, I, 'src_process, %s' % S)

def rest(rep, T, fn, name, C, mode):
    """Any other call on a handle, converters cut off: they may store any count within what they are given."""
    S = shape(T, name, C, mode); I = S.I; I.merge_limit = 10 ** 6
    usercb(T, I)
    st, _ = havoc(T, S, keep={(S.h.obj.id, k) for k in mode_cells(T)}, pending='ptr')
    stub_effects(T, I, S)
    out = I.mkobj('opaque', 'area', None, array=True); n = fresh('frames', True); I.type_range(st, n, 64)
    e = I.mkobj('stack', 'error', const(4), init='undef')
    g = {'handle': S.h, 'double': fresh('ratio', False, maynan=True), 'long': n, 'float*': Ptr(out, ZERO), 'int*': Ptr(e, ZERO)}
    public(T, I, fn, g, st)
    return judge(rep, I, '%s, %s' % (fn, S))

def simple24(rep, T, name):
    I, st, chan = new_interp(T, None); I.merge_limit = 10 ** 6
    p, x = anydata(T, I, st, chan)
    stub_process(T, I, None, lambda I, s, i, a, n: [(s, ZERO)])
    rep.need(public(T, I, 'src_simple', {'data': p, 'int': [const(T.E[name]), chan]}, st), 'src_simple does not return')
    return judge(rep, I, 'src_simple, %s' % name)

def run(rep, tier):
    rep.explanation = ('Every public call that takes a handle or an SRC_DATA is interpreted with counts of any size. Wherever an integer is cut to fewer bits, or rounded to single precision, in code reached, the value must be shown to fit for every '
                       'count, history and channel count; quantities that follow the counts of the caller never do, those bounded by the filter buffer do.')
    rep.assumptions = ASSUME + ['sample counts (frames times channels) fit a long', 'arithmetic at one width does not overflow (undefined behaviour for signed types)', 'counts below 2^53 are exact as double']
    T = Tree(rep)
    ks = keys(T); mutable(T); mode_cells(T); process_functions(T); converter_effects(T)
    if tier == 'quick': ks = [k for k in ks if 'MEDIUM' not in k[0]]
    keep = common_ranges(rep, T, ks)
    jobs = [(full, (T, n, c, keep[n])) for n, c in sorted(ks, key=lambda k: ('SINC' not in k[0], k[1] is not None))]
    for fn in sorted(T.decls):
        ps = T.decls[fn].params
        if fn == 'src_process' or not ps or not is_handle(ps[0]) or fn not in T.M.functions or T.M.functions[fn].decl: continue
        jobs += [(rest, (T, fn, n, c, m)) for n, c in ks if c is None for m in ('process', 'callback')]
    jobs += [(simple24, (T, t)) for t in T.enabled]
    rep.need(sum(pmap(rep, jobs)), 'no integer is cut anywhere: the analysis saw no code')
