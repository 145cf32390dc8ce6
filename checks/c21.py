"""C21: every loop behind the public calls has a measure that bounds the number of its iterations, and nothing recurses."""
from .proc import *
from sa.report import pmap
SKIP = ('src_callback_read',)      # loops as long as the user's function supplies nothing; not covered by the property

def log(rep, I, what):
    r = set()
    for (f, h), (m, ok) in I.loop_log.items():
        rep.ob('loop-terminates', ok, '%s: the loop in %s has measure [%s]' % (what, f, m) if ok else '%s: no bound on the iterations of the loop in %s is shown' % (what, f), where(h.instrs[-1]))
        r.add((f, h.idx))
    rep.absorb(I)
    return r

def conv(rep, T, name, C):
    S = shape(T, name, C)
    S.I.rank_light = True; S.I.light_cands = [ratio_domain()]
    I, rets, x = process(T, S)
    rep.need(rets, 'src_process does not return')
    return log(rep, I, 'src_process, %s' % S)

def other(rep, T, fn, name, C, mode):
    """Any other public function, with arbitrary arguments."""
    if name is None: I, st, c = new_interp(T, None); S = None
    else:
        S = shape(T, name, C, mode); I = S.I; c = S.C
        st, _ = havoc(T, S, keep={(S.h.obj.id, k) for k in mode_cells(T)})
    I.max_states = 5000; I.coarse = 8
    usercb(T, I)
    args, lens = [], None
    for n, p in enumerate(T.decls[fn].params):
        q = p.replace('const', '').replace(' ', '')
        if is_handle(p): args.append(S.h)
        elif q.startswith(('SRC_DATA*', 'structSRC_DATA*')): args.append(anydata(T, I, st, c)[0])
        elif q == 'double': args.append(fresh('arg%d' % n, False, maynan=True))
        elif q in ('int', 'long', 'unsigned', 'unsignedint'):
            v = fresh('arg%d' % n, True); I.type_range(st, v, 64 if q == 'long' else 32); args.append(v)
        elif q == 'void*': args.append(Ptr(I.mkobj('opaque', 'userdata', None, array=True), ZERO))
        elif q in ('float*', 'short*', 'int*'): args.append(Ptr(I.mkobj('caller', 'area%d' % n, None, array=True, init='sym', esize={'s': 2}.get(q[0], 4)), ZERO))
        else: args.append(Ptr(I.mkobj('opaque', 'usercb', None, array=True), ZERO))
    if S is not None or any('SRC_DATA' in p for p in T.decls[fn].params):
        # converters are analysed on their own
        for n in process_functions(T): I.ext[n] = lambda I, s, i, a: [(s, ZERO), (s.copy(), ONE)]
    I.call(fn, args, st)
    return log(rep, I, fn)

def run(rep, tier):
    rep.explanation = ('src_process is interpreted on every kind of handle after an arbitrary history with arbitrary data; for every loop reached, on every way round, an integer or real measure taken from the facts of the '
                       'path must be bounded below and fall by a fixed amount. The other public functions are interpreted with arbitrary arguments likewise. Every loop of every function reachable from the public calls (other than '
                       'the callback read) must be among those analysed, and the call graph must have no cycle.')
    rep.assumptions = ASSUME + ['library functions (memcpy, malloc, ...) return', 'a failed assertion ends the call and is not counted as non-termination']
    T = Tree(rep)
    roots = [n for n in sorted(T.decls) if n not in SKIP and n in T.M.functions and not T.M.functions[n].decl]
    fs = [f for f in T.V.reach(roots) if f in T.M.functions and not T.M.functions[f].decl]
    succ = {f: set() for f in fs}
    for i, ts in T.V.callees.items():
        if i.fn.name in succ: succ[i.fn.name] |= {t for t in ts if isinstance(t, str) and t in succ}
    for f in fs:
        seen, work = set(), list(succ[f])
        while work:
            g = work.pop()
            if g not in seen: seen.add(g); work += succ[g]
        F = T.M.functions[f]
        rep.ob('no-recursion', f not in seen, '%s does not call itself' % f if f not in seen else '%s may call itself' % f, (F.file, F.line, f))
    ks = keys(T); pf = process_functions(T); mutable(T); mode_cells(T)
    loops = {(f, h.idx) for f in fs for h in (T.M.functions[f].loops or {})}
    jobs = [(conv, (T, n, c)) for n, c in sorted(ks, key=lambda k: (k[1] is not None, 'SINC' not in k[0]))]
    for fn in roots:
        if fn == 'src_process': continue
        r = T.V.reach([fn]) if fn != 'src_process' else ()
        if not any(f in r and f not in pf for f, h in loops): continue
        if any(is_handle(p) for p in T.decls[fn].params): jobs += [(other, (T, fn, n, c, m)) for n, c in ks for m in ('process', 'callback')]
        else: jobs.append((other, (T, fn, None, None, None)))
    done = set().union(*pmap(rep, jobs))
    for f, h in sorted(loops - done):
        b = next(b for b in T.M.functions[f].loops if b.idx == h)
        rep.ob('loop-terminates', False, 'the loop in %s is reachable from the public calls, but no analysed call shows that it ends' % f, where(b.instrs[-1]))
    rep.need(len(done) > 10, 'too few loops were analysed')
