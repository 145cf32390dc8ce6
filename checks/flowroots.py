"""The typing of values by their dependence on samples, from the public calls that convert."""
from .common import *
from sa import flow

def analyse(T, rep=None):
    if hasattr(T, '_flow'): return T._flow
    roots = {}
    for fn, d in T.decls.items():
        F = T.M.functions.get(fn)
        if F is None or F.decl: continue
        ps = [p.replace(' ', '').replace('const', '') for p in d.params]
        if not any(is_handle(p) or 'SRC_DATA' in p for p in ps) and not F.ret.k == 'ptr': continue
        a = []
        for p in ps:
            a.append((flow.K, flow.D) if 'SRC_DATA' in p else (flow.K, flow.S) if p == 'float*' else (flow.K, flow.D) if p.endswith('*') and not is_handle(p) else (flow.K, flow.NOP))
        roots[fn] = a
    T._flow = flow.Flow(T.V, roots)
    return T._flow
