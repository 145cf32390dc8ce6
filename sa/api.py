"""The public interface as the header declares it, and the numbering of internal error codes (both type-checked by clang)."""
import json, os
from .build_ir import _run, FrontEndError
from . import ir

class Decl:
    def __init__(s, name, ret, params): s.name, s.ret, s.params = name, ret, params
    def __repr__(s): return '%s %s(%s)' % (s.ret, s.name, ', '.join(s.params))

def _ast(build, text, name):
    src = os.path.join(build.dir, name + '.c')
    with open(src, 'w') as f: f.write(text)
    flags = build.units[0][1]
    o = _run(['clang', *flags, '-I' + os.path.join(build.repo, 'include'), '-I' + os.path.join(build.repo, 'src'), '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', src])
    return json.loads(o[o.index('{'):])

def declarations(build):
    """{name: Decl} of every function declared by the public header."""
    if build.units is None: build.configure()
    d = _ast(build, '#include "samplerate.h"\n', 'api')
    out = {}
    def tyname(t): return t.get('desugaredQualType', t['qualType']) if t['qualType'] == 'src_callback_t' else t['qualType']
    for n in d['inner']:
        if n['kind'] == 'FunctionDecl' and not n.get('isImplicit'):
            ps = [p['type']['qualType'] for p in n.get('inner', ()) if p['kind'] == 'ParmVarDecl']
            out[n['name']] = Decl(n['name'], n['type']['qualType'].split('(')[0].strip(), ps)
    return out

def declared_types(build, decls):
    """LLVM function types of the declarations."""
    src = os.path.join(build.dir, 'decls.c')
    with open(src, 'w') as f:
        f.write('#include "samplerate.h"\nvoid *sa_all [] = {%s} ;\n' % ', '.join('(void *) %s' % n for n in decls))
    bc = os.path.join(build.dir, 'decls.bc')
    _run(['clang', *build.units[0][1], '-I' + os.path.join(build.repo, 'include'), '-w', '-O0', '-emit-llvm', '-c', src, '-o', bc])
    m = ir.load(bc)
    return {n: (repr(f.ret), [repr(a.ty) for a in f.args]) for n, f in m.functions.items()}

ERR = ['NO_ERROR', 'MALLOC_FAILED', 'BAD_STATE', 'BAD_DATA', 'BAD_DATA_PTR', 'BAD_SRC_RATIO', 'BAD_CONVERTER', 'BAD_CHANNEL_COUNT', 'DATA_OVERLAP',
       'BAD_CALLBACK', 'BAD_MODE', 'NULL_CALLBACK', 'BAD_INTERNAL_STATE']
def error_codes(build):
    if build.units is None: build.configure()
    flags = max((u[1] for u in build.units), key=len)
    src = os.path.join(build.dir, 'errs.c')
    with open(src, 'w') as f:
        f.write('#include "config.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include "samplerate.h"\n#include "common.h"\nlong sa_err [] = {%s} ;\n' % ', '.join('SRC_ERR_' + e for e in ERR))
    bc = os.path.join(build.dir, 'errs.bc')
    _run(['clang', *flags, '-I' + os.path.join(build.repo, 'include'), '-I' + os.path.join(build.repo, 'src'), '-w', '-O0', '-emit-llvm', '-c', src, '-o', bc])
    m = ir.load(bc)
    init = m.globals['sa_err'].init
    if init.kind != 'agg': raise FrontEndError('error code table')
    return {e: int(c.v) for e, c in zip(ERR, init.v)}

def macros(build, names):
    if build.units is None: build.configure()
    src = os.path.join(build.dir, 'mac.c')
    with open(src, 'w') as f: f.write('#ifdef HAVE_CONFIG_H\n#include "config.h"\n#endif\n')
    flags = build.units[0][1]
    o = _run(['clang', *flags, '-I' + os.path.join(build.repo, 'src'), '-w', '-E', '-dM', src])
    d = {}
    for l in o.splitlines():
        p = l.split(None, 2)
        if len(p) >= 2 and p[0] == '#define': d[p[1]] = p[2] if len(p) > 2 else ''
    return {n: d.get(n) for n in names}
