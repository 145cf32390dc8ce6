"""C20: the header, the ELF version script, the Windows definition file and the definitions agree."""
import os, re, glob
from .common import *

def elf_script(text):
    text = re.sub(r'#[^\n]*', '', text); text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    exp, local, nodes = [], [], []
    for m in re.finditer(r'([\w@.$-]+)\s*\{(.*?)\}\s*([\w@.$-]*)\s*;', text, re.S):
        nodes.append((m.group(1), m.group(3)))
        mode = 'global'
        for tok in re.findall(r'(global\s*:|local\s*:|extern\s+"[^"]*"\s*\{|[^\s;{}]+)\s*;?', m.group(2)):
            t = tok.strip()
            if t.startswith('global'): mode = 'global'
            elif t.startswith('local'): mode = 'local'
            elif mode == 'global': exp.append(t)
            else: local.append(t)
    return exp, local, nodes
def win_def(text):
    text = re.sub(r';[^\n]*', '', text)
    out = []
    m = re.search(r'^\s*EXPORTS\s*$(.*)', text, re.S | re.M)
    if not m: return None
    for l in m.group(1).splitlines():
        p = l.split()
        if not p: continue
        if p[0].isupper() and len(p) > 1 and p[0] in ('LIBRARY', 'SECTIONS', 'STACKSIZE', 'HEAPSIZE', 'VERSION', 'NAME', 'DESCRIPTION'): break
        out.append((p[0], p[1:]))
    return out

def run(rep, tier):
    rep.explanation = ('Cross-check of four independently maintained lists: function declarations of the public header (clang AST), the global/local sections of the ELF version script, the '
                       'EXPORTS of the Windows definition files, and the externally linked definitions with their LLVM types in the linked IR. Each name and each pair of lists is an obligation.')
    rep.assumptions = ['the build systems hand the version script and the definition file to the linker as CMakeLists.txt and configure.ac say']
    T = Tree(rep, want_vsa=False); M = T.M
    api_ = set(T.decls)
    rep.need(len(api_) >= 15, 'public header declares too few functions')
    hdr = (os.path.join(T.repo, 'include/samplerate.h'), 0, None)
    for n in sorted(api_):
        F = M.functions.get(n)
        d = F is not None and not F.decl
        rep.ob('defined', d, '%s is defined' % n if d else '%s is declared by the header but not defined' % n, hdr)
        if d:
            t = (repr(F.ret), [repr(a.ty) for a in F.args])
            rep.ob('type', t == T.types.get(n), '%s has the declared type' % n if t == T.types.get(n) else '%s is defined as %r but declared as %r' % (n, t, T.types.get(n)), (F.file, F.line, n))
            rep.ob('linkage', F.linkage == 0 and F.visibility == 0, '%s is externally visible' % n if F.linkage == 0 and F.visibility == 0 else '%s cannot be linked to: internal or hidden' % n, (F.file, F.line, n))
    vs = os.path.join(T.repo, 'src/Version_script.in')
    rep.need(os.path.exists(vs), 'src/Version_script.in vanished')
    exp, local, nodes = elf_script(open(vs).read())
    rep.need(len(exp) >= 10, 'version script not understood')
    w = (vs, 0, None)
    for n in sorted(api_): rep.ob('elf-list', exp.count(n) == 1, '%s is exported' % n if exp.count(n) == 1 else '%s is listed %d times in the ELF version script' % (n, exp.count(n)), w)
    for n in sorted(set(exp) - api_):
        rep.ob('elf-list', False, 'the ELF version script exports %s, which the header does not declare' % n, w)
    rep.ob('elf-local', '*' in local, 'everything else is local' if '*' in local else 'the ELF version script does not hide other symbols (local: *)', w)
    names = [a for a, b in nodes]
    for a, b in nodes: rep.ob('elf-nodes', not b or b in names, 'version node %s' % a if not b or b in names else 'version node %s depends on %s, which does not exist' % (a, b), w)
    rep.ob('elf-nodes', len(set(names)) == len(names), 'version nodes are distinct', w)
    defs = sorted(glob.glob(os.path.join(T.repo, 'Win32', '*.def')))
    rep.need(defs, 'no Windows definition file')
    for f in defs:
        ex = win_def(open(f).read()); rep.need(ex, 'EXPORTS of %s not understood' % f)
        w = (f, 0, None); nm = [a.split('=')[0] for a, b in ex]
        for n in sorted(api_): rep.ob('win-list', nm.count(n) == 1, '%s is exported' % n if nm.count(n) == 1 else '%s is listed %d times in %s' % (n, nm.count(n), os.path.basename(f)), w)
        for n in sorted(set(nm) - api_): rep.ob('win-list', False, '%s exports %s, which the header does not declare' % (os.path.basename(f), n), w)
        ords = [x for a, b in ex for x in b if x.startswith('@')]
        rep.ob('win-ordinals', len(set(ords)) == len(ords), 'ordinals are distinct' if len(set(ords)) == len(ords) else 'two exports share an ordinal: %s' % sorted(x for x in set(ords) if ords.count(x) > 1), w)
        for a, b in ex:
            if '=' in a: rep.ob('win-list', a.split('=')[1] == a.split('=')[0], '%s is not an alias' % a, w)
    # internal functions: hidden by attribute, local by the script, or static
    for F in M.functions.values():
        if F.decl or F.name in api_ or F.linkage not in (0,): continue
        ok = F.visibility == 1
        rep.ob('internal-hidden', ok, '%s is not visible' % F.name if ok else '%s is visible outside the library' % F.name, (F.file, F.line, F.name))
    for G in M.globals.values():
        if G.decl or G.linkage != 0: continue
        rep.ob('internal-hidden', '*' in local, 'object %s is not visible' % G.name if '*' in local else 'object %s is visible outside the library' % G.name, (None, 0, G.name))
