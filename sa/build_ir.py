"""Front end: the current source tree of the library -> one linked LLVM module (bitcode file).

Nothing is executed; cmake is used to get the real translation units, definitions and config.h,
clang to type-check and lower them, llvm-link and opt (mem2reg-style SROA, loop-simplify) to
normalise the representation."""
import json, os, re, shlex, shutil, subprocess, tempfile

REPO = os.environ.get('SA_REPO', '/repo')

class FrontEndError(Exception):
    pass

def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise FrontEndError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

class Build:
    """Scratch build directory, removed by close()."""
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = tempfile.mkdtemp(prefix='sa_ir_')
        self.units = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    def configure(self):
        cfg = os.path.join(self.dir, 'cfg')
        inc = '/opt/vp/no_high_qual.cmake'
        cmd = ['cmake', '-S', self.repo, '-B', cfg, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
               '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O2 -g', '-DBUILD_TESTING=OFF',
               '-DLIBSAMPLERATE_EXAMPLES=OFF', '-DLIBSAMPLERATE_ENABLE_SINC_BEST_CONVERTER=OFF',
               '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON']
        if os.path.exists(inc):
            cmd.append('-DCMAKE_PROJECT_INCLUDE=' + inc)
        env = dict(os.environ, LC_ALL='C')
        for k in ('CFLAGS', 'CPPFLAGS', 'LDFLAGS'):
            env.pop(k, None)
        _run(cmd, env=env)
        db = json.load(open(os.path.join(cfg, 'compile_commands.json')))
        units, seen = [], set()
        for e in db:
            src = os.path.normpath(os.path.join(e['directory'], e['file']))
            if src in seen or not src.startswith(os.path.join(self.repo, 'src') + os.sep):
                continue
            seen.add(src)
            args = shlex.split(e['command']) if 'command' in e else e['arguments']
            keep, i = [], 1
            while i < len(args):
                a = args[i]
                if a in ('-o', '-c', '-MF', '-MT', '-MQ'):
                    i += 2 if a != '-c' else 1
                    continue
                if a in ('-I', '-isystem', '-D', '-U', '-include'):
                    keep += [a, args[i + 1]]; i += 2; continue
                if a.startswith(('-I', '-D', '-U', '-std', '-isystem', '-f')) and not a.startswith(('-fdiag',)):
                    keep.append(a)
                i += 1
            units.append((src, keep))
        if not units:
            raise FrontEndError('no library translation units found')
        self.units = units
        return units

    def compile(self, defines=(), extra=(), tag='base', passes='function(sroa,loop-simplify)'):
        """Returns the path of the linked, normalised bitcode for one configuration."""
        if self.units is None:
            self.configure()
        out = os.path.join(self.dir, tag)
        os.makedirs(out, exist_ok=True)
        bcs, procs = [], []
        for n, (src, flags) in enumerate(self.units):
            bc = os.path.join(out, '%d_%s.bc' % (n, os.path.basename(src)))
            cmd = ['clang', *flags, *['-D' + d if not d.startswith('-') else d for d in defines], *extra, '-g', '-O0', '-w',
                   '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-emit-llvm', '-c', src, '-o', bc]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            bcs.append(bc)
        for cmd, pr in procs:
            o, _ = pr.communicate()
            if pr.returncode != 0:
                raise FrontEndError('clang failed: %s\n%s' % (' '.join(cmd), o[-4000:]))
        linked = os.path.join(out, 'linked.bc')
        _run(['llvm-link', *bcs, '-o', linked])
        final = os.path.join(out, 'final.bc')
        _run(['opt', '-passes=' + passes, linked, '-o', final])
        return final

def data_layout(build):
    """Byte offsets of the public SRC_DATA members and the public enumerators, from the header, by
    compiling (not running) a table of offsetof expressions."""
    from . import ir
    names = ['data_in', 'data_out', 'input_frames', 'output_frames', 'input_frames_used', 'output_frames_gen', 'end_of_input', 'src_ratio']
    enums = ['SRC_SINC_BEST_QUALITY', 'SRC_SINC_MEDIUM_QUALITY', 'SRC_SINC_FASTEST', 'SRC_ZERO_ORDER_HOLD', 'SRC_LINEAR']
    if build.units is None: build.configure()
    src = os.path.join(build.dir, 'layout.c')
    with open(src, 'w') as f:
        f.write('#include <stddef.h>\n#include "samplerate.h"\nlong sa_offs[] = {%s, sizeof (SRC_DATA)} ;\nlong sa_enum[] = {%s} ;\n' % (
            ', '.join('offsetof (SRC_DATA, %s)' % n for n in names), ', '.join(enums)))
    bc = os.path.join(build.dir, 'layout.bc')
    flags = build.units[0][1]
    _run(['clang', *flags, '-I' + os.path.join(build.repo, 'include'), '-w', '-O0', '-emit-llvm', '-c', src, '-o', bc])
    m = ir.load(bc)
    o = [c.v for c in m.globals['sa_offs'].init.v] if m.globals['sa_offs'].init.kind == 'agg' else None
    e = [c.v for c in m.globals['sa_enum'].init.v]
    r = dict(zip(names, o)); r['sizeof'] = o[-1]
    return r, dict(zip(enums, e))
