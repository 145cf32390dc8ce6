"""Shared set-up of the checks: the current tree, type-checked, lowered and linked."""
from fractions import Fraction
from sa.build_ir import Build, data_layout
from sa import ir, api, vsa, lin
from sa.report import Broken
from sa.interp import *
from sa.poly import *
from sa.ctx import Shape, new_interp, set_scale, mkdata

class Tree:
    """One configuration of the current source tree."""
    def __init__(self, rep=None, defines=(), extra=(), want_vsa=True, tag='base', passes=None):
        with Build() as b:
            self.units = [u[0] for u in b.configure()]
            self.repo = b.repo
            self.M = ir.load(b.compile(defines, extra, tag, **({'passes': passes} if passes else {})))
            self.decls = api.declarations(b)
            self.types = api.declared_types(b, self.decls)
            self.err = api.error_codes(b)
            self.mac = api.macros(b, ['ENABLE_SINC_FAST_CONVERTER', 'ENABLE_SINC_MEDIUM_CONVERTER', 'ENABLE_SINC_BEST_CONVERTER', 'CONFIG_CHAN_NR'])
            self.L, self.E = data_layout(b)
            self.flags = b.units[0][1]
        self.enabled = ['SRC_ZERO_ORDER_HOLD', 'SRC_LINEAR'] + [n for n, m in (('SRC_SINC_FASTEST', 'FAST'), ('SRC_SINC_MEDIUM_QUALITY', 'MEDIUM'), ('SRC_SINC_BEST_QUALITY', 'BEST'))
                        if self.mac['ENABLE_SINC_%s_CONVERTER' % m] is not None]
        self.maxch = int(self.mac['CONFIG_CHAN_NR'] or 128)
        self.V = vsa.VSA(self.M, {d.name: [is_handle(p) for p in d.params] for d in self.decls.values()}) if want_vsa else None
        if rep is not None:
            rep.units = self.units
            rep.need(len(self.units) >= 4, 'library sources not found')
            need = ['src_new', 'src_clone', 'src_callback_new', 'src_delete', 'src_process', 'src_callback_read', 'src_simple', 'src_set_ratio', 'src_get_channels', 'src_reset', 'src_error']
            for n in need: rep.need(n in self.M.functions and not self.M.functions[n].decl, 'public function %s is not defined' % n)
            rep.functions |= {f.name for f in self.M.functions.values() if not f.decl}

def is_handle(p): return p.replace(' ', '').replace('struct', '').startswith(('SRC_STATE*', 'SRC_STATE_tag*'))

def where(i): return (i.file or i.fn.file, i.line or next((j.line for j in i.bb.instrs[i.idx:] if j.line), i.fn.line), i.fn.name)

ASSUME = ['caller-supplied areas and handles are valid and live, as the interface requires',
          'source built by the C compiler behaves as clang/LLVM 18 lowers it; C integer overflow does not occur where lengths fit memory']
