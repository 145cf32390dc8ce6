"""C18: the sample format helpers scale by the exact power of two, round to nearest, saturate, and touch exactly len elements."""
from .common import *
from sa.report import pmap
HALF = const(Fraction(1, 2))
WIDTH = {'short': 16, 'int': 32, 'float': 32}

def helpers(T, rep):
    """(function, input type, output type) of every declared format conversion."""
    out = []
    for n, d in sorted(T.decls.items()):
        ps = [p.replace('const', '').replace(' ', '') for p in d.params]
        if len(ps) == 3 and ps[2] == 'int' and {ps[0], ps[1]} <= {'short*', 'int*', 'float*'} and 'float*' in ps[:2] and ps[0] != ps[1]:
            out.append((n, ps[0][:-1], ps[1][:-1]))
    rep.need(len(out) == 4, 'format conversion functions not found')
    return out

def covered(s, entries, n):
    """The ranges and elements written together are [0, n)."""
    F = s.facts; rs = []
    for e in entries:
        if e[0] == 'map': rs.append((e[1], e[2]))
        elif e[0] == 'elem': rs.append((e[1], e[1] + e[2]))
        elif e[0] == 'fill': rs.append((e[1], e[2]))
        else: return False
    at, used = ZERO, set()
    for _ in range(len(rs) + 1):
        if F.entails_eq(at - n): return True
        for i, (a, b) in enumerate(rs):
            if i not in used and F.entails_eq(a - at): at = b; used.add(i); break
        else: return False
    return F.entails_eq(at - n)

def one(rep, T, fn, it, ot):
    f = T.M.functions[fn]
    rep.need(not f.decl, '%s is not defined' % fn)
    isz, osz = WIDTH[it] // 8, WIDTH[ot] // 8
    toint = ot != 'float'; bits = WIDTH[ot] if toint else WIDTH[it]; scale = 1 << (bits - 1)
    hi, lo = scale - 1, -scale
    for pos in (True, False):
        I = Interp(T.M); I.maps = True; I.check_conv = True; I.merge_limit = 10 ** 6; st = State(); I.C = None; I.max_states = 2000
        n = fresh('len', True); I.type_range(st, n, 32)
        st.facts = st.facts.add(n - 1) if pos else st.facts.add(-n)
        N = n if pos else ZERO
        a = I.mkobj('caller', 'in', N * isz, array=True, init='sym'); b = I.mkobj('caller', 'out', N * osz, array=True, init='undef')
        touched = []
        def element(I, s, off, x, at):
            """x is the input element that belongs to the output element at off."""
            o, so, c = x.args
            return o == a.id and s.facts.entails_eq(so.scale(osz) - off.scale(isz))
        def store(I, s, i, ptr, v, ty):
            if I.mute: return
            if ptr.obj is not b:
                if ptr.obj.kind == 'caller': rep.ob('writes-output-only', False, '%s writes its input' % fn, where(i))
                return
            touched.append(i)
            if isinstance(v, tuple):
                rep.ob('element-value', False, '%s: a block of the output is written without conversion' % fn, where(i)); return
            ok, why = value(I, s, ptr.off, v, i)
            rep.ob('element-value', ok, '%s: %s' % (fn, why), where(i))
        def value(I, s, off, v, i):
            if not isinstance(v, Poly): return False, 'the stored value is not understood (%r)' % (v,)
            F = s.facts
            xs = {x for x in inputs if True}
            if not toint:
                at = [ATOMS[k] for k in v.atoms() if ATOMS[k].kind == 'S']
                if len(at) != 1 or not element(I, s, off, at[0], i): return False, 'the value stored is not computed from the input element of the same index'
                ok = v == atom(at[0]).scale(Fraction(1, scale))
                return ok, 'input / %d' % scale if ok else 'the value stored is [%r], not the input divided by %d' % (v, scale)
            at = [ATOMS[k] for k in inputs if element(I, s, off, ATOMS[k], i)]
            if not at: return False, 'the input element of the same index is not read'
            why = ''
            for x in at:
                y = atom(x).scale(scale)
                if v.cval() == hi and F.entails(y - hi + HALF): return True, 'clamped to %d where input * %d rounds to no less' % (hi, scale)
                if v.cval() == lo and F.entails(const(lo) + HALF - y): return True, 'clamped to %d where input * %d rounds to no more' % (lo, scale)
                near = F.entails(v - y + HALF) and F.entails(y - v + HALF)
                if not v.isint(): return False, 'the value stored is not an integer'
                fit = I.fits(s, v, lo, hi)
                if near and fit: return True, 'nearest integer of input * %d, shown to fit' % scale
                why = 'the value [%r] %s' % (v, 'is not shown to fit %d bits' % bits if near else 'is not shown to be the integer nearest to input * %d (or the bound it exceeds)' % scale)
            return False, why + ' on the path ' + '; '.join(s.trail()[-4:])
        inputs = set()
        def load(I, s, i, ptr, ty):
            if ptr.obj is a and not I.mute: touched.append(i)
            if ptr.obj is a and isinstance(ty, tuple): inputs.add(None)
        _elem = I.elem_atom
        def elem_atom(o, off, c, ty):
            v = _elem(o, off, c, ty)
            if o is a and isinstance(v, Poly): inputs.add(v.single().id)
            return v
        I.elem_atom = elem_atom
        I.on_store.append(store); I.on_load.append(load)
        given = [Ptr(a, ZERO), Ptr(b, ZERO), n]
        rets = I.call(fn, given, st)
        inputs.discard(None)
        w = (f.file, f.line, fn)
        rep.need(rets, '%s does not return' % fn)
        for e in I.events:
            if e.kind in ('oob', 'unkptr', 'symoff', 'uninit', 'norank', 'narrow', 'convrange', 'abort', 'unkcall', 'gstore', 'badfree', 'nullderef', 'divzero'): rep.event('no-fault', e, '%s: %s' % (fn, e.msg))
        if not pos:
            rep.ob('nothing-for-no-elements', not touched, '%s touches neither area when len <= 0' % fn if not touched else '%s reads or writes an area although len <= 0' % fn, w if not touched else where(touched[0])); continue
        rep.need(touched, '%s: no store into the output area was analysed' % fn)
        for s, v in rets:
            c = s.arr.get(b.id, (('undef', b.id),))
            ok = c[0][0] == 'undef' and covered(s, c[1:], n * osz)
            rep.ob('exactly-len', ok, '%s writes exactly the first len elements' % fn if ok else '%s is not shown to write each of the first len elements: %s' % (fn, [e[:3] for e in c]), w)
        rep.absorb(I)

def run(rep, tier):
    rep.explanation = ('Each helper is interpreted for an arbitrary len and arbitrary input values; every store is compared with the specification (exact division; or product with the power of two, clamped where it rounds to the bound or '
                       'beyond, otherwise the nearest integer), and the ranges written by its loops must add up to the first len elements.')
    rep.assumptions = ASSUME + ['input samples are finite; products with a power of two are exact; lrint rounds to nearest (default rounding mode)']
    T = Tree(rep)
    pmap(rep, [(one, (T, f, i, o)) for f, i, o in helpers(T, rep)])
