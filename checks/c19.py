"""C19: the filter tables, decided on their constant initialisers."""
import math, cmath, re
from .common import *
from .shapes import shapes, owned
from .c17 import cstr

def fft(a):
    n = len(a); a = list(a)
    j = 0
    for i in range(1, n):
        b = n >> 1
        while j & b: j ^= b; b >>= 1
        j |= b
        if i < j: a[i], a[j] = a[j], a[i]
    size = 2
    while size <= n:
        h = size // 2
        w = [cmath.exp(-2j * math.pi * k / size) for k in range(h)]
        for s in range(0, n, size):
            for k in range(h):
                x = a[s + k]; y = a[s + k + h] * w[k]
                a[s + k] = x + y; a[s + k + h] = x - y
        size *= 2
    return a

def run(rep, tier):
    rep.explanation = ('The tables are constants of the program: they are read from the global initialisers the handle of each sinc converter points to (found by interpreting creation), and '
                       'their length, end, symmetry-sum per phase, difference sequences and discrete Fourier transform are computed exactly as defined; bandwidth and signal-to-noise '
                       'figures are those advertised in the converter\'s own description string.')
    rep.assumptions = ASSUME + ['the frequency response of the table is that of the converter (interpolation between entries adds less)']
    T = Tree(rep, want_vsa=False)
    names = [n for n in T.enabled if 'SINC' in n]
    rep.need(names, 'no sinc converter is built')
    seen = {}
    for S in shapes(T, names):
        I, st = S.I, S.st; rep.absorb(I)
        F = T.M.functions['src_new']; w = (F.file, F.line, 'creation of %s' % S.conv_name)
        tabs = []; ints = set(); whole = set()
        for o, c in owned(I, st, S.h):
            for (oid, k), (v, sz) in st.mem.items():
                if oid != o.id: continue
                if isinstance(v, Ptr) and v.obj.kind == 'global':
                    if v.obj.array and v.obj.esize == 4 and (I.root(v.obj).g.init is not None): tabs.append(v)
                    elif v.obj.g.ty.k == 'struct' and any(t.k == 'arr' and t.el.k == 'f' for t in v.obj.g.ty.elems):
                        whole.add(v.obj.g.name)
                        t = v.obj.g.ty; n = next(i for i, e in enumerate(t.elems) if e.k == 'arr' and e.el.k == 'f')
                        tabs.append(Ptr(I.sub_obj(v.obj, t.offs[n], t.elems[n].size, t.elems[n].el.size), ZERO))
                elif isinstance(v, Poly) and v.cval() is not None: ints.add(v.cval())
        rep.ob('table-found', len({t.obj.id for t in tabs}) == 1, '%s uses one table' % S if tabs else '%s has no coefficient table' % S, w)
        if not tabs: continue
        t = tabs[0]; g = I.root(t.obj).g
        rep.ob('table-start', not t.off.t and g.const, '%s points to the start of constant %s' % (S, g.name), w)
        n = next((i for i, e in enumerate(g.ty.elems) if e.k == 'arr'), None) if g.ty.k == 'struct' else None
        rep.need(n is not None, 'the table %s carries no oversampling factor' % g.name)
        arr = g.init.v[n]; c = [x.v for x in arr.v] if arr.kind == 'agg' else [0.0] * g.ty.elems[n].n
        inc = next((x.v for x, e in zip(g.init.v, g.ty.elems) if e.k == 'i'), None)
        rep.need(isinstance(inc, int) and inc > 0, 'oversampling factor of %s not found' % g.name)
        L = len(c)
        wt = (g.name, 0, g.name)
        ok = inc in ints or g.name in whole
        rep.ob('oversampling-used', ok, '%s uses step %d of its table' % (S, inc) if ok else '%s does not use the oversampling %d of its table %s' % (S, inc, g.name), w)
        ok = any(k in ints for k in (L - 2, L - 1, L)) or g.name in whole
        rep.ob('length-used', ok, '%s uses the length of its table' % S if ok else '%s does not use the length %d of its table %s' % (S, L, g.name), w)
        d = Interp(T.M).call('src_get_description', [const(S.conv)], State())
        txt = cstr(T, d[0][1]) or ''
        m = re.search(r'(\d+)\s*dB\s*SNR', txt); b = re.search(r'(\d+)\s*%\s*BW', txt)
        rep.need(m and b, 'description of %s advertises no figures' % S.conv_name)
        key = (g.name, m.group(1), b.group(1))
        if key in seen: continue
        seen[key] = 1
        snr, bw = int(m.group(1)), int(b.group(1)) / 100.0
        ok = all(x == x and abs(x) < 2 for x in c)
        rep.ob('finite', ok, '%s: %d finite values' % (g.name, L) if ok else '%s has a non-finite or huge entry' % g.name, wt)
        if not ok: continue
        rep.ob('ends-silent', c[-1] == 0 and abs(c[-2]) < 10 ** (-snr / 20.0), '%s ends with 0' % g.name if c[-1] == 0 else '%s ends with %g instead of silence' % (g.name, c[-1]), wt)
        tol = 10 ** (-snr / 20.0)
        for ph in range(inc):
            s = math.fsum(c[ph::inc]) + math.fsum(c[inc - ph::inc])
            rep.ob('dc-gain', abs(s - 1) <= tol, '%s phase %d/%d: gain %.9f' % (g.name, ph, inc, s), wt)
        rep.ob('peak', all(abs(x) < c[0] for x in c[1:]) and c[0] > 0, '%s has its peak at the centre' % g.name, wt)
        # main lobe falls, and no isolated wrong value (fourth differences bounded by band limit and rounding)
        z = next(i for i, x in enumerate(c) if x <= 0)
        bad = [i for i in range(z) if c[i + 1] >= c[i]]
        rep.ob('main-lobe', not bad, '%s falls over its main lobe of %d entries' % (g.name, z) if not bad else '%s rises at entry %d' % (g.name, bad[0]), wt)
        cc = c[:0:-1] + c
        lim0 = c[0] * (math.pi / inc) ** 4
        for i in range(2, len(cc) - 2):
            d4 = cc[i - 2] - 4 * cc[i - 1] + 6 * cc[i] - 4 * cc[i + 1] + cc[i + 2]
            lim = lim0 + 24 * 2.0 ** -24 * max(abs(x) for x in cc[i - 2:i + 3])
            if i < L - 1 or i >= len(cc) - 4: continue          # the last entries are the truncation edge: rule ends-silent
            rep.ob('smooth', abs(d4) <= lim, '%s entry %d: fourth difference %.3g' % (g.name, i - L + 1, d4) if abs(d4) <= lim else '%s: the value at or next to entry %d (%g) does not fit its neighbours' % (g.name, i - L + 1, cc[i]), wt)
        N = 1
        while N < 2 * len(cc): N *= 2
        X = fft(cc + [0.0] * (N - len(cc)))
        mag = [abs(x) / inc for x in X[:N // 2 + 1]]
        lo = int(math.ceil((1 - bw / 2) * N / inc)); worst = max(range(lo, len(mag)), key=lambda k: mag[k])
        db = 20 * math.log10(max(mag[worst], 1e-30))
        rep.ob('images', db <= -snr, '%s: images attenuated by %.1f dB from %.3f fs on (advertised %d dB, %d frequencies)' % (g.name, -db, lo * inc / N, snr, len(mag) - lo) if db <= -snr else
               '%s lets an image at %.3f fs through at %.1f dB (advertised %d dB)' % (g.name, worst * inc / N, db, snr), wt)
        hi = int(math.floor(bw / 2 * N / inc)); lowest = min(range(0, hi + 1), key=lambda k: mag[k]); db = 20 * math.log10(max(mag[lowest], 1e-30))
        rep.ob('bandwidth', db >= -3.02, '%s: passband to %.3f fs down by at most %.2f dB' % (g.name, hi * inc / N, -db), wt)
        half = int(0.6 * hi); rip = max(abs(x - 1) for x in mag[:half + 1])
        rep.ob('flat', rip <= 10 ** (-60 / 20.0), '%s: flat to %.3f fs within %.2g' % (g.name, half * inc / N, rip), wt)
    rep.need(seen, 'no table was analysed')
    # every table of the build belongs to a converter
    rep.counts['tables'] = len(seen)
