"""Outcome of one check: obligations, violations, evidence file, exit status."""
import json, os, sys, time, multiprocessing, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Broken(Exception):
    """The analysis itself could not be carried out (an anchor vanished, nothing was analysed, ...)."""

class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.rules = {}            # rule -> [obligations, discharged]
        self.viol = []             # dicts
        self.samples = {}
        self.counts = {}
        self.functions = set()
        self.loops = {}
        self.assumptions = []
        self.explanation = ''
        self.units = []
        self.notes = []
        self.expect = {}
    # ---------------------------------------------------------------- recording
    def ob(self, rule, ok, what, where=None, detail=None):
        """One obligation of a rule.  where: (file, line, function)."""
        r = self.rules.setdefault(rule, [0, 0]); r[0] += 1
        if ok: r[1] += 1
        else: self.viol.append(dict(rule=rule, what=what, file=where[0] if where else None, line=where[1] if where else 0,
                                    function=where[2] if where and len(where) > 2 else None, detail=detail))
        s = self.samples.setdefault(rule, [])
        if ok and len(s) < 3: s.append(what if not where else '%s:%s %s' % (os.path.basename(str(where[0])), where[1], what))
        return ok
    def ok_n(self, rule, n, what=None):
        r = self.rules.setdefault(rule, [0, 0]); r[0] += n; r[1] += n
        if what: self.samples.setdefault(rule, []).append(what)
    def event(self, rule, e, what=None):
        """An analysis event that contradicts a rule."""
        return self.ob(rule, False, what or e.msg, (e.file, e.line, e.fn), dict(path=e.trail[-12:], callers=['%s (%s:%s)' % (a, os.path.basename(b or '?'), c) for a, b, c in e.stack]))
    def absorb(self, I, rule_loops=True):
        """Add the coverage counters of an interpreter."""
        for k, v in I.counts.items(): self.counts[k] = self.counts.get(k, 0) + v
        self.functions |= I.seen_fn
        for (f, h), v in I.loop_log.items(): self.loops.setdefault('%s:%s' % (f, h.instrs[-1].line or h.idx), v)
    def merge(self, o):
        for k, (a, b) in o.rules.items():
            r = self.rules.setdefault(k, [0, 0]); r[0] += a; r[1] += b
        self.viol += o.viol
        for k, v in o.samples.items():
            s = self.samples.setdefault(k, []); s += v[:max(0, 3 - len(s))]
        for k, v in o.counts.items(): self.counts[k] = self.counts.get(k, 0) + v
        self.functions |= o.functions
        self.loops.update(o.loops); self.notes += o.notes
    def need(self, cond, what):
        if not cond: raise Broken(what)
    # ---------------------------------------------------------------- finishing
    def finish(self, known):
        seen, new, old = set(), [], []
        for v in self.viol:
            k = (v['rule'], v['file'], v['line'], v['function'], v['what'])
            if k in seen: continue
            seen.add(k)
            for kf in known:
                if all(str(v.get(f) or '').find(x) >= 0 for f, x in kf['match'].items()):
                    old.append((kf, v)); break
            else: new.append(v)
        tot = sum(a for a, b in self.rules.values()); dis = sum(b for a, b in self.rules.values())
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', wall_s=round(time.time() - self.t0, 2),
                  violations=len(new), assumptions=self.assumptions,
                  coverage=dict(explanation=self.explanation, obligations=tot, discharged=dis,
                                rules={k: dict(obligations=a, discharged=b, samples=self.samples.get(k, [])[:3]) for k, (a, b) in sorted(self.rules.items())},
                                analysed=dict(translation_units=[os.path.relpath(u, os.environ.get('SA_REPO', '/repo')) for u in self.units],
                                              functions=sorted(self.functions), counters=self.counts,
                                              loops={k: (list(v) if isinstance(v, tuple) else v) for k, v in sorted(self.loops.items())}),
                                notes=self.notes, known_findings=[k['text'] for k, v in old], reports=new[:40]))
        d = os.environ.get('SA_EVID') or os.path.join(ROOT, 'evidence'); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        for t in sorted({k['text'] for k, v in old}): print('KNOWN-FINDING: property=%s %s' % (self.pid, t))
        if new:
            rp = os.path.join(d, 'replay_%s.txt' % self.pid)
            with open(rp, 'w') as f:
                for v in new:
                    f.write('%s: %s\n  at %s:%s in %s\n' % (v['rule'], v['what'], v['file'], v['line'], v['function']))
                    if v['detail']: f.write('  ' + json.dumps(v['detail'], default=str) + '\n')
            for v in new[:12]: print('  %s: %s [%s:%s %s]' % (v['rule'], v['what'][:300], os.path.basename(str(v['file'] or '')), v['line'], v['function'] or ''))
            if len(new) > 12: print('  ... %d more in %s' % (len(new) - 12, rp))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: held; %d obligations of %d rules discharged, %d functions, %.1f s' % (self.pid, dis, len(self.rules), len(self.functions), time.time() - self.t0))
        return 0

def load_known(pid):
    """known_findings.txt: 'known: property=<id> <field>=<substring>[; <field>=<substring>] :: <text>' per line."""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if not os.path.exists(p): return out
    for l in open(p):
        l = l.strip()
        if not l.startswith('known:'): continue
        head, text = l[6:].split('::', 1)
        head = head.strip()
        pr, rest = head.split(None, 1)
        if pr != 'property=' + pid: continue
        m = dict(x.strip().split('=', 1) for x in rest.split(';'))
        out.append(dict(match=m, text=text.strip()))
    return out

# -------------------------------------------------------------------- parallel jobs
_jobs = None
def _one(n):
    f, a, pid, tier = _jobs[n]
    r = Report(pid, tier)
    try:
        x = f(r, *a)
        return (r, x, None)
    except Exception as e:
        return (r, None, '%s\n%s' % (e, traceback.format_exc()))
def pmap(rep, jobs, procs=None):
    """Run (function, args) jobs in forked workers; each gets its own Report, merged into rep.  Returns the results."""
    global _jobs
    _jobs = [(f, a, rep.pid, rep.tier) for f, a in jobs]
    n = procs or min(len(_jobs), os.cpu_count() or 4, 8)
    out = []
    if n <= 1: res = [_one(i) for i in range(len(_jobs))]
    else:
        with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=1) as p: res = p.map(_one, range(len(_jobs)), chunksize=1)
    for (r, x, err), (f, a) in zip(res, jobs):
        rep.merge(r)
        if err:
            print('job %s%r failed: %s' % (f.__name__, tuple(repr(y)[:60] for y in a), err), file=sys.stderr)
            raise Broken('analysis job failed: %s' % err.splitlines()[0])
        out.append(x)
    return out
