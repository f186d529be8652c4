"""Obligation bookkeeping shared by all checks: counts, known findings, replay files, evidence, exit status."""
import json, os, sys, time, importlib
from ir import AnalysisError, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVDIR = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.t0 = time.time()
        self.rules = {}          # rule -> [obligations, undecided]
        self.viol = []           # dicts
        self.undec = []          # (rule, key, why)
        self.samples = []
        self.analysed = {}       # kind -> set/list of names
        self.notes = []
        self.assumptions = []
        self.minimum = {}        # rule -> least number of obligations that must be decided

    # an obligation that was decided
    def ob(self, rule, key, ok, what='', where='', expected=None, got=None):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if len([s for s in self.samples if s['rule'] == rule]) < 3:
            self.samples.append({'rule': rule, 'instance': str(key), 'holds': bool(ok)})
        if not ok:
            self.viol.append({'rule': rule, 'key': str(key), 'what': what, 'where': where,
                              'expected': _s(expected), 'got': _s(got)})
        return ok

    def undecided(self, rule, key, why=''):
        r = self.rules.setdefault(rule, [0, 0])
        r[1] += 1
        self.undec.append((rule, str(key), str(why)))

    def need(self, rule, n):
        self.minimum[rule] = n

    def seen(self, kind, name):
        self.analysed.setdefault(kind, set()).add(str(name))

    def pmap(self, items, fn, jobs=8):
        """fn(check, item) for every item, spread over forked processes; what each records is merged in item order"""
        import multiprocessing as mp
        items = list(items)
        if len(items) < 4 or os.environ.get('VERIF_JOBS') == '1':
            for it in items: fn(self, it)
            return
        global _work
        _work = (self.pid, self.tier, items, fn)
        order = list(range(len(items)))
        with mp.get_context('fork').Pool(jobs) as pool:
            res = dict(pool.imap_unordered(_pwork, order, max(1, len(items) // (jobs * 8))))
        for i in order:
            r = res[i]
            if isinstance(r, str): raise AnalysisError(r)
            for k, v in r['rules'].items():
                q = self.rules.setdefault(k, [0, 0]); q[0] += v[0]; q[1] += v[1]
            self.viol += r['viol']; self.undec += r['undec']; self.notes += r['notes']
            for s_ in r['samples']:
                if len([s for s in self.samples if s['rule'] == s_['rule']]) < 3: self.samples.append(s_)
            for k, v in r['analysed'].items(): self.analysed.setdefault(k, set()).update(v)
            for a in r['assumptions']: self.assume(a)

    def note(self, s): self.notes.append(s)

    def assume(self, s):
        if s not in self.assumptions: self.assumptions.append(s)


_work = None


def _pwork(i):
    pid, tier, items, fn = _work
    c = Check(pid, tier)
    try: fn(c, items[i])
    except AnalysisError as e: return i, str(e)
    return i, {'rules': c.rules, 'viol': c.viol, 'undec': c.undec, 'notes': c.notes, 'samples': c.samples,
               'analysed': c.analysed, 'assumptions': c.assumptions}


def _s(x):
    if x is None or isinstance(x, (str, int, float, bool)): return x
    return repr(x)


def known_findings(pid):
    """{key: text} of findings recorded for a property; fixed entries suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('finding:'): continue
            f = dict(p.split('=', 1) for p in line[8:].split(' what=')[0].split() if '=' in p)
            if f.get('property') == pid:
                out[f['key']] = line.split(' what=', 1)[1] if ' what=' in line else f['key']
    return out


def run(pid, tier):
    sys.path.insert(0, os.path.join(VERIF, 'sa', 'props'))
    os.makedirs(EVDIR, exist_ok=True)
    c = Check(pid, tier)
    try: os.unlink(os.path.join(EVDIR, pid + '.violations.txt'))
    except OSError: pass
    m = importlib.import_module(pid.lower())
    try:
        m.run(c)
        tot = sum(r[0] for r in c.rules.values())
        if tot == 0: raise AnalysisError('no obligation was decided')
        short = 0
        for rule, n in c.minimum.items():
            if c.rules.get(rule, [0, 0])[0] < n:
                short += 1
                c.note('rule %s decided %d instances, fewer than the %d decided on the tree it was written for' % (rule, c.rules.get(rule, [0, 0])[0], n))
                print('INCOMPLETE: rule %s decided %d instances of at least %d' % (rule, c.rules.get(rule, [0, 0])[0], n))
        if short and tot < sum(c.minimum.values()) / 4:
            for rule, n in list(c.minimum.items())[:1]:
                raise AnalysisError('rule %s decided %d instances, fewer than the %d confirmed by hand: %s'
                                    % (rule, c.rules.get(rule, [0, 0])[0], n, c.undec[:3]))
    except AnalysisError as e:
        if not c.viol:
            print('ANALYSIS-ERROR property=%s %s' % (pid, e))
            return 2
        c.note('analysis incomplete: %s' % e)
    kf = known_findings(pid)
    new = []; old = []
    for v in c.viol:
        k = v['rule'] + ':' + v['key']
        v['id'] = k
        (old if k in kf else new).append(v)
    tot = sum(r[0] for r in c.rules.values()); und = sum(r[1] for r in c.rules.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(m, 'LEVEL', 'other'),
        'coverage': {
            'explanation': ' '.join((m.__doc__ or pid).split()),
            'obligations_decided': tot, 'obligations_undecided': und,
            'obligations_violated': len(c.viol), 'known_findings': len(old),
            'per_rule': {k: {'decided': v[0], 'undecided': v[1]} for k, v in sorted(c.rules.items())},
            'analysed': {k: {'count': len(v), 'names': sorted(v)[:400]} for k, v in sorted(c.analysed.items())},
            'samples': c.samples,
            'undecided_examples': ['%s %s: %s' % u for u in c.undec[:10]],
            'notes': c.notes,
            'violating_constructs': ['%s %s: %s' % (v['id'], v['where'], v['what']) for v in new][:100],
        },
        'assumptions': c.assumptions or ['the repository compiles with clang 18; IR is taken at -O0 for x86-64 Linux'],
        'violations': len(new),
        'wall_s': round(time.time() - c.t0, 2),
    }
    if hasattr(m, 'PROOF') : ev['coverage'].update(m.PROOF)
    with open(os.path.join(EVDIR, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d obligations decided, %d undecided, %d violated (%d known); %.1fs'
          % (pid, tier, tot, und, len(c.viol), len(old), time.time() - c.t0))
    for k, v in sorted(c.rules.items()):
        print('  rule %-40s decided %5d undecided %4d' % (k, v[0], v[1]))
    for u in c.undec[:5]: print('  undecided %s %s: %s' % u)
    for v in old:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, v['id'], kf[v['id']]))
    if new:
        rp = os.path.join(EVDIR, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('rule %s\ninstance %s\nat %s\n%s\nexpected: %s\ngot: %s\n\n'
                        % (v['rule'], v['key'], v['where'], v['what'], v['expected'], v['got']))
        for v in new[:20]:
            print('  ' + ' '.join(('%s %s: %s (expected %s, got %s)' % (v['where'], v['id'], v['what'], v['expected'], v['got'])).split())[:400])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in sys.argv else 'quick'
    import gc; gc.disable()
    try:
        sys.exit(run(sys.argv[1].upper(), tier))
    except AnalysisError as e:
        print('ANALYSIS-ERROR %s' % e); sys.exit(2)
