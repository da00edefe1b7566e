"""Result bookkeeping, evidence writing and the known-findings file."""
import json, os, sys, time
import extract as X

VERIF = X.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []          # dict(key, where, func, msg)
        self.counts = {}              # what was analysed, by kind
        self.floors = {}              # kind -> least number that must have been analysed
        self.samples = []
        self.rule = ''
        self.notes = []
        self.assumptions = []
        self._seen = set()

    def count(self, kind, n=1): self.counts[kind] = self.counts.get(kind, 0) + n
    def floor(self, kind, n): self.floors[kind] = n
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    def violation(self, key, where, msg, func=''):
        if (key, where, msg) in self._seen: return
        self._seen.add((key, where, msg))
        self.violations.append({'key': key, 'where': where, 'function': func, 'message': msg})


def known(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                r.append((key.strip(), text.strip()))
    return r


def finish(res, tier, t0, level, technique):
    kn = dict(known(res.prop))
    fresh = [v for v in res.violations if v['key'] not in kn]
    for v in res.violations:
        if v['key'] in kn: print('KNOWN-FINDING: property=%s %s (%s)' % (res.prop, kn[v['key']] or v['message'], v['where']))
    short = [(k, n, res.counts.get(k, 0)) for k, n in res.floors.items() if res.counts.get(k, 0) < n]
    ev = {'property': res.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': {'explanation': technique, 'analysed': res.counts, 'required_minimum': res.floors, 'rule': res.rule,
                       'samples': res.samples},
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', res.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: analysed %s' % (res.prop, ', '.join('%d %s' % (n, k) for k, n in sorted(res.counts.items()))))
    for n in res.notes: print('note: ' + n)
    rp = os.path.join(VERIF, 'evidence', res.prop + '.violations.json')
    if not fresh and os.path.exists(rp): os.unlink(rp)
    if fresh:
        rp = os.path.join(VERIF, 'evidence', res.prop + '.violations.json')
        with open(rp, 'w') as f: json.dump({'property': res.prop, 'rule': res.rule, 'violations': fresh}, f, indent=1)
        for v in fresh[:40]: print('  %s: %s%s' % (v['where'], v['message'], (' [in %s]' % v['function']) if v['function'] else ''))
        print('VIOLATION property=%s replay=%s' % (res.prop, os.path.relpath(rp, VERIF)))
        return 1
    if short:
        for k, n, h in short: print('analysis-broken: only %d %s analysed, at least %d expected' % (h, k, n), file=sys.stderr)
        return 3
    return 0
