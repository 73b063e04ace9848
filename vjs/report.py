"""Results of a check: obligations, violations, known findings, evidence."""
import json, os, re, sys, time
from .ir import VERIF, REPO, AnalysisError

KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known_findings(pid):
    """{key: description} of the recorded, unrepaired findings of property pid."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=\[(.*?)\] (.*)', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def rel(loc):
    return loc.replace(REPO.rstrip('/') + '/', '') if loc else '?'


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.violations = {}       # key -> (where, message, trace)
        self.undecided = set()
        self.units = []            # (what was analysed, number of obligations)
        self.counts = {}
        self.samples = []
        self.t0 = time.time()

    def unit(self, name, n=1):
        self.units.append((name, n))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violation(self, key, where, msg, trace=()):
        """key identifies the construct and the clause, without line numbers"""
        if key not in self.violations:
            self.violations[key] = (rel(where), msg, list(trace))

    def undec(self, what):
        self.undecided.add(what)

    def need(self, n, what):
        """Guard against a vanished anchor."""
        if n <= 0:
            self.undec('nothing to analyse: ' + what)


def finish(res, prop, tier, seed):
    pid = res.pid
    known = known_findings(pid)
    new = {k: v for k, v in res.violations.items() if k not in known}
    obligations = sum(n for _, n in res.units)
    if obligations == 0:
        raise AnalysisError('no obligation was generated')
    wall = time.time() - res.t0
    print('%s: %s' % (pid, prop['title']))
    print('rule: %s' % prop['rule'])
    for u, n in res.units[:400]:
        print('  analysed %s (%d obligations)' % (u, n))
    if len(res.units) > 400:
        print('  ... and %d more units' % (len(res.units) - 400))
    for k, v in sorted(res.counts.items()):
        print('  %s: %d' % (k, v))
    for u in sorted(res.undecided, key=str)[:40]:
        print('  undecided: %s' % (u,))
    for k, d in known.items():
        if k in res.violations:
            print('KNOWN-FINDING: property=%s %s' % (pid, d))
    replay = None
    if new:
        d = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, pid + '.txt')
        with open(replay, 'w') as f:
            for k, (w, m, t) in new.items():
                f.write('%s\n  at %s\n  %s\n' % (k, w, m))
                for l in t:
                    f.write('    %s\n' % (l,))
                f.write('\n')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': prop['rule'],
            'obligations': obligations,
            'undecided': len(res.undecided),
            'units': [u for u, _ in res.units][:200],
            'n_units': len(res.units),
            'counts': res.counts,
            'samples': (res.samples or [u for u, _ in res.units])[:8],
            'known_findings': [k for k in known if k in res.violations],
            'exhaustive': not res.undecided,
        },
        'assumptions': prop.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%d units, %d obligations, %d undecided, %d violations, %.1f s' % (len(res.units), obligations, len(res.undecided), len(new), wall))
    for k, (w, m, t) in new.items():
        print('  violated at %s: %s' % (w, m))
        for l in t[-12:]:
            print('      %s' % (l,))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0
