import os, json, sys, time, re
from .tool import V, rel
KNOWN = os.path.join(V, 'known_findings.txt')

def known_entries():
    """[(property, key-text)] of findings that are recorded rather than repaired"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(.*?)\s*(?:--.*)?$', l)
            if m: out.append((m.group(1), m.group(2).strip(), l.strip()))
    return out

class Report(object):
    def __init__(s, pid):
        s.pid = pid; s.tier = os.environ.get('VERIF_TIER', 'quick'); s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.t0 = time.time(); s.viol = []; s.cov = {}; s.obl = 0; s.ok = 0; s.undec = []; s.assume = []; s.samples = []
        s.rules = []; s.broken = []
    def thorough(s): return s.tier == 'thorough'
    def count(s, k, n=1): s.cov[k] = s.cov.get(k, 0) + n
    def rule(s, t): s.rules.append(t)
    def passed(s, n=1, sample=None):
        s.obl += n; s.ok += n
        if sample is not None and len(s.samples) < 12: s.samples.append(sample)
    def violation(s, key, msg, f=None, l=None):
        s.obl += 1
        s.viol.append((key, msg, rel(f) if f else '', l))
    def undecided(s, key, why):
        s.obl += 1; s.undec.append((key, why))
    def error(s, msg): s.broken.append(msg)
    def require(s, what, n, least):
        s.cov[what] = n
        if n < least: s.error('%s: only %d instances, at least %d expected' % (what, n, least))
    def finish(s):
        known = [(k, line) for p, k, line in known_entries() if p == s.pid]
        new = []; old = []
        for v in s.viol:
            hit = [line for k, line in known if k == v[0]]
            (old if hit else new).append(v)
        EV = os.environ.get('VERIF_EVID') or os.path.join(V, 'evidence'); os.makedirs(EV, exist_ok=True)
        cov = dict(s.cov)
        cov['obligations'] = s.obl; cov['discharged'] = s.ok
        cov['undecided'] = len(s.undec)
        cov['explanation'] = ' '.join(s.rules) or 'see DESIGN.md'
        cov['samples'] = s.samples
        cov['undecided_list'] = ['%s: %s' % u for u in s.undec[:60]]
        cov['violations_list'] = ['%s: %s [%s:%s]' % v for v in s.viol[:60]]
        cov['known_findings'] = len(old)
        ev = {'property': s.pid, 'tier': s.tier if s.tier in ('quick', 'thorough') else 'quick', 'seed': s.seed, 'level': 'other', 'coverage': cov,
              'assumptions': s.assume, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(new)}
        json.dump(ev, open(os.path.join(EV, s.pid + '.json'), 'w'), indent=1)
        seen = set()
        for v in old:
            if v[0] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (s.pid, v[0])); seen.add(v[0])
        print('%s: %d obligations, %d discharged, %d undecided, %d violations, %d known; %s' % (
            s.pid, s.obl, s.ok, len(s.undec), len(new), len(old), ', '.join('%s=%s' % kv for kv in s.cov.items() if not isinstance(kv[1], (list, dict)))))
        if new:
            rp = os.path.join(EV, s.pid + '.violation.txt')
            with open(rp, 'w') as fh:
                fh.write('property %s\nrule: %s\n\n' % (s.pid, ' '.join(s.rules)))
                for v in new: fh.write('VIOLATION %s\n  %s\n  at %s:%s\n' % v)
            for v in new[:12]: print('  %s: %s (%s:%s)' % v)
            print('VIOLATION property=%s replay=%s' % (s.pid, rp))
            return 1
        if s.broken:
            for m in s.broken: print('ANALYSIS-BROKEN %s: %s' % (s.pid, m))
            return 2
        return 0
