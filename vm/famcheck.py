"""turns the results of a family of runtime obligations into a report"""
import os
from . import rt, fam, fam2, fam3, tool
ASSUME = ['clang 18 front end (type checking and template instantiation) is trusted; the interpreter reads the type-checked bodies',
          'operands are opaque objects of the expression interface whose virtual members keep their contract (each node class is checked against that contract in turn)',
          'the C++ standard library behaves as modelled in vm/models.py; floating-point numbers are treated as exact rationals']
RULE = ('Abstract interpretation of the instantiated library bodies: every obligation is a driver function whose operands are symbolic objects; all paths are followed '
        '(forking on every undetermined fact, loops closed when the abstract state repeats) and the returned object graph of each path is compared with the oracle in exact rational normal form.')

def libf(f): return 'viennamath' in f and '/verif/' not in f
def collect(R, res, errs, vis, leaks=False, writes=False, bads=True, bugs=True, compile_bad=True):
    for r in res:
        n = 0
        def v(msg, path, w):
            R.violation('%s: %s' % (r.name, msg), '%s%s' % (msg, ' on the path [%s]' % path[:300] if path else ''), w[0], w[1])
        seen = set()
        def once(msg):
            if msg in seen or len(seen) > 4: return False
            seen.add(msg); return True
        if bads:
            for msg, path, w in r.bad:
                n += 1
                if once(msg): v(msg, path, w)
        if bugs:
            for k, msg, path, w in r.bugs:
                n += 1
                if once(k + msg): v('%s: %s' % (k, msg), path, w)
        if leaks:
            for k, msg, path, w in r.leaks:
                n += 1
                if once(k + msg): v('%s: %s' % (k, msg), path, w)
        if writes:
            for msg, path, w in r.writes:
                n += 1
                if once(msg): v('write: %s' % (msg,), path, w)
        if compile_bad and r.cerr and not n:
            n += 1
            R.violation('%s: does not compile' % r.name, 'a call the library accepts is rejected by the compiler: %s' % r.cerr[2][:300], r.cerr[0], r.cerr[1])
        if not n:
            if r.undec: R.undecided(r.name, r.undec[0])
            else: R.passed(1, '%s: %d paths' % (r.desc, r.paths))
        R.count('paths', r.paths); R.count('abstract_steps', r.steps)
    lib = {k for k in vis if libf(k[1])}
    R.cov['library_functions_interpreted'] = len(lib)
    R.cov['functions'] = sorted('%s (%s:%s)' % (rt.short(k[0]), tool.rel(k[1]), k[2]) for k in lib)[:80]
    R.cov['driver_compile_errors'] = ['%s:%s %s' % (tool.rel(f), l, m[:160]) for f, l, m, d in errs][:20]
    if R.ok == 0: R.error('no obligation could be discharged')

def distinct(R, res):
    """texts noted under the same heading must differ between different entries"""
    g = {}
    for r in res:
        for head, key, text in r.note: g.setdefault(head, {}).setdefault(text, {}).setdefault(key, r)
    n = 0
    for head, d in sorted(g.items()):
        for text, ks in sorted(d.items()):
            n += len(ks)
            if len(ks) > 1:
                ws = [w for r in ks.values() for w in r.visited if libf(w[1])]
                w = ws[-1] if ws else ('', '', 0)
                R.violation('%s: %s' % (head, ' and '.join(sorted(ks))), '%s print the same text %r' % (' and '.join(sorted(ks)), text.replace('\0', '...')), w[1], w[2])
            else: R.passed(1)
    R.require('texts_compared', n, 40)

def check(pid):
    def f(R):
        R.rule(RULE); R.assume += ASSUME
        obs = rt.FAM[pid](R.thorough())
        res, errs, vis = rt.run(obs)
        collect(R, res, errs, vis)
        if pid == 'R26': distinct(R, res)
    return f
