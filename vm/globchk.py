"""checks that quantify over every path of every library function: union of all families plus structural rules"""
import os, subprocess, tempfile, shutil, re
from . import rt, fam, fam2, tool
from .famcheck import ASSUME, RULE, collect, libf

def everything(thorough):
    """[(results, errors, visited)] of every family, one family at a time (driver names are local to a family)"""
    out = []
    for p in sorted(rt.FAM):
        obs = rt.FAM[p](thorough)
        out.append((p,) + tuple(rt.run1(obs)))
    return out
def rest(slow, thorough):
    """the obligations of everything() that need the full budget"""
    out = []
    for p, res, vis in slow:
        r, v = rt.again(rt.FAM[p](thorough), res, vis)
        out.append((p, r, [], v))
    return out

def union(R, kinds=(), leaks=False, writes=False, throws=False, caught=False):
    """obligation = one driver of one family: none of its paths shows an event of the given kinds"""
    vis = {}; n = 0; slow = []
    def one(p, res, errs, v, last):
        nonlocal n
        vis.update(v)
        if not last and any(r.slow for r in res): slow.append((p, [r for r in res if r.slow], v))
        for r in res:
            k0 = 0; seen = set()
            def bad(msg, path, w):
                key = '%s: %s' % (short(w), msg)
                if key in seen: return
                seen.add(key)
                R.violation(key, '%s (followed from %s/%s%s)' % (msg, p, r.name, ' on the path [%s]' % path[:200] if path else ''), w[0], w[1])
            for k, msg, path, w in r.bugs:
                if k in kinds: bad('%s: %s' % (k, msg), path, w); k0 = 1
            if leaks:
                for k, msg, path, w in r.leaks: bad('%s: %s' % (k, msg), path, w); k0 = 1
            if writes:
                for msg, path, w in r.writes: bad('write: %s' % (msg,), path, w); k0 = 1
            if throws:
                for t, ok, path, w in r.throws:
                    if not ok: bad('throws a %s, which is not derived from std::exception' % t, path, w); k0 = 1
            if caught:
                for msg, path, w in r.caught:
                    if libf(w[0]): bad('%s and the operation goes on as if nothing had failed' % msg, path, w); k0 = 1
            if not k0 and not (r.slow and not last):
                if r.paths == 0 or r.undec: R.undecided('%s/%s' % (p, r.name), (r.undec or ['no path'])[0])
                else: R.passed(1, '%s/%s: %d paths' % (p, r.name, r.paths) if n % 97 == 0 else None)
                n += 1
            if last or not r.slow: R.count('paths', r.paths); R.count('abstract_steps', r.steps)
    for x in everything(R.thorough()): one(*x, last=False)
    if slow and R.viol: # no need to spend the full budget
        for p, res, v in slow: R.undecided('%s/%s' % (p, res[0].name), 'budget')
    else:
        for x in rest(slow, R.thorough()): one(*x, last=True)
    lib = {k for k in vis if libf(k[1])}
    R.cov['library_functions_interpreted'] = len(lib)
    R.require('obligations_followed', n, 500)
    return {(k[1], k[2]) for k in lib}
def short(w): return rt.short(w[2]) if len(w) > 2 else ''

def hdrdb():
    db = tool.extract(rt.HDR + '}\n')
    return db
def inlib(f): return f.startswith(tool.REPO + '/viennamath')

CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
def clangwarn(text, warns, only=True):
    """warnings of clang's own flow analyses inside library headers: [(file, line, text, flag)]"""
    d = tempfile.mkdtemp(prefix='vmw')
    try:
        p = os.path.join(d, 'w.cpp'); open(p, 'w').write(text)
        r = subprocess.run([CLANG, '-std=gnu++17', '-fsyntax-only', '-I' + tool.REPO, '-ferror-limit=0', '-ftemplate-depth=400', '-Wno-error=c++11-narrowing', '-Wno-everything'] + ['-W' + w for w in warns] + [p],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        out = []
        for l in r.stdout.splitlines():
            m = re.match(r'(\S+?):(\d+):\d+: warning: (.*) \[-W([^\]]+)\]', l)
            if m and inlib(os.path.normpath(m.group(1))): out.append((os.path.normpath(m.group(1)), int(m.group(2)), m.group(3), m.group(4)))
        return sorted(set(out))
    finally: shutil.rmtree(d, ignore_errors=True)

def warnings(R, warns):
    obs = [o for o in fam.everyob()] if hasattr(fam, 'everyob') else []
    ws = clangwarn(rt.HDR + '}\n', warns)
    R.cov['clang_flow_warnings_asked'] = list(warns)
    for f, l, m, w in ws: R.violation('-W%s: %s' % (w, m), 'clang flow analysis: ' + m, f, l)
    if not ws: R.passed(1, 'no -W%s in %s' % (', -W'.join(warns), 'any instantiated member of the library classes'))

MEM = ('double-delete', 'double-destroy', 'foreign-delete', 'foreign-return', 'use-after-free')
def r11(R):
    R.rule(RULE); R.assume += ASSUME
    R.rule('Ownership audit: after every normal path the result is destroyed and no object created by library code may be left alive, destroyed twice, or destroyed while it belongs to the caller. '
           'Structural: every class that is deleted through a base pointer held by a smart pointer has a virtual destructor; clang flow warnings on dangling addresses.')
    union(R, kinds=MEM, leaks=True)
    db = hdrdb()
    types = {int(k): t for k, t in db['types'].items()}
    rec = {r['id']: r for r in db['records']}
    derived = set()
    for r in db['records']:
        for b in r['bases']:
            t = types[b]
            if t['k'] == 'rec': derived.add(t['r'])
    n = 0
    for t in types.values():
        if t['k'] == 'rec' and t['n'] in ('std::auto_ptr', 'std::unique_ptr', 'std::shared_ptr') and t.get('a'):
            x = types[t['a'][0]['t']] if t['a'][0].get('t') else None
            if x and x['k'] == 'rec' and x['r'] in rec and inlib(rec[x['r']]['f']) and x['r'] in derived:
                n += 1; r = rec[x['r']]
                if r.get('vdtor'): R.passed(1)
                else: R.violation('virtual destructor of %s' % r['n'], 'objects of derived classes are deleted through pointers to %s, whose destructor is not virtual' % r['n'], r['f'], r['l'])
    R.require('owning_pointer_types', n, 3)
    warnings(R, ['return-stack-address', 'dangling', 'delete-non-abstract-non-virtual-dtor', 'delete-abstract-non-virtual-dtor', 'mismatched-new-delete'])

def r12(R):
    R.rule(RULE); R.assume += ASSUME
    R.rule('Empty objects: default-constructed objects go through every copy, assignment and destruction; all families: no path dereferences a null pointer, reads an uninitialised member or leaves a function with a result without returning one. '
           'Every body of the instantiated library classes is also checked by clang for missing returns and uninitialised reads.')
    collect(R, *rt.run(rt.FAM['R12'](R.thorough())))
    union(R, kinds=('null-dereference', 'missing-return', 'uninitialised'))
    warnings(R, ['return-type', 'uninitialized', 'sometimes-uninitialized', 'infinite-recursion'])

def r17(R):
    R.rule(RULE); R.assume += ASSUME
    R.rule('Effect analysis: on no path a store reaches an object of the caller that was passed as read-only. Structural: no variable with static storage duration that can change, no mutable member, no cast that drops const in a function the effect analysis could not follow.')
    seen = union(R, writes=True)
    db = hdrdb(); n = 0
    for v in db['vars']:
        if not inlib(v['f']): continue
        n += 1
        if v.get('argdep'): R.violation('static local %s' % v['n'], 'static local %s keeps a value computed from the arguments of the first call' % v['n'], v['f'], v['l'])
        elif v.get('mutfields'): R.violation('mutable global %s' % v['n'], 'static object %s has mutable members' % v['n'], v['f'], v['l'])
        elif v.get('const') or v.get('cx') or v.get('constelem'): R.passed(1)
        else: R.violation('mutable global %s' % v['n'], 'variable %s has static storage duration and can change' % v['n'], v['f'], v['l'])
    R.require('static_objects', n, 20)
    k = 0
    for x in db['lints']:
        if not inlib(x['f']): continue
        k += 1
        if x['k'] == 'mutable': R.violation('mutable member %s' % x.get('n'), 'member %s can change through read-only access' % x.get('n'), x['f'], x['l'])
        elif x['k'] == 'constcast':
            if followed(db, seen, x): R.passed(1)
            else: R.violation('const dropped in %s' % x.get('fn'), 'cast from %s to %s drops const in code the effect analysis did not follow' % (x.get('from'), x.get('to')), x['f'], x['l'])
    R.cov['constructs_scanned'] = k
def followed(db, seen, x):
    """the construct lies in a function whose body the interpreter went through"""
    best = None
    for f in db['functions']:
        if f.get('f') == x['f'] and f['l'] <= x['l'] <= f.get('end', f['l']):
            if (f['f'], f['l']) in seen: return True
    return False

def r18(R):
    R.rule(RULE); R.assume += ASSUME
    R.rule('Failure discipline: every exception that leaves or is raised on any followed path is derived from std::exception, none is caught and dropped inside the library, none meets a function declared not to throw; every throw expression in every template and function of the library is checked for its type; what() of every exception class returns a literal or storage of the exception object itself.')
    collect(R, *rt.run(rt.FAM['R18'](R.thorough())))
    union(R, kinds=('terminate',), throws=True, caught=True)
    db = hdrdb(); n = 0
    for x in db['lints']:
        if not inlib(x['f']): continue
        if x['k'] == 'throw':
            n += 1
            if x.get('ok') or x.get('rethrow') or x.get('dep'): R.passed(1)
            else: R.violation('throws %s' % x.get('ty'), 'throws a %s, which is not derived from std::exception' % x.get('ty'), x['f'], x['l'])
        elif x['k'] == 'catch':
            if x.get('throws'): R.passed(1)
            else: R.violation('swallows %s' % x.get('ty'), 'a handler for %s in library code does not pass the failure on' % (x.get('ty') or 'everything'), x['f'], x['l'])
    R.require('throw_expressions', n, 15)
