"""Compile-time half: decides type-level metafunctions.

Expressions are python tuples ('c',n) ('v',id) ('f',tag) ('b',op,l,r)
('u',fn,x).  They are rendered as library types, the library's public
functions are asked for their result type (decltype), and the resulting type
tree is read back from the type-checked program."""
from . import ratio as Q
from .tool import extract, errors, rel
OPN = {'+': 'op_plus', '-': 'op_minus', '*': 'op_mult', '/': 'op_div'}
NOP = {'viennamath::' + v: k for k, v in OPN.items()}
UN = ['exp', 'sin', 'cos', 'tan', 'fabs', 'sqrt', 'log', 'log10']

def c(n): return ('c', n)
def v(i): return ('v', i)
def f(t): return ('f', t)
def b(op, l, r): return ('b', op, l, r)
def u(fn, x): return ('u', fn, x)

def cpp(e):
    k = e[0]
    if k == 'c': return 'C<%s>' % (e[1] if e[1] > -2**63 else '(-9223372036854775807L-1)')
    if k == 'v': return 'X<%d>' % e[1]
    if k == 'f': return 'F<Tg%s>' % e[1]
    if k == 'b': return 'B<%s,%s,%s>' % (cpp(e[2]), {'+': 'P', '-': 'M', '*': 'U', '/': 'D'}[e[1]], cpp(e[3]))
    if k == 'u': return 'viennamath::ct_unary_expr<%s,viennamath::op_%s<NT> >' % (cpp(e[2]), e[1])
    raise ValueError(e)

PRE = '''#include "viennamath/expression.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
#include "viennamath/manipulation/integrate.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/eval.hpp"
#include <utility>
typedef viennamath::default_numeric_type NT;
template <long n> using C = viennamath::ct_constant<n>;
template <viennamath::id_type n> using X = viennamath::ct_variable<n>;
template <class G> using F = viennamath::ct_function_symbol<G>;
typedef viennamath::op_plus<NT> P; typedef viennamath::op_minus<NT> M; typedef viennamath::op_mult<NT> U; typedef viennamath::op_div<NT> D;
template <class A, class O, class Z> using B = viennamath::ct_binary_expr<A,O,Z>;
struct TgA{}; struct TgB{}; struct TgC{}; struct TgD{};
namespace viennamath { }
template <class T> T const & mk();
'''

def den(e):
    k = e[0]
    if k == 'c': return Q.num(e[1])
    if k == 'v': return Q.sym(('x', e[1]))
    if k == 'f': return Q.sym(('sk', e[1]))
    if k == 'b':
        l, r = den(e[2]), den(e[3])
        return l + r if e[1] == '+' else l - r if e[1] == '-' else l * r if e[1] == '*' else l / r
    if k == 'u': return Q.fn(e[1], den(e[2]))

def show(e):
    k = e[0]
    if k == 'c': return str(e[1])
    if k == 'v': return 'x%d' % e[1]
    if k == 'f': return e[1].lower()
    if k == 'b': return '(%s %s %s)' % (show(e[2]), e[1], show(e[3]))
    if k == 'u': return '%s(%s)' % (e[1], show(e[2]))

class NotCt(Exception): pass

def read(db, tid, memo=None):
    """type id -> expression tuple"""
    t = db['types'][str(tid)] if isinstance(db['types'], dict) else db['types'][tid]
    k = t.get('k')
    if k in ('ref', 'rref'): return read(db, t['t'])
    if k == 'rec':
        n = t['n']; a = t.get('a', [])
        if n == 'viennamath::ct_constant': return ('c', int(a[0]['i']))
        if n == 'viennamath::ct_variable': return ('v', int(a[0]['i']))
        if n == 'viennamath::ct_function_symbol':
            s = ty(db, a[0]['t'])['s'].split('::')[-1]
            return ('f', s[2:] if s.startswith('Tg') else s)
        if n == 'viennamath::ct_binary_expr':
            o = ty(db, a[1]['t'])
            if o.get('n') not in NOP: raise NotCt(t['s'])
            return ('b', NOP[o['n']], read(db, a[0]['t']), read(db, a[2]['t']))
        if n == 'viennamath::ct_unary_expr':
            o = ty(db, a[1]['t'])['n'].split('::op_')[-1]
            return ('u', o, read(db, a[0]['t']))
    raise NotCt(t.get('s'))

def ty(db, tid):
    return db['types'][str(tid)] if isinstance(db['types'], dict) else db['types'][tid]

def size(e): return 1 if e[0] in 'cvf' else 1 + sum(size(x) for x in e[2:] if isinstance(x, tuple))

def run(items, extra='', flags=()):
    """items: list of (key, C++ type expression).  Returns {key: ('ok', expr) |
    ('err', error) | ('notct', text)} ; one typedef per line so that every
    compiler diagnostic maps to exactly one item."""
    text = PRE + extra
    base = text.count('\n') + 1
    lines = []
    for i, (k, t) in enumerate(items):
        lines.append('typedef %s vq_%d;' % (t, i))
    db = extract(text + '\n'.join(lines) + '\n', flags=flags)
    res = {}
    bad = {}
    for e in errors(db):
        hit = False
        for l in e['drv']:
            if l >= base and l - base < len(items):
                bad.setdefault(l - base, e); hit = True
        if not hit: bad.setdefault(None, e)
    tds = {t['n']: t for t in db['typedefs']}
    for i, (k, t) in enumerate(items):
        if i in bad: res[k] = ('err', bad[i]); continue
        td = tds.get('vq_%d' % i)
        if td is None or td.get('bad'): res[k] = ('err', bad.get(None) or {'f': '', 'l': 0, 'm': 'no type', 'notes': [], 'drv': []}); continue
        try: res[k] = ('ok', read(db, td['t']))
        except NotCt as x: res[k] = ('notct', str(x))
    res['_db'] = db; res['_global'] = bad.get(None)
    return res

# ---------------------------------------------------------------- harvesting
def _pat(db, tid):
    t = ty(db, tid); k = t.get('k')
    if k == 'parm': return ('hole', t['s'])
    n = t.get('n'); a = t.get('a', [])
    def i(x):
        if 'i' in x: return int(x['i'])
        if 'np' in x: return ('chole', x['np'])
        if 'x' in x: return ('chole', x['x'])
        raise NotCt('?')
    if n == 'viennamath::ct_constant': return ('c', i(a[0]))
    if n == 'viennamath::ct_variable': return ('v', i(a[0]))
    if n == 'viennamath::ct_function_symbol': return ('f', 'A')
    if n == 'viennamath::ct_binary_expr':
        o = ty(db, a[1]['t'])
        op = ('hole', o['s']) if o.get('k') == 'parm' else NOP.get(o.get('n'))
        if op is None: raise NotCt(t['s'])
        return ('b', op, _pat(db, a[0]['t']), _pat(db, a[2]['t']))
    if n == 'viennamath::ct_unary_expr':
        o = ty(db, a[1]['t'])
        op = ('hole', o['s']) if o.get('k') == 'parm' else o['n'].split('::op_')[-1]
        return ('u', op, _pat(db, a[0]['t']))
    raise NotCt(t.get('s'))

def patterns(db):
    """every ct-expression pattern occurring as argument of a partial
    specialization in the library, with the specialization it comes from"""
    out = []; seen = set()
    for p in db['partials']:
        for a in p['args']:
            if 't' not in a: continue
            try: e = _pat(db, a['t'])
            except (NotCt, KeyError, ValueError): continue
            if e[0] in ('b', 'u') and repr(e) not in seen:
                seen.add(repr(e)); out.append((e, p['n'], rel(p['f']), p['l']))
    return out

def literals():
    "integer literals written in the headers (comments, strings and preprocessor lines left out), beyond the everyday ones"
    import glob, re
    from .tool import REPO
    s = set()
    for p in sorted(glob.glob(REPO + '/viennamath/**/*.h*', recursive=True)):
        t = open(p, errors='replace').read()
        t = re.sub(r'/\*.*?\*/|//[^\n]*|"(\\.|[^"\\\n])*"', ' ', t, flags=re.S)
        t = re.sub(r'(?m)^\s*#.*$', '', t)
        for m in re.findall(r"(?<![\w.'])(?:0[xX][0-9a-fA-F']+|\d[\d']*)(?=[uUlL]*\b(?!\.))", t):
            m = m.replace("'", '')
            try: s.add(int(m, 0))
            except ValueError: s.add(int(m, 8) if m.isdigit() and not set(m) & set('89') else int(m.lstrip('0') or '0'))
        for a, n in re.findall(r'\b(\d+)[uUlL]*\s*<<\s*(\d+)', t):
            if int(n) < 63: s.add(int(a) << int(n))
    return sorted(k for k in s if 3 < k < 2 ** 62)[:12]
def odd_ints():
    "integers that no small sample contains: large and medium ones, and the neighbours of every literal in the headers"
    s = [40, -40, 1000003, -1000003, 3000000019]
    for k in literals(): s += [k - 1, k, k + 1, -k, 2 * k + 1, -2 * k - 1]
    return list(dict.fromkeys(x for x in s if abs(x) < 2 ** 40 or x in s[:5]))
def odd_ids():
    s = [40]
    for k in literals():
        if k < 2 ** 31: s += [k - 1, k, k + 1]
    return list(dict.fromkeys(s))

def consts(db):
    s = set()
    def w(e):
        if e[0] == 'c' and isinstance(e[1], int): s.add(e[1])
        for x in e[1:]:
            if isinstance(x, tuple): w(x)
    for e, *_ in patterns(db): w(e)
    return s

def holes(e, out=None):
    out = [] if out is None else out
    if e[0] in ('hole', 'chole'):
        if e not in out: out.append(e)
        return out
    for i, x in enumerate(e[1:]):
        if isinstance(x, tuple):
            if e[0] in 'bu' and i == 0: x = ('ohole', x[1], 2 if e[0] == 'b' else 1)
            if x[0] in ('hole', 'chole', 'ohole') :
                if x not in out: out.append(x)
            else: holes(x, out)
    return out

def fill(e, m):
    if e[0] == 'hole': return m[e]
    if e[0] == 'c': return ('c', e[1] if isinstance(e[1], int) else m[e[1]])
    if e[0] == 'v': return ('v', e[1] if isinstance(e[1], int) else abs(m[e[1]]) % 3)
    if e[0] == 'f': return e
    if e[0] == 'b':
        o = e[1] if not isinstance(e[1], tuple) else m[('ohole', e[1][1], 2)]
        return ('b', o, fill(e[2], m), fill(e[3], m))
    if e[0] == 'u':
        o = e[1] if not isinstance(e[1], tuple) else m[('ohole', e[1][1], 1)]
        return ('u', o, fill(e[2], m))
    return e

def instances(pats, types, ints, rng, per=40):
    """instances of each pattern: all-skolem first, then every hole takes every
    type / integer once with the others fixed, then random combinations drawn
    from a fixed seed"""
    res = []
    sk = [f('A'), f('B'), f('C'), f('D')]
    pr = [7, 11, -5, 13, -17]
    for e, *_ in pats:
        hs = holes(e)
        base = {}
        ti = ni = 0
        for h in hs:
            if h[0] == 'hole': base[h] = sk[ti % 4]; ti += 1
            elif h[0] == 'chole': base[h] = pr[ni % 5]; ni += 1
            elif h[2] == 2: base[h] = '+'
            else: base[h] = 'sin'
        opts = {}
        for h in hs:
            opts[h] = types if h[0] == 'hole' else ints if h[0] == 'chole' else list('+-*/') if h[2] == 2 else UN
        sets = [dict(base)]
        for h in hs:
            for o in opts[h]:
                m = dict(base); m[h] = o; sets.append(m)
        for _ in range(per):
            sets.append({h: rng.choice(opts[h]) for h in hs})
        for m in sets:
            x = fill(e, m)
            if x not in res: res.append(x)
    return list(dict.fromkeys(res))
