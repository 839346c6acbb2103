"""Exact rational-function normal form over function atoms.

A value is a fraction of two multivariate polynomials with rational
coefficients.  Indeterminates are atoms: opaque symbols and applications of
elementary functions to such fractions (two applications are the same atom iff
function and argument are equal as fractions).  Algebraic relations between
atoms that are used: tan = sin/cos, sin^2 = 1 - cos^2, sqrt(u)^2 = u,
|u|^2 = u^2, log10 u = log u / ln10.  Equality is decided by cross
multiplication; nothing is sampled and no solver is involved.
"""
from fractions import Fraction as Fr

class Undefined(Exception):
    """division by something identically zero"""

_atoms = []          # id -> key ('sym',x) or ('fn',name,(args))
_symix = {}
_fnix = {}           # (name, arity) -> [ids]

def _sym_id(key):
    i = _symix.get(key)
    if i is None:
        i = len(_atoms); _atoms.append(('sym', key)); _symix[key] = i
    return i

MAXTERMS = 20000

class TooBig(Exception): pass

def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r

def _mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))

def _pmul(p, q):
    if len(p) * len(q) > MAXTERMS * 10: raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > MAXTERMS: raise TooBig()
    return r

_ONE = {(): Fr(1)}

class R(object):
    __slots__ = ('n', 'd')
    def __init__(s, n, d=None):
        s.n = n; s.d = _ONE if d is None else d
    # arithmetic
    def __add__(a, b):
        if a.d == b.d: return _mk(_padd(a.n, b.n), a.d)
        return _mk(_padd(_pmul(a.n, b.d), _pmul(b.n, a.d)), _pmul(a.d, b.d))
    def __sub__(a, b):
        if a.d == b.d: return _mk(_padd(a.n, b.n, -1), a.d)
        return _mk(_padd(_pmul(a.n, b.d), _pmul(b.n, a.d), -1), _pmul(a.d, b.d))
    def __mul__(a, b): return _mk(_pmul(a.n, b.n), _pmul(a.d, b.d))
    def __truediv__(a, b):
        if not _nf(b.n): raise Undefined()
        return _mk(_pmul(a.n, b.d), _pmul(a.d, b.n))
    def __neg__(a): return R({m: -c for m, c in a.n.items()}, a.d)
    def iszero(a): return not _nf(a.n)
    def __eq__(a, b):
        if not isinstance(b, R): return NotImplemented
        if a.d == b.d: return not _nf(_padd(a.n, b.n, -1))
        return not _nf(_padd(_pmul(a.n, b.d), _pmul(b.n, a.d), -1))
    def __ne__(a, b): return not a == b
    __hash__ = None
    def const(a):
        """Fraction if constant else None"""
        n, d = a.n, a.d
        if not n: return Fr(0)
        if set(n) == {()} and set(d) == {()}: return n[()] / d[()]
        # proportional?
        if set(n) == set(d):
            k = next(iter(n)); q = n[k] / d[k]
            if all(n[m] == q * d[m] for m in n): return q
        return None
    def __repr__(a): return fmt(a)

def _mk(n, d):
    n = _reduce(n)[0]; d2 = _reduce(d)
    d = d2[0]
    if not n: return R({}, _ONE)
    if set(d) == {()}:
        c = d[()]
        return R({m: v / c for m, v in n.items()}, _ONE)
    # cancel common monomial
    common = None
    for m in list(n) + list(d):
        dm = dict(m)
        if common is None: common = dm
        else: common = {a: min(e, dm.get(a, 0)) for a, e in common.items() if dm.get(a, 0)}
        if not common: break
    if common:
        def div(p):
            r = {}
            for m, c in p.items():
                dm = dict(m)
                for a, e in common.items():
                    dm[a] -= e
                    if not dm[a]: del dm[a]
                r[tuple(sorted(dm.items()))] = c
            return r
        n = div(n); d = div(d)
    # equal up to a factor
    if set(n) == set(d):
        k = next(iter(n)); q = n[k] / d[k]
        if all(n[m] == q * d[m] for m in n): return R({(): q}, _ONE)
    return R(n, d)

def _reduce(p):
    """apply sin^2 -> 1-cos^2 (polynomial relations only)"""
    again = True
    while again:
        again = False
        for m in p:
            for a, e in m:
                if e >= 2 and _atoms[a][0] == 'fn' and _atoms[a][1] in ('sin', 'sqrt', 'fabs'):
                    arg = _atoms[a][2][0]
                    nm = _atoms[a][1]
                    c = p[m]; rest = dict(m); rest[a] -= 2
                    if not rest[a]: del rest[a]
                    rest = {tuple(sorted(rest.items())): c}
                    if nm == 'sin':
                        cs = _fn_id('cos', (arg,))
                        rep = {(): Fr(1), ((cs, 2),): Fr(-1)}
                    else:
                        if arg.d != _ONE: continue
                        rep = arg.n if nm == 'sqrt' else _pmul(arg.n, arg.n)
                    q = dict(p); del q[m]
                    p = _padd(q, _pmul(rest, rep)); again = True
                    break
            if again: break
    return (p,)

def _nf(p): return _reduce(p)[0]

def num(x): 
    x = Fr(x)
    return R({(): x} if x else {}, _ONE)
ZERO = num(0); ONE = num(1)
def sym(key): return R({((_sym_id(key), 1),): Fr(1)}, _ONE)

def _fn_id(name, args):
    lst = _fnix.setdefault((name, len(args)), [])
    for i in lst:
        if all(x == y for x, y in zip(_atoms[i][2], args)): return i
    i = len(_atoms); _atoms.append(('fn', name, tuple(args))); lst.append(i)
    return i

LN10 = 2.302585092994046
def fn(name, *args):
    """application of an elementary (or opaque) function"""
    if name == 'tan':
        return fn('sin', *args) / fn('cos', *args)
    if name == 'log10':
        return fn('log', *args) / sym('ln10')
    if name == 'log' and args[0].const() == 10: return sym('ln10')
    if name in ('sin', 'tan', 'fabs', 'sqrt') and args[0].iszero(): return ZERO
    if name in ('exp', 'cos') and args[0].iszero(): return ONE
    c = args[0].const() if args else None
    if name in ('fabs',) and c is not None: return num(abs(c))
    if name == 'sqrt' and c is not None and c >= 0:
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator: return num(Fr(a, b))
    if name == 'log' and c == 1: return ZERO
    if name == 'sqrt' and args[0].d is not _ONE and args[0].d != _ONE:
        pass
    return R({((_fn_id(name, args), 1),): Fr(1)}, _ONE)

def flt(v):
    """a floating literal: exact unless it is recognisably ln 10 or 1/ln 10"""
    if abs(v - LN10) < 1e-9: return sym('ln10')
    if abs(v - 1 / LN10) < 1e-9: return ONE / sym('ln10')
    return num(Fr(v).limit_denominator(10**12) if abs(Fr(v) - Fr(v).limit_denominator(10**12)) < Fr(1, 10**15) else Fr(v))

def atoms_of(r, deep=True, seen=None):
    seen = set() if seen is None else seen
    for p in (r.n, r.d):
        for m in p:
            for a, _ in m:
                if a not in seen:
                    seen.add(a)
                    if deep and _atoms[a][0] == 'fn':
                        for x in _atoms[a][2]: atoms_of(x, True, seen)
    return seen

def depends(r, key): return _symix.get(key) in atoms_of(r)

def diff(r, key):
    """exact derivative with respect to the symbol key; opaque symbols ('sk',...)
    differentiate to ('D', sym, key)"""
    def datom(a):
        k = _atoms[a]
        if k[0] == 'sym':
            if k[1] == key: return ONE
            if isinstance(k[1], tuple) and k[1][0] == 'sk': return sym(('D', k[1], key))
            return ZERO
        u = k[2][0]; du = diff(u, key); f = k[1]
        if f == 'sin': return fn('cos', u) * du
        if f == 'cos': return -(fn('sin', u)) * du
        if f == 'exp': return fn('exp', u) * du
        if f == 'log': return du / u
        if f == 'sqrt': return du / (num(2) * fn('sqrt', u))
        if f == 'fabs': return u * du / fn('fabs', u)
        return sym(('D', ('fn', f, tuple(fmt(x) for x in k[2])), key))
    def dp(p):
        r = ZERO
        for m, c in p.items():
            for i, (a, e) in enumerate(m):
                d = datom(a)
                if d.iszero(): continue
                rest = dict(m); rest[a] -= 1
                if not rest[a]: del rest[a]
                r = r + R({tuple(sorted(rest.items())): c * e}, _ONE) * d
        return r
    n = R(r.n, _ONE); d = R(r.d, _ONE)
    dd = dp(r.d)
    if dd.iszero(): return dp(r.n) / d
    return (dp(r.n) * d - n * dd) / (d * d)

def subst(r, key, val):
    """replace symbol key by val everywhere (including below functions)"""
    def sa(a):
        k = _atoms[a]
        if k[0] == 'sym': return val if k[1] == key else R({((a, 1),): Fr(1)}, _ONE)
        return fn(k[1], *[subst(x, key, val) for x in k[2]])
    def sp(p):
        t = ZERO
        for m, c in p.items():
            q = num(c)
            for a, e in m:
                x = sa(a)
                for _ in range(e): q = q * x
            t = t + q
        return t
    return sp(r.n) / sp(r.d)

def poly_in(r, key):
    """coefficients {power: R} of r as a polynomial in symbol key, or None"""
    i = _symix.get(key)
    if any(i in dict(m) for m in r.d): return None
    for p in (r.n, r.d):
        for m in p:
            for a, _ in m:
                if a != i and _atoms[a][0] == 'fn' and i in atoms_of(R({((a, 1),): Fr(1)})): return None
    out = {}
    for m, c in r.n.items():
        dm = dict(m); e = dm.pop(i, 0)
        k = tuple(sorted(dm.items()))
        out.setdefault(e, {})[k] = c
    return {e: R(p, r.d) for e, p in out.items()}

def fmt(r):
    def fa(a):
        k = _atoms[a]
        if k[0] == 'sym': return str(k[1]) if not isinstance(k[1], tuple) else '_'.join(map(str, k[1]))
        return '%s(%s)' % (k[1], ', '.join(fmt(x) for x in k[2]))
    def fp(p):
        if not p: return '0'
        out = []
        for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0])):
            fs = [fa(a) + ('^%d' % e if e > 1 else '') for a, e in m]
            if c != 1 or not fs: fs.insert(0, str(c))
            out.append('*'.join(fs))
        return ' + '.join(out)
    if r.d == _ONE: return fp(r.n)
    return '(%s)/(%s)' % (fp(r.n), fp(r.d))
