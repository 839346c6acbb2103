"""Path-sensitive abstract interpretation of the extracted IR.

The abstract domain:
  numbers    exact rational normal forms (vm.ratio) over value-number symbols
  pointers   abstract objects; an object has a class, fields (materialised on demand) and a storage class
             ('ext' = belongs to the caller, 'heap' = created by the analysed code, 'auto'/'sub')
  opaque     an object known only through its interface; virtual calls on it are answered by the contract of
             that virtual function (assume/guarantee: every implementation is checked against the contract)
  facts      branch conditions: interval facts on linear forms, constancy / kind / equality facts on opaque objects
A state is transformed forward over the statements; a branch whose condition is not decided by the facts is
followed both ways.  Nothing is executed and no solver is used.  Whatever the interpreter cannot model ends the
path as 'undecided'.
"""
import os, sys, time
from fractions import Fraction as Fr
from . import ratio as Q
from .ratio import R
sys.setrecursionlimit(200000)

class Limit(Exception): pass
UNINIT = ('uninit',)
NULL = ('p', 0)
I = 'viennamath::rt_expression_interface'
OPI = 'viennamath::op_interface'

class Obj(object):
    __slots__ = ('cls', 'f', 'st', 'alive', 'opq', 'lazy', 'tag', 'org', 'own', 'line')
    def __init__(s, cls, st, own, tag=''):
        s.cls = cls; s.f = {}; s.st = st; s.alive = True; s.opq = False; s.lazy = False; s.tag = tag; s.org = None; s.own = own; s.line = None
    def clone(s, own):
        o = Obj(s.cls, s.st, own, s.tag); o.f = dict(s.f)
        o.alive = s.alive; o.opq = s.opq; o.lazy = s.lazy; o.org = s.org; o.line = s.line
        return o

_tok = [0]
def tok():
    _tok[0] += 1
    return _tok[0]

class State(object):
    def __init__(s):
        s.h = {}; s.nxt = [1]; s.facts = {}; s.num = {}; s.sub = []; s.temps = [[]]; s.handlers = []; s.events = []; s.trace = []; s.own = tok(); s.depth = 0; s.glob = {}; s.cur = []; s.last = None
    def copy(s):
        n = State.__new__(State)
        n.h = dict(s.h); n.nxt = [s.nxt[0]]; n.facts = dict(s.facts); n.num = dict(s.num); n.sub = list(s.sub)
        n.temps = [list(t) for t in s.temps]; n.handlers = list(s.handlers); n.events = list(s.events); n.trace = list(s.trace)
        n.own = tok(); s.own = tok(); n.depth = s.depth; n.glob = dict(s.glob); n.cur = list(s.cur); n.last = s.last
        return n
    def new(s, cls, storage, tag=''):
        i = s.nxt[0]; s.nxt[0] += 1
        s.h[i] = Obj(cls, storage, s.own, tag)
        return i
    def w(s, oid):
        o = s.h[oid]
        if o.own != s.own:
            o = o.clone(s.own); s.h[oid] = o
        return o

OPEN = ('viennamath::rt_manipulation_interface',)       # not abstract, yet meant to be derived from
def isnum(v): return isinstance(v, (int, R)) and not isinstance(v, bool)
def rn(v):
    if isinstance(v, R): return v
    if isinstance(v, bool): return Q.num(int(v))
    return Q.num(v)
def conc(v):
    """concrete Fraction/int of a number or None"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, R): return v.const()
    return None

class Handler(list): base = 0        # outcomes inside a try block, and the height of the call stack there
class Outcome(object):
    """how an abstract path ended: ret (value v), throw (v=object id or value), abort, bug, undecided"""
    def __init__(s, kind, v, st, where=None): s.kind = kind; s.v = v; s.st = st; s.where = where

class Interp(object):
    MAXSTEPS = 1500000; MAXDEPTH = 90; MAXLOOP = 24; MAXPATHS = 6000; deadline = None
    def __init__(s, db):
        s.db = db
        s.types = {int(k): v for k, v in db['types'].items()}
        s.fn = {f['id']: f for f in db['functions']}
        s.head = {int(k): v for k, v in db['decls'].items()}
        for f in db['functions']: s.head.setdefault(f['id'], f)
        s.rec = {r['id']: r for r in db['records']}
        s.rtype = {}        # rid -> type entry
        for t in s.types.values():
            if t.get('k') == 'rec' and (t['r'] not in s.rtype or not t.get('c')): s.rtype[t['r']] = t
        s.bases = {}
        for r in db['records']: s.bases[r['id']] = [s.types[b] for b in r['bases']]
        s.byname = {}
        for f in db['functions']: s.byname.setdefault(f['n'], []).append(f)
        s.meth = {}
        for i, h in s.head.items():
            if 'cls' in h: s.meth.setdefault(h['cls'], []).append(h)
        s._final = {}; s._anc = {}
        s.vecsizes = (2,)
        s.reset()
    cov = set() if os.environ.get('VM_COV') else None
    def covadd(s, st, l):
        """(debugging aid) note that a line was interpreted / that a condition took an outcome"""
        f = s.fn.get(st.cur[-1]) if st.cur else None
        if f: s.cov.add((f['f'], l))
    def reset(s):
        s.steps = 0; s.bits = None; s.paths = 0; s.visited = set(); s.outs = []
    # ------------------------------------------------------------------ types
    def ty(s, t): return s.types[t] if t else {'k': 'void', 's': 'void'}
    def strip(s, t):
        while t['k'] in ('ref', 'rref'): t = s.types[t['t']]
        return t
    def rname(s, rid):
        t = s.rtype.get(rid)
        if t: return t['n']
        r = s.rec.get(rid)
        return r['n'] if r else '?'
    def targs(s, rid):
        t = s.rtype.get(rid) or {}
        return t.get('a', [])
    def ancestors(s, rid):
        a = s._anc.get(rid)
        if a is None:
            a = {rid}
            for b in s.bases.get(rid, []):
                if b['k'] == 'rec': a |= s.ancestors(b['r'])
            s._anc[rid] = a
        return a
    def derives(s, rid, name):
        return any(s.rname(x) == name for x in s.ancestors(rid))
    def ovr_closure(s, fid):
        out = set(); todo = [fid]
        while todo:
            x = todo.pop()
            if x in out: continue
            out.add(x); todo += s.head.get(x, {}).get('ovr', [])
        return out
    def final(s, rid, fid):
        k = (rid, fid); v = s._final.get(k)
        if v is None:
            v = s._find(rid, fid); s._final[k] = v
        return v
    def _find(s, rid, fid):
        if s.head[fid].get('k') == 'dtor':
            for h in s.meth.get(rid, []):
                if h.get('k') == 'dtor': return h['id']
            return fid
        for h in s.meth.get(rid, []):
            if h['id'] == fid or fid in s.ovr_closure(h['id']): return h['id']
        best = None
        for b in s.bases.get(rid, []):
            if b['k'] == 'rec':
                x = s._find(b['r'], fid)
                if x is not None: best = x; break
        return best
    # ------------------------------------------------------------------ events, ends
    def where(s, st, l=None):
        f = s.fn.get(st.cur[-1]) if st.cur else None
        return (f.get('f', '') if f else '', l if l else (f.get('l') if f else 0), f['full'] if f else '')
    def end(s, st, kind, v, l=None):
        s.paths += 1
        if s.paths > s.MAXPATHS: raise Limit('more than %d paths' % s.MAXPATHS)
        o = Outcome(kind, v, st, s.where(st, l))
        if kind == 'throw': s.escapes(st, o, len(st.cur), getattr(st.handlers[-1], 'base', 0) if st.handlers else 0)
        (st.handlers[-1] if st.handlers else s.outs).append(o)
    def nothrow(s, st, hi, lo):
        """innermost function on the call stack between lo and hi that promises not to throw"""
        for fid in reversed(st.cur[lo:hi]):
            f = s.fn.get(fid)
            if f and f.get('nt') and '/viennamath/' in f['f']: return f
        return None
    def escapes(s, st, o, hi, lo):
        f = s.nothrow(st, hi, lo)
        if f: o.kind = 'terminate'; o.v = 'the exception %s ends the program because %s is declared not to throw' % (o.v[0].replace('viennamath::', ''), f['full'])
    def undec(s, st, why, l=None): s.end(st, 'undecided', why, l)
    def bug(s, st, what, msg, l=None): s.end(st, 'bug', (what, msg), l)
    def event(s, st, what, msg, l=None): st.events.append((what, msg, s.where(st, l)))
    # ------------------------------------------------------------------ objects
    def obj(s, st, oid, l=None): return st.h[oid]
    def usable(s, st, oid, l=None):
        if not st.h[oid].alive:
            s.bug(st, 'use-after-free', 'object %s is used after its lifetime ended' % s.describe(st, oid), l); return False
        return True
    def describe(s, st, oid):
        o = st.h[oid]
        return '%s%s' % (o.cls if isinstance(o.cls, str) else s.rname(o.cls), ' ' + o.tag if o.tag else '')
    def opaque(s, st, rid, storage, tag, org=None):
        i = st.new(rid, storage, tag); o = st.h[i]; o.opq = True; o.lazy = True; o.org = org
        return i
    def symval(s, st, t, tag, storage='ext', field=False):
        """symbolic value of type entry t"""
        k = t['k']
        if k in ('float', 'int'):
            if k == 'int':
                v = Q.sym(('n' if t.get('u') else 'i', tag))
            else: v = Q.sym(('v', tag))
            return v
        if k in ('ref', 'rref'):
            return s.symval(st, s.types[t['t']], tag, 'ext')
        if k == 'ptr':
            p = s.types[t['t']]
            if p['k'] == 'rec': return ('p', s.symval(st, p, tag, 'ext')[1])
            return ('unk', 'pointer to ' + p['s'])
        if k == 'rec':
            rid = t['r']; r = s.rec.get(rid)
            if (r and r.get('abs')) or t['n'] in OPEN:
                return ('o', s.opaque(st, rid, storage, tag))
            i = st.new(rid, storage, tag); o = st.h[i]; o.lazy = True
            n = t['n']
            if n in ('std::basic_string', 'std::string', 'std::__cxx11::basic_string'): o.f['s'] = (('sym', tag),)
            return ('o', i)
        if k == 'bool': return ('symbool', tag)
        return ('unk', t['s'])
    def lazyget(s, st, oid, key, t):
        """materialise field `key` of lazily known object"""
        o = st.h[oid]
        if o.org and o.org[0] == 'copyobj':
            src = s.getf(st, o.org[1], key, t)
            v = s.copyval(st, src)
        else:
            nm = s.fname(key)
            v = s.symval(st, t, (o.tag or 'o%d' % oid) + '.' + nm, 'sub' if t['k'] == 'rec' else 'ext')
            if isinstance(v, tuple) and v[0] == 'o' and (st.h[oid].st in ('ext', 'esub', 'snap') or not st.h[oid].alive): st.h[v[1]].st = 'esub'
        st.w(oid).f[key] = v
        return v
    _fn = None
    def fname(s, key):
        if s._fn is None:
            s._fn = {f['id']: f['n'] for r in s.rec.values() for f in r['fields']}
        return s._fn.get(key, str(key))
    def copyval(s, st, v):
        if isinstance(v, tuple) and v[0] in ('o', 'p') and v[1]:
            src = st.h[v[1]]
            i = st.new(src.cls, 'heap' if v[0] == 'p' else 'sub', src.tag)
            o = st.h[i]; o.opq = src.opq; o.lazy = True
            if src.opq: o.org = ('copy', v[1])
            else: o.org = ('copyobj', v[1])
            if src.cls and 's' in src.f: o.f['s'] = src.f['s']
            if not src.opq and '#vec' in src.f and not isinstance(src.f['#vec'], tuple): o.f['#vec'] = [s.copyval(st, x) for x in src.f['#vec']]
            return (v[0], i)
        return v
    def getf(s, st, oid, key, t):
        o = st.h[oid]
        if key in o.f: return o.f[key]
        if o.lazy: return s.lazyget(st, oid, key, t)
        return UNINIT
    def root(s, st, oid):
        while True:
            o = st.h[oid]
            if o.org and o.org[0] in ('copy', 'copyobj'): oid = o.org[1]
            else: return oid
    # ------------------------------------------------------------------ numeric facts
    def norm(s, d):
        """R -> (key, scale, const) with d = scale*key_form + const; key None if constant"""
        c = d.const()
        if c is not None: return None, 0, c
        if set(d.d) == {()}:
            n = dict(d.n); dd = d.d[()]; k0 = n.pop((), Fr(0)) / dd
            lead = min(n); sc = n[lead] / dd
            key = tuple(sorted((m, c / dd / sc) for m, c in n.items()))
            return key, sc, k0
        return ('q', Q.fmt(d)), Fr(1), Fr(0)
    def facts_apply(s, st, v):
        if isinstance(v, R) and st.sub:
            for k, r in st.sub: v = Q.subst(v, k, r)
        return v
    def bounds(s, st, key):
        b = st.num.get(key)
        if b is None:
            lo = None
            if len(key) == 1 and key[0] != 'q':
                m = key[0][0]
                if len(m) == 1 and m[0][1] == 1:
                    a = Q._atoms[m[0][0]]
                    if a[0] == 'sym' and isinstance(a[1], tuple) and a[1][0] == 'n': lo = Fr(0)
                    if a[0] == 'fn' and a[1] in ('exp', 'fabs', 'sqrt'): lo = Fr(0)
            elif key[0] != 'q' and all(c > 0 and all(Q._atoms[a][0] == 'sym' and isinstance(Q._atoms[a][1], tuple) and Q._atoms[a][1][0] == 'n' for a, e in m) for m, c in key): lo = Fr(0)
            b = (lo, False, None, False, frozenset())
        return b
    def isint(s, key):
        if key and key[0] != 'q' and all(c.denominator == 1 for m, c in key):
            for m, c in key:
                for a, e in m:
                    k = Q._atoms[a]
                    if not (k[0] == 'sym' and isinstance(k[1], tuple) and k[1][0] in ('n', 'i')): return False
            return True
        return False
    def assume(s, st, d, op):
        """decide/assume  d op 0; yields (state, bool)"""
        try: d = s.facts_apply(st, d)
        except Q.Undefined: s.undec(st, 'division by zero in a condition'); return
        key, sc, c = s.norm(d)
        if key is None:
            r = {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0, '>': c > 0, '>=': c >= 0}[op]
            yield st, r; return
        if sc < 0: op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
        b = -c / sc                       # form op b
        lo, ls, hi, hs, ne = s.bounds(st, key)
        integer = s.isint(key)
        def dec():
            if op in ('<', '>='):
                if hi is not None and (hi < b or (hi == b and hs)): return op == '<'
                if lo is not None and lo >= b: return op == '>='
            if op in ('<=', '>'):
                if hi is not None and hi <= b: return op == '<='
                if lo is not None and (lo > b or (lo == b and ls)): return op == '>'
                if lo is not None and lo == b == hi: return op == '<='
            if op in ('==', '!='):
                if lo is not None and (b < lo or (b == lo and ls)): return op == '!='
                if hi is not None and (b > hi or (b == hi and hs)): return op == '!='
                if b in ne: return op == '!='
                if lo is not None and lo == hi == b: return op == '=='
            return None
        r = dec()
        if r is not None: yield st, r; return
        other = st.copy()
        for x, val in ((st, True), (other, False)):
            o2 = op if val else {'<': '>=', '<=': '>', '==': '!=', '!=': '==', '>': '<=', '>=': '<'}[op]
            l2, a2, h2, z2, n2 = lo, ls, hi, hs, ne
            if o2 == '<': h2, z2 = b, True
            elif o2 == '<=':
                h2, z2 = b, b in ne
            elif o2 == '>': l2, a2 = b, True
            elif o2 == '>=': l2, a2 = b, b in ne
            elif o2 == '==': l2, a2, h2, z2 = b, False, b, False
            else:
                n2 = ne | {b}
                if l2 == b: a2 = True
                if h2 == b: z2 = True
            if integer:
                if a2 and l2 is not None and l2.denominator == 1: l2, a2 = l2 + 1, False
                if z2 and h2 is not None and h2.denominator == 1: h2, z2 = h2 - 1, False
            if l2 is not None and h2 is not None and (l2 > h2 or (l2 == h2 and (a2 or z2))): continue
            x.num[key] = (l2, a2, h2, z2, n2)
            x.trace.append('%s %s 0 is %s' % (Q.fmt(d), op if sc > 0 else op, val))
            if l2 is not None and l2 == h2 and s.equate(x, key, l2) is False: continue
            yield x, val
    def equate(s, st, key, val):
        """linear form key equals val: add a substitution"""
        if key[0] == 'q': return
        for m, c in key:
            if len(m) == 1 and m[0][1] == 1 and Q._atoms[m[0][0]][0] == 'sym':
                a = m[0][0]; k = Q._atoms[a][1]
                if k == 'ln10': continue
                rest = R({mm: -cc / c for mm, cc in key if mm != m}, Q._ONE) + Q.num(Fr(val) / c)
                if Q.depends(rest, k): continue
                one = ((m, Fr(1)),)
                known = dict(st.num)
                if one not in known and s.bounds(st, one)[0] is not None: known[one] = s.bounds(st, one)
                st.sub.append((k, rest))
                return s.rekey(st, k, rest, known, key)
    def rekey(s, st, k, rest, known, done):
        """carry what is known about forms mentioning symbol k over to the forms without it; False: contradiction"""
        for key, b in known.items():
            if key == done or key[0] == 'q': continue
            f = R({m: c for m, c in key}, Q._ONE)
            if not Q.depends(f, k): continue
            try: k2, sc, c = s.norm(Q.subst(f, k, rest))
            except Q.Undefined: continue
            lo, ls, hi, hs, ne = b
            if k2 is None:
                if lo is not None and (c < lo or (c == lo and ls)): return False
                if hi is not None and (c > hi or (c == hi and hs)): return False
                if c in ne: return False
                continue
            t = lambda v: None if v is None else (v - c) / sc
            lo, hi, ne = t(lo), t(hi), frozenset(t(v) for v in ne)
            if sc < 0: lo, ls, hi, hs = hi, hs, lo, ls
            l2, a2, h2, z2, n2 = s.bounds(st, k2)
            if lo is not None and (l2 is None or lo > l2 or (lo == l2 and ls)): l2, a2 = lo, ls
            if hi is not None and (h2 is None or hi < h2 or (hi == h2 and hs)): h2, z2 = hi, hs
            if l2 is not None and h2 is not None and (l2 > h2 or (l2 == h2 and (a2 or z2))): return False
            st.num[k2] = (l2, a2, h2, z2, n2 | ne)
    def compare(s, st, op, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                yield st, (a == b) if op == '==' else (a != b); return
            a = int(a) if isinstance(a, bool) else a; b = int(b) if isinstance(b, bool) else b
        if isinstance(a, int) and isinstance(b, int):
            yield st, {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}[op]; return
        if isnum(a) and isnum(b):
            try: d = s.facts_apply(st, rn(a) - rn(b))
            except Q.Undefined: s.undec(st, 'undefined value compared'); return
            for r in s.assume(st, d, op): yield r
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ('==', '!='):
            if a[0] in ('p', 'pl', 'str', 'it', 'cstr') and b[0] in ('p', 'pl', 'str', 'it', 'cstr'):
                yield st, (a == b) == (op == '=='); return
        from . import models
        x, y = models.itof(st, a), models.itof(st, b)
        if x and y and x[0] == y[0]:
            for r in s.compare(st, op, x[1], y[1]): yield r
            return
        if (x and b == NULL or y and a == NULL) and op in ('==', '!='): yield st, op == '!='; return
        s.undec(st, 'comparison %s of %r and %r' % (op, a, b))
    def truth(s, st, v):
        if isinstance(v, bool): yield st, v; return
        if isnum(v):
            for r in s.compare(st, '!=', v, 0): yield r
            return
        if isinstance(v, tuple):
            if v[0] == 'p': yield st, v[1] != 0; return
            if v[0] in ('str', 'pl', 'fn', 'pa'): yield st, True; return
            if v[0] == 'symbool':
                for r in s.fork(st, ('bool', v[1]), 'flag %s' % v[1]): yield r
                return
        s.undec(st, 'condition on %r' % (v,))
    def fork(s, st, key, note):
        if key in st.facts: yield st, st.facts[key]; return
        o = st.copy()
        st.facts[key] = True; st.trace.append(note + ' is true'); yield st, True
        o.facts[key] = False; o.trace.append(note + ' is false'); yield o, False
    # ------------------------------------------------------------------ memory
    def load(s, st, loc, t, l=None):
        """value stored at loc or None after reporting"""
        if loc[0] == 'o': return loc
        if loc[0] == 'str': return loc
        _, oid, key = loc
        if not s.usable(st, oid, l): return None
        o = st.h[oid]
        if isinstance(key, tuple) and key[0] == 'el':
            vec = o.f.get('#vec')
            if isinstance(vec, tuple): return Q.sym(('el', vec[1], key[1]))
            return vec[key[1]]
        if isinstance(key, tuple) and key[0] == 'tup': return o.f['#tup'][key[1]]
        v = s.getf(st, oid, key, t)
        if v == UNINIT:
            s.bug(st, 'uninitialised', 'value of %s is read before it is initialised' % s.fname(key), l); return None
        if isinstance(v, tuple) and v[0] == 'unk':
            s.undec(st, 'unmodelled value of type ' + v[1], l); return None
        return v
    def extern(s, st, oid): return st.h[oid].st in ('ext', 'esub')
    def store(s, st, loc, v, l=None):
        if loc[0] != 'l': s.undec(st, 'store to %r' % (loc,), l); return False
        _, oid, key = loc
        if not s.usable(st, oid, l): return False
        if s.extern(st, oid) and not st.facts.get(('mut', s.top(st, oid))): s.event(st, 'write', 'writes to %s, which belongs to the caller and is passed read-only' % s.describe(st, oid), l)
        o = st.w(oid)
        if isinstance(key, tuple) and key[0] == 'el':
            vec = o.f.get('#vec')
            if isinstance(vec, tuple): s.undec(st, 'store to symbolic vector', l); return False
            vec = list(vec); vec[key[1]] = v; o.f['#vec'] = vec
            return True
        if isinstance(key, tuple) and key[0] == 'tup':
            z = list(o.f['#tup']); z[key[1]] = v; o.f['#tup'] = z
            return True
        o.f[key] = s.fit(key, v)
        return True
    def fit(s, field, v):
        """the value a member keeps of what is stored into it: bit-fields lose the upper bits"""
        if s.bits is None:
            s.bits = {f['id']: (f['bits'], bool(s.ty(f['t']).get('u'))) for r in s.rec.values() for f in r.get('fields', ()) if f.get('bits') and f['bits'] < s.ty(f['t']).get('w', 64) and s.ty(f['t'])['k'] == 'int'}
        b = s.bits.get(field) if s.bits and isinstance(field, int) else None
        if b is None or isinstance(v, bool): return v
        c = v if isinstance(v, int) else (lambda k: None if k is None else int(k))(v.const()) if isinstance(v, R) else None
        if c is None: return Q.fn('narrow%d' % b[0], rn(v)) if isinstance(v, R) else v
        c &= (1 << b[0]) - 1
        return c - (1 << b[0]) if not b[1] and c >> (b[0] - 1) else c
    def top(s, st, oid): return (st.h[oid].tag or '').split('.')[0]
    # ------------------------------------------------------------------ expressions
    def ev(s, x, st, fr):
        s.steps += 1
        if s.steps > s.MAXSTEPS: raise Limit('step budget exceeded')
        if not s.steps & 2047 and s.deadline and time.time() > s.deadline: raise Limit('time budget exceeded')
        if s.cov is not None and x.get('l'): s.covadd(st, x['l'])
        m = s.EV.get(x['e'])
        if m is None: return s.e_unk(x, st, fr)
        return m(s, x, st, fr)
    def evl(s, xs, st, fr, i=0, acc=()):
        if i == len(xs): yield st, list(acc); return
        for st1, v in s.ev(xs[i], st, fr):
            for r in s.evl(xs, st1, fr, i + 1, acc + (v,)): yield r
    def full(s, x, st, fr, keep=None):
        """evaluate a full expression; destroys its temporaries afterwards (keep: object whose lifetime is extended)"""
        st.temps.append([])
        for st1, v in s.ev(x, st, fr):
            for st2 in s.poptemps(st1, fr, keep(v) if keep else None): yield st2, v
    def poptemps(s, st, fr, keepoid=None):
        tl = st.temps.pop()
        if keepoid is not None and keepoid in tl:
            tl = [t for t in tl if t != keepoid]
            s.scope_add(st, fr, keepoid)
        return s.destroyl(st, tl[::-1])
    def destroyl(s, st, l):
        if not l: yield st; return
        for st1 in s.destroy(st, l[0]):
            for st2 in s.destroyl(st1, l[1:]): yield st2
    def e_unk(s, x, st, fr):
        s.undec(st, 'construct %s' % x.get('k', x['e']), x.get('l'))
        return iter(())
    def e_bind(s, x, st, fr): return s.ev(x['x'], st, fr)
    def e_silist(s, x, st, fr): return s.ev(x['x'], st, fr)
    def e_mat(s, x, st, fr):
        for st1, v in s.ev(x['x'], st, fr):
            if isinstance(v, tuple) and v[0] == 'o':
                st1.temps[-1].append(v[1]); yield st1, v
            else:
                i = st1.new('#cell', 'auto'); st1.h[i].f['v'] = v
                st1.temps[-1].append(i)
                yield st1, ('l', i, 'v')
    def e_int(s, x, st, fr): yield st, int(x['v'])
    def e_flt(s, x, st, fr):
        yield st, Q.flt(x['exact'])
    def e_bool(s, x, st, fr): yield st, bool(x['v'])
    def e_str(s, x, st, fr): yield st, ('str', x['v'])
    def e_null(s, x, st, fr): yield st, NULL
    def e_this(s, x, st, fr): yield st, ('p', st.h[fr].f['this'])
    def e_fref(s, x, st, fr): yield st, ('fn', x['f'])
    def e_ref(s, x, st, fr):
        d = x['d']
        f = st.h[fr].f
        if d in f:
            v = f[d]
            if isinstance(v, tuple) and v[0] in ('o', 'l'): yield st, v
            else: yield st, ('l', fr, d)
            return
        if 'cv' in x: 
            yield st, ('cv', int(x['cv'])); return
        t = s.strip(s.ty(x['t']))
        if x.get('g') and t['k'] == 'rec' and t['n'].startswith('std::'):
            if d not in st.glob:
                i = st.new(t['r'], 'static', x['n']); st.h[i].f['s'] = (); st.glob[d] = i
            yield st, ('o', st.glob[d]); return
        if 'gi' in x:
            if d in st.glob: yield st, st.glob[d]; return
            i = st.new('#frame', 'static'); st.h[i].f['this'] = None; st.h[i].f['#sc'] = ((),)
            for st1, v in s.ev(x['gi'], st, i):
                if isinstance(v, tuple) and v[0] == 'o':
                    if st1.h[v[1]].st == 'auto': st1.w(v[1]).st = 'static'
                elif not (isinstance(v, tuple) and v[0] in ('l', 'str', 'cv')): v = ('cv', v)
                st1.w(i).alive = False; st1.glob = dict(st1.glob); st1.glob[d] = v
                yield st1, v
            return
        s.undec(st, 'variable %s' % x.get('n'), x.get('l'))
    def e_mem(s, x, st, fr):
        for st1, b in s.ev(x['x'], st, fr):
            oid = s.objof(st1, b, x)
            if oid is None: continue
            if not s.usable(st1, oid, x.get('l')): continue
            t = s.ty(x['t'])
            if x['n'] in st1.h[oid].f and x['n'] in ('first', 'second'):      # std::pair
                v = st1.h[oid].f[x['n']]
                yield st1, v if isinstance(v, tuple) and v[0] in ('o', 'l') else ('l', oid, x['n']); continue
            if t['k'] == 'rec':
                v = s.getf(st1, oid, x['d'], t)
                if v == UNINIT: s.bug(st1, 'uninitialised', 'member %s used before it is constructed' % x['n'], x.get('l')); continue
                yield st1, v
            else:
                v = st1.h[oid].f.get(x['d'])
                if isinstance(v, tuple) and v[0] in ('l', 'o'): yield st1, v       # reference member
                else: yield st1, ('l', oid, x['d'])
    def objof(s, st, v, x=None):
        if isinstance(v, tuple):
            if v[0] == 'o': return v[1]
            if v[0] == 'p':
                if v[1] == 0:
                    s.bug(st, 'null-dereference', 'null pointer is dereferenced', x.get('l') if x else None); return None
                return v[1]
        s.undec(st, 'object expression %r' % (v,), x.get('l') if x else None)
        return None
    def e_cast(s, x, st, fr):
        k = x['k']
        for st1, v in s.ev(x['x'], st, fr):
            if k == 'LValueToRValue':
                if isinstance(v, tuple) and v[0] == 'cv': yield st1, v[1]; continue
                r = s.load(st1, v, s.ty(x['t']), x.get('l')) if isinstance(v, tuple) and v[0] in ('l', 'o', 'str') else v
                if r is None: continue
                yield st1, r
            elif k in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BitCast'):
                yield st1, v
            elif k == 'ArrayToPointerDecay':
                if isinstance(v, tuple) and v[0] == 'o' and st1.h[v[1]].cls == '#arr': yield st1, ('pa', v[1], 0); continue
                if isinstance(v, tuple) and v[0] == 'l':
                    v = s.load(st1, v, s.ty(x['t']), x.get('l'))
                    if v is None: continue
                yield st1, v
            elif k == 'NullToPointer': yield st1, NULL
            elif k in ('IntegralCast', 'BooleanToSignedIntegral'):
                t = s.ty(x['t'])
                if isinstance(v, bool): v = int(v)
                c = v if isinstance(v, int) else None
                if c is None and isinstance(v, R):
                    cc = v.const()
                    if cc is not None: c = int(cc)
                if c is not None:
                    if t.get('w'):
                        c &= (1 << t['w']) - 1
                        if not t.get('u') and c >> (t['w'] - 1): c -= 1 << t['w']
                    yield st1, c
                else:
                    src = s.ty(x['x']['t'])
                    if t.get('w') and src.get('w') and t['w'] < src['w']: yield st1, Q.fn('narrow%d' % t['w'], rn(v))
                    else: yield st1, v
            elif k == 'IntegralToFloating': yield st1, rn(v)
            elif k == 'FloatingToIntegral':
                c = conc(v)
                if c is not None: yield st1, int(c)
                else: yield st1, Q.fn('trunc', rn(v))
            elif k == 'FloatingCast':
                if s.ty(x['t'])['s'].split()[-1] == 'float' and conc(v) is None: yield st1, Q.fn('tofloat', rn(v))
                else: yield st1, v
            elif k in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                for r in s.truth(st1, v): yield r
            elif k == 'ToVoid':
                if isinstance(v, tuple) and v[0] == 'o' and not x['x'].get('lv'): st1.temps[-1].append(v[1])
                yield st1, None
            else: s.undec(st1, 'cast ' + k, x.get('l'))
    def e_dyn(s, x, st, fr):
        t = s.ty(x['t']); isptr = t['k'] == 'ptr'
        tt = s.types[t['t']] if t['k'] in ('ptr', 'ref', 'rref') else t
        for st1, v in s.ev(x['x'], st, fr):
            if isptr and isinstance(v, tuple) and v[0] == 'p' and v[1] == 0: yield st1, NULL; continue
            oid = s.objof(st1, v, x)
            if oid is None: continue
            if not s.usable(st1, oid, x.get('l')): continue
            for st2, ok in s.castto(st1, oid, tt['r'], x.get('l')):
                if isptr: yield st2, (('p', oid) if ok else NULL)
                elif ok: yield st2, ('o', oid)
                else: s.end(st2, 'throw', ('std::bad_cast', None), x.get('l'))
    def castto(s, st, oid, rid, l=None):
        o = st.h[oid]
        if not o.opq: yield st, rid in s.ancestors(o.cls); return
        if rid in s.ancestors(o.cls): yield st, True; return
        root = s.root(st, oid); ro = st.h[root]
        if not ro.opq:
            if rid in s.ancestors(ro.cls): s.setkind(st, oid, ro.cls)
            yield st, not st.h[oid].opq; return
        if rid in st.facts.get(('not', root), ()): yield st, False; return
        if o.cls not in s.ancestors(rid): yield st, False; return
        other = st.copy()
        # no: not of this kind
        other.facts[('not', root)] = other.facts.get(('not', root), ()) + (rid,)
        other.trace.append('%s is not a %s' % (ro.tag, s.rname(rid)))
        # yes
        st.trace.append('%s is a %s' % (ro.tag, s.short(rid)))
        for st2 in s.materialise(st, root, rid):
            if root != oid: s.setkind(st2, oid, rid)
            yield st2, True
        yield other, False
    def short(s, rid):
        t = s.rtype.get(rid)
        return (t['s'] if t else s.rname(rid)).replace('viennamath::', '').replace('rt_expression_interface<double>', 'I')
    def setkind(s, st, oid, rid):
        o = st.w(oid); o.cls = rid; o.opq = False; o.lazy = True
        if o.org and o.org[0] == 'copy': o.org = ('copyobj', o.org[1])
        r = st.h[s.root(st, oid)]
        if '#vec' in r.f and '#vec' not in o.f: o.f['#vec'] = [s.copyval(st, v) for v in r.f['#vec']]
    def materialise(s, st, root, rid):
        known = st.facts.get(('const', root))
        s.setkind(st, root, rid)
        def consistent(st):
            if known is None: yield st; return
            m = s.vmethod(rid, 'is_constant', 0)
            if m is None: yield st; return
            for st2, r in s.call(m, [], st, ('o', root)):
                for st3, b in s.truth(st2, r):
                    if b != known: continue
                    if not known: yield st3; continue
                    u = s.vmethod(rid, 'unwrap', 0)
                    st3.handlers.append([])
                    for st4, val in s.call(u, [], st3, ('o', root)):
                        st4.handlers.pop()
                        st4.sub.append((('v', 'const:' + st.h[root].tag), rn(val)))
                        yield st4
        if s.derives(rid, 'viennamath::rt_vector_expr'):
            sizes = list(s.vecsizes)
            for i, n in enumerate(sizes):
                x = st if i == len(sizes) - 1 else st.copy()
                s.veclazy(x, root, n)
                for y in consistent(x): yield y
            return
        for y in consistent(st): yield y
    def veclazy(s, st, oid, n):
        o = st.h[oid]
        et = s.velem(o.cls)
        vals = []
        for i in range(n):
            v = s.symval(st, et, '%s[%d]' % (o.tag, i), 'esub' if o.st in ('ext', 'esub', 'snap') or not o.alive else 'sub')
            vals.append(v)
        st.w(oid).f['#vec'] = vals
    def velem(s, rid):
        if s.rname(rid) in ('std::vector', 'std::array'): return s.types[s.targs(rid)[0]['t']]
        for b in s.bases.get(rid, []):
            if b['k'] == 'rec':
                r = s.velem(b['r']) if (b['n'] == 'std::vector' or b['r'] in s.bases) else None
                if r: return r
        if s.rname(rid) == 'std::vector': return None
        return None
    def vmethod(s, rid, base, nargs):
        seen = set()
        def find(r):
            for h in s.meth.get(r, []):
                if h['base'] == base and len(h['ps']) == nargs and h['id'] in s.fn: return h['id']
            for b in s.bases.get(r, []):
                if b['k'] == 'rec':
                    x = find(b['r'])
                    if x: return x
        return find(rid)
    def e_new(s, x, st, fr):
        t = s.ty(x['at'])
        if x.get('arr'): s.undec(st, 'array new', x.get('l')); return
        for st1, v in (s.ev(x['i'], st, fr) if x.get('i') else [(st, UNINIT)]):
            if isinstance(v, tuple) and v[0] == 'o':
                o = st1.w(v[1]); o.st = 'heap'; o.line = (s.where(st1, x.get('l')))
                yield st1, ('p', v[1])
            else:
                i = st1.new('#cell', 'heap'); st1.h[i].f['v'] = v
                yield st1, ('pl', ('l', i, 'v'))
    def e_del(s, x, st, fr):
        for st1, v in s.ev(x['x'], st, fr):
            for st2 in s.delete(st1, v, x.get('l')): yield st2, None
    def delete(s, st, v, l=None):
        if v == NULL: yield st; return
        if isinstance(v, tuple) and v[0] == 'pl': v = ('p', v[1][1])
        if not (isinstance(v, tuple) and v[0] == 'p'): s.undec(st, 'delete of %r' % (v,), l); return
        o = st.h[v[1]]
        if not o.alive: s.bug(st, 'double-delete', '%s is deleted twice' % s.describe(st, v[1]), l); return
        if o.st != 'heap': s.bug(st, 'foreign-delete', '%s is deleted although it is not owned here' % s.describe(st, v[1]), l); return
        for st1 in s.destroy(st, v[1]): yield st1
    def destroy(s, st, oid):
        o = st.h[oid]
        if not o.alive: s.bug(st, 'double-destroy', '%s is destroyed twice' % s.describe(st, oid)); return
        if isinstance(o.cls, str) or o.opq:
            ids = [e[1] for e in o.f.get('#vec', ()) if isinstance(e, tuple) and e[0] == 'o' and st.h[e[1]].st not in ('ext', 'esub')] if o.cls == '#arr' else []
            st.w(oid).alive = False
            if not ids: yield st; return
            for st1 in s.destroyl(st, ids[::-1]): yield st1
            return
        n = s.rname(o.cls)
        if n in ('std::auto_ptr', 'std::unique_ptr'):
            p = o.f.get('p', NULL)
            if 'p' not in o.f and o.lazy and o.org and o.org[0] == 'copyobj': p = NULL     # never looked at: state of the copy is consumed with it
            st.w(oid).alive = False
            for st1 in s.delete(st, p): yield st1
            return
        def fields(st, cls):
            """run user destructor, then destroy the members of cls in reverse, then bases"""
            d = [h for h in s.meth.get(cls, []) if h.get('k') == 'dtor' and h['id'] in s.fn and not h.get('implicit')]
            def after(st):
                fs = [f for f in s.rec.get(cls, {}).get('fields', [])][::-1]
                ids = []
                for f in fs:
                    v = st.h[oid].f.get(f['id'])
                    if s.ty(f['t'])['k'] == 'rec' and isinstance(v, tuple) and v[0] == 'o' and st.h[v[1]].st not in ('ext', 'esub'): ids.append(v[1])
                def bs(st, l):
                    if not l: yield st; return
                    for st1 in fields(st, l[0]['r']):
                        for st2 in bs(st1, l[1:]): yield st2
                for st1 in s.destroyl(st, ids):
                    for st2 in bs(st1, [b for b in s.bases.get(cls, []) if b['k'] == 'rec'][::-1]): yield st2
            if d:
                for st1, _ in s.call(d[0]['id'], [], st, ('o', oid)):
                    for st2 in after(st1): yield st2
            else:
                for st2 in after(st): yield st2
        def elems(st):
            v = st.h[oid].f.get('#vec')
            ids = []
            if isinstance(v, list):
                ids = [e[1] for e in v if isinstance(e, tuple) and e[0] == 'o' and st.h[e[1]].st not in ('ext', 'esub')]
            ids += [e for e in st.h[oid].f.get('#own', ())]
            m = st.h[oid].f.get('#map')
            if isinstance(m, list):
                for k, e in m:
                    for z in (k, e):
                        if isinstance(z, tuple) and z[0] == 'o' and st.h[z[1]].st not in ('ext', 'esub'): ids.append(z[1])
            return s.destroyl(st, ids[::-1])
        for st1 in fields(st, o.cls):
            for st2 in elems(st1):
                st2.w(oid).alive = False
                yield st2
    def e_throw(s, x, st, fr):
        if not x.get('x'):
            v = st.facts.get(('exc',))
            for i in range(len(st.events) - 1, -1, -1):
                if st.events[i][0] == 'caught': del st.events[i]; break
            s.end(st, 'throw', v or ('rethrow', None), x.get('l')); return
        for st1, v in s.ev(x['x'], st, fr):
            t = s.strip(s.ty(x.get('tt') or x['x']['t']))
            s.end(st1, 'throw', (t.get('n', t['s']), v, t), x.get('l'))
        return
        yield
    def e_un(s, x, st, fr):
        k = x['k']
        for st1, v in s.ev(x['x'], st, fr):
            if k == '!':
                for st2, b in s.truth(st1, v): yield st2, not b
            elif k == '-':
                yield st1, (-v if isinstance(v, int) else -rn(v))
            elif k == '+': yield st1, v
            elif k == '*':
                if isinstance(v, tuple) and v[0] == 'pl': yield st1, v[1]; continue
                if isinstance(v, tuple) and v[0] == 'p':
                    if v[1] == 0: s.bug(st1, 'null-dereference', 'null pointer is dereferenced', x.get('l')); continue
                    yield st1, ('o', v[1]); continue
                if isinstance(v, tuple) and (v[0] == 'pa' or v[0] == 'o' and st1.h[v[1]].cls == '#arr'):
                    for r in s.arrel(st1, v, 0, x): yield r
                    continue
                s.undec(st1, 'dereference of %r' % (v,), x.get('l'))
            elif k == '&':
                if isinstance(v, tuple) and v[0] == 'o': yield st1, ('p', v[1])
                elif isinstance(v, tuple) and v[0] == 'l': yield st1, ('pl', v)
                elif isinstance(v, tuple) and v[0] == 'fn': yield st1, v
                else: s.undec(st1, 'address of %r' % (v,), x.get('l'))
            elif k in ('++', '--', '++p', '--p'):
                old = s.load(st1, v, s.ty(x['t']), x.get('l'))
                if old is None: continue
                if isinstance(old, tuple) and old[0] == 'pa':
                    new = s.arith(st1, k[0], old, 1, s.ty(x['t']), x.get('l'))
                    if new is None or not s.store(st1, v, new, x.get('l')): continue
                    yield st1, (old if k.endswith('p') else v); continue
                if not isnum(old): s.undec(st1, '++ on %r' % (old,), x.get('l')); continue
                d = 1 if k[0] == '+' else -1
                new = old + d if isinstance(old, int) else rn(old) + Q.num(d)
                if not s.store(st1, v, new, x.get('l')): continue
                yield st1, (old if k.endswith('p') else v)
            elif k == '~' and isinstance(v, int): yield st1, ~v
            elif k in ('__extension__', '__real'): yield st1, v
            else: s.undec(st1, 'operator ' + k, x.get('l'))
    def e_asg(s, x, st, fr):
        k = x['k']
        for st1, b in s.ev(x['y'], st, fr):
            for st2, a in s.ev(x['x'], st1, fr):
                if k == '=': v = b
                else:
                    old = s.load(st2, a, s.ty(x['t']), x.get('l'))
                    if old is None: continue
                    r = s.arith(st2, k[:-1], old, b, s.ty(x['t']), x.get('l'))
                    if r is None: continue
                    v = r
                if s.store(st2, a, v, x.get('l')): yield st2, a
    def arith(s, st, k, a, b, t, l=None):
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if not (isnum(a) and isnum(b)):
            from . import models
            x, y = models.itof(st, a), models.itof(st, b)                 # pointers into arrays
            if k == '+' and y and not x: a, b, x, y = b, a, y, x
            if x and y and k == '-' and x[0] == y[0]: return x[1] - y[1]
            n = models.concint(s, st, b) if x and not y and k in '+-' else None
            if n is not None:
                j = x[1] + n if k == '+' else x[1] - n
                if not 0 <= j <= len(st.h[x[0]].f['#vec']): s.bug(st, 'out-of-bounds', 'pointer is moved outside of its array', l); return None
                return ('pa', x[0], j)
            s.undec(st, 'operator %s on %r, %r' % (k, a, b), l); return None
        integer = t['k'] in ('int', 'bool')
        if isinstance(a, int) and isinstance(b, int) and integer:
            try:
                if k == '+': r = a + b
                elif k == '-': r = a - b
                elif k == '*': r = a * b
                elif k == '/': r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                elif k == '%': r = a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
                elif k == '<<': r = a << b
                elif k == '>>': r = a >> b
                elif k == '&': r = a & b
                elif k == '|': r = a | b
                elif k == '^': r = a ^ b
                else: s.undec(st, 'operator ' + k, l); return None
            except ZeroDivisionError:
                s.bug(st, 'division-by-zero', 'integer division by zero', l); return None
            if t['k'] == 'bool': return bool(r)
            if t.get('u') and t.get('w'): r &= (1 << t['w']) - 1
            return r
        a, b = rn(a), rn(b)
        try:
            if k == '+': return a + b
            if k == '-': return a - b
            if k == '*': return a * b
            if k == '/':
                if integer: return Q.fn('idiv', a, b)
                b2 = s.facts_apply(st, b)
                if b2.iszero(): return Q.fn('divzero', a)
                return a / b
            if k == '%': return Q.fn('imod', a, b)
            if integer and k in ('<<', '>>', '&', '|', '^'): return Q.fn({'<<': 'ishl', '>>': 'ishr', '&': 'iand', '|': 'ior', '^': 'ixor'}[k], a, b)
        except Q.TooBig: pass
        s.undec(st, 'operator ' + k, l)
        return None
    def e_bin(s, x, st, fr):
        k = x['k']
        if k in ('&&', '||'):
            for st1, v in s.ev(x['x'], st, fr):
                for st2, b in s.truth(st1, v):
                    if (k == '&&') != b: yield st2, b
                    else:
                        for st3, w in s.ev(x['y'], st2, fr):
                            for r in s.truth(st3, w): yield r
            return
        if k == ',':
            for st1, v in s.ev(x['x'], st, fr):
                for r in s.ev(x['y'], st1, fr): yield r
            return
        for st1, a in s.ev(x['x'], st, fr):
            for st2, b in s.ev(x['y'], st1, fr):
                if k in ('<', '<=', '==', '!=', '>', '>='):
                    for r in s.compare(st2, k, a, b): yield r
                else:
                    r = s.arith(st2, k, a, b, s.ty(x['t']), x.get('l'))
                    if r is not None: yield st2, r
    def e_cond(s, x, st, fr):
        for st1, c in s.ev(x['c'], st, fr):
            for st2, b in s.truth(st1, c):
                if s.cov is not None: s.covadd(st2, (x.get('l'), bool(b)))
                for r in s.ev(x['x'] if b else x['y'], st2, fr): yield r
    def e_sub(s, x, st, fr):
        for st1, a in s.ev(x['x'], st, fr):
            for st2, b in s.ev(x['y'], st1, fr):
                if isinstance(a, tuple) and a[0] == 'str' and isinstance(b, int) and 0 <= b <= len(a[1]): yield st2, ('cv', ord((a[1] + chr(0))[b])); continue
                for r in s.arrel(st2, a, b, x): yield r
    def arrel(s, st, a, b, x):
        from . import models
        p = models.itof(st, a) if isinstance(a, tuple) and (a[0] == 'pa' or a[0] == 'o' and st.h[a[1]].cls == '#arr') else None
        n = models.concint(s, st, b)
        if p is not None and n is None and isnum(b) and p[1] == 0:      # symbolic index: decide position by position
            if not s.usable(st, p[0], x.get('l')): return
            def pick(st, j):
                if j == len(st.h[p[0]].f['#vec']): s.bug(st, 'out-of-bounds', 'index %s is not checked against the %d elements of the array' % (s.argkey(st, b), j), x.get('l')); return
                for st1, e in s.compare(st, '==', b, j):
                    for r in (s.arrel(st1, a, j, x) if e else pick(st1, j + 1)): yield r
            for r in pick(st, 0): yield r
            return
        if p is None or n is None: s.undec(st, 'array subscript', x.get('l')); return
        if not s.usable(st, p[0], x.get('l')): return
        v = st.h[p[0]].f['#vec']; n += p[1]
        if n < 0 or n >= len(v): s.bug(st, 'out-of-bounds', 'element %d of an array of %d elements is accessed' % (n, len(v)), x.get('l')); return
        if v[n] == UNINIT and not x.get('lv'): s.bug(st, 'uninitialised', 'element of an array used before it is assigned', x.get('l')); return
        yield st, v[n] if isinstance(v[n], tuple) and v[n][0] == 'o' else ('l', p[0], ('el', n))
    def newarr(s, st, t, vs, fill=UNINIT):
        i = st.new('#arr', 'auto'); n = t.get('sz') or len(vs)
        if 't' in t: st.h[i].f['#et'] = s.ty(t['t'])
        st.h[i].f['#vec'] = list(vs) + [fill] * (n - len(vs))
        for v in vs:
            if isinstance(v, tuple) and v[0] == 'o' and st.h[v[1]].st == 'auto': st.w(v[1]).st = 'sub'
        return ('o', i)
    def e_zero(s, x, st, fr):
        t = s.ty(x['t'])
        if t['k'] == 'ptr': yield st, NULL
        elif t['k'] == 'bool': yield st, False
        elif t['k'] == 'float': yield st, Q.ZERO
        else: yield st, 0
    def e_ilist(s, x, st, fr):
        t = s.ty(x['t'])
        if t['k'] in ('int', 'float', 'bool', 'ptr'):
            if x['a']:
                for r in s.ev(x['a'][0], st, fr): yield r
            else:
                for r in s.e_zero(x, st, fr): yield r
            return
        if t['k'] == 'arr':
            if len(x['a']) == 1 and x['a'][0]['e'] == 'str': 
                yield st, ('str', x['a'][0]['v']); return
            e = s.ty(t['t'])
            fill = Q.ZERO if e['k'] == 'float' else False if e['k'] == 'bool' else NULL if e['k'] == 'ptr' else 0
            for st1, vs in s.evl(x['a'], st, fr):
                if len(vs) < t.get('sz', 0) and e['k'] in ('rec', 'arr'): s.undec(st1, 'array of default-constructed objects', x.get('l')); continue
                yield st1, s.newarr(st1, t, vs, fill)
            return
        if t['k'] == 'rec' and t['n'] == 'std::array':
            for st1, vs in s.evl(x['a'], st, fr):
                i = st1.new(t['r'], 'auto')
                if not vs: vs = [s.newarr(st1, {'sz': 0}, [])]
                src = st1.h[vs[0][1]].f['#vec'] if isinstance(vs[0], tuple) and vs[0][0] == 'o' and st1.h[vs[0][1]].cls == '#arr' else None
                if src is None: s.undec(st1, 'std::array', x.get('l')); continue
                st1.h[i].f['#vec'] = list(src); st1.w(vs[0][1]).f['#vec'] = []
                yield st1, ('o', i)
            return
        if t['k'] == 'rec' and t['r'] in s.rec and not s.rec[t['r']]['bases']:
            fs = s.rec[t['r']]['fields']
            for st1, vs in s.evl(x['a'], st, fr):
                i = st1.new(t['r'], 'auto')
                for f, v in zip(fs, vs): st1.h[i].f[f['id']] = v
                yield st1, ('o', i)
            return
        s.undec(st, 'initialiser list', x.get('l'))
    # ------------------------------------------------------------------ calls
    def e_ctor(s, x, st, fr, into=None):
        t = s.ty(x['t'])
        for st1, a in s.evl(x['a'], st, fr):
            if into is None:
                oid = st1.new(s.strip(t)['r'], 'auto')
            else: oid = into
            for st2 in s.construct(st1, x['f'], oid, a, x.get('l')): yield st2, ('o', oid)
    def construct(s, st, fid, oid, args, l=None):
        h = s.head[fid]
        if fid in s.fn and not s.modelled(h):
            for st1, _ in s.call(fid, args, st, ('o', oid), l): yield st1
            return
        m = s.model(h)
        if m:
            for st1, _ in m(s, st, h, ('o', oid), args, l): yield st1
            return
        if h.get('lib') and len(args) == 0 and not h['ps']:
            for st1 in s.defaultinit(st, oid, h['cls']): yield st1
            return
        if h.get('implicit') and isinstance(args[0] if args else None, tuple) and args[0][0] == 'o' and '#lam' in st.h[args[0][1]].f:
            o = st.w(oid).f; src = st.h[args[0][1]].f
            for k, v in src.items(): o[k] = v
            o['#caps'] = {d: (('l', oid, v[2]) if isinstance(v, tuple) and v[0] == 'l' and v[1] == args[0][1] else v) for d, v in src['#caps'].items()}
            yield st; return
        if h.get('lib') and len(h['ps']) == 1 and (h.get('copyctor') or h.get('implicit')) and isinstance(args[0], tuple) and args[0][0] == 'o':
            s.membercopy(st, oid, args[0][1]); yield st; return
        s.undec(st, 'constructor %s' % h['full'], l)
    def defaultinit(s, st, oid, cls):
        """implicit trivial default constructor"""
        yield st
    def membercopy(s, st, dst, src):
        so = st.h[src]
        o = st.w(dst)
        for f in s.allfields(o.cls):
            t = s.ty(f['t'])
            v = s.getf(st, src, f['id'], t)
            if t['k'] == 'rec' and isinstance(v, tuple) and v[0] == 'o':
                i = st.new(st.h[v[1]].cls, 'sub'); s.membercopy(st, i, v[1]); v = ('o', i)
            st.w(dst).f[f['id']] = v
    def allfields(s, cls):
        out = []
        for b in s.bases.get(cls, []):
            if b['k'] == 'rec': out += s.allfields(b['r'])
        return out + s.rec.get(cls, {}).get('fields', [])
    def e_call(s, x, st, fr):
        h = s.head[x['f']]
        if h['n'] in ('__assert_fail', 'abort', 'std::abort', 'std::terminate', 'exit'):
            s.end(st, 'abort', h['n'], x.get('l')); return
        for st1, a in s.evl(x['a'], st, fr):
            for r in s.call(x['f'], a, st1, None, x.get('l'), x): yield r
    def e_icall(s, x, st, fr):
        from . import algos
        for st1, f in s.ev(x['x'], st, fr):
            for st2, a in s.evl(x['a'], st1, fr):
                for r in algos.callfn(s, st2, f, a, x.get('l')): yield r
    def e_lambda(s, x, st, fr):
        from . import algos
        t = s.ty(x['t'])
        def go(st, caps, F):
            if not caps:
                i = st.new(t['r'], 'auto')
                o = st.h[i].f; o['#lam'] = ('spec', tuple(x['spec'])) if 'spec' in x else x['f']; o['#caps'] = {}
                for d, v in F.items():
                    if d == 'this': o['#this'] = v
                    elif isinstance(v, tuple) and len(v) == 2 and v[0] == '#byval':
                        if isinstance(v[1], tuple) and v[1][0] == 'o': o['#caps'][d] = v[1]
                        else: o[('cap', d)] = v[1]; o['#caps'][d] = ('l', i, ('cap', d))
                    else: o['#caps'][d] = v
                yield st, ('o', i); return
            c = caps[0]
            if c.get('this'):
                for r in go(st, caps[1:], dict(F, this=st.h[fr].f['this'])): yield r
                return
            for st1, v in s.e_ref({'e': 'ref', 'd': c['d'], 'n': 'captured variable', 't': x['t'], 'l': x.get('l')}, st, fr):
                if c.get('ref'):
                    for r in go(st1, caps[1:], {**F, c['d']: v}): yield r
                elif isinstance(v, tuple) and v[0] == 'o':
                    from . import models
                    for st2, w in models.copyelem(s, st1, {'k': 'rec', 'r': st1.h[v[1]].cls, 's': 'captured object'}, v, x.get('l')):
                        for r in go(st2, caps[1:], {**F, c['d']: ('#byval', w)}): yield r
                else:
                    w = s.load(st1, v, {'k': 'int', 's': 'captured value'}, x.get('l'))
                    if w is None: continue
                    for r in go(st1, caps[1:], {**F, c['d']: ('#byval', w)}): yield r
        for r in go(st, x['cap'], {}): yield r
    def e_mcall(s, x, st, fr):
        if x.get('op') and s.head[x['f']]['base'] == 'operator=':
            # C++17: the right operand of an assignment is evaluated first
            for st1, a in s.evl(x['a'], st, fr):
                for st2, o in s.ev(x['o'], st1, fr):
                    for r in s.mcall(x, st2, o, a): yield r
            return
        for st1, o in s.ev(x['o'], st, fr):
            for st2, a in s.evl(x['a'], st1, fr):
                for r in s.mcall(x, st2, o, a): yield r
    def mcall(s, x, st, o, a):
        if isinstance(o, tuple) and o[0] in ('o', 'p'):
            oid = s.objof(st, o, x)
            if oid is None: return
            tmp = None
            if not x['o'].get('lv') and isinstance(o, tuple) and o[0] == 'o' : st.temps[-1].append(oid)
            if not s.usable(st, oid, x.get('l')): return
            fid = x['f']
            if x.get('v') or s.head[fid].get('virtual'):
                ob = st.h[oid]
                if x.get('v'):
                    if ob.opq:
                        for r in s.contract(st, oid, fid, a, x.get('l')): yield r
                        return
                    f2 = s.final(ob.cls, fid)
                    if f2 is None:
                        s.undec(st, 'no overrider of %s in %s' % (s.head[fid]['full'], s.rname(ob.cls)), x.get('l')); return
                    fid = f2
            for r in s.call(fid, a, st, ('o', oid), x.get('l'), x): yield r
            return
        if isinstance(o, tuple) and o[0] in ('it', 'l'):
            m = s.model(s.head[x['f']])
            if m:
                for r in m(s, st, s.head[x['f']], o, a, x.get('l')): yield r
                return
        s.undec(st, 'call of %s on %r' % (s.head[x['f']]['full'], o), x.get('l'))
    def modelled(s, h):
        return h['n'].startswith('std::') or h.get('clsn', '').startswith('std::')
    def model(s, h):
        from . import models
        return models.find(s, h)
    def call(s, fid, args, st, this=None, l=None, x=None):
        h = s.head[fid]
        f = s.fn.get(fid)
        m = None
        if h.get('clsn') == 'viennamath::rt_latex_translator' and h['base'] in ('operator()', 'process_impl') and len(args) == 2:
            t = s.texof(st, args[0])
            if t is not None:        # part known only through its interface: the text of a part is assumed (and shown for every node in turn)
                for st1, b in s.truth(st, args[1]):
                    i = st1.new(s.stringrid(h), 'auto'); st1.h[i].f['s'] = (('tex', t, b, this[1]),)
                    yield st1, ('o', i)
                return
        if f is None or f.get('body') is None or s.modelled(h):
            m = s.model(h)
            if m:
                for r in m(s, st, h, this, args, l): yield r
                return
            if h.get('lib') and h.get('copyassign') and h.get('implicit') and this and isinstance(args[0], tuple) and args[0][0] == 'o':
                s.membercopy(st, this[1], args[0][1]); yield st, this; return
            if h.get('k') == 'dtor': yield st, None; return
            if f is None:
                s.undec(st, 'call of %s' % h['full'], l); return
        s.visited.add(fid)
        st.depth += 1
        if st.depth > s.MAXDEPTH:
            if all(k == f['id'] or True for k in [1]): s.undec(st, 'call depth limit at %s' % h['full'], l)
            return
        fr = st.new('#frame', 'auto')
        F = st.h[fr].f
        F['this'] = this[1] if this else None
        F['#sc'] = ((),)
        if this and '#lam' in st.h[this[1]].f:
            L = st.h[this[1]].f; F['this'] = L.get('#this')
            F.update(L['#caps'])
        byval = []
        for p, a in zip(f['ps'], args):
            F[p['id']] = a
            if s.ty(p['t'])['k'] == 'rec' and isinstance(a, tuple) and a[0] == 'o': byval.append(a[1])
        st.cur.append(fid)
        def run(st):
            if f.get('k') == 'ctor':
                for st1 in s.inits(f, st, fr, this[1], 0):
                    for r in s.body(f, st1, fr): yield r
            else:
                for r in s.body(f, st, fr): yield r
        for st1, ctl in run(st):
            rv = None
            if ctl and ctl[0] == 'ret': rv = ctl[1]
            elif s.ty(f['ret'])['k'] != 'void' and f.get('k') not in ('ctor', 'dtor') and f.get('base') != 'main':
                s.bug(st1, 'missing-return', 'control reaches the end of %s without returning a value' % f['full'], f.get('end')); continue
            for st2 in s.destroyl(st1, byval[::-1]):
                if f.get('base') == '~' : pass
                st2.cur.pop(); st2.depth -= 1
                if len(st2.cur) == 1 and 'viennamath' in f['f']:      # called by the driver itself
                    if f.get('k') not in ('ctor', 'dtor') or st2.last is None or st2.last[3] in ('ctor', 'dtor'): st2.last = (f['f'], f['l'], f['full'], f.get('k'))
                st2.w(fr).alive = False
                yield st2, rv
    def texof(s, st, a):
        """name of the opaque expression behind an argument of the LaTeX translator"""
        if not (isinstance(a, tuple) and a[0] in ('o', 'p') and a[1]): return None
        r = s.root(st, a[1])
        if st.h[r].opq: return st.h[r].tag
        if s.rname(st.h[r].cls) != 'viennamath::rt_expr': return None
        m = s.vmethod(st.h[r].cls, 'get', 0)
        c = st.copy(); c.handlers = [[]]
        vs = [v for _, v in s.call(m, [], c, ('o', r))] if m else []
        if len(vs) != 1 or not isinstance(vs[0], tuple) or vs[0][0] != 'p' or not vs[0][1]: return None
        q = s.root(c, vs[0][1])
        return c.h[q].tag if c.h[q].opq else None
    def inits(s, f, st, fr, this, i):
        ins = f.get('inits', [])
        if i == len(ins): yield st; return
        it = ins[i]; e = it['e']
        def nxt(st1): return s.inits(f, st1, fr, this, i + 1)
        if 'field' in it:
            ft = None
            for st1, v in s.full(e, st, fr, keep=None):
                if isinstance(v, tuple) and v[0] == 'o':
                    if not e.get('lv'):
                        st1.w(v[1]).st = 'sub'
                st1.w(this).f[it['field']] = s.fit(it['field'], v)
                for r in nxt(st1): yield r
            return
        # base or delegating
        node = e
        while node['e'] in ('bind', 'cast') : node = node['x']
        if node['e'] == 'ctor':
            st.temps.append([])
            for st1, v in s.e_ctor(node, st, fr, into=this):
                for st2 in s.poptemps(st1, fr):
                    for r in nxt(st2): yield r
            return
        if node['e'] in ('zero', 'ilist') and not node.get('a'):
            for r in nxt(st): yield r
            return
        s.undec(st, 'base initialiser', it.get('l'))
    def body(s, f, st, fr):
        for st1, ctl in s.ex(f['body'], st, fr): yield st1, ctl
    # ------------------------------------------------------------------ statements
    def scope_add(s, st, fr, oid):
        F = st.w(fr).f; sc = F['#sc']
        F['#sc'] = sc[:-1] + (sc[-1] + (oid,),)
    def ex(s, x, st, fr):
        if x is None: yield st, None; return
        k = x['s']
        if s.cov is not None and x.get('l'): s.covadd(st, x['l'])
        m = s.EX.get(k)
        if m is None:
            s.undec(st, 'statement ' + k, x.get('l')); return
        for r in m(s, x, st, fr): yield r
    def scoped(s, gen, st, fr):
        F = st.w(fr).f; F['#sc'] = F['#sc'] + ((),)
        for st1, ctl in gen(st):
            sc = st1.h[fr].f['#sc']
            ids = sc[-1]
            st1.w(fr).f['#sc'] = sc[:-1]
            if ctl and ctl[0] == 'ret':
                pass
            for st2 in s.destroyl(st1, [i for i in ids[::-1] if not isinstance(i, tuple)]):
                if not (ctl and ctl[0] == 'ret'):
                    gone = [i[1] for i in ids if isinstance(i, tuple)]
                    if gone:
                        F = st2.w(fr).f
                        for i in gone: F.pop(i, None)          # out of scope: no longer part of the state
                yield st2, ctl
    def x_block(s, x, st, fr):
        def seq(st, i):
            if i == len(x['b']): yield st, None; return
            for st1, ctl in s.ex(x['b'][i], st, fr):
                if ctl is not None: yield st1, ctl
                else:
                    for r in seq(st1, i + 1): yield r
        for r in s.scoped(lambda st: seq(st, 0), st, fr): yield r
    def x_if(s, x, st, fr):
        def go(st):
            def cond(st):
                for st1, c in s.full(x['c'], st, fr):
                    for st2, b in s.truth(st1, c):
                        br = x['t'] if b else x.get('f')
                        if s.cov is not None: s.covadd(st2, (x.get('l'), bool(b)))
                        for r in s.ex(br, st2, fr): yield r
            def pre(st, l):
                if not l:
                    for r in cond(st): yield r
                    return
                for st1, ctl in s.ex(l[0], st, fr):
                    for r in pre(st1, l[1:]): yield r
            for r in pre(st, [y for y in (x.get('init'), x.get('cv')) if y]): yield r
        for r in s.scoped(go, st, fr): yield r
    def signature(s, st):
        """canonical text of everything the rest of the run can depend on (abstract heap up to renaming of objects)"""
        num = {}; out = []; todo = []
        def ref(i):
            if i not in num: num[i] = len(num); todo.append(i)
            return '#%d' % num[i]
        def val(v):
            if isinstance(v, tuple):
                if len(v) >= 2 and v[0] in ('p', 'o') and v[1]: return v[0] + ref(v[1])
                if len(v) >= 2 and v[0] in ('l', 'it', 'pa'): return v[0] + ref(v[1]) + repr(v[2:])
                return '(%s)' % ','.join(val(x) for x in v)
            if isinstance(v, list): return '[%s]' % ','.join(val(x) for x in v)
            if isinstance(v, R): return Q.fmt(s.facts_apply(st, v))
            return repr(v)
        def orgv(x):
            if isinstance(x, int) and not isinstance(x, bool) and x in st.h: return ref(x)
            if isinstance(x, tuple) and x and not (x[0] in ('p', 'o')): return '(%s)' % ','.join(orgv(y) for y in x)
            return val(x)
        for i in sorted(st.h):
            if (st.h[i].cls == '#frame' and st.h[i].alive) or st.h[i].st in ('ext', 'static'): ref(i)
        while todo:
            i = todo.pop(0); o = st.h[i]
            if not o.alive and not o.opq: out.append('dead'); continue
            org = ''
            if o.org: org = '(%s)' % ','.join(orgv(x) for x in o.org)
            out.append('%s|%s|%s|%s|%s|%s|%s' % (o.cls, o.st, o.alive, o.opq, o.tag, org, sorted((repr(k), val(v)) for k, v in o.f.items())))
        def fact(k, v):
            ids = [x for x in k if isinstance(x, int) and not isinstance(x, bool)]
            if any(x in st.h and x not in num for x in ids if x): return None
            return repr(tuple('#%d' % num[x] if (isinstance(x, int) and not isinstance(x, bool) and x in num) else x for x in k)) + repr(v)
        out += sorted(filter(None, (fact(k, v) for k, v in st.facts.items())))
        live = sorted((repr(k), repr(v)) for k, v in st.num.items()); out.append(repr(live))
        out.append(repr([(k, Q.fmt(v)) for k, v in st.sub]))
        out += [repr(e[:2]) for e in st.events if e[0] in ('write', 'caught')]
        return '\n'.join(out)
    def loop(s, st, fr, c, n, b, l, first=True, cv=None):
        seen = set()
        def it(st, k):
            if k > s.MAXLOOP: s.undec(st, 'loop bound', l); return
            if k >= (1 if n is None else 5):
                sig = s.signature(st)
                if sig in seen: return         # same abstract state as one already followed: nothing new can happen
                seen.add(sig)
            def bodyrun(st):
                for st1, ctl in s.ex(b, st, fr):
                    if ctl is None or ctl[0] == 'cont':
                        if n:
                            for st2, _ in s.full(n, st1, fr):
                                for r in it(st2, k + 1): yield r
                        else:
                            for r in it(st1, k + 1): yield r
                    elif ctl[0] == 'break': yield st1, None
                    else: yield st1, ctl
            if c is None or (k == 0 and not first):
                for r in bodyrun(st): yield r
                return
            if cv:
                def inner(st):
                    for st0, _ in s.ex(cv, st, fr):
                        for st1, v in s.full(c, st0, fr):
                            for st2, t in s.truth(st1, v):
                                if t:
                                    for r in s.ex(b, st2, fr): yield r
                                else: yield st2, ('stop',)
                for st1, ctl in s.scoped(inner, st, fr):
                    if ctl is None or ctl[0] == 'cont':
                        for r in it(st1, k + 1): yield r
                    elif ctl[0] in ('break', 'stop'): yield st1, None
                    else: yield st1, ctl
                return
            for st1, v in s.full(c, st, fr):
                for st2, t in s.truth(st1, v):
                    if t:
                        for r in bodyrun(st2): yield r
                    else: yield st2, None
        return it(st, 0)
    def x_for(s, x, st, fr):
        def go(st):
            for st1, _ in (s.ex(x['i'], st, fr) if x.get('i') else [(st, None)]):
                for r in s.loop(st1, fr, x.get('c'), x.get('n'), x['b'], x.get('l')): yield r
        for r in s.scoped(go, st, fr): yield r
    def x_while(s, x, st, fr): return s.loop(st, fr, x['c'], None, x['b'], x.get('l'), cv=x.get('cv'))
    def x_do(s, x, st, fr): return s.loop(st, fr, x['c'], None, x['b'], x.get('l'), first=False)
    def x_rfor(s, x, st, fr):
        e = x.get('re')
        if not e: s.undec(st, 'range for', x.get('l')); return
        def go(st):
            for st1, v in s.full(e, st, fr, keep=lambda v: v[1] if isinstance(v, tuple) and v[0] == 'o' else None):
                if not (isinstance(v, tuple) and v[0] == 'o'): s.undec(st1, 'range for', x.get('l')); continue
                oid = v[1]
                ismap = '#map' in st1.h[oid].f
                n = len(st1.h[oid].f['#map']) if ismap else len(s.vec(st1, oid)) if isinstance(s.vec(st1, oid), list) else None
                if n is None: s.undec(st1, 'range for over symbolic vector', x.get('l')); continue
                from . import models
                vt = s.ty(x['v']['t'])
                isref = vt['k'] in ('ref', 'rref')
                def it(st, i):
                    if i == n: yield st, None; return
                    def one(st):
                        if not s.usable(st, oid, x.get('l')): return
                        if ismap:
                            k, e = st.h[oid].f['#map'][i]; rt = s.strip(vt)
                            if rt['k'] != 'rec': s.undec(st, 'range for', x.get('l')); return
                            p = st.new(rt['r'], 'sub'); P = st.h[p]
                            P.f['first'] = k[1] if len(k) == 2 else ('o', models.keypair(s, st, k)); P.f['second'] = e
                            el = ('o', p)
                        else: el = s.vec(st, oid)[i]
                        if isref or not (isinstance(el, tuple) and el[0] == 'o'):
                            st.w(fr).f[x['v']['id']] = el if isinstance(el, tuple) and el[0] == 'o' else (('l', oid, ('el', i)) if isref else el)
                            for r in s.ex(x['b'], st, fr): yield r
                        else:
                            for st1, c in models.copyelem(s, st, vt, el, x.get('l')):
                                st1.w(c[1]).st = 'auto'; st1.w(fr).f[x['v']['id']] = c; s.scope_add(st1, fr, c[1])
                                for r in s.ex(x['b'], st1, fr): yield r
                    for st1, ctl in s.scoped(one, st, fr):
                        if ctl is None or ctl[0] == 'cont':
                            for r in it(st1, i + 1): yield r
                        elif ctl[0] == 'break': yield st1, None
                        else: yield st1, ctl
                for r in it(st1, 0): yield r
        for r in s.scoped(go, st, fr): yield r
    def x_ret(s, x, st, fr):
        if not x.get('e'): yield st, ('ret', None); return
        for st1, v in s.full(x['e'], st, fr): yield st1, ('ret', v)
    def leftover(s, st, val, t, v):
        "content of a static local that can change: whatever earlier calls left in it"
        from . import models
        if isnum(val) and t['k'] in ('int', 'float'): return Q.sym(('left by earlier calls', v.get('n')))
        if isinstance(val, bool): return ('symbool', 'left by earlier calls in %s' % v.get('n'))
        if isinstance(val, tuple) and val[0] == 'o' and s.rname(st.h[val[1]].cls) in models.STR + models.STREAMS: st.w(val[1]).f['s'] = (('sym', 'left by earlier calls in %s' % v.get('n')),)
        return val
    def x_decl(s, x, st, fr):
        def one(st, vs):
            if not vs: yield st, None; return
            v = vs[0]; t = s.ty(v['t'])
            if not v.get('static'): s.scope_add(st, fr, ('v', v['id']))
            if v.get('static'):
                if not v.get('i'): s.undec(st, 'static local', x.get('l')); return
                if v.get('argdep'): s.bug(st, 'stale-static', 'static local %s keeps the value computed from the arguments of an earlier call' % v.get('n'), x.get('l')); return
            if v.get('i') is None:
                st.w(fr).f[v['id']] = UNINIT
                if t['k'] == 'arr':
                    if not t.get('sz') or s.ty(t['t'])['k'] in ('rec', 'arr'): s.undec(st, 'array', x.get('l')); return
                    r = s.newarr(st, t, []); st.w(fr).f[v['id']] = r; s.scope_add(st, fr, r[1])
                for r in one(st, vs[1:]): yield r
                return
            isref = t['k'] in ('ref', 'rref')
            keep = (lambda r: r[1] if isinstance(r, tuple) and r[0] in ('o', 'l') else None) if isref else None
            for st1, val in s.full(v['i'], st, fr, keep=keep):
                if isinstance(val, tuple) and val[0] == 'cv': val = val[1]
                if v.get('static') and not t.get('c') and not isref: val = s.leftover(st1, val, t, v)
                st1.w(fr).f[v['id']] = val
                if not isref and isinstance(val, tuple) and val[0] == 'o': s.scope_add(st1, fr, val[1])
                for r in one(st1, vs[1:]): yield r
        return one(st, x['v'])
    def x_expr(s, x, st, fr):
        e = x['e']
        for st1, v in s.full_discard(e, st, fr): yield st1, None
    def full_discard(s, e, st, fr):
        st.temps.append([])
        for st1, v in s.ev(e, st, fr):
            if isinstance(v, tuple) and v[0] == 'o' and not e.get('lv') and v[1] not in st1.temps[-1]: st1.temps[-1].append(v[1])
            for st2 in s.poptemps(st1, fr): yield st2, v
    def x_break(s, x, st, fr): yield st, ('break',)
    def x_cont(s, x, st, fr): yield st, ('cont',)
    def x_null(s, x, st, fr): yield st, None
    def x_switch(s, x, st, fr):
        body = x['b']['b'] if x['b'] and x['b']['s'] == 'block' else [x['b']]
        flat = []
        for y in body:
            while y and y['s'] in ('case', 'default'):
                flat.append(('label', y)); y = y['b']
            flat.append(('st', y))
        def run(st, i):
            if i >= len(flat): yield st, None; return
            if flat[i][0] == 'label':
                for r in run(st, i + 1): yield r
                return
            for st1, ctl in s.ex(flat[i][1], st, fr):
                if ctl is None:
                    for r in run(st1, i + 1): yield r
                elif ctl[0] == 'break': yield st1, None
                else: yield st1, ctl
        def go(st):
            for st1, c in s.full(x['c'], st, fr):
                def pick(st, j):
                    labs = [i for i, y in enumerate(flat) if y[0] == 'label' and y[1]['s'] == 'case']
                    if j == len(labs):
                        d = [i for i, y in enumerate(flat) if y[0] == 'label' and y[1]['s'] == 'default']
                        if d:
                            for r in run(st, d[0]): yield r
                        else: yield st, None
                        return
                    for st2, v in s.ev(flat[labs[j]][1]['v'], st, fr):
                        for st3, b in s.compare(st2, '==', c, v):
                            if b:
                                for r in run(st3, labs[j]): yield r
                            else:
                                for r in pick(st3, j + 1): yield r
                for r in pick(st1, 0): yield r
        for r in s.scoped(go, st, fr): yield r
    def x_try(s, x, st, fr):
        col = Handler(); col.base = len(st.cur)
        outer = getattr(st.handlers[-1], 'base', 0) if st.handlers else 0
        st.handlers.append(col)
        depth = len(st.handlers)
        saved = (st.depth, len(st.temps), len(st.cur), len(st.h[fr].f['#sc']))
        for st1, ctl in s.ex(x['b'], st, fr):
            del st1.handlers[depth - 1:]
            yield st1, ctl
        for o in col:
            st2 = o.st
            del st2.handlers[depth - 1:]
            if o.kind != 'throw':
                s.outs_add(st2, o); continue
            done = False
            for h in x['h']:
                if s.catches(h, o.v):
                    for st2 in s.unwind(st2, fr, saved, o.v[1]):
                        st2.depth = saved[0]; del st2.cur[saved[2]:]
                        if h.get('v') and isinstance(h['v'], dict) and 'id' in h['v']: st2.w(fr).f[h['v']['id']] = o.v[1]
                        st2.facts[('exc',)] = o.v
                        s.event(st2, 'caught', 'exception %s is caught' % o.v[0], h.get('l'))
                        for r in s.ex(h['b'], st2, fr): yield r
                    done = True; break
            if not done:
                s.escapes(st2, o, saved[2], outer); s.outs_add(st2, o)
    def unwind(s, st, fr, saved, exc):
        """destroy the temporaries and locals between the throw and the handler in frame fr"""
        ids = [t for l in st.temps[saved[1]:] for t in l]
        del st.temps[saved[1]:]
        sc = st.h[fr].f['#sc']
        ids += [i for l in sc[saved[3]:] for i in l if not isinstance(i, tuple)]
        st.w(fr).f['#sc'] = sc[:saved[3]]
        for i in sorted(st.h):
            if i > fr and st.h[i].cls == '#frame' and st.h[i].alive:
                ids += [j for l in st.h[i].f.get('#sc', ()) for j in l if not isinstance(j, tuple)]; st.w(i).alive = False
        keep = exc[1] if isinstance(exc, tuple) and exc[0] == 'o' else None
        seen = set(); todo = []
        for i in sorted(ids, reverse=True):
            if i != keep and i not in seen and i in st.h and st.h[i].alive and st.h[i].st in ('auto', 'sub'): seen.add(i); todo.append(i)
        return s.destroyl(st, todo)
    def outs_add(s, st, o): (st.handlers[-1] if st.handlers else s.outs).append(o)
    def catches(s, h, v):
        if not h.get('t'): return True
        t = s.strip(s.ty(h['t']))
        if t['k'] == 'rec' and len(v) > 2 and v[2]['k'] == 'rec':
            return any(s.rname(a) == t['n'] for a in s.ancestors(v[2]['r'])) or t['n'] == v[0] or (t['n'] == 'std::exception' and v[0].startswith('std::'))
        return len(v) > 2 and t['s'] == v[2]['s']
    # ------------------------------------------------------------------ helpers for vectors
    def vec(s, st, oid):
        o = st.h[oid]
        v = o.f.get('#vec')
        if v is None and o.lazy:
            if o.org and o.org[0] == 'copyobj':
                src = s.vec(st, o.org[1])
                v = src if isinstance(src, tuple) else [s.copyval(st, e) for e in src]
                st.w(oid).f['#vec'] = v
            else:
                et = s.velem(o.cls)
                if et and et['k'] in ('float', 'int'):
                    v = ('symvec', o.tag); st.w(oid).f['#vec'] = v
                else:
                    s.veclazy(st, oid, s.vecsizes[0]); v = st.h[oid].f['#vec']
        return v
    # ------------------------------------------------------------------ contracts of the virtual interfaces
    def contract(s, st, oid, fid, args, l):
        h = s.head[fid]; o = st.h[oid]; base = h['base']; cn = s.rname(o.cls)
        root = s.root(st, oid); ro = st.h[root]
        if not ro.opq:
            s.setkind(st, oid, ro.cls)
            f2 = s.final(ro.cls, fid)
            for r in s.call(f2, args, st, ('o', oid), l): yield r
            return
        tag = ro.tag
        st.events.append(('vcall', (base, len(args), root, tuple(args)), s.where(st, l)))
        def arg(i):
            a = args[i]
            return a[1] if isinstance(a, tuple) and a[0] in ('p', 'o') else None
        for i, (a, p) in enumerate(zip(args, h['ps'])):
            if isinstance(a, tuple) and a[0] == 'p' and a[1] == 0 and base not in ('deep_equal', 'shallow_equal', 'equal'):
                s.bug(st, 'null-dereference', 'null pointer passed to %s' % base, l); return
            if isinstance(a, tuple) and a[0] in ('p', 'o') and a[1] and not s.usable(st, a[1], l): return
        if base == 'clone':
            i = s.opaque(st, o.cls, 'heap', tag, ('copy', root)); st.h[i].line = s.where(st, l)
            yield st, ('p', i); return
        if (cn == I and base in ('eval', 'diff')) or (cn == OPI and base in ('apply', 'diff')) or cn == 'viennamath::numerical_quadrature_interface':
            f = s.nothrow(st, len(st.cur), getattr(st.handlers[-1], 'base', 0) if st.handlers else 0)
            if f: s.end(st, 'terminate', '%s() of an operand may throw, which ends the program because %s is declared not to throw' % (base, f['full']), l); return
        if cn == I:
            if base == 'is_constant':
                for r in s.fork(st, ('const', root), '%s is_constant()' % tag): yield r
                return
            if base == 'unwrap':
                b, bo = s.simpbase(st, root)
                ok = [(st, True)] if st.facts.get(('const', root)) or st.facts.get(('const', b)) else s.fork(st, ('unwrappable', b), '%s can be unwrapped' % tag)
                for st1, can in ok:
                    if can: yield st1, s.constsym(st1, b)
                    else: s.throwlib(st1, 'viennamath::expression_not_unwrappable_exception', l)
                return
            if base == 'can_simplify':
                for r in s.fork(st, ('cansimp', root), '%s can_simplify()' % tag): yield r
                return
            if base == 'is_unary':
                for r in s.fork(st, ('isunary', root), '%s is_unary()' % tag): yield r
                return
            if base == 'simplify':
                b, bo = s.simpbase(st, root)
                i = s.opaque(st, o.cls, 'heap', 'simp(%s)' % bo.tag, ('simp', b)); st.h[i].line = s.where(st, l); yield st, ('p', i); return
            if base == 'diff':
                i = s.opaque(st, o.cls, 'heap', 'D(%s,%s)' % (tag, s.vkey(st, arg(0))), ('diff', root, s.snapshot(st, arg(0)))); st.h[i].line = s.where(st, l); yield st, ('p', i); return
            if base == 'substitute':
                i = s.opaque(st, o.cls, 'heap', s.substkey(st, tag, args), ('subst', root, tuple(args))); st.h[i].line = s.where(st, l); yield st, ('p', i); return
            if base == 'recursive_manipulation':
                i = s.opaque(st, o.cls, 'heap', 'manip(%s)' % tag, ('manip', root, s.root(st, arg(0)))); st.h[i].line = s.where(st, l); yield st, ('p', i); return
            if base == 'recursive_traversal':
                st.events.append(('traverse', root, s.where(st, l))); yield st, None; return
            if base in ('deep_equal', 'shallow_equal'):
                a = args[0]
                ar = s.root(st, a[1]) if a[1] else 0
                for r in s.fork(st, (base, root, ar), '%s %s %s' % (tag, base, st.h[ar].tag if ar else 'null')): yield r
                return
            if base == 'eval':
                yield st, s.evalsym(st, root, args[0]); return
            if base in ('deep_str', 'shallow_str'):
                i = st.new(s.stringrid(h), 'auto'); st.h[i].f['s'] = ((base, tag),); yield st, ('o', i); return
        if cn == OPI:
            if base == 'apply':
                yield st, Q.fn('apply:' + tag, *[rn(a) for a in args]); return
            if base == 'str':
                i = st.new(s.stringrid(h), 'auto'); st.h[i].f['s'] = (('opstr', tag),); yield st, ('o', i); return
            if base in ('is_unary', 'equal', 'can_simplify'):
                key = ('op' + base, root) + tuple(s.root(st, arg(i)) if arg(i) else 0 for i in range(len(args)))
                for r in s.fork(st, key, '%s.%s' % (tag, base)): yield r
                return
            if base == 'simplify' and len(args) == 2:
                b = s.wholeof(st, root, arg(0), arg(1))
                if b is not None:      # one step on the parts of an expression that only its value is known of
                    i = s.opaque(st, s.ridof(h['ret']), 'heap', 'simp(%s)' % st.h[b].tag, ('simp', b)); st.h[i].line = s.where(st, l); yield st, ('p', i); return
            if base in ('diff', 'simplify'):
                i = s.opaque(st, s.ridof(h['ret']), 'heap', '%s.%s(%s)' % (tag, base, ','.join(s.argkey(st, a) for a in args)), ('op' + base, root, tuple(s.snapshot(st, arg(i)) if base == 'diff' and i == len(args) - 1 else s.root(st, arg(i)) for i in range(len(args)))))
                st.h[i].line = s.where(st, l); yield st, ('p', i); return
        if cn == 'viennamath::rt_manipulation_interface':
            if base == 'modifies':
                for r in s.fork(st, ('modifies', root, s.root(st, arg(0))), 'functor modifies %s' % s.argkey(st, args[0])): yield r
                return
            if base == 'operator()':
                st.events.append(('manipulated', s.root(st, arg(0)), s.where(st, l)))
                i = s.opaque(st, s.ridof(h['ret']), 'heap', 'fw(%s)' % s.argkey(st, args[0]), ('fw', root, s.root(st, arg(0)))); st.h[i].line = s.where(st, l); yield st, ('p', i); return
        if cn == 'viennamath::rt_traversal_interface':
            if base == 'step_into':
                for r in s.fork(st, ('step', root, s.root(st, arg(0))), 'visitor steps into %s' % s.argkey(st, args[0])): yield r
                return
            if base == 'operator()':
                st.events.append(('visit', s.root(st, arg(0)), s.where(st, l))); yield st, None; return
        if cn == 'viennamath::numerical_quadrature_interface' and base == 'eval':
            yield st, Q.sym(('v', 'quad(%s)' % ';'.join(s.argkey(st, a) for a in args))); return
        s.undec(st, 'no contract for %s' % h['full'], l)
    def wholeof(s, st, op, a, b):
        """opaque-born binary expression whose operation and operands (in this order) are op, a, b; -> what it is a simplification of"""
        T = st.h[op].tag.rsplit('.', 1)[0]
        a, b = s.root(st, a), s.root(st, b)
        if st.h[a].tag.rsplit('.', 1)[0] != T or st.h[b].tag.rsplit('.', 1)[0] != T: return None
        for i, o in list(st.h.items()):
            if o.tag == T and not isinstance(o.cls, str) and not o.opq and s.rname(o.cls) == 'viennamath::rt_binary_expr' and s.root(st, i) == i:
                got = []
                for n in ('lhs', 'op', 'rhs'):
                    m = s.vmethod(o.cls, n, 0)
                    c = st.copy(); c.handlers = [[]]
                    for f in s.allfields(o.cls):
                        v = c.h[i].f.get(f['id'])
                        if isinstance(v, tuple) and v[0] == 'o' and not c.h[v[1]].alive: c.w(v[1]).alive = True
                    if not c.h[i].alive: c.w(i).alive = True
                    r = [v for _, v in s.call(m, [], c, ('o', i))] if m else []
                    if len(r) != 1 or not isinstance(r[0], tuple): return None
                    got.append(s.root(c, r[0][1]) if r[0][1] in c.h else None)
                if got == [a, op, b]:
                    if o.org and o.org[0] == 'simp': return s.root(st, o.org[1])
                    return i
        return None
    def substkey(s, st, tag, args):
        def lst(a):
            v = s.vec(st, a[1]) if s.rname(st.h[a[1]].cls) == 'std::vector' else [a]
            return [s.argkey(st, e) for e in v] if isinstance(v, list) else [str(v)]
        return 'subst(%s;%s)' % (tag, ','.join('%s->%s' % p for p in zip(lst(args[0]), lst(args[1]))))
    def snapshot(s, st, oid):
        """object standing for the present value of oid (a symbol), usable after oid is gone"""
        r = s.root(st, oid); o = st.h[r]
        if o.opq: return r
        for f in s.allfields(o.cls): s.getf(st, r, f['id'], s.ty(f['t']))
        i = st.new(o.cls, 'snap', o.tag); n = st.h[i]; n.f = dict(st.h[r].f); n.lazy = False
        return i
    def simpbase(s, st, root):
        """opaque object behind a chain of simplification steps"""
        o = st.h[root]
        while o.opq and o.org and o.org[0] == 'simp' and st.h[s.root(st, o.org[1])].opq:
            root = s.root(st, o.org[1]); o = st.h[root]
        return root, o
    def constsym(s, st, b):
        """number denoted by opaque object b, which is known to be a number"""
        return Q.sym(('v', 'const:' + st.h[b].tag))
    def throwlib(s, st, name, l=None):
        t = [t for t in s.types.values() if t['k'] == 'rec' and t.get('n') == name]
        s.end(st, 'throw', (name, ('unk', 'exception'), t[0] if t else {'k': 'rec', 'n': name, 's': name, 'r': -1}), l)
    def evalsym(s, st, root, p):
        b, ro = s.simpbase(st, root)
        if st.facts.get(('const', root)) or st.facts.get(('const', b)): return s.constsym(st, b)
        k = s.argkey(st, p)
        if isnum(p): k = '[%s]' % k                  # a scalar is the one-component point
        return Q.sym(('v', 'eval(%s;%s)' % (ro.tag, k)))
    def ridof(s, t):
        t = s.ty(t)
        while t['k'] in ('ptr', 'ref', 'rref'): t = s.types[t['t']]
        return t['r']
    def stringrid(s, h): return s.strip(s.ty(h['ret']))['r']
    def vkey(s, st, oid):
        return s.argkey(st, ('p', oid))
    def argkey(s, st, a):
        """canonical text of an argument value (what it denotes)"""
        if isinstance(a, tuple) and a[0] in ('p', 'o'):
            if not a[1]: return 'null'
            return s.skey(st, a[1])
        if isinstance(a, bool): return str(a)
        if isnum(a): return Q.fmt(s.facts_apply(st, rn(a)))
        return repr(a)
    def skey(s, st, oid):
        """structural key of an object: names what it stands for"""
        r = s.root(st, oid); o = st.h[r]
        if o.opq or isinstance(o.cls, str):
            if o.org and o.org[0] == 'diff': return 'D(%s,%s)' % (s.skey(st, o.org[1]), s.vkey(st, o.org[2]))
            if o.org and o.org[0] == 'simp': return 'simp(%s)' % s.skey(st, o.org[1])
            return o.tag
        n = s.rname(o.cls)
        v = s.vec(st, r) if (n == 'std::vector' or '#vec' in o.f or s.derives(o.cls, 'viennamath::rt_vector_expr')) else None
        if isinstance(v, list): return '[%s]' % ','.join(s.argkey(st, e) for e in v)
        if isinstance(v, tuple): return v[1]
        if n in ('std::auto_ptr', 'std::unique_ptr'):
            return s.argkey(st, s.apget(st, r))
        if 's' in o.f: return repr(o.f['s'])
        parts = []
        for f in s.allfields(o.cls):
            val = s.getf(st, r, f['id'], s.ty(f['t']))
            parts.append('?' if val == UNINIT else s.argkey(st, val))
        short = s.short(o.cls)
        if n.startswith('viennamath::rt_expr') and len(parts) == 1: return parts[0]
        return '%s{%s}' % (short, ','.join(parts))
    def apget(s, st, oid):
        o = st.h[oid]
        if 'p' in o.f: return o.f['p']
        if o.lazy:
            t = s.types[s.targs(o.cls)[0]['t']]
            if o.org and o.org[0] == 'copyobj':
                v = s.copyval(st, s.apget(st, o.org[1]))
            else:
                v = ('p', s.symval(st, t, o.tag, 'ext' if o.st in ('ext', 'esub', 'snap') or not o.alive else 'heap')[1])
            st.w(oid).f['p'] = v
            return v
        return NULL

Interp.EV = {n[2:]: getattr(Interp, n) for n in dir(Interp) if n.startswith('e_')}
Interp.EX = {n[2:]: getattr(Interp, n) for n in dir(Interp) if n.startswith('x_')}
