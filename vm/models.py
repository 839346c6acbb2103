"""Models of the standard library classes the analysed code uses (by qualified name)."""
from . import ratio as Q
from .ratio import R
from . import algos
from fractions import Fraction

SMART = ('std::auto_ptr', 'std::unique_ptr', 'std::shared_ptr')
STREAMS = ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ostream', 'std::basic_iostream', 'std::stringstream', 'std::__cxx11::basic_stringstream', 'std::__cxx11::basic_ostringstream')
STR = ('std::basic_string', 'std::__cxx11::basic_string')
MATH = {'exp', 'sin', 'cos', 'tan', 'fabs', 'sqrt', 'log', 'log10', 'pow', 'abs', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'fmin', 'fmax', 'cbrt', 'log2', 'exp2', 'log1p', 'expm1', 'hypot', 'atan2', 'fmod', 'round', 'trunc'}

def find(I, h):
    n = h['n']; cn = h.get('clsn', '')
    b = h['base'].split('<')[0] if not h['base'].startswith('operator') else h['base']
    if cn in SMART: return smart
    if cn == 'std::auto_ptr_ref': return aref
    if cn in ('std::vector', 'std::array'): return vector
    if cn == 'std::reverse_iterator': return riter
    if n in ('std::operator==', 'std::operator!=') and h['ps'] and I.strip(I.ty(h['ps'][0]['t'])).get('n', '') == 'std::reverse_iterator': return itercmp
    if cn in STR: return string
    if cn in STREAMS: return stream
    if cn in ('std::exception', 'std::logic_error', 'std::runtime_error', 'std::out_of_range', 'std::invalid_argument', 'std::domain_error'): return exc
    if cn == 'std::map': return smap
    if cn in ('std::pair',): return pair
    if cn.startswith('std::_Rb_tree') or cn == '__gnu_cxx::__normal_iterator': return iterator
    if n.startswith('__gnu_cxx::operator') and b in ('operator==', 'operator!=', 'operator-', 'operator<'): return itercmp
    if cn.startswith('std::allocator') or cn == 'std::__new_allocator' or cn == '__gnu_cxx::new_allocator': return nop
    if cn == 'std::numeric_limits': return limits
    if n in ('std::operator==', 'std::operator!=') and h['ps'] and I.strip(I.ty(h['ps'][0]['t'])).get('n', '').startswith('std::_Rb_tree'): return itercmp
    if n.startswith('std::operator') and h['ps'] and I.strip(I.ty(h['ps'][0]['t'])).get('n', '') in ('std::pair', 'std::tuple') and b[8:] in ('==', '!=', '<', '>', '<=', '>='): return tupcmp
    if n.startswith('std::operator') and h['ps'] and I.strip(I.ty(h['ps'][0]['t'])).get('n', '') in ('std::vector', 'std::array') and b[8:] in ('==', '!='): return vecmp
    if n.startswith('std::operator<<') or n.startswith('std::operator+') or n == 'std::operator==' or n == 'std::operator!=': return freeop
    if cn == 'std::tuple': return tup
    if n in ('std::make_tuple', 'std::tie', 'std::forward_as_tuple'): return mktup
    if n == 'std::get': return tupget
    if n in ('std::endl', 'std::flush'): return nop
    if n.split('::')[-1] in MATH and (n.startswith('std::') or '::' not in n): return math
    if n in ('std::swap',): return swap if h['id'] not in I.fn else None
    if n in algos.NAMES: return algos.algo
    if n in ('std::move', 'std::forward', 'std::addressof', 'std::__addressof'): return fwd
    if n in ('std::min', 'std::max'): return minmax
    if n in ('std::to_string', 'std::__cxx11::to_string') and I.strip(I.ty(h['ps'][0]['t']))['k'] == 'int': return tostring
    if n == 'std::make_pair': return mkpair
    if n.startswith('operator new') or n.startswith('operator delete'): return nop
    return None

def nop(I, st, h, this, a, l): yield st, this
def exc(I, st, h, this, a, l):
    if h['base'] == 'what': yield st, ('str', 'std::exception'); return
    yield st, this
def fwd(I, st, h, this, a, l):
    v = a[0]
    if h['n'].endswith('addressof'):
        yield st, ('p', v[1]) if v[0] == 'o' else ('pl', v); return
    yield st, v
def limits(I, st, h, this, a, l):
    t = I.strip(I.ty(h['ret'])); n = t['s']; b = h['base']; v = None
    if n in ('double', 'float') and b in ('epsilon', 'max', 'min', 'lowest'):
        bits, e = (53, 1024) if n == 'double' else (24, 128)
        big = (2**bits - 1) * Fraction(2)**(e - bits)
        v = Q.num({'epsilon': Fraction(1, 2**(bits - 1)), 'max': big, 'lowest': -big, 'min': Fraction(2)**(2 - e)}[b])
    elif n in INTS and b in ('max', 'min', 'lowest'):
        w, sgn = INTS[n]
        v = (2**(w - sgn) - 1) if b == 'max' else (-2**(w - 1) if sgn else 0)
    if v is None: I.undec(st, 'numeric_limits', l); return
    yield st, v
INTS = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0), 'short': (16, 1), 'unsigned short': (16, 0)}
def tostring(I, st, h, this, a, l):
    i = st.new(I.stringrid(h), 'auto'); st.h[i].f['s'] = join(sval(I, st, a[0])); yield st, ('o', i)
def minmax(I, st, h, this, a, l):
    t = I.strip(I.ty(h['ps'][0]['t']))
    x = I.load(st, a[0], t, l); y = I.load(st, a[1], t, l)
    if x is None or y is None: return
    for st1, b in I.compare(st, '<', y, x): yield st1, (a[1] if b == h['n'].endswith('min') else a[0])
def math(I, st, h, this, a, l):
    n = h['n'].split('::')[-1]
    if n == 'abs': n = 'fabs'
    v = []
    for x in a:
        if isinstance(x, tuple): I.undec(st, 'math argument', l); return
        v.append(I.facts_apply(st, Q.num(x) if isinstance(x, int) else x))
    if n == 'pow' and v[1].const() is not None and v[1].const().denominator == 1 and 0 <= v[1].const() <= 8:
        r = Q.ONE
        for _ in range(int(v[1].const())): r = r * v[0]
        yield st, r; return
    if n == 'pow' and v[1].const() is not None and v[1].const().denominator == 1 and -8 <= v[1].const() < 0:
        r = Q.ONE
        for _ in range(-int(v[1].const())): r = r * v[0]
        try: yield st, Q.ONE / r
        except Q.Undefined: yield st, Q.fn('divzero', Q.ONE)
        return
    try: yield st, Q.fn(n, *v)
    except Q.Undefined: yield st, Q.fn('undefined:' + n, *v)

def aref(I, st, h, this, a, l):
    if h['k'] == 'ctor':
        st.w(this[1]).f['p'] = a[0] if isinstance(a[0], tuple) and a[0][0] == 'p' else st.h[a[0][1]].f.get('p', ('p', 0))
    yield st, this

def smart(I, st, h, this, a, l):
    b = h['base']; o = this[1]; k = h['k']
    def take(x):
        p = I.apget(st, x)
        st.w(x).f['p'] = ('p', 0)
        return p
    if k == 'ctor':
        if not a: st.w(o).f['p'] = ('p', 0)
        else:
            v = a[0]
            if isinstance(v, tuple) and v[0] == 'p': st.w(o).f['p'] = v
            elif isinstance(v, tuple) and v[0] == 'o':
                if I.rname(st.h[v[1]].cls) == 'std::auto_ptr_ref': st.w(o).f['p'] = st.h[v[1]].f['p']
                else:
                    if not I.usable(st, v[1], l): return
                    if I.extern(st, v[1]): I.event(st, 'write', 'takes ownership away from %s, which belongs to the caller' % I.describe(st, v[1]), l)
                    st.w(o).f['p'] = take(v[1])
            elif isinstance(v, tuple) and v[0] == 'cv': st.w(o).f['p'] = ('p', 0)
            else: I.undec(st, 'smart pointer from %r' % (v,), l); return
        yield st, this; return
    if k == 'dtor': yield st, None; return
    if k == 'conv':
        t = I.strip(I.ty(h['ret']))
        if t['k'] == 'bool': yield st, I.apget(st, o)[1] != 0; return
        i = st.new(t['r'], 'auto'); st.h[i].f['p'] = take(o)
        yield st, ('o', i); return
    if b == 'get': yield st, I.apget(st, o); return
    if b in ('operator->', 'operator*'):
        p = I.apget(st, o)
        if p[1] == 0 and b == 'operator->':
            yield st, p; return      # dereferenced by the member access that follows
        if p[1] == 0: I.bug(st, 'null-dereference', 'empty smart pointer is dereferenced', l); return
        yield st, (p if b == 'operator->' else ('o', p[1])); return
    if b == 'release':
        if I.extern(st, o): I.event(st, 'write', 'releases %s, which belongs to the caller' % I.describe(st, o), l)
        yield st, take(o); return
    if b == 'reset' or b == 'operator=':
        if I.extern(st, o) and not st.facts.get(('mut', I.top(st, o))): I.event(st, 'write', 'assigns to %s, which is passed read-only' % I.describe(st, o), l)
        old = I.apget(st, o); res = this if b != 'reset' else None
        if not a: new = ('p', 0)
        else:
            v = a[0]
            if isinstance(v, tuple) and v[0] == 'o':
                if v[1] == o: yield st, res; return
                if I.rname(st.h[v[1]].cls) == 'std::auto_ptr_ref': new = st.h[v[1]].f['p']
                else: new = take(v[1])
            else: new = v
        st.w(o).f['p'] = new
        if new == old or (old[1] and st.h[old[1]].st == 'ext'):
            yield st, res; return
        for st1 in I.delete(st, old, l): yield st1, res
        return
    if b == 'swap':
        p = I.apget(st, o); q = I.apget(st, a[0][1])
        st.w(o).f['p'] = q; st.w(a[0][1]).f['p'] = p
        yield st, None; return
    I.undec(st, 'smart pointer operation ' + b, l)

def scalarelem(I, st, oid):
    et = I.velem(st.h[oid].cls)
    return et['k'] not in ('rec',), et
def newelem(I, st, et, l):
    """value-initialised element; yields (st, v)"""
    if et['k'] == 'rec':
        i = st.new(et['r'], 'sub')
        d = [x for x in I.meth.get(et['r'], []) if x.get('k') == 'ctor' and not x['ps']]
        if d:
            for st1 in I.construct(st, d[0]['id'], i, [], l): yield st1, ('o', i)
        elif I.rname(et['r']).startswith('std::') :
            n = I.rname(et['r'])
            if n in STR: st.h[i].f['s'] = ()
            if n == 'std::vector': st.h[i].f['#vec'] = []
            yield st, ('o', i)
        else: I.undec(st, 'element of type ' + et['s'], l)
    elif et['k'] == 'ptr': yield st, ('p', 0)
    elif et['k'] == 'bool': yield st, False
    elif et['k'] == 'float': yield st, Q.ZERO
    else: yield st, 0
def copyelem(I, st, et, v, l, same=False):
    if not same and et['k'] == 'rec' and et['r'] in I.rec:
        for r in emplace(I, st, et, v, None, l): yield r
        return
    if et['k'] == 'rec' and isinstance(v, tuple) and v[0] == 'o':
        i = st.new(et['r'], 'sub')
        c = [x for x in I.meth.get(et['r'], []) if x.get('copyctor')]
        if c:
            for st1 in I.construct(st, c[0]['id'], i, [v], l): yield st1, ('o', i)
        elif '#lam' in st.h[v[1]].f:
            o = st.h[i].f; src = st.h[v[1]].f
            for k, w in src.items(): o[k] = w
            o['#caps'] = {d: (('l', i, w[2]) if isinstance(w, tuple) and w[0] == 'l' and w[1] == v[1] else w) for d, w in src['#caps'].items()}
            yield st, ('o', i)
        elif I.rname(et['r']) in STR:
            st.h[i].f['s'] = st.h[v[1]].f.get('s', ()); yield st, ('o', i)
        elif et['r'] in I.rec:
            I.membercopy(st, i, v[1]); yield st, ('o', i)
        else: I.undec(st, 'copy of element ' + et['s'], l)
    else: yield st, v
def emplace(I, st, et, v, at, l):
    """element constructed from a value of another type: its converting constructor"""
    if et['k'] != 'rec' or et['r'] not in I.rec or isinstance(v, tuple) and v[0] == 'o' and (st.h[v[1]].cls == et['r'] or '#lam' in st.h[v[1]].f):
        for r in copyelem(I, st, et, v, l, True): yield r
        return
    if at is not None: at = I.strip(at)
    elif isinstance(v, tuple) and v[0] == 'o': at = {'k': 'rec', 'r': st.h[v[1]].cls, 's': I.rname(st.h[v[1]].cls)}
    elif isinstance(v, tuple) and v[0] in ('p', 'pl'): at = {'k': 'ptr', 's': 'pointer'}
    else: at = {'k': 'num', 's': 'number'}
    fits = []
    for c in I.meth.get(et['r'], []):
        if c.get('k') != 'ctor' or len(c['ps']) != 1: continue
        pt = I.strip(I.ty(c['ps'][0]['t']))
        if pt['k'] == at['k'] and (pt.get('r') == at.get('r') if pt['k'] == 'rec' else True): fits.append((c, I.ty(c['ps'][0]['t'])))
    if not fits and at['k'] == 'rec':
        for r in copyelem(I, st, et, v, l, True): yield r        # a derived object: its base part
        return
    if len(fits) != 1: I.undec(st, 'element of type %s made from %s' % (et['s'], at['s']), l); return
    i = st.new(et['r'], 'sub'); pt = fits[0][1]
    if pt['k'] in ('ref', 'rref') and not (isinstance(v, tuple) and v[0] in ('o', 'l')): v = ('cv', v)
    for st1 in I.construct(st, fits[0][0]['id'], i, [v], l): yield st1, ('o', i)
def val(I, st, v, t, l):
    """argument passed by const reference -> value for scalars"""
    t = I.strip(t)
    if t['k'] == 'rec': return v
    if isinstance(v, tuple) and v[0] == 'l': return I.load(st, v, t, l)
    if isinstance(v, tuple) and v[0] == 'cv': return v[1]
    return v

def concint(I, st, v):
    if isinstance(v, int): return v
    if isinstance(v, R):
        c = I.facts_apply(st, v).const()
        return int(c) if c is not None else None
    return None

def vector(I, st, h, this, a, l):
    b = h['base']; o = this[1]; k = h['k']
    isscal, et = scalarelem(I, st, o) if k != 'dtor' else (True, None)
    def get(): return I.vec(st, o)
    def fill(st, n, gen, acc):
        if n == 0: yield st, acc; return
        for st1, v in gen(st):
            for r in fill(st1, n - 1, gen, acc + [v]): yield r
    if k == 'dtor': yield st, None; return
    if k == 'ctor':
        ps = h['ps']
        a = [x for x, p in zip(a, ps) if 'allocator' not in I.strip(I.ty(p['t']))['s'].split('<')[0]]
        if not a: st.w(o).f['#vec'] = []; yield st, this; return
        if isinstance(a[0], tuple) and a[0][0] == 'o' and I.strip(I.ty(ps[0]['t'])).get('n') == 'std::vector':
            src = I.vec(st, a[0][1])
            if isinstance(src, tuple): st.w(o).f['#vec'] = src; yield st, this; return
            def cp(st, i, acc):
                if i == len(src): st.w(o).f['#vec'] = acc; yield st, this; return
                for st1, v in copyelem(I, st, et, src[i], l):
                    for r in cp(st1, i + 1, acc + [v]): yield r
            for r in cp(st, 0, []): yield r
            return
        if isiter(st, a[0]) and len(a) == 2 and isiter(st, a[1]):
            src = slice_(I, st, a[0], a[1], l)
            if src is None: return
            for st1, vs in copies(I, st, et, src, l): st1.w(o).f['#vec'] = vs; yield st1, this
            return
        if isinstance(a[0], tuple) and a[0][0] == 'o' and st.h[a[0][1]].cls == '#arr':        # initialiser list
            for st1, vs in copies(I, st, et, st.h[a[0][1]].f['#vec'], l): st1.w(o).f['#vec'] = vs; yield st1, this
            return
        n = concint(I, st, a[0])
        if n is None or n > 64: 
            if isinstance(a[0], (R, int)): st.w(o).f['#vec'] = ('newvec', Q.fmt(a[0]) if isinstance(a[0], R) else str(a[0])); I.undec(st, 'vector of symbolic size', l); return
            I.undec(st, 'vector constructor', l); return
        gen = (lambda st: newelem(I, st, et, l)) if len(a) == 1 else (lambda st: copyelem(I, st, et, val(I, st, a[1], I.ty(ps[1]['t']), l), l))
        for st1, vs in fill(st, n, gen, []):
            st1.w(o).f['#vec'] = vs; yield st1, this
        return
    v = get()
    if b == 'size':
        yield st, (Q.sym(('n', 'size(%s)' % v[1])) if isinstance(v, tuple) else len(v)); return
    if b == 'empty':
        if isinstance(v, tuple):
            for r in I.compare(st, '==', Q.sym(('n', 'size(%s)' % v[1])), 0): yield r
            return
        yield st, len(v) == 0; return
    if b in ('operator[]', 'at', 'front', 'back'):
        i = a[0] if a else (0 if b == 'front' else (len(v) - 1 if isinstance(v, list) else None))
        if isinstance(v, tuple):
            if i is None: I.undec(st, 'back of symbolic vector', l); return
            size = Q.sym(('n', 'size(%s)' % v[1]))
            for st1, ok in I.compare(st, '<', i, size):
                if ok: yield st1, ('l', o, ('el', I.argkey(st1, i)))
                elif b == 'at': I.end(st1, 'throw', ('std::out_of_range', None), l)
                else: I.bug(st1, 'out-of-bounds', 'element %s of vector %s is accessed although it may have only %s elements' % (I.argkey(st1, i), v[1], I.argkey(st1, size)), l)
            return
        n = concint(I, st, i)
        if n is None:
            # symbolic index into a vector of known size: decide position by position
            def pick(st, j):
                if j == len(v):
                    if b == 'at': I.end(st, 'throw', ('std::out_of_range', None), l)
                    else: I.bug(st, 'out-of-bounds', 'index %s is not checked against the %d elements' % (I.argkey(st, i), len(v)), l)
                    return
                for st1, e in I.compare(st, '==', i, j):
                    if e: yield st1, (v[j] if not isscal else ('l', o, ('el', j)))
                    else:
                        for r in pick(st1, j + 1): yield r
            for r in pick(st, 0): yield r
            return
        if n < 0 or n >= len(v):
            if b == 'at': I.end(st, 'throw', ('std::out_of_range', None), l); return
            I.bug(st, 'out-of-bounds', 'element %d of a vector with %d elements is accessed' % (n, len(v)), l); return
        yield st, (v[n] if not isscal else ('l', o, ('el', n))); return
    if I.extern(st, o) and b not in ('begin', 'end', 'capacity') and not st.facts.get(('mut', I.top(st, o))):
        I.event(st, 'write', '%s on %s, which belongs to the caller' % (b, I.describe(st, o)), l)
    if isinstance(v, tuple): I.undec(st, 'vector %s on symbolic vector' % b, l); return
    if b in ('push_back', 'emplace_back') and len(a) == 1:
        x = val(I, st, a[0], I.ty(h['ps'][0]['t']), l)
        if x is None: return
        for st1, e in (copyelem(I, st, et, x, l) if b == 'push_back' else emplace(I, st, et, x, I.ty(h['ps'][0]['t']), l)):
            st1.w(o).f['#vec'] = st1.h[o].f['#vec'] + [e]; yield st1, None
        return
    if b == 'resize':
        n = concint(I, st, a[0])
        if n is None or n > 64: I.undec(st, 'resize to symbolic size', l); return
        if n <= len(v):
            ids = [e[1] for e in v[n:] if isinstance(e, tuple) and e[0] == 'o']
            st.w(o).f['#vec'] = v[:n]
            for st1 in I.destroyl(st, ids): yield st1, None
            return
        gen = (lambda st: newelem(I, st, et, l)) if len(a) == 1 else (lambda st: copyelem(I, st, et, val(I, st, a[1], I.ty(h['ps'][1]['t']), l), l))
        for st1, vs in fill(st, n - len(v), gen, []):
            st1.w(o).f['#vec'] = list(v) + vs; yield st1, None
        return
    if b == 'reserve': yield st, None; return
    if b in ('clear', 'pop_back'):
        cut = 0 if b == 'clear' else len(v) - 1
        ids = [e[1] for e in v[cut:] if isinstance(e, tuple) and e[0] == 'o']
        st.w(o).f['#vec'] = v[:cut]
        for st1 in I.destroyl(st, ids): yield st1, None
        return
    if b == 'operator=' and isinstance(a[0], tuple) and a[0][0] == 'o':
        if a[0][1] == o: yield st, this; return
        src = I.vec(st, a[0][1])
        if isinstance(src, tuple): st.w(o).f['#vec'] = src; yield st, this; return
        def cp(st, i, acc):
            if i == len(src):
                ids = [e[1] for e in v if isinstance(e, tuple) and e[0] == 'o' and st.h[e[1]].st not in ('ext', 'esub')]
                st.w(o).f['#vec'] = acc
                for st1 in I.destroyl(st, ids):
                    if not st1.h[a[0][1]].alive: I.bug(st1, 'use-after-free', 'the source of a vector assignment belongs to an element that is replaced', l); continue
                    yield st1, this
                return
            for st1, x in copyelem(I, st, et, src[i], l):
                for r in cp(st1, i + 1, acc + [x]): yield r
        for r in cp(st, 0, []): yield r
        return
    if b == 'swap':
        w = I.vec(st, a[0][1]); st.w(o).f['#vec'] = w; st.w(a[0][1]).f['#vec'] = v; yield st, None; return
    if b in ('begin', 'end', 'cbegin', 'cend'):
        yield st, mkiter(I, st, h, o, 0 if 'begin' in b else len(v)); return
    if b in ('rbegin', 'rend', 'crbegin', 'crend'):
        yield st, mkiter(I, st, h, o, len(v) if 'begin' in b else 0); return
    if b == 'assign' and len(a) == 2:
        if isiter(st, a[0]):
            src = slice_(I, st, a[0], a[1], l)
            if src is None: return
        else:
            n = concint(I, st, val(I, st, a[0], I.ty(h['ps'][0]['t']), l)); x = val(I, st, a[1], I.ty(h['ps'][1]['t']), l)
            if n is None or n > 64: I.undec(st, 'assign', l); return
            src = [x] * n
        for st1, vs in copies(I, st, et, src, l):
            ids = [e[1] for e in v if isinstance(e, tuple) and e[0] == 'o']
            st1.w(o).f['#vec'] = vs
            for st2 in I.destroyl(st1, ids): yield st2, None
        return
    if b == 'insert' and len(a) in (2, 3) and isiter(st, a[0]) and itof(st, a[0])[0] == o:
        i = itof(st, a[0])[1]
        if len(a) == 3:
            if not isiter(st, a[1]): I.undec(st, 'insert', l); return
            src = slice_(I, st, a[1], a[2], l)
            if src is None: return
        else: src = [val(I, st, a[1], I.ty(h['ps'][1]['t']), l)]
        for st1, vs in copies(I, st, et, src, l):
            st1.w(o).f['#vec'] = list(v[:i]) + vs + list(v[i:]); yield st1, mkiter(I, st1, h, o, i)
        return
    if b == 'emplace' and len(a) == 2 and isiter(st, a[0]) and itof(st, a[0])[0] == o:
        i = itof(st, a[0])[1]
        for st1, e in emplace(I, st, et, val(I, st, a[1], I.ty(h['ps'][1]['t']), l), I.ty(h['ps'][1]['t']), l):
            st1.w(o).f['#vec'] = list(v[:i]) + [e] + list(v[i:]); yield st1, mkiter(I, st1, h, o, i)
        return
    if b == 'erase' and isiter(st, a[0]) and itof(st, a[0])[0] == o:
        i = itof(st, a[0])[1]; j = i + 1 if len(a) == 1 else itof(st, a[1])[1] if isiter(st, a[1]) else None
        if j is None: I.undec(st, 'erase', l); return
        if j < i or j > len(v): I.bug(st, 'out-of-bounds', 'erase of a position that is not in the vector', l); return
        st.w(o).f['#vec'] = list(v[:i]) + list(v[j:])
        for st1 in I.destroyl(st, [e[1] for e in v[i:j] if isinstance(e, tuple) and e[0] == 'o']): yield st1, mkiter(I, st1, h, o, i)
        return
    I.undec(st, 'vector operation ' + b, l)
def slice_(I, st, a, b, l):
    r = algos.rng(I, st, a, b, l)
    if r is None: return None
    c, i, j = r
    if '#map' in st.h[c].f: I.undec(st, 'range of a map', l); return None
    return list(I.vec(st, c)[i:j])
def copies(I, st, et, src, l, i=0, acc=()):
    if i == len(src): yield st, list(acc); return
    for st1, x in copyelem(I, st, et, src[i], l):
        for r in copies(I, st1, et, src, l, i + 1, acc + (x,)): yield r
def riter(I, st, h, this, a, l):
    b = h['base']; o = this[1]; k = h['k']
    if k == 'dtor': yield st, None; return
    if k == 'ctor' or b == 'operator=':
        if not a and k == 'ctor': yield st, this; return
        if not isiter(st, a[0]): I.undec(st, 'iterator from %r' % (a[0],), l); return
        st.w(o).f['it'] = itof(st, a[0]); yield st, this; return
    if 'it' not in st.h[o].f: I.bug(st, 'uninitialised', 'iterator without a container is used', l); return
    c, i = st.h[o].f['it']
    if not I.usable(st, c, l): return
    n = len(I.vec(st, c))
    if b in ('operator++', 'operator--'):
        j = i - 1 if b[-1] == '+' else i + 1
        if j < 0 or j > n: I.bug(st, 'out-of-bounds', 'iterator is moved outside of its container', l); return
        r = mkiter(I, st, h, c, i) if a else this
        st.w(o).f['it'] = (c, j); yield st, r; return
    if b in ('operator*', 'operator->'):
        if i < 1 or i > n: I.bug(st, 'out-of-bounds', 'past-the-end iterator is dereferenced', l); return
        e = I.vec(st, c)[i - 1]
        v = e if isinstance(e, tuple) and e[0] == 'o' else ('l', c, ('el', i - 1))
        yield st, v if b == 'operator*' else (('p', v[1]) if v[0] == 'o' else ('pl', v)); return
    if b == 'base': yield st, mkiter(I, st, h, c, i); return
    I.undec(st, 'reverse iterator operation ' + b, l)

def mkiter(I, st, h, o, i):
    """iterator object: position i of container o"""
    x = st.new(I.strip(I.ty(h['ret']))['r'], 'auto'); st.h[x].f['it'] = (o, i)
    return ('o', x)
def isiter(st, v): return itof(st, v) is not None
def itof(st, v):
    "(container, position) of an iterator or of a pointer into an array"
    if not isinstance(v, tuple): return None
    if v[0] == 'pa': return v[1], v[2]
    if v[0] != 'o': return None
    o = st.h[v[1]]
    return (v[1], 0) if o.cls == '#arr' else o.f.get('it')
def iterator(I, st, h, this, a, l):
    b = h['base']; o = this[1]; k = h['k']
    if k == 'dtor': yield st, None; return
    if k == 'ctor' or b == 'operator=':
        if not a and k == 'ctor': yield st, this; return
        if not isiter(st, a[0]): I.undec(st, 'iterator from %r' % (a[0],), l); return
        st.w(o).f['it'] = itof(st, a[0]); yield st, this; return
    if 'it' not in st.h[o].f: I.bug(st, 'uninitialised', 'iterator without a container is used', l); return
    c, i = st.h[o].f['it']
    if not I.usable(st, c, l): return
    isv = '#map' not in st.h[c].f
    n = len(I.vec(st, c)) if isv else len(st.h[c].f['#map'])
    if b in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator+', 'operator-'):
        d = 1
        if b[-1] == '=' or b in ('operator+', 'operator-'):
            if a and isiter(st, a[0]): yield st, i - itof(st, a[0])[1]; return
            d = concint(I, st, val(I, st, a[0], I.ty(h['ps'][0]['t']), l))
            if d is None: I.undec(st, 'iterator moved by a symbolic distance', l); return
        j = i + d if b[8] == '+' else i - d
        if j < 0 or j > n: I.bug(st, 'out-of-bounds', 'iterator is moved outside of its container', l); return
        if b in ('operator+', 'operator-'): yield st, mkiter(I, st, h, c, j); return
        if a and b in ('operator++', 'operator--'):
            r = mkiter(I, st, h, c, i); st.w(o).f['it'] = (c, j); yield st, r; return
        st.w(o).f['it'] = (c, j); yield st, this; return
    if b in ('operator*', 'operator->', 'operator[]'):
        if b == 'operator[]':
            d = concint(I, st, a[0])
            if d is None: I.undec(st, 'iterator subscript', l); return
            i += d
        if i < 0 or i >= n: I.bug(st, 'out-of-bounds', 'past-the-end iterator is dereferenced', l); return
        if isv:
            e = I.vec(st, c)[i]
            v = e if isinstance(e, tuple) and e[0] == 'o' else ('l', c, ('el', i))
        else:
            k, e = st.h[c].f['#map'][i]
            p = st.new(I.ridof(h['ret']), st.h[c].st if st.h[c].st in ('ext', 'esub') else 'sub'); P = st.h[p]
            P.f['first'] = k[1] if len(k) == 2 else ('o', keypair(I, st, k)); P.f['second'] = e
            v = ('o', p)
        if b == 'operator->': v = ('p', v[1]) if v[0] == 'o' else ('pl', v)
        yield st, v; return
    if b in ('operator==', 'operator!='):
        for r in itercmp(I, st, h, None, [this] + list(a), l): yield r
        return
    I.undec(st, 'iterator operation ' + b, l)
def keypair(I, st, k):
    p = st.new('#pair', 'sub'); st.h[p].f['first'], st.h[p].f['second'] = k[1], k[2]
    return p
def itercmp(I, st, h, this, a, l):
    b = h['base']
    if this is not None: a = [this] + list(a)
    if not (isiter(st, a[0]) and isiter(st, a[1])): I.undec(st, 'iterator comparison', l); return
    x, y = itof(st, a[0]), itof(st, a[1])
    if x[0] != y[0]: I.bug(st, 'foreign-iterator', 'iterators of different containers are compared', l); return
    if b == 'operator-': yield st, x[1] - y[1]; return
    if b == 'operator<': yield st, x[1] < y[1]; return
    yield st, (x[1] == y[1]) == (b == 'operator==')

def sval(I, st, v, l=None):
    """pieces of a string-like value"""
    if isinstance(v, tuple):
        if v[0] == 'str': return (v[1],)
        if v[0] == 'cstr': return v[2]
        if v[0] == 'o':
            o = st.h[v[1]]
            if 's' in o.f: return o.f['s']
            if o.lazy:
                if o.org and o.org[0] == 'copyobj': r = sval(I, st, ('o', o.org[1]))
                else: r = (('sym', o.tag),)
                st.w(v[1]).f['s'] = r
                return r
            return ()
        if v[0] == 'cv': return (str(v[1]),)
        if v[0] == 'p': return (('ptr', I.argkey(st, v)),)
    if isinstance(v, bool): return ('1' if v else '0',)
    if isinstance(v, int): return (str(v),)
    if isinstance(v, R):
        c = I.facts_apply(st, v)
        k = c.const()
        if k is not None: return (('%g' % float(k)),)
        return (('num', Q.fmt(c)),)
    return (('?', repr(v)),)
def join(x):
    out = []
    for p in x:
        if isinstance(p, str):
            if not p: continue
            if out and isinstance(out[-1], str): out[-1] += p; continue
        out.append(p)
    return tuple(out)
def string(I, st, h, this, a, l):
    b = h['base']; o = this[1]; k = h['k']
    if k == 'ctor':
        a = [x for x, p in zip(a, h['ps']) if 'allocator' not in I.strip(I.ty(p['t']))['s'].split('<')[0]]
        if not a: st.w(o).f['s'] = ()
        elif len(a) == 1 and not isinstance(a[0], int):
            if isinstance(a[0], tuple) and a[0][0] == 'cstr' and not I.usable(st, a[0][1], l): return
            st.w(o).f['s'] = join(sval(I, st, a[0]))
        elif len(a) == 2 and isinstance(a[0], int) and isinstance(a[1], int): st.w(o).f['s'] = (chr(a[1]) * a[0],)
        else: I.undec(st, 'string constructor', l); return
        yield st, this; return
    if k == 'dtor': yield st, None; return
    cur = sval(I, st, this)
    if b in ('operator+=', 'append', 'push_back') and len(a) == 1:
        x = a[0]
        st.w(o).f['s'] = join(cur + ((chr(x),) if isinstance(x, int) else sval(I, st, x))); yield st, None if b == 'push_back' else this; return
    if b == 'append' and len(a) == 2 and isinstance(a[0], int) and isinstance(a[1], int):
        st.w(o).f['s'] = join(cur + (chr(a[1]) * a[0],)); yield st, this; return
    if b == 'insert' and len(a) == 2 and isinstance(a[0], int) and not isinstance(a[0], bool) and isinstance(a[1], tuple):
        head = cur[0] if cur and isinstance(cur[0], str) else ''
        if a[0] <= len(head):
            st.w(o).f['s'] = join((head[:a[0]],) + sval(I, st, a[1]) + (head[a[0]:],) + cur[1 if head else 0:]); yield st, this; return
    if b in ('reserve', 'shrink_to_fit'): yield st, None; return
    if b == 'clear': st.w(o).f['s'] = (); yield st, None; return
    if b == 'swap' and isinstance(a[0], tuple) and a[0][0] == 'o':
        other = sval(I, st, a[0]); st.w(o).f['s'] = other; st.w(a[0][1]).f['s'] = cur; yield st, None; return
    if b == 'pop_back' and cur and isinstance(cur[-1], str):
        st.w(o).f['s'] = join(cur[:-1] + (cur[-1][:-1],)); yield st, None; return
    if b == 'back' and cur and isinstance(cur[-1], str): yield st, ord(cur[-1][-1]); return
    if b == 'front' and cur and isinstance(cur[0], str): yield st, ord(cur[0][0]); return
    if b == 'compare' and len(a) == 1:
        x, y = join(cur), join(sval(I, st, a[0]))
        if x == y: yield st, 0; return
        if all(isinstance(p, str) for p in x + y): yield st, (-1 if ''.join(x) < ''.join(y) else 1); return
    if b in ('operator=', 'assign') and len(a) == 1:
        x = a[0]
        if I.extern(st, o) and not st.facts.get(('mut', I.top(st, o))): I.event(st, 'write', 'assigns to %s, which belongs to the caller' % I.describe(st, o), l)
        st.w(o).f['s'] = join((chr(x),) if isinstance(x, int) else sval(I, st, x)); yield st, this; return
    if b in ('c_str', 'data'):
        yield st, ('cstr', o, cur); return
    if b in ('size', 'length', 'empty'):
        if all(isinstance(p, str) for p in cur):
            n = len(''.join(cur)); yield st, (n == 0 if b == 'empty' else n); return
        solid = any(isinstance(p, str) or p[0] in ('num', 'tex', 'opstr', 'deep_str', 'shallow_str') for p in cur)
        if b == 'empty':
            if solid: yield st, False; return
            for r in I.fork(st, ('empty', cur), 'text %r is empty' % (cur,)): yield r
            return
        n = Q.ZERO
        for p in cur:
            if isinstance(p, str): n = n + Q.num(len(p))
            else: n = n + Q.sym(('n', 'len%r' % (p,))) + (Q.ZERO if p[0] == 'sym' else Q.ONE)
        yield st, n; return
    I.undec(st, 'string operation ' + b, l)

def stream(I, st, h, this, a, l):
    b = h['base']; o = this[1]; k = h['k']
    if k == 'ctor':
        st.w(o).f['s'] = sval(I, st, a[0]) if a and isinstance(a[0], tuple) and a[0][0] == 'o' else ()
        yield st, this; return
    if k == 'dtor': yield st, None; return
    if b == 'str':
        if a: st.w(o).f['s'] = sval(I, st, a[0]); yield st, None; return
        i = st.new(I.stringrid(h), 'auto'); st.h[i].f['s'] = join(st.h[o].f.get('s', ())); yield st, ('o', i); return
    if b == 'operator<<':
        v = a[0]
        if isinstance(v, tuple) and v[0] == 'fn':
            n = I.head[v[1]]['n']
            if n == 'std::endl': st.w(o).f['s'] = join(st.h[o].f.get('s', ()) + ('\n',))
            yield st, this; return
        st.w(o).f['s'] = join(st.h[o].f.get('s', ()) + sval(I, st, v))
        yield st, this; return
    if b == 'put' and isinstance(a[0], int):
        st.w(o).f['s'] = join(st.h[o].f.get('s', ()) + (chr(a[0]),)); yield st, this; return
    if b in ('precision', 'setf', 'width', 'flush', 'flags'):
        yield st, (0 if b != 'flush' else this); return
    I.undec(st, 'stream operation ' + b, l)

def freeop(I, st, h, this, a, l):
    b = h['base']
    if b in ('operator==', 'operator!=') and not all(isinstance(x, tuple) and (x[0] in ('str', 'cstr') or x[0] == 'o' and I.rname(st.h[x[1]].cls) in STR) for x in a):
        I.undec(st, 'comparison of library objects', l); return
    if b == 'operator<<':
        o = a[0][1]; v = a[1]
        st.w(o).f['s'] = join(st.h[o].f.get('s', ()) + ((chr(v),) if isinstance(v, int) and not isinstance(v, bool) else sval(I, st, v)))
        yield st, a[0]; return
    if b == 'operator+':
        i = st.new(I.stringrid(h), 'auto')
        st.h[i].f['s'] = join(sum([((chr(x),) if isinstance(x, int) and not isinstance(x, bool) else sval(I, st, x)) for x in a], ())); yield st, ('o', i); return
    if b in ('operator==', 'operator!='):
        x, y = join(sval(I, st, a[0])), join(sval(I, st, a[1]))
        if x == y: yield st, b == 'operator=='; return
        if all(isinstance(p, str) for p in x + y): yield st, b == 'operator!='; return
        for st1, r in I.fork(st, ('streq', x, y), 'text %r equals %r' % (x, y)): yield st1, r == (b == 'operator==')
        return
    I.undec(st, 'operator ' + b, l)

def swap(I, st, h, this, a, l):
    x, y = a
    if x[0] == 'l' and y[0] == 'l':
        t = I.strip(I.ty(h['ps'][0]['t']))
        u = I.load(st, x, t, l); v = I.load(st, y, t, l)
        if u is None or v is None: return
        if I.store(st, x, v, l) and I.store(st, y, u, l): yield st, None
        return
    I.undec(st, 'swap of objects', l)

def parts(st, v):
    "elements of a pair or tuple"
    if not (isinstance(v, tuple) and v[0] == 'o'): return None
    f = st.h[v[1]].f
    if '#tup' in f: return list(f['#tup'])
    if 'first' in f: return [f['first'], f['second']]
    return None
def cmp1(I, st, op, x, y, l):
    "x op y for elements of the library containers"
    x, y = scalarof(I, st, x, l), scalarof(I, st, y, l)
    if x is None or y is None: return
    if parts(st, x) is not None and parts(st, y) is not None:
        for r in lexcmp(I, st, op, parts(st, x), parts(st, y), l): yield r
        return
    s = [isinstance(z, tuple) and (z[0] in ('str', 'cstr') or z[0] == 'o' and I.rname(st.h[z[1]].cls) in STR) for z in (x, y)]
    if all(s) and op in ('==', '!='):
        for r in freeop(I, st, {'base': 'operator' + op}, None, [x, y], l): yield r
        return
    if any(isinstance(z, tuple) and z[0] == 'o' for z in (x, y)): I.undec(st, 'comparison of objects inside a library object', l); return
    for r in I.compare(st, op, x, y): yield r
def lexcmp(I, st, op, xs, ys, l):
    if op in ('==', '!='):
        if not xs: yield st, op == '=='; return
        for st1, b in cmp1(I, st, '==', xs[0], ys[0], l):
            if not b: yield st1, op == '!='
            else:
                for r in lexcmp(I, st1, op, xs[1:], ys[1:], l): yield r
        return
    if op in ('>', '<='):
        for st1, b in lexcmp(I, st, '<', ys, xs, l): yield st1, b == (op == '>')
        return
    if op == '>=':
        for st1, b in lexcmp(I, st, '<', xs, ys, l): yield st1, not b
        return
    if not xs: yield st, False; return
    for st1, b in cmp1(I, st, '<', xs[0], ys[0], l):
        if b: yield st1, True; continue
        for st2, c in cmp1(I, st1, '<', ys[0], xs[0], l):
            if c: yield st2, False
            else:
                for r in lexcmp(I, st2, '<', xs[1:], ys[1:], l): yield r
def tupcmp(I, st, h, this, a, l):
    xs, ys = parts(st, a[0]), parts(st, a[1])
    if xs is None or ys is None or len(xs) != len(ys): I.undec(st, 'comparison of library objects', l); return
    for r in lexcmp(I, st, h['base'][8:], xs, ys, l): yield r
def vecmp(I, st, h, this, a, l):
    xs, ys = I.vec(st, a[0][1]), I.vec(st, a[1][1])
    if not isinstance(xs, list) or not isinstance(ys, list): I.undec(st, 'comparison of symbolic vectors', l); return
    if len(xs) != len(ys): yield st, h['base'] == 'operator!='; return
    for r in lexcmp(I, st, h['base'][8:], list(xs), list(ys), l): yield r
def flatargs(ta):
    r = []
    for x in ta: r += flatargs(x['pack']) if 'pack' in x else [x]
    return r
def mktuple(I, st, i, ts, a, l, k=0):
    "fills the tuple object i with elements of the types ts made from a"
    if k == len(ts): yield st; return
    t = I.types[ts[k]['t']]
    if t['k'] in ('ref', 'rref'):
        st.w(i).f['#tup'] = st.h[i].f['#tup'] + [a[k]]
        for r in mktuple(I, st, i, ts, a, l, k + 1): yield r
        return
    for st1, v in algos.conv(I, st, t, a[k], l):
        st1.w(i).f['#tup'] = st1.h[i].f['#tup'] + [v]
        if isinstance(v, tuple) and v[0] == 'o': st1.h[i].f['#own'] = st1.h[i].f.get('#own', ()) + (v[1],)
        for r in mktuple(I, st1, i, ts, a, l, k + 1): yield r
def tup(I, st, h, this, a, l):
    b = h['base']; o = this[1]
    if h['k'] == 'dtor': yield st, None; return
    ts = flatargs(I.targs(st.h[o].cls))
    src = parts(st, a[0]) if len(a) == 1 and len(ts) != 1 or h.get('copyctor') else None
    if h['k'] == 'ctor' and not a:
        st.w(o).f['#tup'] = [0] * len(ts); yield st, this; return
    if h['k'] == 'ctor' and len(src if src is not None else a) == len(ts):
        st.w(o).f['#tup'] = []
        for st1 in mktuple(I, st, o, ts, src if src is not None else a, l): yield st1, this
        return
    if b == 'operator=' and src is not None and len(src) == len(ts):
        def go(st, k):
            if k == len(ts): yield st, this; return
            d = st.h[o].f['#tup'][k]
            if isinstance(d, tuple) and d[0] in ('l', 'o'):
                for st1 in algos.assign(I, st, d, src[k], l, I.strip(I.types[ts[k]['t']])):
                    for r in go(st1, k + 1): yield r
                return
            v = scalarof(I, st, src[k], l)
            if v is None: return
            z = list(st.h[o].f['#tup']); z[k] = v; st.w(o).f['#tup'] = z
            for r in go(st, k + 1): yield r
        for r in go(st, 0): yield r
        return
    I.undec(st, 'tuple', l)
def mktup(I, st, h, this, a, l):
    t = I.strip(I.ty(h['ret'])); i = st.new(t['r'], 'auto'); st.h[i].f['#tup'] = []
    for st1 in mktuple(I, st, i, flatargs(t['a']), a, l): yield st1, ('o', i)
def tupget(I, st, h, this, a, l):
    k = next((int(x['i']) for x in flatargs(h.get('targs', [])) if 'i' in x), None)
    if k is None or not (isinstance(a[0], tuple) and a[0][0] == 'o'): I.undec(st, 'std::get', l); return
    o = a[0][1]; f = st.h[o].f
    if '#tup' in f:
        v = f['#tup'][k]
        yield st, v if isinstance(v, tuple) and v[0] in ('o', 'l') else ('l', o, ('tup', k)); return
    if 'first' in f:
        n = ('first', 'second')[k]; v = f[n]
        yield st, v if isinstance(v, tuple) and v[0] == 'o' else ('l', o, n); return
    if '#vec' in f:
        v = f['#vec'][k]
        yield st, v if isinstance(v, tuple) and v[0] == 'o' else ('l', o, ('el', k)); return
    I.undec(st, 'std::get', l)

def scalarof(I, st, v, l):
    """number behind a value or reference"""
    if isinstance(v, tuple) and v[0] == 'l': v = I.load(st, v, {'k': 'int', 's': 'number'}, l)
    if isinstance(v, tuple) and v[0] == 'cv': v = v[1]
    return v
def keyof(I, st, v, l):
    if isinstance(v, tuple) and v[0] == 'o' and 'first' in st.h[v[1]].f:
        f = st.h[v[1]].f
        r = [scalarof(I, st, f['first'], l), scalarof(I, st, f['second'], l)]
    else: r = [scalarof(I, st, v, l)]
    if any(x is None or isinstance(x, tuple) for x in r): return None
    return ('k',) + tuple(r)
def copyval2(I, st, v):
    """copy of a value held by value in a pair or map"""
    if isinstance(v, tuple) and v[0] == 'o':
        o = st.h[v[1]]; i = st.new(o.cls, 'sub'); n = st.h[i]
        if isinstance(o.cls, str) or 'first' in o.f:
            n.f['first'] = copyval2(I, st, o.f['first']); n.f['second'] = copyval2(I, st, o.f['second'])
        elif I.rname(o.cls) in STR: n.f['s'] = sval(I, st, v)
        else: return None
        return ('o', i)
    return v
def pair(I, st, h, this, a, l):
    b = h['base']; o = this[1]
    if h['k'] == 'dtor': yield st, None; return
    if (h['k'] == 'ctor' or b == 'operator=') and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'o' and 'first' in st.h[a[0][1]].f:
        src = st.h[a[0][1]].f; r = [copyval2(I, st, src[x]) for x in ('first', 'second')]
    elif h['k'] == 'ctor' and not a: r = [0, 0]
    elif h['k'] == 'ctor' and len(a) == 2: r = [x if isinstance(x, tuple) and x[0] == 'o' else scalarof(I, st, x, l) for x in a]; r = [copyval2(I, st, x) for x in r]
    else: r = [None]
    if any(x is None for x in r): I.undec(st, 'pair', l); return
    f = st.w(o).f; f['first'], f['second'] = r
    yield st, this
def mkpair(I, st, h, this, a, l):
    r = [copyval2(I, st, x if isinstance(x, tuple) and x[0] == 'o' else scalarof(I, st, x, l)) for x in a]
    if any(x is None for x in r): I.undec(st, 'pair', l); return
    i = st.new(I.strip(I.ty(h['ret']))['r'], 'auto'); st.h[i].f['first'], st.h[i].f['second'] = r
    yield st, ('o', i)
def smap(I, st, h, this, a, l):
    b = h['base']; o = this[1]; k = h['k']
    if k == 'dtor': yield st, None; return
    if k == 'ctor' or b == 'operator=':
        if not a: st.w(o).f['#map'] = []; yield st, this; return
        src = st.h[a[0][1]].f.get('#map') if isinstance(a[0], tuple) and a[0][0] == 'o' else None
        if src is None: I.undec(st, 'copy of an unknown map', l); return
        m = [(x, copyval2(I, st, e)) for x, e in src]
        if any(e is None for _, e in m): I.undec(st, 'copy of map elements', l); return
        st.w(o).f['#map'] = m; yield st, this; return
    m = st.h[o].f.get('#map')
    if m is None: I.undec(st, 'unknown map', l); return
    if I.extern(st, o) and b not in ('begin', 'end', 'find', 'count', 'size', 'empty', 'at') and not st.facts.get(('mut', I.top(st, o))):
        I.event(st, 'write', '%s on %s, which belongs to the caller' % (b, I.describe(st, o)), l)
    if b in ('begin', 'end', 'cbegin', 'cend'): yield st, mkiter(I, st, h, o, 0 if 'begin' in b else len(m)); return
    if b == 'size': yield st, len(m); return
    if b == 'empty': yield st, not m; return
    if b == 'clear': st.w(o).f['#map'] = []; yield st, None; return
    if b == 'swap':
        q = a[0][1]; st.w(o).f['#map'], st.w(q).f['#map'] = st.h[q].f['#map'], m; yield st, None; return
    def look(st, key, i):
        """position of the entry with this key, or None"""
        if i == len(m): yield st, None; return
        def eq(st, j):
            if j == len(key): yield st, True; return
            for st1, t in I.compare(st, '==', m[i][0][j], key[j]):
                if not t: yield st1, False
                else:
                    for r in eq(st1, j + 1): yield r
        for st1, t in eq(st, 1):
            if t: yield st1, i
            else:
                for r in look(st1, key, i + 1): yield r
    def elem(st):
        t = I.types[I.targs(st.h[o].cls)[1]['t']]
        return newelem(I, st, t, l)
    def conv(st, v):
        """text literals become string objects"""
        t = I.types[I.targs(st.h[o].cls)[1]['t']]
        if t['k'] == 'rec' and I.rname(t['r']) in STR:
            i = st.new(t['r'], 'sub'); st.h[i].f['s'] = join(sval(I, st, v)); return ('o', i)
        return copyval2(I, st, v)
    if b in ('find', 'count', 'operator[]', 'at', 'erase') and a:
        if isiter(st, a[0]): I.undec(st, 'map operation ' + b, l); return
        key = keyof(I, st, a[0], l)
        if key is None: I.undec(st, 'map key %r' % (a[0],), l); return
        for st1, i in look(st, key, 0):
            if b == 'find': yield st1, mkiter(I, st1, h, o, len(m) if i is None else i)
            elif b == 'count': yield st1, 0 if i is None else 1
            elif b == 'erase':
                if i is not None: st1.w(o).f['#map'] = m[:i] + m[i + 1:]
                yield st1, 0 if i is None else 1
            elif i is not None: yield st1, m[i][1] if isinstance(m[i][1], tuple) and m[i][1][0] == 'o' else ('unk', 'map element')
            elif b == 'at': I.end(st1, 'throw', ('std::out_of_range', None), l)
            else:
                for st2, e in elem(st1):
                    st2.w(o).f['#map'] = m + [(key, e)]; yield st2, e
        return
    if b in ('insert', 'emplace') and a:
        if b == 'insert' and not (isinstance(a[0], tuple) and a[0][0] == 'o' and 'first' in st.h[a[0][1]].f): I.undec(st, 'map insert', l); return
        kv = (st.h[a[0][1]].f['first'], st.h[a[0][1]].f['second']) if b == 'insert' else (a[0], a[1])
        key = keyof(I, st, kv[0], l)
        if key is None: I.undec(st, 'map key', l); return
        for st1, i in look(st, key, 0):
            if i is None:
                e = conv(st1, kv[1]); st1.w(o).f['#map'] = m + [(key, e)]
            p = st1.new(I.strip(I.ty(h['ret']))['r'], 'auto'); st1.h[p].f['second'] = i is None
            x = st1.new(I.types[I.targs(st1.h[p].cls)[0]['t']]['r'], 'sub'); st1.h[x].f['it'] = (o, len(m) if i is None else i); st1.h[p].f['first'] = ('o', x)
            yield st1, ('o', p)
        return
    I.undec(st, 'map operation ' + b, l)
