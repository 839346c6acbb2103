"""Models of the standard algorithms and of function objects (lambda expressions, function pointers, functor classes)."""
from . import ratio as Q
from .ratio import R

def adapt(I, st, v, t, l):
    """argument value for a parameter of type t; yields (st, value)"""
    from . import models as M
    if t['k'] in ('ref', 'rref'):
        if isinstance(v, tuple) and v[0] in ('o', 'l'): yield st, v; return
        i = st.new('#cell', 'auto'); st.h[i].f['v'] = v
        yield st, ('l', i, 'v'); return
    if t['k'] == 'rec':
        for r in M.copyelem(I, st, t, v, l): yield r
        return
    if isinstance(v, tuple) and v[0] == 'l':
        v = I.load(st, v, t, l)
        if v is None: return
    if isinstance(v, tuple) and v[0] == 'cv': v = v[1]
    yield st, v
def adaptall(I, st, vs, ps, l, i=0, acc=()):
    if i == len(vs): yield st, list(acc); return
    for st1, v in adapt(I, st, vs[i], I.ty(ps[i]['t']), l):
        for r in adaptall(I, st1, vs, ps, l, i + 1, acc + (v,)): yield r
def callfn(I, st, f, args, l):
    """call of a function value; yields (st, result)"""
    if isinstance(f, tuple) and f[0] == 'l': f = I.load(st, f, {'k': 'ptr', 's': 'function'}, l)
    if f is None: return
    if isinstance(f, tuple) and f[0] == 'fn':
        for st1, a in adaptall(I, st, args, I.head[f[1]]['ps'], l):
            for r in I.call(f[1], a, st1, None, l): yield r
        return
    if isinstance(f, tuple) and f[0] == 'o':
        lam = st.h[f[1]].f.get('#lam')
        fid = lam if lam is not None else I.vmethod(st.h[f[1]].cls, 'operator()', len(args))
        if isinstance(lam, tuple): fid = pickop(I, st, lam, args)
        if fid is not None:
            for st1, a in adaptall(I, st, args, I.head[fid]['ps'], l):
                for r in I.call(fid, a, st1, f, l): yield r
            return
    I.undec(st, 'call of function object %r' % (f,), l)
def fits(I, st, v, t):
    """whether argument v matches parameter type t of a generic lambda's specialisation"""
    t = I.strip(t)
    if not isinstance(v, tuple): return t['k'] in ('int', 'float', 'bool')
    if v[0] == 'l': v = I.load(st.copy(), v, t) if st.h[v[1]].f.get(v[2]) is not None else None
    if not isinstance(v, tuple): return v is None or t['k'] in ('int', 'float', 'bool')
    if v[0] in ('p', 'pl', 'pa'): return t['k'] == 'ptr'
    if v[0] == 'o': return t['k'] == 'rec' and (t['r'] in I.ancestors(st.h[v[1]].cls) if not isinstance(st.h[v[1]].cls, str) else True)
    return True
def pickop(I, st, lam, args):
    c = [f for f in lam[1] if len(I.head[f]['ps']) == len(args)]
    if len(c) > 1: c = [f for f in c if all(fits(I, st, v, I.ty(p['t'])) for v, p in zip(args, I.head[f]['ps']))]
    return c[0] if len(c) == 1 else None
def rng(I, st, a, b, l):
    from . import models as M
    if not (M.isiter(st, a) and M.isiter(st, b)): I.undec(st, 'algorithm over something that is not an iterator range', l); return None
    (c, i), (d, j) = M.itof(st, a), M.itof(st, b)
    if c != d: I.bug(st, 'foreign-iterator', 'the range consists of iterators of different containers', l); return None
    if j < i: I.bug(st, 'out-of-bounds', 'the end of the range lies before its beginning', l); return None
    if not I.usable(st, c, l): return None
    return c, i, j
def at(I, st, c, i, l):
    """reference to position i"""
    v = I.vec(st, c)
    if i >= len(v): I.bug(st, 'out-of-bounds', 'position %d of a container with %d elements is accessed' % (i, len(v)), l); return None
    e = v[i]
    return e if isinstance(e, tuple) and e[0] == 'o' else ('l', c, ('el', i))
def assign(I, st, dst, v, l, t=None):
    """*dst = v"""
    from . import models as M
    if dst[0] == 'l':
        if isinstance(v, tuple) and v[0] == 'l': v = I.load(st, v, t or {'k': 'float', 's': 'number'}, l)
        if isinstance(v, tuple) and v[0] == 'cv': v = v[1]
        if v is None: return
        if I.store(st, dst, v, l): yield st
        return
    cls = st.h[dst[1]].cls
    vt = st.h[v[1]].cls if isinstance(v, tuple) and v[0] == 'o' else None
    ops = [h for h in I.meth.get(cls, []) if h['base'] == 'operator=' and len(h['ps']) == 1]
    good = [h for h in ops if vt is not None and I.strip(I.ty(h['ps'][0]['t'])).get('r') == vt]
    if vt is None and isinstance(v, tuple) and v[0] == 'p': good = [h for h in ops if I.strip(I.ty(h['ps'][0]['t']))['k'] == 'ptr']
    if vt is None and not isinstance(v, tuple): good = [h for h in ops if I.strip(I.ty(h['ps'][0]['t']))['k'] in ('float', 'int')]
    if good:
        for st1, _ in I.call(good[0]['id'], [v], st, dst, l): yield st1
        return
    if vt == cls and I.rname(cls) in M.STR:
        st.w(dst[1]).f['s'] = st.h[v[1]].f.get('s', ()); yield st; return
    I.undec(st, 'assignment inside an algorithm', l)
def put(I, st, out, v, l, t=None):
    """*out++ = v; yields (st, next out)"""
    from . import models as M
    if isinstance(out, tuple) and out[0] == 'o' and '#ins' in st.h[out[1]].f:
        c = st.h[out[1]].f['#ins']
        if not I.usable(st, c, l): return
        if I.extern(st, c) and not st.facts.get(('mut', I.top(st, c))): I.event(st, 'write', 'appends to %s, which belongs to the caller' % I.describe(st, c), l)
        et = velem(I, st, c)
        for st1, x in (conv(I, st, et, v, l)):
            st1.w(c).f['#vec'] = list(I.vec(st1, c)) + [x]; yield st1, out
        return
    if not M.isiter(st, out): I.undec(st, 'algorithm writes through %r' % (out,), l); return
    c, i = M.itof(st, out)
    d = at(I, st, c, i, l)
    if d is None: return
    for st1 in assign(I, st, d, v, l, velem(I, st, c)):
        yield st1, fiter(I, st1, None, out, c, i + 1)
def conv(I, st, et, v, l):
    """new element of type et made from v"""
    from . import models as M
    if et['k'] != 'rec':
        if isinstance(v, tuple) and v[0] == 'l': v = I.load(st, v, et, l)
        if isinstance(v, tuple) and v[0] == 'cv': v = v[1]
        if v is not None: yield st, v
        return
    if isinstance(v, tuple) and v[0] == 'o' and st.h[v[1]].cls == et['r']:
        for r in M.copyelem(I, st, et, v, l): yield r
        return
    vt = st.h[v[1]].cls if isinstance(v, tuple) and v[0] == 'o' else None
    cs = [h for h in I.meth.get(et['r'], []) if h.get('k') == 'ctor' and len(h['ps']) == 1]
    k = 'ptr' if isinstance(v, tuple) and v[0] == 'p' else None
    good = [h for h in cs if (vt is not None and I.strip(I.ty(h['ps'][0]['t'])).get('r') == vt) or (k and I.strip(I.ty(h['ps'][0]['t']))['k'] == k)]
    if not good: I.undec(st, 'conversion of an element inside an algorithm', l); return
    i = st.new(et['r'], 'sub')
    for st1 in I.construct(st, good[0]['id'], i, [v], l): yield st1, ('o', i)
def drop(I, st, v):
    """destroy a temporary result"""
    if isinstance(v, tuple) and v[0] == 'o' and st.h[v[1]].st == 'auto' and st.h[v[1]].alive:
        for st1 in I.destroyl(st, [v[1]]): yield st1
    else: yield st
def isval(I, h): return I.ty(h['ret'])['k'] not in ('ref', 'rref')
def velem(I, st, c): return st.h[c].f.get('#et') if st.h[c].cls == '#arr' else I.velem(st.h[c].cls)
def fiter(I, st, h, like, c, i):
    if like[0] == 'pa' or st.h[like[1]].cls == '#arr': return ('pa', c, i)
    x = st.new(st.h[like[1]].cls, 'auto'); st.h[x].f['it'] = (c, i); return ('o', x)

def eq(I, st, x, y, l):
    """x == y for references to scalars"""
    t = {'k': 'float', 's': 'number'}
    if isinstance(x, tuple) and x[0] == 'l': x = I.load(st, x, t, l)
    if isinstance(y, tuple) and y[0] == 'l': y = I.load(st, y, t, l)
    if x is None or y is None: return
    if isinstance(x, tuple) and x[0] == 'cv': x = x[1]
    if isinstance(y, tuple) and y[0] == 'cv': y = y[1]
    if isinstance(x, tuple) and x[0] == 'o' or isinstance(y, tuple) and y[0] == 'o': I.undec(st, 'comparison of objects inside an algorithm', l); return
    for r in I.compare(st, '==', x, y): yield r

def algo(I, st, h, this, a, l):
    n = h['n'].split('::')[-1]
    if n in ('back_inserter',):
        i = st.new(I.strip(I.ty(h['ret']))['r'], 'auto'); st.h[i].f['#ins'] = a[0][1]; yield st, ('o', i); return
    if n in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty') and isinstance(a[0], tuple) and a[0][0] == 'o':
        from . import models as M
        o = a[0][1]; v = I.vec(st, o) if '#map' not in st.h[o].f else st.h[o].f['#map']
        if isinstance(v, tuple): I.undec(st, 'range of a symbolic vector', l); return
        if n == 'size': yield st, len(v)
        elif n == 'empty': yield st, not v
        elif st.h[o].cls == '#arr': yield st, ('pa', o, 0 if 'begin' in n else len(v))
        else: yield st, M.mkiter(I, st, h, o, 0 if 'begin' in n else len(v))
        return
    if n in ('distance', 'next', 'prev', 'advance'):
        from . import models as M
        x = a[0]
        if not M.isiter(st, x): I.undec(st, n, l); return
        c, i = M.itof(st, x)
        if n == 'distance': yield st, M.itof(st, a[1])[1] - i; return
        d = M.concint(I, st, M.val(I, st, a[1], I.ty(h['ps'][1]['t']), l)) if len(a) > 1 else 1
        if d is None: I.undec(st, n, l); return
        j = i - d if n == 'prev' else i + d
        if j < 0 or j > len(I.vec(st, c)): I.bug(st, 'out-of-bounds', 'iterator is moved outside of its container', l); return
        if n == 'advance': st.w(x[1]).f['it'] = (c, j); yield st, None; return
        yield st, fiter(I, st, h, x, c, j); return
    if n in ('fill_n', 'generate_n', 'copy_n', 'for_each_n'): I.undec(st, 'algorithm ' + n, l); return
    r = rng(I, st, a[0], a[1], l)
    if r is None: return
    c, i, j = r
    et = velem(I, st, c) if '#map' not in st.h[c].f else None
    if et is None: I.undec(st, 'algorithm %s over a map' % n, l); return
    if n in ('copy', 'transform'):
        two = n == 'transform' and len(a) == 5
        o2 = None
        if two:
            from . import models as M
            if not M.isiter(st, a[2]): I.undec(st, 'transform', l); return
            o2 = M.itof(st, a[2])
        out = a[3] if two else a[2]; f = a[-1]
        def go(st, k, out):
            if k == j: yield st, out; return
            x = at(I, st, c, k, l)
            if x is None: return
            if n == 'copy':
                for st1, out1 in put(I, st, out, x, l, et):
                    for r in go(st1, k + 1, out1): yield r
                return
            args = [x]
            if two:
                y = at(I, st, o2[0], o2[1] + k - i, l)
                if y is None: return
                args.append(y)
            for st1, v in callfn(I, st, f, args, l):
                for st2, out1 in put(I, st1, out, v, l):
                    for st3 in drop(I, st2, v):
                        for r in go(st3, k + 1, out1): yield r
        for r in go(st, i, out): yield r
        return
    if n == 'for_each':
        def go(st, k):
            if k == j: yield st, a[2]; return
            x = at(I, st, c, k, l)
            if x is None: return
            for st1, v in callfn(I, st, a[2], [x], l):
                for st2 in drop(I, st1, v):
                    for r in go(st2, k + 1): yield r
        for r in go(st, i): yield r
        return
    if n in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if'):
        neg = n in ('find_if_not', 'all_of')
        def go(st, k, cnt):
            if k == j:
                yield st, (fiter(I, st, h, a[0], c, j) if n.startswith('find') else cnt if n.startswith('count') else n != 'any_of'); return
            x = at(I, st, c, k, l)
            if x is None: return
            g = eq(I, st, x, a[2], l) if n in ('find', 'count') else callfn(I, st, a[2], [x], l)
            for st1, v in g:
                for st2, t in I.truth(st1, v):
                    hit = t != neg
                    if hit and n.startswith('find'): yield st2, fiter(I, st2, h, a[0], c, k)
                    elif hit and n[0] != 'c': yield st2, n == 'any_of'
                    else:
                        for r in go(st2, k + 1, cnt + (1 if hit else 0)): yield r
        for r in go(st, i, 0): yield r
        return
    if n == 'equal':
        from . import models as M
        if not M.isiter(st, a[2]): I.undec(st, 'equal', l); return
        o2 = M.itof(st, a[2]); f = None
        if len(a) >= 4:
            if M.isiter(st, a[3]):
                if M.itof(st, a[3])[1] - o2[1] != j - i: yield st, False; return
                f = a[4] if len(a) == 5 else None
            else: f = a[3]
        def go(st, k):
            if k == j: yield st, True; return
            x = at(I, st, c, k, l); y = at(I, st, o2[0], o2[1] + k - i, l)
            if x is None or y is None: return
            for st1, v in (callfn(I, st, f, [x, y], l) if f else eq(I, st, x, y, l)):
                for st2, t in I.truth(st1, v):
                    if not t: yield st2, False
                    else:
                        for r in go(st2, k + 1): yield r
        for r in go(st, i): yield r
        return
    if n == 'fill':
        def go(st, k):
            if k == j: yield st, None; return
            x = at(I, st, c, k, l)
            if x is None: return
            for st1 in assign(I, st, x, a[2], l, et):
                for r in go(st1, k + 1): yield r
        for r in go(st, i): yield r
        return
    I.undec(st, 'algorithm ' + n, l)
NAMES = {'std::' + x for x in 'copy transform for_each find find_if find_if_not any_of all_of none_of count count_if equal fill back_inserter begin end cbegin cend size empty distance next prev advance'.split()}
