"""families about output: printed form (R26), coordinate systems (R23), LaTeX (R22)"""
from .fam2 import *
from .rt import self_arith as rt_arith, reach, same, show

# ------------------------------------------------------------------------------------------------ R26
def ispiece(p, kinds, tag): return isinstance(p, tuple) and p[0] in kinds and str(p[1]) == tag
def find(s, kinds, tag, what):
    """index of the only piece that shows the named part"""
    ix = [i for i, p in enumerate(s) if ispiece(p, kinds, tag)]
    if not ix: raise Bad('the text of %s is missing in %r' % (what, s))
    if len(ix) > 1: raise Bad('the text of %s appears %d times in %r' % (what, len(ix), s))
    return ix[0]
def depths(s, atoms):
    """bracket depth at every atom; raises when the brackets do not match"""
    st = []; out = {}; close = {')': '(', ']': '[', '}': '{'}
    for i, p in enumerate(s):
        if isinstance(p, str):
            for c in p:
                if c in '([{': st.append(c)
                elif c in ')]}':
                    if not st or st.pop() != close[c]: raise Bad('brackets do not match in %r' % (s,))
        else: out[i] = len(st)
    if st: raise Bad('brackets do not match in %r' % (s,))
    return out
def literal(s): return ' '.join(''.join(p if isinstance(p, str) else '\x00' for p in s).split())
def shows(parts, grouped=True, key=None, extra=None):
    """oracle: the returned text shows the named parts exactly once, in this order and inside brackets; the literal text is noted for comparison.
    parts: function cx -> [(piece kinds, tag, description)]"""
    def f(cx, s):
        ps = parts(cx); ix = [find(s, k, t, w) for k, t, w in ps]
        if ix != sorted(ix): raise Bad('the parts %s appear in a different order in %r' % (', '.join(w for _, _, w in ps), s))
        if grouped:
            d = depths(s, ix)
            for i, (k, t, w) in zip(ix, ps):
                if d[i] < 1 and (k != NUMS or grouped == 'all'): raise Bad('%s is not enclosed in brackets in %r' % (w, s))
        if extra:
            m = extra(cx, s)
            if m: raise Bad(m)
        return literal(s)
    def check(cx, ob):
        v = ob.v
        if not (isinstance(v, tuple) and v[0] == 'o'): raise Bad('result is %r' % (v,))
        s = cx.st.h[v[1]].f.get('s')
        if s is None: raise Bad('no text')
        t = f(cx, s)
        if key: return ('note', (key[0], key[1], t))
    return check
DS = ('deep_str',)
NUMS = ('num',)
def tagof(cx, n):
    return cx.st.h[cx.it.root(cx.st, cx.arg(n)[1])].tag
def num(cx, n): return Q.fmt(cx.app(cx.arg(n) if Q and not isinstance(cx.arg(n), tuple) else cx.d(n)))
def D(*ns): return lambda cx: [(DS, tagof(cx, n), n) for n in ns]
def N(*ns): return lambda cx: [(NUMS, num(cx, n), n) for n in ns]
def names(*words):
    def f(cx, s):
        t = literal(s)
        for w in words:
            if w not in t: return 'the text %r does not name %s' % (s, w)
    return f
@family('R26')
def r26(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    SS = '{ std::stringstream ss; ss << e; return ss.str(); }'
    ROOT = lambda cx, i: cx.st.h[cx.it.root(cx.st, i)].tag
    def sub(cx, n, acc): return ROOT(cx, cx.accd(cx.arg(n)[1], acc)[1])
    for b in BIN:
        k = ('binary', b)
        # between the operands, and nothing that could be taken for another operation
        def ex(cx, s, b=b):
            i = find(s, DS, tagof(cx, 'L'), 'L'); j = find(s, DS, tagof(cx, 'M'), 'M')
            mid = ''.join(p for p in s[i+1:j] if isinstance(p, str))
            if BIN[b] not in mid: return 'the text %r does not show %s between the operands' % (s, BIN[b])
        o('tb_' + b, 'std::string tb_%s(I* L, I* M){ %s return e.deep_str(); }' % (b, B(b)), shows(D('L', 'M'), key=k, extra=ex))
        o('tbs_' + b, 'std::string tbs_%s(I* L, I* M){ %s std::stringstream ss; ss << e; return ss.str(); }' % (b, B(b)), shows(D('L', 'M'), key=('binary stream', b), extra=ex))
        o('tbe_' + b, 'std::string tbe_%s(I* L, I* M){ %s rt_expr<I> x(e); std::stringstream ss; ss << x; return ss.str(); }' % (b, B(b)), shows(D('L', 'M'), key=('wrapped binary stream', b), extra=ex))
        o('tbo_' + b, 'std::string tbo_%s(){ op_binary<op_%s<double>, I> q; OpI const & r = q; return r.str(); }' % (b, b), shows(lambda cx: [], False, key=('operation', b), extra=names(BIN[b])))
    for f in ALLUN:
        w = {'gradient': 'grad', 'divergence': 'div', 'partial_deriv': 'partial', 'rt_integral': 'integral', 'rt_symbolic_integral': 'integral'}.get(f, f)
        def parts(cx, f=f, L=True):
            r = []
            if f in ('partial_deriv', 'rt_symbolic_integral'): r.append((NUMS, Q.fmt(cx.d('k')), 'the index'))
            if f == 'rt_integral':
                iv = cx.arg('iv')[1]
                for a in ('lower', 'upper'): r.append((DS, ROOT(cx, cx.accd(cx.accd(iv, a)[1], 'get')[1]), a + ' bound'))
                r.append((NUMS, Q.fmt(cx.app(cx.accd(cx.arg('v')[1], 'id'))), 'the integration variable'))
            return r + ([(DS, tagof(cx, 'L'), 'L')] if L else [])
        o('tu_' + f, 'std::string tu_%s(I* L%s){ %s return e.deep_str(); }' % (f, opp(f), U(f)), shows(parts, f != 'rt_integral' and 'L', key=('unary', f), extra=names(w)))
        o('tus_' + f, 'std::string tus_%s(I* L%s){ %s std::stringstream ss; ss << e; return ss.str(); }' % (f, opp(f), U(f)), shows(parts, f != 'rt_integral', key=('unary stream', f), extra=names(w)))
        o('tue_' + f, 'std::string tue_%s(I* L%s){ %s rt_expr<I> x(e); std::stringstream ss; ss << x; return ss.str(); }' % (f, opp(f), U(f)), shows(parts, f != 'rt_integral', key=('wrapped unary stream', f), extra=names(w)))
        o('tuo_' + f, 'std::string tuo_%s(double d%s){ std::auto_ptr<OpI> q(%s); return q->str(); }' % (f, opp(f), opn(f)), shows(lambda cx, f=f, parts=parts: parts(cx, f, False), False, key=('operation', f), extra=names(w)))
    # opaque operations: their own text
    OS = ('opstr',)
    o('tq1', 'std::string tq1(I* L, OpI* q){ rt_unary_expr<I> e(L, q); return e.deep_str(); }', shows(lambda cx: [(OS, tagof(cx, 'q'), 'the operation'), (DS, tagof(cx, 'L'), 'L')], False))
    o('tq2', 'std::string tq2(I* L, OpI* q, I* M){ rt_binary_expr<I> e(L, q, M); return e.deep_str(); }', shows(lambda cx: [(DS, tagof(cx, 'L'), 'L'), (OS, tagof(cx, 'q'), 'the operation'), (DS, tagof(cx, 'M'), 'M')]))
    # leaves
    ID = lambda cx: [(NUMS, Q.fmt(cx.app(cx.accd(cx.arg('e')[1], 'id'))), 'the index')]
    VAL = lambda cx: [(NUMS, Q.fmt(cx.d('e')), 'the value')]
    for k, t, parts in (('variable', 'rt_variable<I>', ID), ('constant', 'rt_constant<double, I>', VAL)):
        o('tl_' + k, 'std::string tl_%s(%s const & e){ return e.deep_str(); }' % (k, t), shows(parts, key=('leaf', k)))
        o('tls_' + k, 'std::string tls_%s(%s const & e)%s' % (k, t, SS), shows(parts, False, key=('leaf stream', k)))
        o('tlw_' + k, 'std::string tlw_%s(%s const & e){ rt_expr<I> x(e); std::stringstream ss; ss << x; return ss.str(); }' % (k, t), shows(parts, False, key=('leaf wrapped', k)))
    for k, tg in (('unknown', 'unknown_tag<>()'), ('test', 'test_tag<>()')):
        for n, body in (('', 'return e.deep_str();'), ('s', 'std::stringstream ss; ss << e; return ss.str();'), ('w', 'rt_expr<I> x(e); std::stringstream ss; ss << x; return ss.str();')):
            o('tf%s_%s' % (n, k), 'std::string tf%s_%s(unsigned long i){ rt_function_symbol<I> e(i, %s); %s }' % (n, k, tg, body), shows(lambda cx: [(NUMS, Q.fmt(cx.d('i')), 'the index')], not n, key=('leaf' + n, k), extra=names(k)))
    # vectors
    for n in list(range(1, 6 if thorough else 4)) + [7]:
        P = lambda cx: [(DS, ROOT(cx, cx.accd(x[1], 'get')[1]), 'component %d' % i) for i, x in enumerate(cx.it.vec(cx.st, cx.arg('e')[1]))]
        o('tv_%d' % n, 'std::string tv_%d(rt_vector_expr<I> const & e){ return e.deep_str(); }' % n, shows(P), sizes=(n,))
        o('tvs_%d' % n, 'std::string tvs_%d(rt_vector_expr<I> const & e)%s' % (n, SS), shows(P), sizes=(n,))
        o('tvw_%d' % n, 'std::string tvw_%d(rt_vector_expr<I> const & e){ rt_expr<I> x(e); std::stringstream ss; ss << x; return ss.str(); }' % n, shows(P), sizes=(n,))
    o('te', 'std::string te(rt_expr<I> const & e)%s' % SS, shows(lambda cx: [(DS, ROOT(cx, cx.accd(cx.arg('e')[1], 'get')[1]), 'the expression')], False))
    o('teu', 'std::string teu(rt_unary_expr<I> const & e)%s' % SS, shows(lambda cx: [(OS, sub(cx, 'e', 'op'), 'the operation'), (DS, sub(cx, 'e', 'lhs'), 'the operand')], False))
    o('teb', 'std::string teb(rt_binary_expr<I> const & e)%s' % SS, shows(lambda cx: [(DS, sub(cx, 'e', 'lhs'), 'the left operand'), (OS, sub(cx, 'e', 'op'), 'the operation'), (DS, sub(cx, 'e', 'rhs'), 'the right operand')]))
    W = lambda cx, a: ROOT(cx, cx.accd(cx.accd(cx.arg('e')[1], a)[1], 'get')[1])
    o('tq', 'std::string tq(rt_equation<I> const & e)%s' % SS, shows(lambda cx: [(DS, W(cx, 'lhs'), 'the left side'), (DS, W(cx, 'rhs'), 'the right side')], key=('pair', 'equation')))
    o('ti', 'std::string ti(rt_interval<I> const & e)%s' % SS, shows(lambda cx: [(DS, W(cx, 'lower'), 'the lower bound'), (DS, W(cx, 'upper'), 'the upper bound')], key=('pair', 'interval')))
    o('ty', 'std::string ty(rt_symbolic_interval<I> const & e)%s' % SS, shows(ID))
    # compile-time expressions
    for b in BIN:
        def ex(cx, s, b=b):
            i = find(s, NUMS, Q.fmt(cx.d('c')), 'c'); j = find(s, NUMS, Q.fmt(cx.d('d')), 'd')
            mid = ''.join(p for p in s[i+1:j] if isinstance(p, str))
            if BIN[b] not in mid: return 'the text %r does not show %s between the operands' % (s, BIN[b])
        o('cb_' + b, 'std::string cb_%s(rt_constant<double, I> const & c, rt_constant<double, I> const & d){ ct_binary_expr<rt_constant<double, I>, op_%s<double>, rt_constant<double, I> > e(c, d); std::stringstream ss; ss << e; return ss.str(); }' % (b, b), shows(lambda cx: [(NUMS, Q.fmt(cx.d(x)), x) for x in 'cd'], key=('ct', b), extra=ex))
    for f in UN + ['gradient', 'divergence']:
        w = {'gradient': 'grad', 'divergence': 'div'}.get(f, f)
        o('cu_' + f, 'std::string cu_%s(rt_constant<double, I> const & c){ ct_unary_expr<rt_constant<double, I>, op_%s<double> > e(c); std::stringstream ss; ss << e; return ss.str(); }' % (f, f), shows(lambda cx: [(NUMS, Q.fmt(cx.d('c')), 'c')], key=('ct', f), extra=names(w)))
    def lit(*words):
        """the words appear in this order"""
        def f(cx, s):
            t = literal(s); i = 0
            for w in words:
                j = t.find(w, i)
                if j < 0: return 'the text %r does not show %s in order' % (t, ', '.join(words))
                i = j + len(w)
        return f
    for n in (0, 7): o('cv_%d' % n, 'std::string cv_%d(){ ct_variable<%d> e; std::stringstream ss; ss << e; return ss.str(); }' % (n, n), shows(lambda cx: [], False, key=('ct', 'variable%d' % n), extra=lit(str(n))))
    for n in (3, -12, 5000000007): o('cc_%s' % str(n).replace('-', 'm'), 'std::string cc_%s(){ ct_constant<%d> e; std::stringstream ss; ss << e; return ss.str(); }' % (str(n).replace('-', 'm'), n), shows(lambda cx: [], False, key=('ct', 'constant%d' % n), extra=lit(str(n))))
    X, Y = 'ct_constant<41>', 'ct_constant<-52>'
    o('cq', 'std::string cq(){ ct_equation<%s, %s > e; std::stringstream ss; ss << e; return ss.str(); }' % (X, Y), shows(lambda cx: [], False, key=('ctpair', 'equation'), extra=lit('41', '-52')))
    o('ci', 'std::string ci(){ ct_interval<%s, %s > e; std::stringstream ss; ss << e; return ss.str(); }' % (X, Y), shows(lambda cx: [], False, key=('ctpair', 'interval'), extra=lit('41', '-52')))
    o('cw1', 'std::string cw1(double a){ ct_vector_1<double> e(a); std::stringstream ss; ss << e; return ss.str(); }', shows(N('a'), False))
    o('cw2', 'std::string cw2(double a, double b){ ct_vector_2<double, double> e(a, b); std::stringstream ss; ss << e; return ss.str(); }', shows(N('a', 'b'), False))
    o('cw3', 'std::string cw3(double a, double b, double c){ ct_vector_3<double, double, double> e(a, b, c); std::stringstream ss; ss << e; return ss.str(); }', shows(N('a', 'b', 'c'), False))
    return out

# ------------------------------------------------------------------------------------------------ R23
def chain(cx, r):
    """follows the substitutions (and simplification steps) that lead to the opaque object r: (origin, {(from, to)})"""
    it, st = cx.it, cx.st; pairs = []
    def lst(x):
        if it.rname(st.h[x[1]].cls) == 'std::vector': return it.vec(st, x[1])
        return [x]
    while True:
        r = it.root(st, r); o = st.h[r]
        if not o.org: return r, pairs
        if o.org[0] == 'simp': r = o.org[1]
        elif o.org[0] == 'subst':
            cx.deadok += 1
            try: pairs += [(show(cx.den(a)), show(cx.den(b))) for a, b in zip(lst(o.org[2][0]), lst(o.org[2][1]))]
            finally: cx.deadok -= 1
            r = o.org[1]
        else: return r, pairs
def FS(t): return Q.sym(('fs', '0', t))
def pdv(i, f): return Q.fn('pd', Q.num(i), f)
def gradof(d, f): return pdv(0, f) if d == 1 else ('vec', [pdv(i, f) for i in range(d)])
def divof(d, f):
    r = Q.ZERO
    for i in range(d): r = r + pdv(i, f)
    return r
def rules(d):
    return {(show(Q.fn('gradient', FS(t))), show(gradof(d, FS(t)))) for t in '01'} | {(show(Q.fn('divergence', FS(t))), show(divof(d, FS(t)))) for t in '01'}
def coordsys(d, f):
    """oracle: opaque parts went through exactly the substitutions of the coordinate system, the rest denotes f"""
    want = rules(d)
    def swap(g, key, val):
        if isinstance(g, tuple): return (g[0],) + tuple([swap(x, key, val) for x in y] if isinstance(y, list) else swap(y, key, val) for y in g[1:])
        return Q.subst(g, key, val)
    def check(cx, ob):
        g = cx.den(ob.v)
        for i in sorted(reach(cx.st, [ob.v[1]])):
            o = cx.st.h[i]
            if not o.opq or not cx.it.derives(o.cls, 'viennamath::rt_expression_interface'): continue
            b, pairs = chain(cx, i)
            if cx.st.h[b].org and cx.st.h[b].org[0] in ('manip', 'fw'): return 'undecided'
            got = set(pairs)
            for x in sorted(got - want): raise Bad('%s is replaced by %s' % x)
            for x in sorted(want - got): raise Bad('%s is not replaced by %s' % x)
            v = cx.deno(i); at = list(Q.atoms_of(v, False))
            if len(at) == 1: g = swap(g, Q._atoms[at[0]][1], cx.deno(b))
        try: e = f(cx)
        except Q.Undefined: return 'undefined'
        if not same(cx, g, e): raise Bad('result denotes %s, expected %s' % (show(g), show(e)))
    return check
@family('R23')
def r23(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    UVX = 'rt_function_symbol<I> u(0, unknown_tag<>()), v(0, test_tag<>());'
    u, v = FS('0'), FS('1')
    dot = lambda cx, a, b: rt_arith(cx, '*', a, b)
    for d in (1, 2, 3):
        G, D_ = (lambda f, d=d: gradof(d, f)), (lambda f, d=d: divof(d, f))
        A = 'apply_coordinate_system(cartesian<%d>(), ' % d
        def t(name, ps, body, f, kinds='e', d=d, A=A):
            for k in kinds:
                T = {'e': 'rt_expr<I>', 'u': 'rt_unary_expr<I>', 'b': 'rt_binary_expr<I>'}[k]
                n = 'z%d%s_%s' % (d, k, name)
                o(n, 'rt_expr<I> %s(%s){ %s %s e = %s; return %s e); }' % (n, ps, UVX, T, body, A), coordsys(d, f))
        t('op', 'rt_expr<I> const & a', 'a', lambda cx: cx.d('a'))
        AX = 'rt_variable<I> const & a'
        t('x', AX, 'a', lambda cx: cx.d('a')); t('c', 'rt_constant<double, I> const & a', 'a', lambda cx: cx.d('a'))
        t('f', 'rt_function_symbol<I> const & a', 'a', lambda cx: cx.d('a'))
        for s_, f in (('u', u), ('v', v)):
            t('grad_' + s_, '', 'grad(%s)' % s_, lambda cx, f=f, G=G: G(f), 'eu')
            t('div_' + s_, '', 'div(%s)' % s_, lambda cx, f=f, D_=D_: D_(f), 'eu')
            t('self_' + s_, '', s_, lambda cx, f=f: f, 'e')
            t('pd_' + s_, 'rt_variable<I> const & x', 'diff(%s, x)' % s_, lambda cx, f=f: Q.fn('pd', cx.app(cx.accd(cx.arg('x')[1], 'id')), f))
            t('exp_' + s_, '', 'exp(rt_expr<I>(%s))' % s_, lambda cx, f=f: Q.fn('exp', f), 'eu')
            t('in_' + s_, AX, 'a + sin(div(%s))' % s_, lambda cx, f=f, D_=D_: cx.d('a') + Q.fn('sin', D_(f)), 'eb')
        t('gg', '', 'grad(u) * grad(v)', lambda cx, G=G: dot(cx, G(u), G(v)), 'eb')
        t('gv', '', 'grad(v) * grad(v)', lambda cx, G=G: dot(cx, G(v), G(v)), 'eb')
        t('dd', AX, '(a - div(u)) * div(v)', lambda cx, D_=D_: (cx.d('a') - D_(u)) * D_(v), 'eb')
        t('dq', AX, 'div(u) / a', lambda cx, D_=D_: D_(u) / cx.d('a'), 'eb')
        t('si', 'unsigned long k', 'integral(rt_symbolic_interval<I>(k), grad(u) * grad(v))', lambda cx, G=G: Q.fn('symint', cx.d('k'), dot(cx, G(u), G(v))), 'e')
        n = 'z%dv_' % d
        o(n + 'el', 'rt_expr<I> %sel(rt_variable<I> const & a){ %s rt_vector_expr<I> w(2); w[0] = div(u); w[1] = a; rt_expr<I> e(w); return %s e); }' % (n, UVX, A), coordsys(d, lambda cx, D_=D_: ('vec', [D_(u), cx.d('a')])))
        # only the symbols with index zero of the two tags
        for s_, f in (('u', 'unknown_tag<>()'), ('v', 'test_tag<>()')):
            for op, nm, X in (('grad', 'gradient', G), ('div', 'divergence', D_)):
                def fo(cx, s_=s_, nm=nm, X=X):
                    i = cx.d('i'); sy = Q.sym(('fs', Q.fmt(cx.app(i)), '01'[s_ == 'v']))
                    return X(FS('01'[s_ == 'v'])) if i == Q.ZERO else Q.fn(nm, sy)
                t('ix_%s_%s' % (op, s_), 'unsigned long i', '%s(rt_function_symbol<I>(i, %s))' % (op, f), fo, 'eu')
                t('tag_%s' % op if s_ == 'u' else 'tag2_%s' % op, 'unsigned long i', '%s(rt_function_symbol<I>(i, UTag()))' % op, lambda cx, nm=nm: Q.fn(nm, Q.sym(('fs', Q.fmt(cx.d('i')), '42'))), 'e' if s_ == 'u' else '')
        for op, nm in (('grad', 'gradient'), ('div', 'divergence')):
            t('var_' + op, 'rt_variable<I> const & x', 'rt_unary_expr<I>(x.clone(), new op_unary<op_%s<double>, I>())' % nm, lambda cx, nm=nm: Q.fn(nm, cx.d('x')), 'eu')
        for f in UN:
            if f == 'id': continue
            t('f' + f, '', '%s(div(u))' % f, lambda cx, f=f, D_=D_: uden(cx, f, D_(u)), 'eu')
            t('h' + f, AX, '%s(rt_expr<I>(a))' % f, lambda cx, f=f: uden(cx, f, cx.d('a')), 'eu')
        for b in BIN:
            t('l' + b, AX, 'div(u) %s a' % BIN[b], lambda cx, b=b, D_=D_: cx.bopn('op_' + b, D_(u), cx.d('a')), 'eb')
            t('r' + b, AX, 'a %s div(v)' % BIN[b], lambda cx, b=b, D_=D_: cx.bopn('op_' + b, cx.d('a'), D_(v)), 'eb')
        n = 'z%dq_' % d
        o(n + 'op', 'rt_equation<I> %sop(rt_equation<I> const & e){ return %s e); }' % (n, A), coordsys(d, lambda cx: cx.d('e')))
        o(n + 'lr', 'rt_equation<I> %slr(rt_variable<I> const & a){ %s rt_equation<I> e(rt_expr<I>(grad(u) * grad(v)), rt_expr<I>(a * div(v))); return %s e); }' % (n, UVX, A),
          coordsys(d, lambda cx, G=G, D_=D_: ('eq', dot(cx, G(u), G(v)), cx.d('a') * D_(v))))
    return out

# ------------------------------------------------------------------------------------------------ R22
import re as _re
class Tex(object):
    """reader for the LaTeX notation of expressions: text pieces -> denotation (grouping is honoured, nothing is guessed)"""
    FN = {'exp': 'exp', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'ln': 'log', 'log': 'log10'}
    def __init__(s, cx, pieces, known):
        s.cx = cx; s.known = known; s.src = pieces; s.toks = []; s.trans = set()
        merged = []
        for p in pieces:
            if isinstance(p, str) and merged and isinstance(merged[-1], str): merged[-1] += p
            else:
                if p and not isinstance(p, str) and p[0] != 'num' and merged and isinstance(merged[-1], str) and _re.search(r'\\[a-zA-Z]+$', merged[-1]):
                    raise Bad('a command of the notation runs into the text of the part behind it: %s' % merged[-1][-20:])
                merged.append(p)
        for p in merged:
            if isinstance(p, str):
                pos = 0
                for m in _re.finditer(r'\\[a-zA-Z]+|\\:|\\.|[0-9]+(?:\.[0-9]*)?(?:e[-+]?[0-9]+)?|[a-zA-Z]|\S', p): s.toks.append(m.group(0))
            else:
                s.toks.append(p)
                if p[0] == 'tex': s.trans.add(p[3])
        s.i = 0
    def fail(s, why): raise Bad('%s in %s' % (why, s.show()))
    def show(s): return ''.join(p if isinstance(p, str) else '<%s%s>' % (p[1], '' if p[0] != 'tex' else (' in parentheses' if p[2] else '')) for p in s.src)
    def peek(s, k=0): return s.toks[s.i + k] if s.i + k < len(s.toks) else None
    def eat(s, *ts):
        for t in ts:
            if s.peek() != t: s.fail('%s expected' % t)
            s.i += 1
    def opt(s, *ts):
        if s.toks[s.i:s.i + len(ts)] == list(ts): s.i += len(ts); return True
        return False
    def end(s):
        if s.peek() is not None: s.fail('text after the end of the expression')
    def number(s):
        t = s.peek(); s.i += 1
        if isinstance(t, tuple) and t[0] == 'num':
            if t[1] not in s.known: s.fail('the number %s' % t[1])
            return s.known[t[1]]
        neg = t == '-'
        if neg: t = s.peek(); s.i += 1
        if not (isinstance(t, str) and t[0].isdigit()): s.fail('number expected')
        return Q.num(-int(t) if neg else int(t)) if t.isdigit() else s.fail('number')
    def sum(s):
        r, raw = s.term(True)
        while s.peek() in ('+', '-'):
            o = s.peek(); s.i += 1
            x, w = s.term(o == '+')
            r = rt_arith(s.cx, o, r, x)
        return r
    def term(s, sumok):
        """product; sumok: an operand whose own text may be a sum is allowed here if it stands alone"""
        r, raw = s.factor()
        if s.peek() == '\\cdot':
            if raw: s.fail('an operand without grouping is multiplied')
            while s.opt('\\cdot'):
                x, raw = s.factor()
                if raw: s.fail('an operand without grouping is multiplied')
                r = rt_arith(s.cx, '*', r, x)
            return r, False
        if raw and not sumok: s.fail('an operand without grouping is subtracted')
        return r, raw
    def arg(s):
        x, raw = s.factor()
        if raw: s.fail('the argument of a function is not grouped')
        return x
    def factor(s):
        """(denotation, True when the text may be a sum)"""
        t = s.peek()
        if isinstance(t, tuple):
            if t[0] == 'tex':
                s.i += 1; return s.known['<' + t[1]], not t[2]
            if t[0] == 'num': return s.number(), False
            s.fail('unexpected piece %r' % (t,))
        if t is None: s.fail('text ends too early')
        if t == '(' : s.eat('('); r = s.sum(); s.eat(')'); return r, False
        if s.opt('\\left', '('): r = s.sum(); s.eat('\\right', ')'); return r, False
        if s.opt('\\left', '|'): r = s.sum(); s.eat('\\right', '|'); return uden(s.cx, 'fabs', r), False
        if t[0].isdigit() or t == '-': return s.number(), False
        if t[1:] in s.FN and t[0] == '\\': s.i += 1; return uden(s.cx, s.FN[t[1:]], s.arg()), False
        if s.opt('\\sqrt'): s.eat('{'); r = s.sum(); s.eat('}'); return uden(s.cx, 'sqrt', r), False
        if s.opt('\\nabla', '\\cdot'): return Q.fn('divergence', s.cx.sc(s.arg())), False
        if s.opt('\\nabla'): return Q.fn('gradient', s.cx.sc(s.arg())), False
        if s.opt('\\frac', '{', '\\partial'):
            x = s.arg(); s.eat('}', '{', '\\partial'); v = s.var(); s.eat('}')
            k = Q._atoms[list(Q.atoms_of(v, False))[0]][1][1]
            return Q.fn('pd', s.known[k] if k in s.known else Q.num(int(k)), s.cx.sc(x)), False
        if s.opt('\\frac'):
            s.eat('{'); a = s.sum(); s.eat('}', '{'); b = s.sum(); s.eat('}')
            return rt_arith(s.cx, '/', a, b), False
        if s.opt('\\int', '_', '{', '\\Omega', '_', '{'):
            k = s.number(); s.eat('}', '}'); x = s.sum(); s.eat('\\:', '\\mathrm', '{', 'd', '}', '\\Omega')
            return Q.fn('symint', k, s.cx.sc(x)), False
        if s.opt('\\int', '_', '{'):
            iv = s.interval(); s.eat('}'); x = s.sum(); s.eat('\\:', '\\mathrm', '{', 'd', '}')
            v = s.var()
            return Q.fn('integral', s.cx.sc(iv[1]), s.cx.sc(iv[2]), v, s.cx.sc(x)), False
        if t in s.known: s.i += 1; return s.known[t], False
        if t == 'x': return s.var(), False
        if t in ('u', 'v'):
            s.i += 1; s.eat('_', '{'); k = s.number(); s.eat('}')
            return s.default(Q.sym(('fs', Q.fmt(s.cx.app(k)), '01'[t == 'v']))), False
        s.fail('unexpected %s' % t)
    def var(s):
        if s.peek() in s.known: s.i += 1; return s.known[s.toks[s.i - 1]]
        s.eat('x', '_', '{'); k = s.number(); s.eat('}')
        return s.default(Q.sym(('x', Q.fmt(s.cx.app(k)))))
    def default(s, r):
        if any(t[0] == '\\' and v == r for t, v in s.known.items()): s.fail('a customised symbol is shown by its default name')
        return r
    def interval(s):
        s.eat('['); a = s.sum(); s.eat(';'); b = s.sum(); s.eat(']'); return ('iv', a, b)
    def equation(s):
        a = s.sum(); s.eat('='); b = s.sum(); return ('eq', a, b)
def textof(cx, v):
    s = cx.st.h[v[1]].f.get('s') if isinstance(v, tuple) and v[0] == 'o' else None
    if s is None: raise Bad('no text')
    return s
def tex(f, mode='sum', nums=None, names=None, asked=0):
    """oracle: the text, read by the rules of the notation, denotes f(cx). mode: sum, factor (grouped), interval, equation"""
    def check(cx, ob):
        s = textof(cx, ob.v); known = {}
        try: e = f(cx)
        except Q.Undefined: return 'undefined'
        for i, o in list(cx.st.h.items()):
            if o.opq and cx.it.root(cx.st, i) == i and cx.it.derives(o.cls, 'viennamath::rt_expression_interface'):
                cx.deadok += 1
                try: known['<' + o.tag] = cx.deno(i)
                finally: cx.deadok -= 1
        for n in (nums(cx) if nums else []): known[Q.fmt(cx.app(n))] = cx.app(n)
        if names: known.update(names(cx))
        p = Tex(cx, s, known)
        if mode == 'factor':
            g, raw = p.factor()
            if raw: p.fail('grouping is requested but missing')
        else: g = getattr(p, mode)()
        p.end()
        if not same(cx, g, e): raise Bad('the text %s denotes %s, expected %s' % (p.show(), show(g), show(e)))
        for t in p.trans:
            o = cx.st.h[t]
            own = [i for i, x in cx.st.h.items() if not isinstance(x.cls, str) and cx.it.rname(x.cls) == 'viennamath::rt_latex_translator']
            if t != sorted(own)[asked]: raise Bad('a part is translated by another translator, which does not know the customisations')
    return check
@family('R22')
def r22(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    def t(name, ps, pre, e, f, nums=None, modes='sf'):
        for m in modes:
            n = 'l%s_%s' % (m, name)
            o(n, 'std::string %s(%s){ rt_latex_translator<I> t; %s return t(%s%s); }' % (n, ps, pre, e, ', true' if m == 'f' else ''),
              tex(f, {'s': 'sum', 'f': 'factor'}[m], nums))
    K = {'partial_deriv': lambda cx: [cx.d('k')], 'rt_symbolic_integral': lambda cx: [cx.d('k')], 'rt_integral': lambda cx: [cx.app(cx.accd(cx.arg('v')[1], 'id'))]}
    for b in BIN:
        f = lambda cx, b=b: cx.bopn('op_' + b, cx.d('L'), cx.d('M'))
        t('b_' + b, 'I* L, I* M', B(b), 'e', f)
        t('be_' + b, 'I* L, I* M', B(b) + ' rt_expr<I> x(e);', 'x', f)
    for u in ALLUN:
        f = lambda cx, u=u: uden(cx, u, cx.d('L'))
        t('u_' + u, 'I* L' + opp(u), U(u), 'e', f, K.get(u))
        t('ue_' + u, 'I* L' + opp(u), U(u) + ' rt_expr<I> x(e);', 'x', f, K.get(u))
    # leaves
    IDN = lambda n='e': (lambda cx: [cx.app(cx.accd(cx.arg(n)[1], 'id'))])
    C, X = 'rt_constant<double, I> const & ', 'rt_variable<I> const & '
    for w, z in (('', ''), ('w', 'rt_expr<I> y(e);')):
        a = 'y' if w else 'e'
        t(w + 'const', C + 'e', z, a, lambda cx: cx.d('e'), lambda cx: [cx.d('e')])
        t(w + 'var', X + 'e', z, a, lambda cx: cx.d('e'), IDN())
        for tg, k in (('unknown', '0'), ('test', '1')):
            t(w + tg, 'unsigned long i', 'rt_function_symbol<I> e(i, %s_tag<>()); %s' % (tg, z), a, lambda cx, k=k: Q.sym(('fs', Q.fmt(cx.d('i')), k)), lambda cx: [cx.d('i')])
    # trees
    E = 'rt_expr<I> const & a, rt_expr<I> const & b, rt_expr<I> const & c'
    d = lambda cx: [cx.d(n) for n in 'abc']
    for i, (b1, b2) in enumerate((x, y) for x in BIN for y in BIN):
        p, q = BIN[b1], BIN[b2]
        A = lambda cx, x, y, k: cx.bopn('op_' + k, x, y)
        t('n1_%s_%s' % (b1, b2), E, '', '(a %s b) %s c' % (p, q), lambda cx, b1=b1, b2=b2: A(cx, A(cx, d(cx)[0], d(cx)[1], b1), d(cx)[2], b2))
        t('n2_%s_%s' % (b1, b2), E, '', 'a %s (b %s c)' % (p, q), lambda cx, b1=b1, b2=b2: A(cx, d(cx)[0], A(cx, d(cx)[1], d(cx)[2], b2), b1))
    for f in UN:
        if f == 'id': continue
        for b in BIN: t('n3_%s_%s' % (f, b), E, '', 'c * %s(a %s b) - c' % (f, BIN[b]), lambda cx, f=f, b=b: d(cx)[2] * uden(cx, f, cx.bopn('op_' + b, *d(cx)[:2])) - d(cx)[2])
    # pairs
    W = lambda a: (lambda cx: cx.den(cx.accd(cx.arg('e')[1], a)))
    o('lq', 'std::string lq(rt_equation<I> const & e){ rt_latex_translator<I> t; return t(e); }', tex(lambda cx: cx.d('e'), 'equation'))
    o('li', 'std::string li(rt_interval<I> const & e){ rt_latex_translator<I> t; return t(e); }', tex(lambda cx: cx.d('e'), 'interval'))
    # operations it does not know
    LU = 'latex_operation_not_supported_exception'
    o('lx', 'std::string lx(I* L, OpI* q){ rt_latex_translator<I> t; rt_unary_expr<I> e(L, q); return t(e); }',
      tex(lambda cx: uden2(cx), nums=lambda cx: opnums(cx)), throws=[LU])
    o('lxt', 'std::string lxt(I* L){ rt_latex_translator<I> t; rt_unary_expr<I> e(L, new UOp()); return t(e); }', want='throw', throws=[LU])
    o('lxn', 'std::string lxn(I* L, I* M){ rt_latex_translator<I> t; rt_expr<I> e(rt_unary_expr<I>(L, new UOp())); rt_expr<I> m(M); return t(m * e); }', want='throw', throws=[LU])
    # customisations
    def plain(f):
        def check(cx, ob):
            s = textof(cx, ob.v); g = ' '.join(''.join(p if isinstance(p, str) else '\x00%s\x00' % p[1] for p in s).split()); e = f(cx)
            if g != e: raise Bad('the text is %r, expected %r' % (g.replace('\x00', ''), e.replace('\x00', '')))
        return check
    num_ = lambda n: '\x00%s\x00' % Q.fmt(n) if n.const() is None else Q.fmt(n)
    vid = lambda cx, n: cx.app(cx.accd(cx.arg(n)[1], 'id'))
    vdef = lambda cx, n: 'x_{%s}' % num_(vid(cx, n))
    def fdef(cx, i, tag): return '%s_{%s}' % ('v' if tag == 'test' else 'u', num_(cx.d(i)))
    eqv = lambda cx, a, b: vid(cx, a) == vid(cx, b)
    P = 'rt_variable<I> const & v, rt_variable<I> const & w, std::string const & s'
    SN = 'q\x00s\x00'
    HOW = (('', 'rt_latex_translator<I> t; %s return t(%s);'), ('c', 'rt_latex_translator<I> r; { std::auto_ptr<rt_latex_translator<I> > t_(new rt_latex_translator<I>()); rt_latex_translator<I> & t = *t_; %s r = t; } rt_latex_translator<I> y(r); return y(%s);'),
           ('o', 'rt_latex_translator<I> t; %s { rt_latex_translator<I> y(t); y.customize(rt_variable<I>(0), "no"); y.customize(v, "no"); y.customize(w, "no"); rt_latex_translator<I> z; z = t; z.customize(v, "no"); z.customize(w, "no"); } return t(%s);'))
    for h, tpl in HOW:
        o('k1' + h, 'std::string k1%s(%s){ %s }' % (h, P, tpl % ('t.customize(v, "q" + s);', 'w')), plain(lambda cx: SN if eqv(cx, 'v', 'w') else vdef(cx, 'w')))
        o('k2' + h, 'std::string k2%s(%s){ %s }' % (h, P, tpl % ('t.customize(v, "q" + s);', 'rt_expr<I>(v)')), plain(lambda cx: SN))
        o('k3' + h, 'std::string k3%s(%s){ %s }' % (h, P, tpl % ('t.customize(v, "first"); t.customize(w, "q" + s);', 'v')), plain(lambda cx: SN if eqv(cx, 'v', 'w') else 'first'))
        o('k4' + h, 'std::string k4%s(%s){ %s }' % (h, P, tpl % ('t.customize(v, "first"); t.customize(w, "second");', 'w')), plain(lambda cx: 'second'))
        for t1 in ('unknown', 'test'):
            for t2 in ('unknown', 'test'):
                o('k5%s_%s_%s' % (h, t1, t2), 'std::string k5%s_%s_%s(%s, unsigned long i, unsigned long j){ rt_function_symbol<I> f(i, %s_tag<>()), g(j, %s_tag<>()); %s }' % (h, t1, t2, P, t1, t2, tpl % ('t.customize(f, "q" + s);', 'g')),
                  plain(lambda cx, t1=t1, t2=t2: SN if t1 == t2 and cx.d('i') == cx.d('j') else fdef(cx, 'j', t2)))
                o('k6%s_%s_%s' % (h, t1, t2), 'std::string k6%s_%s_%s(%s, unsigned long i, unsigned long j){ rt_function_symbol<I> f(i, %s_tag<>()), g(j, %s_tag<>()); %s }' % (h, t1, t2, P, t1, t2, tpl % ('t.customize(f, "first"); t.customize(g, "q" + s);', 'f')),
                  plain(lambda cx, t1=t1, t2=t2: SN if t1 == t2 and cx.d('i') == cx.d('j') else 'first'))
        o('k7' + h, 'std::string k7%s(%s){ rt_function_symbol<I> f(v.id(), unknown_tag<>()); %s }' % (h, P, tpl % ('t.customize(f, "q" + s);', 'v')), plain(lambda cx: vdef(cx, 'v')))
        if h != 'o': o('k8' + h, 'std::string k8%s(%s){ rt_function_symbol<I> f(v.id(), test_tag<>()); %s }' % (h, P, tpl % ('t.customize(v, "q" + s);', 'f')), plain(lambda cx: 'v_{%s}' % num_(vid(cx, 'v'))))
    # ... wherever the symbol occurs
    NM = lambda cx: {'\\alpha': cx.d('v'), '\\beta': Q.sym(('fs', Q.fmt(cx.d('i')), '0')), Q.fmt(vid(cx, 'v')): vid(cx, 'v')}
    PP = 'rt_variable<I> const & v, unsigned long i, rt_expr<I> const & a'
    CU = 'rt_function_symbol<I> u(i, unknown_tag<>()); rt_latex_translator<I> t; t.customize(v, "\\\\alpha"); t.customize(u, "\\\\beta");'
    u_ = lambda cx: Q.sym(('fs', Q.fmt(cx.d('i')), '0'))
    for n, e, f, m in (('un', 'sin(rt_expr<I>(v)) * u', lambda cx: uden(cx, 'sin', cx.d('v')) * u_(cx), 'sum'), ('bin', 'u / (v - a)', lambda cx: u_(cx) / (cx.d('v') - cx.d('a')), 'sum'),
                       ('pd', 'diff(u, v) + a', lambda cx: Q.fn('pd', vid(cx, 'v'), u_(cx)) + cx.d('a'), 'sum'), ('gr', 'grad(u) * div(u)', lambda cx: Q.fn('gradient', u_(cx)) * Q.fn('divergence', u_(cx)), 'sum'),
                       ('in', 'integral(rt_interval<I>(rt_expr<I>(u), a), rt_expr<I>(v), v)', lambda cx: Q.fn('integral', u_(cx), cx.d('a'), cx.d('v'), cx.d('v')), 'sum'),
                       ('eq', 'rt_equation<I>(rt_expr<I>(u), rt_expr<I>(v))', lambda cx: ('eq', u_(cx), cx.d('v')), 'equation'), ('iv', 'rt_interval<I>(rt_expr<I>(u), rt_expr<I>(v))', lambda cx: ('iv', u_(cx), cx.d('v')), 'interval')):
        o('kt_' + n, 'std::string kt_%s(%s){ %s return t(%s); }' % (n, PP, CU, e), tex(f, m, names=NM))
        for h, c in (('c', 'rt_latex_translator<I> t(r);'), ('a', 'rt_latex_translator<I> t; t = r;'), ('n', 'rt_latex_translator<I> & t = r;')):
            o('kp%s_%s' % (h, n), 'std::string kp%s_%s(%s){ %s r.add_processor(new UProc()); %s return t(%s); }' % (h, n, PP, CU.replace(' t;', ' r;').replace(' t.', ' r.'), c, e), tex(f, m, names=NM, asked=h != 'n'))
    # processors of the user's own
    o('p1', 'std::string p1(rt_vector_expr<I> const & w){ rt_latex_translator<I> t; t.add_processor(new UProc()); rt_latex_translator<I> y(t); rt_latex_translator<I> z; z = y; return z(rt_expr<I>(w)); }', plain(lambda cx: 'user'))
    for h, c in (('c', 'rt_latex_translator<I> y(t);'), ('a', 'rt_latex_translator<I> y; y = t;')):
        o('p3' + h, 'std::string p3%s(rt_variable<I> const & v){ rt_latex_translator<I> t; t.add_processor(new UProc()); %s return y(v); }' % (h, c), plain(lambda cx: vdef(cx, 'v')))
        o('p4' + h, 'std::string p4%s(unsigned long i){ rt_function_symbol<I> f(i, test_tag<>()); rt_latex_translator<I> t; t.add_processor(new UProc()); %s return y(f); }' % (h, c), plain(lambda cx: fdef(cx, 'i', 'test')))
    o('p2', 'std::string p2(rt_variable<I> const & v){ rt_latex_translator<I> t; t.add_processor(new UProc()); return t(v); }', plain(lambda cx: vdef(cx, 'v')))
    return out
def uden2(cx):
    """denotation of L under the operation that q turned out to be"""
    cx.deadok += 1
    try: return cx.uop(cx.arg('q')[1], cx.d('L'))
    finally: cx.deadok -= 1
def opnums(cx):
    cx.deadok += 1
    try:
        r = cx.it.root(cx.st, cx.arg('q')[1]); n = cx.opname(r)[0].replace('op_', '')
        if n in ('partial_deriv',): return [cx.app(cx.acc(cx.opstate(r), 'id'))]
        if n == 'rt_symbolic_integral': return [cx.den(cx.acc(cx.opstate(r), 'interval'))[1]]
        if n == 'rt_integral': return [cx.app(cx.acc(cx.acc(cx.opstate(r), 'variable')[1], 'id'))]
        return []
    finally: cx.deadok -= 1

# ------------------------------------------------------------------------------------------------ C07 (bodies)
@family('C07')
def c07(thorough=False):
    """evaluation of compile-time expressions at every form of point: value of the expression at the coordinates"""
    import random
    from .ct import c, v, b, u, UN as CUN
    from .fam import points, coords, AB, IX
    out = []
    rng = random.Random(7)
    leaf = [v(0), v(1), v(2), c(3), c(-2), c(0), c(1)]
    es = [b(o, x, y) for o in '+-*/' for x, y in ((v(0), v(1)), (v(1), v(0)), (v(0), c(3)), (c(-2), v(1)), (v(2), v(0)), (c(3), c(4)), (v(0), c(0)), (c(0), v(1)), (v(1), c(1)))]
    es = [e for e in es if not (e[1] == '/' and e[3] == c(0))]
    es += [u(f, x) for f in CUN for x in (v(0), v(1), b('+', v(0), v(1)), b('/', v(1), v(0)))]
    es += [b('-', u('sin', v(0)), u('cos', v(1))), b('/', u('exp', v(1)), v(0)), b('*', b('+', v(0), c(1)), b('-', v(1), c(2))), b('-', b('-', v(0), v(1)), v(2)), b('-', v(0), b('-', v(1), v(2))),
           b('/', b('/', v(0), v(1)), v(2)), b('/', v(0), b('/', v(1), v(2))), b('+', b('*', c(3), v(0)), c(-2)), u('sqrt', b('*', v(0), v(0))), u('log', u('fabs', v(1))), u('sin', u('exp', v(0)))]
    def rnd(d):
        if d == 0 or rng.random() < .2: return rng.choice(leaf)
        if rng.random() < .2: return u(rng.choice(CUN), rnd(d - 1))
        return b(rng.choice('+-*/'), rnd(d - 1), rnd(d - 1))
    for _ in range(15 if not thorough else 120):
        e = rnd(3)
        if e[0] in 'bu': es.append(e)
    def ids(e): return {e[1]} if e[0] == 'v' else set().union(*[ids(x) for x in e[2:]]) if e[0] in 'bu' else set()
    def ok(e):
        # no division by a constant zero, no function of a bare constant (no overload)
        if e[0] == 'b': return ok(e[2]) and ok(e[3]) and not (e[1] == '/' and not ids(e[3]))
        if e[0] == 'u': return ok(e[2]) and bool(ids(e[2]))
        return True
    def typ(e):
        if e[0] == 'c': return 'ct_constant<%d>' % e[1]
        if e[0] == 'v': return 'ct_variable<%d>' % e[1]
        if e[0] == 'b': return 'ct_binary_expr<%s, op_%s<double>, %s>' % (typ(e[2]), {'+': 'plus', '-': 'minus', '*': 'mult', '/': 'div'}[e[1]], typ(e[3]))
        return 'ct_unary_expr<%s, op_%s<double> >' % (typ(e[2]), e[1])
    def text(e):
        if e[0] == 'c': return 'ct_constant<%d>()' % e[1]
        if e[0] == 'v': return 'ct_variable<%d>()' % e[1]
        if e[0] == 'b': return '(%s %s %s)' % (text(e[2]), e[1], text(e[3]))
        return typ(e) + '()'          # the operand written out with operators could have another (simplified) type
    def val(cx, e, xs):
        if e[0] == 'c': return Q.num(e[1])
        if e[0] == 'v': return xs[e[1]]
        if e[0] == 'b': return rt_arith(cx, e[1], val(cx, e[2], xs), val(cx, e[3], xs))
        return cx.uopn(e[1], val(cx, e[2], xs), None)
    es = [e for e in dict.fromkeys(es) if ok(e) and ids(e)]
    ps = points()
    for i, e in enumerate(es):
        top = max(ids(e))
        for j, (pn, setup, px, cs) in enumerate(ps):
            if not thorough and i >= 20 and (i + j) % 3: continue
            ctp = pn[:2] in ('ct', 'mk') or pn in ('rtc',)
            fits = top < len(cs)
            if ctp and not fits: continue             # refused by the compiler (C08)
            if pn == 'rtc': continue
            if pn in ('ctl', 'ct1l', 'ct2l', 'ct3l') and not (e[0] == 'b' and e[1] != '*' and e[2][0] in 'cv' and e[3][0] in 'cv' or e[0] == 'u' and e[2][0] == 'v'): continue   # exact values of larger expressions are not representable
            for form, t in (('o', '%s(%s)'), ('f', 'eval(%s, %s)'), ('t', '%s(%s)')):
                def chk(cx, ob, e=e, cs=cs, pn=pn):
                    xs = coords(cx, cs)
                    w = val(cx, e, xs)
                    if not same(cx, cx.den(ob.v), w): raise Bad('returns %s, expected %s' % (show(cx.den(ob.v)), show(w)))
                out.append(Ob('%s%s_%d' % (form, pn, i), 'double %s%s_%d(%s){ %s return %s; }' % (form, pn, i, AB, setup, t % (typ(e) + '()' if form == 't' else text(e), px)), chk if fits else None, want='ret' if fits else 'throw', throws=None if fits else IX,
                    desc='%s at %s' % (text(e).replace('viennamath::', ''), pn)))
    return out
