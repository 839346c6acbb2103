"""the families of obligations about the runtime half, one per property"""
from .rt import *
UN = ['id', 'exp', 'sin', 'cos', 'tan', 'fabs', 'sqrt', 'log', 'log10']
ND = ['expression_not_differentiable_exception']
NE = ['expression_not_evaluable_exception']
NU = ['expression_not_unwrappable_exception']
FORMAL = ['gradient', 'divergence', 'partial_deriv']
BIN = {'plus': '+', 'minus': '-', 'mult': '*', 'div': '/'}
def opn(op):
    if op == 'partial_deriv': return 'new op_unary<op_partial_deriv<double>, I>(op_partial_deriv<double>(k))'
    if op == 'rt_integral': return 'new op_unary<op_rt_integral<I>, I>(op_rt_integral<I>(iv, v))'
    if op == 'rt_symbolic_integral': return 'new op_unary<op_rt_symbolic_integral<I>, I>(op_rt_symbolic_integral<I>(rt_symbolic_interval<I>(k)))'
    return 'new op_unary<op_%s<double>, I>()' % op
def opp(op):
    """extra parameters an operation with state needs"""
    return {'partial_deriv': ', unsigned long k', 'rt_integral': ', rt_interval<I> const& iv, rt_variable<I> const& v', 'rt_symbolic_integral': ', unsigned long k'}.get(op, '')
ALLUN = UN + FORMAL + ['rt_integral', 'rt_symbolic_integral']
def U(op, a='L'): return 'rt_unary_expr<I> e(%s, %s);' % (a, opn(op))
def B(op, a='L', b='M'): return 'rt_binary_expr<I> e(%s, new op_binary<op_%s<double>, I>(), %s);' % (a, op, b)
def V(cx, n='v'): return cx.var(cx.arg(n)[1])

def uden(cx, op, a):
    """denotation of the unary expression driver functions build with opn(op)"""
    if op == 'partial_deriv': return Q.fn('pd', cx.d('k'), a)
    if op == 'rt_symbolic_integral': return Q.fn('symint', cx.d('k'), cx.sc(a))
    if op == 'rt_integral':
        iv = cx.d('iv'); return Q.fn('integral', cx.sc(iv[1]), cx.sc(iv[2]), cx.d('v'), cx.sc(a))
    return cx.uopn(op, a, None)

# ------------------------------------------------------------------------------------------------ R01
BIG = 19     # components of a long vector expression
@family('R01')
def r01(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    o('d_const', 'I* d_const(double c, I const* v){ rt_constant<double, I> e(c); return e.diff(v); }', expect(lambda cx: Q.ZERO))
    o('d_var', 'I* d_var(unsigned long a, unsigned long b){ rt_variable<I> e(a), x(b); return e.diff(&x); }',
        expect(lambda cx: Q.ONE if (cx.app(cx.arg('a')) == cx.app(cx.arg('b'))) else Q.ZERO))
    def dv(cx):
        v = cx.var(cx.arg('v')[1]); x = ('x', Q.fmt(cx.app(cx.arg('a'))))
        return Q.ONE if v == x else Q.ZERO
    o('d_varo', 'I* d_varo(unsigned long a, I const* v){ rt_variable<I> e(a); return e.diff(v); }', expect(dv))
    for f in UN:
        o('d_' + f, 'I* d_%s(I* L, I const* v){ %s return e.diff(v); }' % (f, U(f)), throws=ND if f == 'fabs' else None,
            check=expect(lambda cx, f=f: cx.D(cx.uopn(f, cx.d('L'), None), V(cx))))
    for f in FORMAL + ['rt_integral', 'rt_symbolic_integral']:
        o('d_' + f, 'I* d_%s(I* L, rt_variable<I> const& w%s){ %s return e.diff(&w); }' % (f, opp(f), U(f)), throws='*',
            check=expect(lambda cx, f=f: cx.D(uden(cx, f, cx.d('L')), cx.var(cx.arg('w')[1]))))
    # the Gateaux derivative: with respect to a function symbol, grad commutes with the derivative
    def gat(cx):
        i = cx.D(cx.d('L'), V(cx))
        for k, x in cx.st.facts.items():     # the path knows the derivative to be this constant
            if k[0] == 'deep_equal' and x and k[2] and same(cx, cx.den(('p', k[1])), i):
                i = cx.den(('p', k[2]))
        return Q.ZERO if i == Q.ZERO else Q.fn('gradient', i)
    o('dg_gradient', 'I* dg_gradient(I* L, rt_function_symbol<I> const & v){ %s return e.diff(&v); }' % U('gradient'), expect(gat))
    for f in ('divergence', 'partial_deriv', 'rt_integral', 'rt_symbolic_integral'):
        o('dg_' + f, 'I* dg_%s(I* L, rt_function_symbol<I> const & w%s){ %s return e.diff(&w); }' % (f, opp(f), U(f)), throws=ND, want='throw')
    for f in FORMAL + ['rt_integral', 'rt_symbolic_integral']:
        if f != 'gradient': o('do_' + f, 'I* do_%s(I* L, I const * w%s){ %s return e.diff(w); }' % (f, opp(f), U(f)), throws=ND, want='throw')
    o('dn_gradient', 'I* dn_gradient(I* L, rt_variable<I> const & v){ %s return e.diff(&v); }' % U('gradient'), throws=ND, want='throw')
    for b, k in BIN.items():
        o('d_' + b, 'I* d_%s(I* L, I* M, I const* v){ %s return e.diff(v); }' % (b, B(b)),
            expect(lambda cx, k=k: cx.D(self_arith(cx, k, cx.d('L'), cx.d('M')), V(cx))))
    for n in list(range(1, 6 if thorough else 4)) + [BIG]:
        o('d_vec%d' % n, 'I* d_vec%d(rt_vector_expr<I> const & w, I const* v){ return w.diff(v); }' % n,
            expect(lambda cx: cx.D(cx.d('w'), V(cx))), sizes=(n,))
    # function symbols
    o('d_fs', 'I* d_fs(rt_function_symbol<I> const & u, rt_function_symbol<I> const & w){ return u.diff(&w); }',
        expect(lambda cx: Q.ONE if Q.fmt(cx.d('u')) == Q.fmt(cx.d('w')) else Q.ZERO), throws='*')
    o('d_fsv', 'I* d_fsv(rt_function_symbol<I> const & u, rt_variable<I> const & w){ return u.diff(&w); }', want='throw', throws='*')
    pd = lambda cx: Q.fn('pd', cx.app(cx.acc(cx.arg('v')[1], 'id')), cx.d('u'))
    def same_fs(cx):
        u, w = cx.arg('u')[1], cx.arg('w')[1]
        return and3(decide(cx, cx.acc(u, 'id'), '==', cx.acc(w, 'id')), decide(cx, cx.acc(u, 'tag_id'), '==', cx.acc(w, 'tag_id')))
    def dfs(cx, ob):
        m = same_fs(cx)
        if m is None: raise Bad('result without comparing the function symbols')
        if not same(cx, cx.den(ob.v), Q.num(1 if m else 0)): raise Bad('derivative %s of %s function symbols' % (show(cx.den(ob.v)), 'equal' if m else 'different'))
    o('df_fs_fs', 'rt_expr<I> df_fs_fs(rt_function_symbol<I> const & u, rt_function_symbol<I> const & w){ return diff(u, w); }', check=dfs)
    o('df_fs_v', 'rt_expr<I> df_fs_v(rt_function_symbol<I> const & u, rt_variable<I> const & v){ return diff(u, v); }', expect(pd))
    o('df_fs_ct', 'rt_expr<I> df_fs_ct(rt_function_symbol<I> const & u){ return diff(u, ct_variable<2>()); }', expect(lambda cx: Q.fn('pd', Q.num(2), cx.d('u'))))
    # free functions (the result is simplified as well)
    for t, kind in (('rt_binary_expr<I>', 'b'), ('rt_unary_expr<I>', 'u'), ('rt_expr<I>', 'e')):
        ok = '*'
        o('df_%s_v' % kind, 'rt_expr<I> df_%s_v(%s const & e, rt_variable<I> const & v){ return diff(e, v); }' % (kind, t),
            expect(lambda cx: cx.D(cx.d('e'), V(cx))), throws=ok)
        o('df_%s_ct' % kind, 'rt_expr<I> df_%s_ct(%s const & e){ return diff(e, ct_variable<3>()); }' % (kind, t),
            expect(lambda cx: cx.D(cx.d('e'), ('x', '3'))), throws=ok)
        o('df_%s_fs' % kind, 'rt_expr<I> df_%s_fs(%s const & e, rt_function_symbol<I> const & v){ return diff(e, v); }' % (kind, t),
            expect(lambda cx: cx.D(cx.d('e'), V(cx))), throws=ok)
    o('df_num', 'rt_constant<double> df_num(rt_variable<I> const & v){ return diff(3.0, v); }', expect(lambda cx: Q.ZERO))
    o('df_const', 'rt_constant<double> df_const(rt_constant<double, I> const & c, rt_variable<I> const & v){ return diff(c, v); }', expect(lambda cx: Q.ZERO))
    o('df_var', 'rt_constant<double> df_var(rt_variable<I> const & c, rt_variable<I> const & v){ return diff(c, v); }',
        expect(lambda cx: Q.ONE if Q.fmt(cx.d('c')) == Q.fmt(cx.d('v')) else Q.ZERO))
    return out

# ------------------------------------------------------------------------------------------------ R02
def eqd(cx, n): return cx.d(n)
@family('R02')
def r02(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    for f in ALLUN:
        o('s_' + f, 'I* s_%s(I* L%s){ %s return e.simplify(); }' % (f, opp(f), U(f)), expect(lambda cx, f=f: uden(cx, f, cx.d('L'))))
    for b, k in BIN.items():
        o('s_' + b, 'I* s_%s(I* L, I* M){ %s return e.simplify(); }' % (b, B(b)),
            expect(lambda cx, k=k: self_arith(cx, k, cx.d('L'), cx.d('M'))))
        # operands whose kind is known
        for x, y in (('C', 'M'), ('L', 'C'), ('C', 'D'), ('V', 'C'), ('C', 'V')):
            ps = {'C': 'double c', 'D': 'double d', 'L': 'I* L', 'M': 'I* M', 'V': 'unsigned long v'}
            mk = {'C': 'new rt_constant<double, I>(c)', 'D': 'new rt_constant<double, I>(d)', 'L': 'L', 'M': 'M', 'V': 'new rt_variable<I>(v)'}
            de = {'C': lambda cx: cx.d('c'), 'D': lambda cx: cx.d('d'), 'L': lambda cx: cx.d('L'), 'M': lambda cx: cx.d('M'), 'V': lambda cx: Q.sym(('x', Q.fmt(cx.d('v'))))}
            n = 's_%s_%s%s' % (b, x, y)
            o(n, 'I* %s(%s, %s){ %s return e.simplify(); }' % (n, ps[x], ps[y], B(b, mk[x], mk[y])),
                expect(lambda cx, k=k, x=x, y=y, de=de: self_arith(cx, k, de[x](cx), de[y](cx))))
    o('s_const', 'I* s_const(double c){ rt_constant<double, I> e(c); return e.simplify(); }', expect(lambda cx: cx.d('c')))
    o('s_var', 'I* s_var(rt_variable<I> const & x){ return x.simplify(); }', expect(lambda cx: cx.d('x')))
    o('s_fs', 'I* s_fs(rt_function_symbol<I> const & x){ return x.simplify(); }', expect(lambda cx: cx.d('x')))
    for n in list(range(0, 6 if thorough else 4)) + [BIG]:
        o('s_vec%d' % n, 'I* s_vec%d(rt_vector_expr<I> const & w){ return w.simplify(); }' % n, expect(lambda cx: cx.d('w')), sizes=(n,))
    for n in range(1, 4 if thorough else 3):
        o('s_dot%d' % n, 'I* s_dot%d(rt_vector_expr<I> const & a, rt_vector_expr<I> const & b){ %s return e.simplify(); }' % (n, B('mult', 'a.clone()', 'b.clone()')),
            expect(lambda cx: self_arith(cx, '*', cx.d('a'), cx.d('b'))), sizes=(n,))
    for t, k in (('rt_expr<I>', 'e'), ('rt_unary_expr<I>', 'u'), ('rt_binary_expr<I>', 'b')):
        o('sf_' + k, 'rt_expr<I> sf_%s(%s const & e){ return simplify(e); }' % (k, t), expect(lambda cx: cx.d('e')), sizes=(2,))
        if k == 'b': continue
        o('si_' + k, '%s si_%s(%s const & e0){ %s e(e0); inplace_simplify(e); return e; }' % (t, k, t, t), expect(lambda cx: cx.d('e0')), sizes=(2,))
    for i, (x, y) in enumerate((('L', 'x.clone()'), ('x.clone()', 'L'))):
        o('si_b_mult%d' % i, 'rt_binary_expr<I> si_b_mult%d(I* L, rt_variable<I> const & x){ %s inplace_simplify(e); return e; }' % (i, B('mult', x, y)),
            expect(lambda cx: self_arith(cx, '*', cx.d('L'), cx.d('x'))))
    for b, k in BIN.items():
        if b == 'mult': continue
        o('si_b_' + b, 'rt_binary_expr<I> si_b_%s(I* L, I* M){ %s inplace_simplify(e); return e; }' % (b, B(b)),
            expect(lambda cx, k=k: self_arith(cx, k, cx.d('L'), cx.d('M'))), sizes=(1,))
    for t, k in (('rt_variable<I>', 'v'), ('rt_constant<double, I>', 'c'), ('rt_function_symbol<I>', 'f'), ('rt_vector_expr<I>', 'w'), ('double', 'n')):
        o('sf_' + k, '%s sf_%s(%s const & e){ return simplify(e); }' % (t, k, t), expect(lambda cx: cx.d('e')))
        o('si_' + k, '%s si_%s(%s const & e0){ %s e(e0); inplace_simplify(e); return e; }' % (t, k, t, t), expect(lambda cx: cx.d('e0')))
    return out

# ------------------------------------------------------------------------------------------------ R03
def decide(cx, a, op, b):
    """True/False/None: does a op b hold on this path"""
    st = cx.st.copy(); st.handlers = [[]]
    r = {x for _, x in cx.it.compare(st, op, a, b)}
    return r.pop() if len(r) == 1 else None
def and3(*xs):
    if any(x is False for x in xs): return False
    return None if any(x is None for x in xs) else True
def or3(*xs):
    if any(x is True for x in xs): return True
    return None if any(x is None for x in xs) else False
def fact(cx, name, oid):
    it, st = cx.it, cx.st
    r = it.root(st, oid); o = st.h[r]
    if not o.opq:
        key = {'const': 'is_constant', 'cansimp': 'can_simplify'}[name]
        cx.deadok += 1
        try: return cx.acc(r, key)
        except Bad: return None
        finally: cx.deadok -= 1
    return st.facts.get((name, r))
def isval(cx, oid, n):
    c = fact(cx, 'const', oid)
    if c is not True: return c
    r = cx.it.root(cx.st, oid)
    v = Q.sym(('v', 'const:' + cx.st.h[r].tag)) if cx.st.h[r].opq else cx.accd(r, 'unwrap')
    return decide(cx, v, '==', n)
def pattern(cx, b, L, M):
    both = and3(fact(cx, 'const', L), fact(cx, 'const', M))
    l0, l1, m0, m1 = [lambda o=o, n=n: isval(cx, o, n) for o, n in ((L, 0), (L, 1), (M, 0), (M, 1))]
    p = {'plus': (l0, m0), 'minus': (l0, m0), 'mult': (l0, l1, m0, m1), 'div': (l0, m1)}[b]
    vecs = [cx.isvec(x) for x in (L, M)]
    return or3(both, *([x() for x in p] + ([and3(*vecs)] if b == 'mult' and all(vecs) else [])))
def weight(cx, oid):
    it, st = cx.it, cx.st
    r = it.root(st, oid); o = st.h[r]
    if o.opq:
        if o.org and o.org[0] == 'simp':
            b = it.simpbase(st, r)[0]
            if fact(cx, 'cansimp', b) is True: return weight(cx, b) - 1
            return weight(cx, b)
        return 3 if fact(cx, 'cansimp', r) is False else 4
    n = cx.cname(r).replace('viennamath::', '')
    if n == 'rt_unary_expr': return 1 + weight(cx, cx.accd(r, 'lhs')[1])
    if n == 'rt_binary_expr':
        return (2 if cx.opname(cx.accd(r, 'op')[1])[0] == 'op_minus' else 1) + weight(cx, cx.accd(r, 'lhs')[1]) + weight(cx, cx.accd(r, 'rhs')[1])
    if n == 'rt_expr': return weight(cx, cx.accd(r, 'get')[1])
    if n == 'rt_vector_expr': return 10 + sum(weight(cx, e[1]) + 2 for e in it.vec(st, r))
    return 1
@family('R03')
def r03(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    def can(rep):
        def f(cx, ob):
            r = ob.v
            if not isinstance(r, bool): raise Bad('result is not decided on this path')
            w = rep(cx)
            if w is None: raise Bad('reports %s without looking at every pattern' % r) if not r else Bad('reports that it can be simplified although nothing is known that could be')
            if w is not r: raise Bad('reports %s although %s can be simplified' % (r, 'it' if w else 'nothing'))
        return f
    def step(cx, ob):
        if ob.v == NULL: return
        w0 = cx.w0(cx); w1 = weight(cx, ob.v[1])
        if not w1 < w0: raise Bad('a step does not reduce the expression (weight %d to %d): repeated simplification need not end' % (w0, w1))
    def stepof(w):
        def f(cx, ob): cx.w0 = w; return step(cx, ob)
        return f
    P = lambda cx, n: cx.arg(n)[1]
    for b in BIN:
        o('cs_' + b, 'bool cs_%s(I* L, I* M){ %s return e.can_simplify(); }' % (b, B(b)), sizes=(1,) ,
            check=can(lambda cx, b=b: or3(pattern(cx, b, P(cx, 'L'), P(cx, 'M')), fact(cx, 'cansimp', P(cx, 'L')), fact(cx, 'cansimp', P(cx, 'M')))))
        o('st_' + b, 'I* st_%s(I* L, I* M){ %s if (!e.can_simplify()) return 0; return e.simplify(); }' % (b, B(b)), sizes=(1,),
            check=stepof(lambda cx, b=b: (2 if b == 'minus' else 1) + weight(cx, P(cx, 'L')) + weight(cx, P(cx, 'M'))))
    for f in ALLUN:
        o('cs_' + f, 'bool cs_%s(I* L%s){ %s return e.can_simplify(); }' % (f, opp(f), U(f)), check=can(lambda cx: fact(cx, 'cansimp', P(cx, 'L'))))
        o('st_' + f, 'I* st_%s(I* L%s){ %s if (!e.can_simplify()) return 0; return e.simplify(); }' % (f, opp(f), U(f)), check=stepof(lambda cx: 1 + weight(cx, P(cx, 'L'))))
    for n in list(range(0, 5 if thorough else 4)) + [BIG]:
        def vs(cx):
            xs = [fact(cx, 'cansimp', cx.accd(e[1], 'get')[1]) for e in cx.it.vec(cx.st, P(cx, 'w'))]
            return or3(False, *xs)
        o('cs_vec%d' % n, 'bool cs_vec%d(rt_vector_expr<I> const & w){ return w.can_simplify(); }' % n, check=can(vs), sizes=(n,))
        o('st_vec%d' % n, 'I* st_vec%d(rt_vector_expr<I> const & w){ if (!w.can_simplify()) return 0; return w.simplify(); }' % n, check=stepof(lambda cx: weight(cx, P(cx, 'w'))), sizes=(n,))
    for t, k in (('rt_variable<I>', 'v'), ('rt_constant<double, I>', 'c'), ('rt_function_symbol<I>', 'f')):
        o('cs_' + k, 'bool cs_%s(%s const & e){ return e.can_simplify(); }' % (k, t), check=can(lambda cx: False))
    return out

# ------------------------------------------------------------------------------------------------ R04
@family('R04')
def r04(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    P = lambda cx, n: cx.arg(n)[1]
    def konst(ops):
        def f(cx, ob):
            if not isinstance(ob.v, bool): raise Bad('result is not decided on this path')
            known = and3(*[fact(cx, 'const', P(cx, x)) for x in ops]) if ops else False
            if ob.v and known is not True: raise Bad('reports that it is constant although an operand need not be')
        return f
    CV = lambda cx, x: cx.app(Q.sym(('v', 'const:' + cx.st.h[cx.it.root(cx.st, P(cx, x))].tag)))
    for b, k in BIN.items():
        o('k_' + b, 'bool k_%s(I* L, I* M){ %s return e.is_constant(); }' % (b, B(b)), konst('LM'))
        o('ku_' + b, 'double ku_%s(I* L, I* M){ %s if (!e.is_constant()) throw expression_not_evaluable_exception("no"); return e.unwrap(); }' % (b, B(b)), throws=NE,
            check=expect(lambda cx, k=k: self_arith(cx, k, CV(cx, 'L'), CV(cx, 'M'))))
        o('u_' + b, 'double u_%s(I* L, I* M){ %s return e.unwrap(); }' % (b, B(b)), throws=NU,
            check=expect(lambda cx, k=k: self_arith(cx, k, CV(cx, 'L'), CV(cx, 'M'))))
    for f in ALLUN:
        formal = f not in UN
        o('k_' + f, 'bool k_%s(I* L%s){ %s return e.is_constant(); }' % (f, opp(f), U(f)), konst('' if formal else 'L'))
        o('ku_' + f, 'double ku_%s(I* L%s){ %s if (!e.is_constant()) throw expression_not_evaluable_exception("no"); return e.unwrap(); }' % (f, opp(f), U(f)), throws=NE,
            check=expect(lambda cx, f=f: cx.uopn(f, CV(cx, 'L'), None)))
        o('u_' + f, 'double u_%s(I* L%s){ %s return e.unwrap(); }' % (f, opp(f), U(f)), throws='*', want='throw' if formal else 'ret',
            check=expect(lambda cx, f=f: cx.uopn(f, CV(cx, 'L'), None)))
    o('k_c', 'bool k_c(rt_constant<double, I> const & c){ return c.is_constant(); }', expect(lambda cx: True))
    o('u_c', 'double u_c(rt_constant<double, I> const & c){ return c.unwrap(); }', expect(lambda cx: cx.d('c')))
    o('v_c', 'double v_c(double c){ rt_constant<double, I> k(c); return k.unwrap(); }', expect(lambda cx: cx.d('c')))
    o('w_c', 'double w_c(double c){ rt_constant<double, I> k(c); return static_cast<double>(k); }', expect(lambda cx: cx.d('c')))
    for t, k in (('rt_variable<I>', 'v'), ('rt_function_symbol<I>', 'f'), ('rt_vector_expr<I>', 'w')):
        o('k_' + k, 'bool k_%s(%s const & e){ return e.is_constant(); }' % (k, t), expect(lambda cx: False))
        o('u_' + k, 'double u_%s(%s const & e){ return e.unwrap(); }' % (k, t), want='throw', throws=NU, sizes=(0, 1, 2))
    return out

# ------------------------------------------------------------------------------------------------ R05
def pointval(cx, n, p):
    """value of opaque parameter n at the point parameter p"""
    return cx.app(cx.it.evalsym(cx.st, cx.it.root(cx.st, cx.arg(n)[1]), cx.arg(p)))
def quot(cx, k, a, b):
    """value of an operation on two numbers; a quotient by zero is still the quotient the division operator of the number type yields"""
    b = cx.app(b)
    if k == '/' and b.iszero(): return cx.app(Q.fn('divzero', cx.app(a)))
    return self_arith(cx, k, a, b)
@family('R05')
def r05(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    for pn, pt in (('p', 'Pt const & p'), ('s', 'double s')):
        x = pn
        for b, k in BIN.items():
            o('e%s_%s' % (pn, b), 'double e%s_%s(I* L, I* M, %s){ %s return e.eval(%s); }' % (pn, b, pt, B(b), x),
                expect(lambda cx, k=k, x=x: quot(cx, k, pointval(cx, 'L', x), pointval(cx, 'M', x))))
        for f in ALLUN:
            o('e%s_%s' % (pn, f), 'double e%s_%s(I* L%s, %s){ %s return e.eval(%s); }' % (pn, f, opp(f), pt, U(f), x), want='ret' if f in UN else 'throw', throws=None if f in UN else '*',
                check=expect(lambda cx, f=f, x=x: cx.uopn(f, pointval(cx, 'L', x), None)))
        o('e%s_c' % pn, 'double e%s_c(rt_constant<double, I> const & c, %s){ return c.eval(%s); }' % (pn, pt, x), expect(lambda cx: cx.d('c')))
        for t, k in (('rt_vector_expr<I>', 'w'), ('rt_function_symbol<I>', 'f')):
            o('e%s_%s' % (pn, k), 'double e%s_%s(%s const & c, %s){ return c.eval(%s); }' % (pn, k, t, pt, x), want='throw', throws=NE, sizes=(1, 2))
        # opaque operation: operand values in order
        o('e%s_op1' % pn, 'double e%s_op1(I* L, OpI* q, %s){ rt_unary_expr<I> e(L, q); return e.eval(%s); }' % (pn, pt, x),
            expect(lambda cx, x=x: Q.fn('apply:q', pointval(cx, 'L', x))))
        o('e%s_op2' % pn, 'double e%s_op2(I* L, OpI* q, I* M, %s){ rt_binary_expr<I> e(L, q, M); return e.eval(%s); }' % (pn, pt, x),
            expect(lambda cx, x=x: Q.fn('apply:q', pointval(cx, 'L', x), pointval(cx, 'M', x))))
    IX = ['index_out_of_bounds_exception', 'variable_index_out_of_bounds_exception']
    def coord(cx):
        return Q.sym(('v', 'p[%s]' % Q.fmt(cx.acc(cx.arg('x')[1], 'id'))))
    o('ep_v', 'double ep_v(rt_variable<I> const & x, Pt const & p){ return x.eval(p); }', throws=IX, check=lambda cx, ob: None)
    for n in range(0, 5):
        for i in range(n):
            o('ep_v%d_%d' % (n, i), 'double ep_v%d_%d(double a, double b, double c, double d){ Pt p(%d); %s rt_variable<I> x(%d); return x.eval(p); }' %
                (n, i, n, ' '.join('p[%d] = %s;' % (j, 'abcd'[j]) for j in range(n)), i), expect(lambda cx, i=i: cx.d('abcd'[i])))
    for i in range(12):
        o('ep_v12_%d' % i, 'double ep_v12_%d(double a, double b, double c, double d){ Pt p(12); %s rt_variable<I> x(%d); return x.eval(p); }' %
            (i, ' '.join('p[%d] = %s;' % (j, 'abcd'[j] if j < 4 else '%d.0' % (10 + j)) for j in range(12)), i), expect(lambda cx, i=i: cx.d('abcd'[i]) if i < 4 else Q.num(10 + i)))
    o('es_v0', 'double es_v0(double s){ rt_variable<I> x(0); return x.eval(s); }', expect(lambda cx: cx.d('s')))
    # application of the elementary operations themselves, both numbers of arguments
    for f in ALLUN:
        o('a1_' + f, 'double a1_%s(double x%s){ std::auto_ptr<OpI> q(%s); return q->apply(x); }' % (f, opp(f), opn(f)),
            want='ret' if f in UN else 'throw', throws=None if f in UN else '*', check=expect(lambda cx, f=f: cx.uopn(f, cx.d('x'), None)))
        o('a2_' + f, 'double a2_%s(double x, double y%s){ std::auto_ptr<OpI> q(%s); return q->apply(x, y); }' % (f, opp(f), opn(f)), want='throw', throws='*')
    for b, k in BIN.items():
        o('a2_' + b, 'double a2_%s(double x, double y){ op_binary<op_%s<double>, I> q; return q.apply(x, y); }' % (b, b), expect(lambda cx, k=k: quot(cx, k, cx.d('x'), cx.d('y'))))
        o('a1_' + b, 'double a1_%s(double x){ op_binary<op_%s<double>, I> q; OpI const & r = q; return r.apply(x); }' % (b, b), want='throw', throws='*')
    return out

# ------------------------------------------------------------------------------------------------ R06 / R07
AB = 'double a, double b, double c, double d'
def points():
    """(name, set-up code, expression, coordinates (None: not a vector))"""
    out = [('num', '', 'a', ['a']), ('int', '', '5.0', [5]), ('rtc', 'rt_constant<double, I> k(a);', 'k', ['a']), ('ctc', '', 'ct_constant<7>()', [7]), ('ctm', '', 'ct_constant<-3>()', [-3]), ('ctl', '', 'ct_constant<5000000007L>()', [5000000007])]
    for n in range(0, 5):
        fill = ' '.join('q[%d] = %s;' % (i, 'abcd'[i]) for i in range(n))
        out.append(('std%d' % n, 'Pt q(%d); %s' % (n, fill), 'q', list('abcd'[:n])))
        out.append(('usr%d' % n, 'UV q(%d); %s' % (n, fill.replace('q[', 'q.d[')), 'q', list('abcd'[:n])))
    for n in (5, 12):                                           # more coordinates than the numbers at hand
        cs = list('abcd') + [10 + j for j in range(4, n)]
        fill = ' '.join('q[%d] = %s;' % (i, c if isinstance(c, str) else '%d.0' % c) for i, c in enumerate(cs))
        out.append(('std%d' % n, 'Pt q(%d); %s' % (n, fill), 'q', cs))
        out.append(('usr%d' % n, 'UV q(%d); %s' % (n, fill.replace('q[', 'q.d[')), 'q', cs))
    C, Rc = 'ct_constant<%d>', 'rt_constant<double, I>'
    out += [('ct1', 'ct_vector_1<double> q(a);', 'q', ['a']), ('ct2', 'ct_vector_2<double, double> q(a, b);', 'q', ['a', 'b']), ('ct3', 'ct_vector_3<double, double, double> q(a, b, c);', 'q', ['a', 'b', 'c']),
            ('ct1c', 'ct_constant<4> k4; ct_vector_1<ct_constant<4> > q(k4);', 'q', [4]), ('ct2c', 'ct_constant<4> k4; ct_constant<-5> k5; ct_vector_2<ct_constant<4>, ct_constant<-5> > q(k4, k5);', 'q', [4, -5]),
            ('ct3c', 'ct_constant<4> k4; ct_constant<-5> k5; ct_constant<6> k6; ct_vector_3<ct_constant<4>, ct_constant<-5>, ct_constant<6> > q(k4, k5, k6);', 'q', [4, -5, 6]),
            ('ct3l', 'ct_constant<5000000007L> k4; ct_constant<-5000000011L> k5; ct_constant<6000000013L> k6; ct_vector_3<ct_constant<5000000007L>, ct_constant<-5000000011L>, ct_constant<6000000013L> > q(k4, k5, k6);', 'q', [5000000007, -5000000011, 6000000013]),
            ('ct2l', 'ct_constant<5000000007L> k4; ct_constant<-5000000011L> k5; ct_vector_2<ct_constant<5000000007L>, ct_constant<-5000000011L> > q(k4, k5);', 'q', [5000000007, -5000000011]), ('ct1l', 'ct_constant<5000000007L> k4; ct_vector_1<ct_constant<5000000007L> > q(k4);', 'q', [5000000007]),
            ('ct2m', 'ct_constant<4> k4; ct_vector_2<ct_constant<4>, double> q(k4, b);', 'q', [4, 'b']), ('mk1', '', 'make_vector(a)', ['a']), ('mk2', '', 'make_vector(a, b)', ['a', 'b']), ('mk3', '', 'make_vector(a, b, c)', ['a', 'b', 'c'])]
    # a vector keeps its entries when what it was made of is gone or has changed, and so do its copies
    for n in (1, 2, 3):
        T = 'ct_vector_%d<%s>' % (n, ', '.join(['double'] * n)); A = 'abc'[:n]
        out += [('ct%dt' % n, '%s q(%s);' % (T, ', '.join(x + ' * 1.0' for x in A)), 'q', list(A)),
                ('ct%du' % n, '%s %s q(%s); %s' % (' '.join('double z%s = %s;' % (x, x) for x in A), T, ', '.join('z' + x for x in A), ' '.join('z%s = d;' % x for x in A)), 'q', list(A)),
                ('ct%dv' % n, 'std::auto_ptr<%s > q0(new %s(%s)); %s q(*q0); q0.reset();' % (T, T, ', '.join(x + ' * 1.0' for x in A), T), 'q', list(A)),
                ('ct%dw' % n, 'ct_constant<8> k8; ct_vector_%d<%s> q(k8%s);' % (n, ', '.join(['ct_constant<8>'] + ['double'] * (n - 1)), ''.join(', %s * 1.0' % x for x in A[1:])), 'q', [8] + list(A[1:]))]
    return out
def coords(cx, cs): return [cx.d(c) if isinstance(c, str) else Q.num(c) for c in cs]
def evalat(cx, oid, cs):
    """value of the opaque object oid at the point with coordinates cs"""
    r = cx.it.root(cx.st, oid)
    return Q.sym(('v', 'eval(%s;[%s])' % (cx.st.h[r].tag, ','.join(Q.fmt(x) for x in coords(cx, cs)))))
IX = ['index_out_of_bounds_exception', 'variable_index_out_of_bounds_exception']
@family('R06')
def r06(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    P = lambda cx, n: cx.arg(n)[1]
    oracle = {
      'rt_expr<I>': lambda cx, cs: evalat(cx, cx.accd(P(cx, 'e'), 'get')[1], cs),
      'rt_unary_expr<I>': lambda cx, cs: Q.fn('apply:e.op_' if False else 'apply:' + cx.st.h[cx.it.root(cx.st, cx.accd(P(cx, 'e'), 'op')[1])].tag, evalat(cx, cx.accd(P(cx, 'e'), 'lhs')[1], cs)),
      'rt_binary_expr<I>': lambda cx, cs: Q.fn('apply:' + cx.st.h[cx.it.root(cx.st, cx.accd(P(cx, 'e'), 'op')[1])].tag, evalat(cx, cx.accd(P(cx, 'e'), 'lhs')[1], cs), evalat(cx, cx.accd(P(cx, 'e'), 'rhs')[1], cs)),
      'rt_constant<double, I>': lambda cx, cs: cx.d('e'),
    }
    for pn, setup, px, cs in points():
        for i, t in enumerate(oracle):
            if t != 'rt_constant<double, I>':
                o('p%s_%d' % (pn, i), 'double p%s_%d(%s const & e, %s){ %s return e(%s); }' % (pn, i, t, AB, setup, px), expect(lambda cx, t=t, cs=cs: oracle[t](cx, cs)))
            o('q%s_%d' % (pn, i), 'double q%s_%d(%s const & e, %s){ %s return eval(e, %s); }' % (pn, i, t, AB, setup, px), expect(lambda cx, t=t, cs=cs: oracle[t](cx, cs)))
        o('ql%s' % pn, 'long ql%s(%s){ %s return eval(5000000007L, %s); }' % (pn, AB, setup, px), expect(lambda cx: Q.num(5000000007)))
        o('qi%s' % pn, 'long qi%s(%s){ %s return eval(7, %s); }' % (pn, AB, setup, px), expect(lambda cx: Q.num(7)))
        o('qc%s' % pn, 'double qc%s(%s){ %s return eval(ct_constant<-5000000011L>(), %s); }' % (pn, AB, setup, px), expect(lambda cx: Q.num(-5000000011)))
        o('qk%s' % pn, 'double qk%s(rt_constant<double, I> const & e, %s){ %s return e(%s); }' % (pn, AB, setup, px), expect(lambda cx: cx.d('e')))
        o('qd%s' % pn, 'double qd%s(double e, %s){ %s return eval(e, %s); }' % (pn, AB, setup, px), expect(lambda cx: cx.d('e')))
    return out
@family('R07')
def r07(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    def idcheck(cx, ob):
        i = cx.accd(cx.arg('x')[1], 'id')
        if decide(cx, i, '==', 0) is not True: raise Bad('a scalar is accepted as point although the index may be larger than zero')
    def idthrow(cx, ob):
        i = cx.accd(cx.arg('x')[1], 'id')
        if decide(cx, i, '==', 0) is not False: raise Bad('refuses a scalar for the first variable')
    def inr(cx, ob):
        i = cx.accd(cx.arg('x')[1], 'id'); n = Q.sym(('n', 'size(p)'))
        if decide(cx, i, '<', n) is not True: raise Bad('result returned although the index need not be below the number of coordinates')
        v = cx.den(ob.v)
        if Q.fmt(v) != Q.fmt(Q.sym(('v', 'el_p_' + Q.fmt(cx.app(i))))) and 'el_p_' + Q.fmt(cx.app(i)) not in Q.fmt(v): raise Bad('returns %s instead of the coordinate with the index of the variable' % Q.fmt(v))
    def outr(cx, ob):
        i = cx.accd(cx.arg('x')[1], 'id'); n = Q.sym(('n', 'size(p)'))
        if decide(cx, i, '<', n) is not False: raise Bad('refuses a point with enough coordinates')
    X = 'rt_variable<I> const & x'
    for nm, call in (('eval', 'x.eval(p)'), ('call', 'x(p)'), ('free', 'eval(x, p)')):
        o('v_' + nm, 'double v_%s(%s, Pt const & p){ return %s; }' % (nm, X, call), check=inr, throws=IX, tcheck=outr)
    for nm, call in (('eval', 'x.eval(s)'), ('call', 'x(s)'), ('free', 'eval(x, s)'), ('rtc', 'x(rt_constant<double>(s))'), ('ctc', 'x(ct_constant<5000000007L>())'), ('frtc', 'eval(x, rt_constant<double>(s))'), ('fctc', 'eval(x, ct_constant<5000000007L>())')):
        def both(cx, ob, ctc='ctc' in nm):
            idcheck(cx, ob)
            if not same(cx, cx.den(ob.v), Q.num(5000000007) if ctc else cx.d('s')): raise Bad('returns %s' % show(cx.den(ob.v)))
        o('s_' + nm, 'double s_%s(%s, double s){ return %s; }' % (nm, X, call), check=both, throws=IX, tcheck=idthrow)
    # every point form against every index, through every wrapper
    wraps = {'var': 'x', 'expr': 'rt_expr<I>(x)', 'un': 'rt_unary_expr<I>(x)', 'bin': 'rt_binary_expr<I>(x.clone(), new op_binary<op_plus<double>, I>(), new rt_constant<double, I>(0))'}
    for pn, setup, px, cs in points():
        for w, wx in wraps.items():
            if w == 'var' and pn[:2] in ('ct', 'mk') and pn not in ('ctc', 'ctm', 'ctl') : pass
            for form in ('%s(%s)', 'eval(%s, %s)'):
                if form == '%s(%s)': n = 'i%s_%s' % (pn, w)
                else: n = 'j%s_%s' % (pn, w)
                def val(cx, ob, cs=cs):
                    c = coords(cx, cs); i = cx.app(cx.d('i')).const()
                    if i is None: raise Bad('returns %s whatever the index is' % show(cx.den(ob.v)))
                    if i >= len(c): raise Bad('returns %s for a variable whose index is not below the number of coordinates' % show(cx.den(ob.v)))
                    if not same(cx, cx.den(ob.v), c[int(i)]): raise Bad('returns %s instead of coordinate %d' % (show(cx.den(ob.v)), i))
                def thr(cx, ob, cs=cs):
                    if decide(cx, cx.d('i'), '>=', len(cs)) is not True: raise Bad('refuses a point with enough coordinates')
                o(n, 'double %s(unsigned long i, %s){ %s rt_variable<I> x(i); return %s; }' % (n, AB, setup, form % (wx, px)), check=val, throws=IX, tcheck=thr)
    # compile-time variables
    for pn, setup, px, cs in points():
        for i in range(4):
            ok = i < len(cs)
            if pn[:2] in ('ct', 'mk') and pn not in ('ctc', 'ctm', 'ctl'):
                if ok: o('d%s_%d' % (pn, i), 'double d%s_%d(%s){ %s return eval(ct_variable<%d>(), %s); }' % (pn, i, AB, setup, i, px), check=expect(lambda cx, cs=cs, i=i: coords(cx, cs)[i]))
                continue                                  # beyond the end: refused by the compiler (C08)
            if pn in ('ctc', 'ctm', 'ctl') and i: continue       # refused by the compiler (C08)
            o('c%s_%d' % (pn, i), 'double c%s_%d(%s){ %s return ct_variable<%d>()(%s); }' % (pn, i, AB, setup, i, px), want='ret' if ok else 'throw', throws=None if ok else IX,
                check=expect(lambda cx, cs=cs, i=i: coords(cx, cs)[i]))
            if pn in ('rtc', 'ctc', 'ctm', 'ctl'): continue
            o('d%s_%d' % (pn, i), 'double d%s_%d(%s){ %s return eval(ct_variable<%d>(), %s); }' % (pn, i, AB, setup, i, px), want='ret' if ok else 'throw', throws=None if ok else IX,
                check=expect(lambda cx, cs=cs, i=i: coords(cx, cs)[i]))
    return out

# ------------------------------------------------------------------------------------------------ R08
def heapof(cx, oid):
    """heap objects reachable from oid"""
    return {i for i in reach(cx.st, [oid]) if cx.st.h[i].alive}
def disjoint(cx, got, orig):
    if got == orig: raise Bad('the copy is the original object itself')
    a, b = heapof(cx, got), heapof(cx, orig)
    x = {i for i in a & b if cx.st.h[i].st != 'static'}
    if x: raise Bad('copy and original share %s' % cx.it.describe(cx.st, sorted(x)[0]))
def copyof(name='x', sub=None):
    def f(cx, ob):
        src = cx.arg(name)[1] if sub is None else sub(cx)
        v = ob.v
        if not (isinstance(v, tuple) and v[0] in ('p', 'o') and v[1]): raise Bad('no object returned')
        cx.deadok += 1
        try:
            a, b = cx.it.root(cx.st, v[1]), cx.it.root(cx.st, src)
            if not cx.st.h[v[1]].opq:
                if cx.cname(v[1]) != cx.cname(src): raise Bad('copy of a %s is a %s' % (cx.cname(src), cx.cname(v[1])))
                if cx.it.short(cx.st.h[v[1]].cls) != cx.it.short(cx.st.h[src].cls): raise Bad('copy of a %s is a %s' % (cx.it.short(cx.st.h[src].cls), cx.it.short(cx.st.h[v[1]].cls)))
            kb = cx.it.skey(cx.st, src); ka = cx.it.skey(cx.st, v[1])
            if ka != kb:
                # the same state may be held in another form: compare what both denote
                if not same(cx, cx.den(v), cx.deno(src)): raise Bad('copy holds %s instead of %s' % (ka[:200], kb[:200]))
            disjoint(cx, v[1], src)
        finally: cx.deadok -= 1
    return f
NODES = [('rt_constant<double, I>', 'c', ()), ('rt_variable<I>', 'v', ()), ('rt_function_symbol<I>', 'f', ()), ('rt_unary_expr<I>', 'u', ()), ('rt_binary_expr<I>', 'b', ()),
         ('rt_vector_expr<I>', 'w0', (0,)), ('rt_vector_expr<I>', 'w1', (1,)), ('rt_vector_expr<I>', 'w2', (2,)), ('rt_vector_expr<I>', 'w3', (3,))]
VALUES = [('rt_expr<I>', 'e', ()), ('rt_equation<I>', 'q', ()), ('rt_interval<I>', 'i', ()), ('rt_symbolic_interval<I>', 's', ()), ('op_rt_integral<I>', 'oi', ()), ('op_rt_symbolic_integral<I>', 'os', ()),
          ('op_partial_deriv<double>', 'op', ()), ('rt_numerical_quadrature<I>', 'n', ())]
@family('R08')
def r08(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    extra = [('rt_vector_expr<I>', 'w%d' % n, (n,)) for n in ((4, 5, 6, BIG) if thorough else (BIG,))]
    for t, k, sz in NODES + extra:
        sz = sz or (2,)
        o('cl_' + k, 'I* cl_%s(%s const & x){ return x.clone(); }' % (k, t), check=copyof(), sizes=sz)
        o('clv_' + k, 'I* clv_%s(%s const & x){ I const & b = x; return b.clone(); }' % (k, t), check=copyof(), sizes=sz)
    for t, k, sz in NODES + VALUES + extra:
        sz = sz or (2,)
        o('cc_' + k, '%s cc_%s(%s const & x){ %s y(x); return y; }' % (t, k, t, t), check=copyof(), sizes=sz)
        o('as_' + k, '%s as_%s(%s const & x, %s const & y0){ %s y(y0); y = x; return y; }' % (t, k, t, t, t), check=copyof(), sizes=sz)
        o('sa_' + k, '%s sa_%s(%s const & x){ %s y(x); %s const & r = y; y = r; return y; }' % (t, k, t, t, t), check=copyof(), sizes=sz)
        # the copy outlives the original
        o('ol_' + k, '%s ol_%s(%s const & x){ std::auto_ptr<%s > y(new %s(x)); %s z(*y); y.reset(); return z; }' % (t, k, t, t, t, t), check=copyof(), sizes=sz)
    # the concrete kinds inside an expression wrapper
    for t, k, sz in NODES:
        sz = sz or (2,)
        o('ce_' + k, 'rt_expr<I> ce_%s(%s const & x){ rt_expr<I> e(x); rt_expr<I> r(e); return r; }' % (k, t), check=expect(lambda cx: cx.d('x')), sizes=sz)
        o('ae_' + k, 'rt_expr<I> ae_%s(%s const & x, I* L){ rt_expr<I> r(L); r = x; return r; }' % (k, t), check=expect(lambda cx: cx.d('x')), sizes=sz)
    # operations
    for f in ALLUN:
        o('opc_' + f, 'I* opc_%s(I* L%s){ std::auto_ptr<OpI> q(%s); return new rt_unary_expr<I>(L, q->clone()); }' % (f, opp(f), opn(f)), expect(lambda cx, f=f: uden(cx, f, cx.d('L'))))
        o('un_' + f, 'I* un_%s(I* L%s){ %s return e.clone(); }' % (f, opp(f), U(f)), expect(lambda cx, f=f: uden(cx, f, cx.d('L'))))
    for b, k in BIN.items():
        o('opc_' + b, 'I* opc_%s(I* L, I* M){ op_binary<op_%s<double>, I> q; OpI const & r = q; return new rt_binary_expr<I>(L, r.clone(), M); }' % (b, b), expect(lambda cx, k=k: self_arith(cx, k, cx.d('L'), cx.d('M'))))
        o('bi_' + b, 'I* bi_%s(I* L, I* M){ %s return e.clone(); }' % (b, B(b)), expect(lambda cx, k=k: self_arith(cx, k, cx.d('L'), cx.d('M'))))
    # quadrature rules
    def rule(cx, ob):
        if not ob.v[1] or cx.cname(ob.v[1]) != 'viennamath::rt_gauss_quad_1': raise Bad('copy of the rule is something else')
    o('qr', 'numerical_quadrature_interface<I>* qr(){ rt_gauss_quad_1<I> q; return q.clone(); }', check=rule)
    # manipulation functors hand on a copy by default
    o('mf', 'I* mf(I const * x){ rt_manipulation_interface<I> f; return f(x); }', check=copyof())
    o('mm', 'bool mm(I const * x){ rt_manipulation_interface<I> f; return f.modifies(x); }', expect(lambda cx: False))
    return out

# ------------------------------------------------------------------------------------------------ R09
def accv(cx, r, n):
    v = cx.accd(r, n)
    return v
def eq3(cx, a, b):
    """are the two expressions structurally equal on this path: True, False or None (not determined)"""
    it, st = cx.it, cx.st
    ra, rb = it.root(st, a), it.root(st, b)
    if ra == rb: return True
    A, Bo = st.h[ra], st.h[rb]
    if A.opq or Bo.opq:
        for k in ((ra, rb), (rb, ra)):
            f = st.facts.get(('deep_equal',) + k)
            if f is not None: return f
        if A.opq != Bo.opq:
            op, co = (ra, Bo) if A.opq else (rb, A)
            if any(n in it.ancestors(co.cls) for n in st.facts.get(('not', op), ())): return False
        return None
    na, nb = it.short(A.cls), it.short(Bo.cls)
    if na != nb: return False
    n = cx.cname(ra).replace('viennamath::', '')
    def num(f): return decide(cx, cx.accd(ra, f), '==', cx.accd(rb, f))
    if n == 'rt_constant': return num('unwrap')
    if n == 'rt_variable': return num('id')
    if n == 'rt_function_symbol': return and3(num('id'), num('tag_id'))
    if n == 'rt_expr': return eq3(cx, cx.accd(ra, 'get')[1], cx.accd(rb, 'get')[1])
    if n == 'rt_unary_expr': return and3(eq3(cx, cx.accd(ra, 'lhs')[1], cx.accd(rb, 'lhs')[1]), opeq3(cx, cx.accd(ra, 'op')[1], cx.accd(rb, 'op')[1]))
    if n == 'rt_binary_expr':
        return and3(eq3(cx, cx.accd(ra, 'lhs')[1], cx.accd(rb, 'lhs')[1]), opeq3(cx, cx.accd(ra, 'op')[1], cx.accd(rb, 'op')[1]), eq3(cx, cx.accd(ra, 'rhs')[1], cx.accd(rb, 'rhs')[1]))
    if n == 'rt_vector_expr':
        x, y = it.vec(st, ra), it.vec(st, rb)
        if len(x) != len(y): return False
        return and3(True, *[eq3(cx, p[1], q[1]) for p, q in zip(x, y)])
    raise Bad('no structural equality for %s' % n)
def opeq3(cx, a, b):
    it, st = cx.it, cx.st
    ra, rb = it.root(st, a), it.root(st, b)
    if ra == rb: return True
    A, Bo = st.h[ra], st.h[rb]
    if A.opq or Bo.opq:
        for k in ((ra, rb), (rb, ra)):
            f = st.facts.get(('opequal',) + k)
            if f is not None: return f
        if A.opq != Bo.opq:
            op, co = (ra, Bo) if A.opq else (rb, A)
            if any(n in it.ancestors(co.cls) for n in st.facts.get(('not', op), ())): return False
        return None
    if it.short(A.cls) != it.short(Bo.cls): return False
    n = cx.opname(ra)[0].replace('op_', '')
    sa = lambda r: cx.accd(r, 'op')[1]
    if n == 'partial_deriv': return decide(cx, cx.accd(sa(ra), 'id'), '==', cx.accd(sa(rb), 'id'))
    if n == 'rt_symbolic_integral':
        return decide(cx, cx.accd(cx.accd(sa(ra), 'interval')[1], 'id'), '==', cx.accd(cx.accd(sa(rb), 'interval')[1], 'id'))
    if n == 'rt_integral':
        ia, ib = cx.accd(sa(ra), 'interval')[1], cx.accd(sa(rb), 'interval')[1]
        return and3(eq3(cx, cx.accd(sa(ra), 'variable')[1], cx.accd(sa(rb), 'variable')[1]), *[eq3(cx, cx.accd(ia, s)[1], cx.accd(ib, s)[1]) for s in ('lower', 'upper')])
    return True
def shallow3(cx, a, b):
    it, st = cx.it, cx.st
    ra, rb = it.root(st, a), it.root(st, b)
    A, Bo = st.h[ra], st.h[rb]
    if not A.opq and not Bo.opq: return it.short(A.cls) == it.short(Bo.cls)
    for k in ((ra, rb), (rb, ra)):
        f = st.facts.get(('shallow_equal',) + k)
        if f is not None: return f
    op, co = (ra, Bo) if A.opq else (rb, A)
    if not co.opq and any(n in it.ancestors(co.cls) for n in st.facts.get(('not', op), ())): return False
    return None
def eqcheck(f, a='x', b='y'):
    def check(cx, ob):
        if not isinstance(ob.v, bool): raise Bad('result is not decided on this path')
        want = f(cx, cx.arg(a)[1], cx.arg(b)[1])
        if want is None: raise Bad('answers %s without having compared everything that determines the meaning' % ob.v)
        if want is not ob.v: raise Bad('answers %s for expressions that are %s' % (ob.v, 'equal' if want else 'different'))
    return check
@family('R09')
def r09(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    for t, k, sz in NODES:
        szs = sz or (2,)
        for m in ('deep_equal', 'shallow_equal'):
            f = eq3 if m[0] == 'd' else shallow3
            o('%s_%s_o' % (m[:4], k), 'bool %s_%s_o(%s const & x, I const * y){ return x.%s(y); }' % (m[:4], k, t, m), check=eqcheck(f), sizes=(1, 2) if not sz else sz)
            o('%s_%s_v' % (m[:4], k), 'bool %s_%s_v(%s const & x, I const * y){ I const & b = x; return b.%s(y); }' % (m[:4], k, t, m), check=eqcheck(f), sizes=(1,) if not sz else sz)
            for t2, k2, sz2 in NODES:
                if sz and sz2 and sz != sz2 : continue
                o('%s_%s_%s' % (m[:4], k, k2), 'bool %s_%s_%s(%s const & x, %s const & y){ return x.%s(&y); }' % (m[:4], k, k2, t, t2, m), check=eqcheck(f), sizes=sz or sz2 or (2,))
    # long vectors
    for n in (7, BIG):
        for m, f in (('deep_equal', eq3), ('shallow_equal', shallow3)):
            o('%s_w%d' % (m[:4], n), 'bool %s_w%d(rt_vector_expr<I> const & x, rt_vector_expr<I> const & y){ return x.%s(&y); }' % (m[:4], n, m), check=eqcheck(f), sizes=(n,))
    o('dv_big', 'bool dv_big(rt_vector_expr<I> const & x, rt_vector_expr<I> const & y){ return x.deep_equal(&y); }', check=eqcheck(eq3), sizes=(BIG - 1, BIG))
    # vectors of different or equal length, told apart by the kind of the operand
    o('dv_any', 'bool dv_any(rt_vector_expr<I> const & x, rt_vector_expr<I> const & y){ return x.deep_equal(&y); }', check=eqcheck(eq3), sizes=(0, 1, 2, 3) if thorough else (0, 1, 2))
    # operations
    for f in ALLUN:
        for g in ALLUN:
            p1 = opp(f); p2 = opp(g)
            for a, b in (('k', 'j'), ('iv', 'jv'), (' v', ' w')): p2 = p2.replace('unsigned long k', 'unsigned long j').replace('& iv', '& jv').replace('& v', '& w')
            og = opn(g).replace('(k)', '(j)').replace('(iv, v)', '(jv, w)')
            def chk(cx, ob, f=f, g=g):
                if not isinstance(ob.v, bool): raise Bad('result is not decided on this path')
                if f != g: want = False
                elif f in UN or f in ('gradient', 'divergence'): want = True
                elif f in ('partial_deriv', 'rt_symbolic_integral'): want = decide(cx, cx.d('k'), '==', cx.d('j'))
                else:
                    P = lambda n: cx.arg(n)[1]
                    want = and3(eq3(cx, P('v'), P('w')), *[eq3(cx, cx.accd(P('iv'), s)[1], cx.accd(P('jv'), s)[1]) for s in ('lower', 'upper')])
                if want is None: raise Bad('answers %s without having compared everything that determines the meaning' % ob.v)
                if want is not ob.v: raise Bad('answers %s for operations that are %s' % (ob.v, 'equal' if want else 'different'))
            o('oe_%s_%s' % (f, g), 'bool oe_%s_%s(int z%s%s){ std::auto_ptr<OpI> q(%s); std::auto_ptr<OpI> r(%s); return q->equal(r.get()); }' % (f, g, p1, p2, opn(f), og), check=chk)
        for b in BIN:
            o('ob_%s_%s' % (f, b), 'bool ob_%s_%s(int z%s){ std::auto_ptr<OpI> q(%s); op_binary<op_%s<double>, I> r; return q->equal(&r); }' % (f, b, opp(f), opn(f), b), expect(lambda cx: False))
            o('bo_%s_%s' % (f, b), 'bool bo_%s_%s(int z%s){ std::auto_ptr<OpI> q(%s); op_binary<op_%s<double>, I> r; return r.equal(q.get()); }' % (f, b, opp(f), opn(f), b), expect(lambda cx: False))
    for b in BIN:
        for c in BIN:
            o('bb_%s_%s' % (b, c), 'bool bb_%s_%s(){ op_binary<op_%s<double>, I> q; op_binary<op_%s<double>, I> r; return q.equal(&r); }' % (b, c, b, c), expect(lambda cx, x=(b == c): x))
    for f in ALLUN: o('iu_' + f, 'bool iu_%s(int z%s){ std::auto_ptr<OpI> q(%s); return q->is_unary(); }' % (f, opp(f), opn(f)), expect(lambda cx: True))
    for b in BIN: o('iu_' + b, 'bool iu_%s(){ op_binary<op_%s<double>, I> q; return q.is_unary(); }' % (b, b), expect(lambda cx: False))
    return out

# ------------------------------------------------------------------------------------------------ R10
def elems(cx, v):
    """members of a vector parameter"""
    x = cx.it.vec(cx.st, v[1]); return x
def ptr(cx, v):
    """object an element (pointer, expression wrapper or object) stands for"""
    if cx.cname(v[1]) == 'viennamath::rt_expr' if not cx.st.h[v[1]].opq and not isinstance(cx.st.h[v[1]].cls, str) else False: return cx.accd(v[1], 'get')[1]
    return v[1]
def osym(cx, tag):
    """what the opaque object called tag denotes"""
    for i, o in cx.st.h.items():
        if o.opq and o.tag == tag: return cx.deno(i)
    return cx.app(Q.sym(('sk', tag)))
def subst(cx, x, pairs, key, top=True):
    """denotation of x with the search expressions replaced; pairs = [(search object, replacement object)], key = text naming the substitution"""
    it, st = cx.it, cx.st
    cx.deadok += 1
    try:
        r = it.root(st, x); o = st.h[r]
        if o.opq: return osym(cx, 'subst(%s;%s)' % (o.tag, key))
        n = cx.cname(r).replace('viennamath::', '')
        if n == 'rt_expr': return subst(cx, cx.acc(r, 'get')[1], pairs, key)
        for a, b in pairs:
            e = eq3(cx, r, a)
            if e is None: raise Bad('%s is not compared completely with the expression searched for' % it.describe(st, r))
            if e: return cx.deno(b)
        sub = lambda f: subst(cx, cx.acc(r, f)[1], pairs, key)
        if n == 'rt_unary_expr': return cx.uop(cx.acc(r, 'op')[1], sub('lhs'))
        if n == 'rt_binary_expr': return cx.bop(cx.acc(r, 'op')[1], sub('lhs'), sub('rhs'))
        if n == 'rt_vector_expr': return ('vec', [subst(cx, e[1], pairs, key) for e in it.vec(st, r)])
        return cx.deno(r)
    finally: cx.deadok -= 1
def pairkey(cx, pairs):
    cx.deadok += 1
    try: return ','.join('%s->%s' % (cx.it.skey(cx.st, a), cx.it.skey(cx.st, b)) for a, b in pairs)
    finally: cx.deadok -= 1
def substs(px, pairs):
    """oracle; px, pairs(cx): the expression worked on, the [(search, replacement)]"""
    def f(cx):
        p = pairs(cx)
        return subst(cx, px(cx), p, pairkey(cx, p))
    return expect(f)
@family('R10')
def r10(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    P = lambda n: (lambda cx: cx.arg(n)[1])
    one = lambda cx: [(cx.arg('a')[1], cx.arg('b')[1])]
    for t, k, sz in NODES:
        szs = sz or (1,)
        o('s1_' + k, 'I* s1_%s(%s const & x, I const * a, I const * b){ return x.substitute(a, b); }' % (k, t), substs(P('x'), one), sizes=szs)
        for n in range(0, 4 if thorough else 3):
            ps = ''.join(', I const * a%d, I const * b%d' % (i, i) for i in range(n))
            mk = ' '.join('s[%d] = a%d; r[%d] = b%d;' % (i, i, i, i) for i in range(n))
            o('s%dv_%s' % (n, k), 'I* s%dv_%s(%s const & x%s){ Ptrs s(%d), r(%d); %s return x.substitute(s, r); }' % (n, k, t, ps, n, n, mk),
                substs(P('x'), lambda cx, n=n: [(cx.arg('a%d' % i)[1], cx.arg('b%d' % i)[1]) for i in range(n)]), sizes=szs)
    # many components, many pairs
    o('s1_wB', 'I* s1_wB(rt_vector_expr<I> const & x, I const * a, I const * b){ return x.substitute(a, b); }', substs(P('x'), one), sizes=(BIG,))
    o('s1v_wB', 'I* s1v_wB(rt_vector_expr<I> const & x, I const * a, I const * b){ Ptrs s(1), r(1); s[0] = a; r[0] = b; return x.substitute(s, r); }', substs(P('x'), one), sizes=(BIG,))
    for t, k, sz in NODES:
        if sz and sz != (2,): continue
        n = 13; t0 = 'rt_variable<I>' if k == 'c' else 'rt_constant<double, I>'          # all but two of the searched expressions are of another kind
        ps = ''.join(', %s, I const * b%d' % ('I const * a%d' % i if i >= n - 2 else '%s const & a%d' % (t0, i), i) for i in range(n))
        mk = ' '.join('s[%d] = %sa%d; r[%d] = b%d;' % (i, '' if i >= n - 2 else '&', i, i, i) for i in range(n))
        o('s%dv_%s' % (n, k), 'I* s%dv_%s(%s const & x%s){ Ptrs s(%d), r(%d); %s return x.substitute(s, r); }' % (n, k, t, ps, n, n, mk),
            substs(P('x'), lambda cx, n=n: [(cx.arg('a%d' % i)[1], cx.arg('b%d' % i)[1]) for i in range(n)]), sizes=sz or (1,))
    for f in ALLUN:
        o('s1u_' + f, 'I* s1u_%s(I* L, I const * a, I const * b%s){ %s return e.substitute(a, b); }' % (f, opp(f), U(f)), sizes=(1,),
            check=expect(lambda cx, f=f: sub_un(cx, f, one(cx))))
        o('s2u_' + f, 'I* s2u_%s(I* L, I const * a, I const * b%s){ Ptrs s(1), r(1); s[0] = a; r[0] = b; %s return e.substitute(s, r); }' % (f, opp(f), U(f)), sizes=(1,),
            check=expect(lambda cx, f=f: sub_un(cx, f, one(cx))))
    def sub_bin(cx, b, pairs):
        for a, r in pairs:
            if cx.st.h[cx.it.root(cx.st, a)].opq: continue
            if cx.cname(cx.it.root(cx.st, a)) != 'viennamath::rt_binary_expr': continue
            ro = cx.it.root(cx.st, cx.accd(cx.it.root(cx.st, a), 'op')[1])
            l, m = [cx.accd(cx.it.root(cx.st, a), z)[1] for z in ('lhs', 'rhs')]
            oe = None if cx.st.h[ro].opq else ('op_' + b == cx.opname(ro)[0])
            if cx.st.h[ro].opq and any(True for x in cx.st.facts if x == ('not', ro)): oe = False
            e = and3(eq3(cx, cx.arg('L')[1], l), oe, eq3(cx, cx.arg('M')[1], m))
            if e is None: raise Bad('the expression is not compared completely with the one searched for')
            if e:
                cx.deadok += 1
                try: return cx.deno(r)
                finally: cx.deadok -= 1
        k = pairkey(cx, pairs)
        return self_arith(cx, BIN[b], subst(cx, cx.arg('L')[1], pairs, k), subst(cx, cx.arg('M')[1], pairs, k))
    def sub_un(cx, f, pairs):
        for a, r in pairs:
            ra = cx.it.root(cx.st, a)
            if cx.st.h[ra].opq or cx.cname(ra) != 'viennamath::rt_unary_expr': continue
            ro = cx.it.root(cx.st, cx.accd(ra, 'op')[1])
            if cx.st.h[ro].opq: oe = False if ('not', ro) in cx.st.facts else None
            elif cx.opname(ro)[0] != 'op_' + f: oe = False
            elif f in ('partial_deriv', 'rt_symbolic_integral'):
                st = cx.accd(ro, 'op')[1]
                if f == 'rt_symbolic_integral': st = cx.accd(st, 'interval')[1]
                oe = decide(cx, cx.accd(st, 'id'), '==', cx.d('k'))
            elif f == 'rt_integral':
                st = cx.accd(ro, 'op')[1]; ia, ib = cx.accd(st, 'interval')[1], cx.arg('iv')[1]
                oe = and3(eq3(cx, cx.accd(st, 'variable')[1], cx.arg('v')[1]), *[eq3(cx, cx.accd(ia, z)[1], cx.accd(ib, z)[1]) for z in ('lower', 'upper')])
            else: oe = True
            e = and3(eq3(cx, cx.arg('L')[1], cx.accd(ra, 'lhs')[1]), oe)
            if e is None: raise Bad('the expression is not compared completely with the one searched for')
            if e:
                cx.deadok += 1
                try: return cx.deno(r)
                finally: cx.deadok -= 1
        return uden(cx, f, cx.sc(subst(cx, cx.arg('L')[1], pairs, pairkey(cx, pairs))))
    for b in BIN:
        o('s1b_' + b, 'I* s1b_%s(I* L, I* M, I const * a, I const * b){ %s return e.substitute(a, b); }' % (b, B(b)), sizes=(1,), check=expect(lambda cx, b=b: sub_bin(cx, b, one(cx))))
        o('s2b_' + b, 'I* s2b_%s(I* L, I* M, I const * a, I const * b){ Ptrs s(1), r(1); s[0] = a; r[0] = b; %s return e.substitute(s, r); }' % (b, B(b)), sizes=(1,), check=expect(lambda cx, b=b: sub_bin(cx, b, one(cx))))
    # the free functions: argument order search, replacement, expression; the result is simplified
    SEARCH = [('rt_variable<I>', 'v'), ('rt_function_symbol<I>', 'f'), ('rt_unary_expr<I>', 'u'), ('rt_binary_expr<I>', 'b'), ('rt_expr<I>', 'e')]
    def inner(cx, n):
        v = cx.arg(n)
        if isinstance(v, tuple) and v[0] in ('o', 'p'):
            cx.deadok += 1
            try:
                if cx.cname(v[1]) == 'viennamath::rt_expr': return cx.acc(v[1], 'get')[1]
            finally: cx.deadok -= 1
        return v[1]
    def free(cx): return [(inner(cx, 'a'), inner(cx, 'b'))]
    def keyed(key):
        def f(cx):
            x = cx.it.root(cx.st, inner(cx, 'x'))
            if not cx.st.h[x].opq: raise Bad('the wrapped expression is looked at')
            cx.deadok += 1
            try: return osym(cx, 'subst(%s;%s->%s)' % (cx.st.h[x].tag, cx.it.skey(cx.st, cx.arg('a')[1]), key))
            finally: cx.deadok -= 1
        return f
    for t, k in SEARCH:
        o('f_%s_e' % k, 'rt_expr<I> f_%s_e(%s const & a, rt_expr<I> const & b, rt_expr<I> const & x){ return substitute(a, b, x); }' % (k, t), substs(lambda cx: inner(cx, 'x'), free))
        for t2, k2 in (('rt_constant<double, I>', 'c'), ('rt_variable<I>', 'v'), ('rt_unary_expr<I>', 'u'), ('rt_binary_expr<I>', 'b'), ('rt_function_symbol<I>', 'f')):
            if k in 'vub': o('f_%s_%s' % (k, k2), 'rt_expr<I> f_%s_%s(%s const & a, %s const & b, rt_expr<I> const & x){ return substitute(a, b, x); }' % (k, k2, t, t2), substs(lambda cx: inner(cx, 'x'), free))
        if k in 'vf':
            def num(cx):
                x = cx.it.root(cx.st, inner(cx, 'x'))
                if cx.st.h[x].opq:
                    cx.deadok += 1
                    try: return osym(cx, 'subst(%s;%s->rt_constant<double, I>{%s})' % (cx.st.h[x].tag, cx.it.skey(cx.st, cx.arg('a')[1]), Q.fmt(cx.d('b'))))
                    finally: cx.deadok -= 1
                raise Bad('the wrapped expression is looked at')
            o('f_%s_n' % k, 'rt_expr<I> f_%s_n(%s const & a, double b, rt_expr<I> const & x){ return substitute(a, b, x); }' % (k, t), expect(num))
        if k in 'vub':
            # numbers, compile-time expressions and bare nodes as replacement
            o('f_%s_cv' % k, 'rt_expr<I> f_%s_cv(%s const & a, rt_constant<double, I> const & b, rt_expr<I> const & x){ return substitute(a, b(), x); }' % (k, t), substs(lambda cx: inner(cx, 'x'), free))
            o('f_%s_i' % k, 'rt_expr<I> f_%s_i(%s const & a, I const & b, rt_expr<I> const & x){ return substitute(a, b, x); }' % (k, t), substs(lambda cx: inner(cx, 'x'), free))
            for cn, ct_, key in (('cc', 'ct_constant<7>()', 'rt_constant<double, I>{7}'), ('cx', 'ct_variable<3>()', 'rt_variable<I>{3}')):
                o('f_%s_%s' % (k, cn), 'rt_expr<I> f_%s_%s(%s const & a, rt_expr<I> const & x){ return substitute(a, %s, x); }' % (k, cn, t, ct_), expect(keyed(key)))
    for t, k in (('rt_unary_expr<I>', 'u'), ('rt_binary_expr<I>', 'b'), ('rt_vector_expr<I>', 'w')):
        for t2, k2 in (('rt_constant<double, I>', 'c'), ('rt_variable<I>', 'v')):
            o('fx_%s_%s' % (k, k2), 'rt_expr<I> fx_%s_%s(rt_variable<I> const & a, %s const & b, %s const & x){ return substitute(a, b, x); }' % (k, k2, t2, t), substs(P('x'), one))
    for t, k in (('rt_unary_expr<I>', 'u'), ('rt_binary_expr<I>', 'b'), ('rt_vector_expr<I>', 'w'), ('rt_variable<I>', 'v'), ('rt_constant<double, I>', 'c'), ('rt_function_symbol<I>', 'f')):
        o('fy_%s_n' % k, 'rt_expr<I> fy_%s_n(rt_variable<I> const & a, rt_constant<double, I> const & b, %s const & x){ return substitute(a, b(), x); }' % (k, t), substs(P('x'), one))
        o('fy_%s_e' % k, 'rt_expr<I> fy_%s_e(rt_variable<I> const & a, rt_expr<I> const & b, %s const & x){ return substitute(a, b, x); }' % (k, t), substs(P('x'), free))
        o('fy_%s_i' % k, 'rt_expr<I> fy_%s_i(rt_variable<I> const & a, I const & b, %s const & x){ return substitute(a, b, x); }' % (k, t), substs(P('x'), one))
    for n in list(range(0, 4 if thorough else 3)) + [13]:
        def many(cx, n=n):
            s, r = [[cx.accd(e[1], 'get')[1] for e in elems(cx, cx.arg(z))] for z in 'ab']
            return list(zip(s, r))
        o('fm%d' % n, 'rt_expr<I> fm%d(std::vector<rt_expr<I> > const & a, std::vector<rt_expr<I> > const & b, rt_expr<I> const & x){ return substitute(a, b, x); }' % n,
            substs(lambda cx: inner(cx, 'x'), many), sizes=(n,), abort=True)
    return out

# ------------------------------------------------------------------------------------------------ R13
def fwfact(cx, name, oid):
    r = cx.it.root(cx.st, oid)
    for k, v in cx.st.facts.items():
        if isinstance(k, tuple) and len(k) == 3 and k[0] == name and k[2] == r: return v
    return None
def manip(cx, x):
    it, st = cx.it, cx.st
    r = it.root(st, x); o = st.h[r]
    if o.opq: return osym(cx, 'manip(%s)' % o.tag)
    n = cx.cname(r).replace('viennamath::', '')
    if n == 'rt_expr': return manip(cx, cx.accd(r, 'get')[1])
    m = fwfact(cx, 'modifies', r)
    if m is None: raise Bad('%s is handled without asking the functor' % it.describe(st, r))
    if m:
        cx.deadok += 1
        try: return cx.app(Q.sym(('sk', 'fw(%s)' % it.skey(st, r))))
        finally: cx.deadok -= 1
    if n == 'rt_unary_expr': return cx.uop(cx.accd(r, 'op')[1], manip(cx, cx.accd(r, 'lhs')[1]))
    if n == 'rt_binary_expr': return cx.bop(cx.accd(r, 'op')[1], manip(cx, cx.accd(r, 'lhs')[1]), manip(cx, cx.accd(r, 'rhs')[1]))
    if n == 'rt_vector_expr': return ('vec', [manip(cx, e[1]) for e in it.vec(st, r)])
    cx.deadok += 1
    try: return cx.app(Q.sym(('sk', 'fw(%s)' % it.skey(st, r)))) if False else cx.deno(r)
    finally: cx.deadok -= 1
@family('R13')
def r13(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    extra = [('rt_vector_expr<I>', 'w%d' % n, (n,)) for n in ((4, 5, BIG) if thorough else (BIG,))]
    def trav(cx, ob):
        it, st = cx.it, cx.st; x = it.root(st, cx.arg('x')[1])
        step = fwfact(cx, 'step', x)
        vis = [e[1] for e in st.events if e[0] == 'visit']; tr = [e[1] for e in st.events if e[0] == 'traverse']
        n = cx.cname(x).replace('viennamath::', '')
        kids = {'rt_unary_expr': ['lhs'], 'rt_binary_expr': ['lhs', 'rhs']}.get(n, [])
        kids = [it.root(st, cx.accd(x, k)[1]) for k in kids]
        if n == 'rt_vector_expr': kids = [it.root(st, cx.accd(e[1], 'get')[1]) for e in it.vec(st, x)]
        if vis != [x]:
            if vis.count(x) != 1: raise Bad('the node itself is presented to the visitor %d times' % vis.count(x))
            raise Bad('nodes presented to the visitor: %s' % [it.describe(st, v) for v in vis])
        if kids and step is None: raise Bad('operands are handled without asking the visitor whether to step into the node')
        want = sorted(kids) if step else []
        if sorted(tr) != want: raise Bad('operands descended into: %d of %d%s' % (len(tr), len(kids), '' if step else ' although the visitor does not step into the node'))
    for t, k, sz in NODES + extra:
        sz = sz or (2,)
        o('t_' + k, 'void t_%s(%s const & x, rt_traversal_wrapper<I> const & fw){ x.recursive_traversal(fw); }' % (k, t), check=trav, sizes=sz)
        leaf = k in 'cvf'
        def leafm(cx, ob):
            r = cx.it.root(cx.st, cx.arg('x')[1])
            got = cx.den(ob.v)
            m = fwfact(cx, 'modifies', r)
            cx.deadok += 1
            try: f = cx.app(Q.sym(('sk', 'fw(%s)' % cx.it.skey(cx.st, r))))
            finally: cx.deadok -= 1
            if m is False and same(cx, got, cx.d('x')): return          # a leaf that is not modified may be copied at once
            if not same(cx, got, f): raise Bad('a leaf is not handed to the functor: result %s' % show(got))
        o('m_' + k, 'I* m_%s(%s const & x, rt_manipulation_wrapper<I> const & fw){ return x.recursive_manipulation(fw); }' % (k, t), check=leafm if leaf else expect(lambda cx: manip(cx, cx.arg('x')[1])), sizes=sz)
    for f in ALLUN:
        def um(cx, ob, f=f):
            got = cx.den(ob.v); L = cx.it.root(cx.st, cx.arg('L')[1])
            ms = [v for k, v in cx.st.facts.items() if isinstance(k, tuple) and k[0] == 'modifies']
            if len(ms) != 1: raise Bad('the functor is asked %d times whether it modifies the node' % len(ms))
            if ms[0]:
                if not Q.fmt(got).startswith("fw("): 
                    if 'fw(' not in Q.fmt(got): raise Bad('result %s although the functor modifies the node' % show(got))
            elif not same(cx, got, uden(cx, f, manip(cx, L))): raise Bad('result %s' % show(got))
        o('mu_' + f, 'I* mu_%s(I* L%s, rt_manipulation_wrapper<I> const & fw){ %s return e.recursive_manipulation(fw); }' % (f, opp(f), U(f)), check=um)
    for b, k in BIN.items():
        def bm(cx, ob, k=k):
            got = cx.den(ob.v)
            ms = [v for q, v in cx.st.facts.items() if isinstance(q, tuple) and q[0] == 'modifies']
            if len(ms) != 1: raise Bad('the functor is asked %d times whether it modifies the node' % len(ms))
            if ms[0]:
                if 'fw(' not in Q.fmt(got): raise Bad('result %s although the functor modifies the node' % show(got))
            elif not same(cx, got, self_arith(cx, k, manip(cx, cx.arg('L')[1]), manip(cx, cx.arg('M')[1]))): raise Bad('result %s' % show(got))
        o('mb_' + b, 'I* mb_%s(I* L, I* M, rt_manipulation_wrapper<I> const & fw){ %s return e.recursive_manipulation(fw); }' % (b, B(b)), check=bm)
    # wrappers hand on to the functor they hold
    o('wm', 'bool wm(rt_manipulation_wrapper<I> const & fw, I const * x){ return fw.modifies(x); }', expect(lambda cx: fwfact(cx, 'modifies', cx.arg('x')[1])))
    o('wc', 'I* wc(rt_manipulation_wrapper<I> const & fw, I const * x){ return fw(x); }', expect(lambda cx: Q.sym(('sk', 'fw(x)'))))
    def once(kind):
        def f(cx, ob):
            v = [e[1] for e in cx.st.events if e[0] == kind]
            if v != [cx.it.root(cx.st, cx.arg('x')[1])]: raise Bad('functor called %d times' % len(v))
        return f
    # dispatch on the kind of node
    for t, k, sz in NODES:
        for t2, k2, _ in NODES:
            def cb(cx, ob, k=k, k2=k2):
                v = [e[1] for e in cx.st.events if e[0] == 'visit']
                hit = k[0] == k2[0]
                if ob.v is not hit: raise Bad('returns %s for a %s' % (ob.v, k))
                want = [cx.it.root(cx.st, cx.arg('x')[1])] if hit else []
                if v != want: raise Bad('functor called %d times' % len(v))
            o('cb_%s_%s' % (k, k2), 'bool cb_%s_%s(%s const & x, rt_traversal_wrapper<I> const & fw){ I const * p = &x; return callback_if_castable<%s>::apply(p, Cast<%s>(fw)); }' % (k, k2, t, t2, t2), check=cb, sizes=(sz or (2,))[:1])
    o('dst', 'bool dst(I const * x){ TraverseAll t; return t.step_into(x); }', expect(lambda cx: True))
    o('wt', 'void wt(rt_traversal_wrapper<I> const & fw, I const * x){ fw(x); }', check=once('visit'))
    o('ws', 'bool ws(rt_traversal_wrapper<I> const & fw, I const * x){ return fw.step_into(x); }', expect(lambda cx: fwfact(cx, 'step', cx.arg('x')[1])))
    return out

# ------------------------------------------------------------------------------------------------ R15
CTX = lambda i: Q.sym(('x', str(i)))
def kind(n, decl=None, expr=None, den=None): return (n, decl, expr, den)
RTK = {  # kind of operand -> type of the parameter
  'n': 'double', 'c': 'rt_constant<double, I> const &', 'v': 'rt_variable<I> const &', 'f': 'rt_function_symbol<I> const &', 'u': 'rt_unary_expr<I> const &',
  'b': 'rt_binary_expr<I> const &', 'e': 'rt_expr<I> const &', 'cl': 'rt_constant<long, I> const &', 'cf': 'rt_constant<float, I> const &'}
CTT = {  # compile-time operands: type and what it denotes
  'C': ('ct_constant<3>', lambda: Q.num(3)), 'C0': ('ct_constant<0>', lambda: Q.ZERO), 'C1': ('ct_constant<1>', lambda: Q.ONE), 'CM': ('ct_constant<-7>', lambda: Q.num(-7)),
  'V': ('ct_variable<0>', lambda: CTX(0)), 'V1': ('ct_variable<1>', lambda: CTX(1)),
  'BP': ('ct_binary_expr<ct_constant<5>, op_plus<double>, ct_variable<1> >', lambda: Q.num(5) + CTX(1)),
  'BM': ('ct_binary_expr<ct_constant<5>, op_minus<double>, ct_variable<1> >', lambda: Q.num(5) - CTX(1)),
  'BQ': ('ct_binary_expr<ct_variable<0>, op_minus<double>, ct_constant<4> >', lambda: CTX(0) - Q.num(4)),
  'BS': ('ct_binary_expr<ct_variable<0>, op_plus<double>, ct_variable<2> >', lambda: CTX(0) + CTX(2)),
  'BT': ('ct_binary_expr<ct_variable<0>, op_mult<double>, ct_variable<1> >', lambda: CTX(0) * CTX(1)),
  'BD': ('ct_binary_expr<ct_variable<0>, op_div<double>, ct_variable<1> >', lambda: CTX(0) / CTX(1)),
  'U': ('ct_unary_expr<ct_variable<1>, op_exp<double> >', lambda: Q.fn('exp', CTX(1))),
  'F': ('ct_function_symbol<unknown_tag<0> >', None), 'G': ('ct_function_symbol<test_tag<2> >', None),
  # constants beyond the range of an int
  'CL': ('ct_constant<8589934592L>', lambda: Q.num(2 ** 33)),
  'BL': ('ct_binary_expr<ct_constant<-8589934592L>, op_plus<double>, ct_variable<1> >', lambda: Q.num(-2 ** 33) + CTX(1)),
  'BZ': ('ct_binary_expr<ct_variable<0>, op_minus<double>, ct_constant<8589934592L> >', lambda: CTX(0) - Q.num(2 ** 33)),
  # as produced by mixing run time constants with compile time expressions
  'RP': ('ct_binary_expr<rt_constant<double, I>, op_plus<double>, ct_variable<0> >', None),
  'RM': ('ct_binary_expr<rt_constant<double, I>, op_minus<double>, ct_variable<1> >', None),
  'RQ': ('ct_binary_expr<ct_variable<0>, op_minus<double>, rt_constant<double, I> >', None),
  'RL': ('ct_binary_expr<rt_constant<long, I>, op_minus<double>, ct_variable<0> >', None),
  'RB': ('ct_binary_expr<rt_constant<double, I>, op_minus<double>, ct_binary_expr<ct_variable<0>, op_mult<double>, ct_constant<2> > >', None)}
# numbers and indices that no small sample contains (neighbours of the literals in the headers among them)
from .ct import odd_ints, odd_ids
ODD = {}
for n_ in odd_ints(): ODD['I%s' % str(n_).replace('-', 'm')] = ('ct_constant<%dL>' % n_, lambda n=n_: Q.num(n))
for n_ in odd_ids():
    ODD['W%d' % n_] = ('ct_variable<%d>' % n_, lambda n=n_: CTX(n))
    ODD['G%d' % n_] = ('ct_function_symbol<unknown_tag<%d> >' % n_, None)
    ODD['H%d' % n_] = ('ct_function_symbol<test_tag<%d> >' % n_, None)
CTO = dict(CTT); CTO.update(ODD)
def opnd(k, p):
    """(parameter declaration or '', expression text, oracle)"""
    if k in RTK: return RTK[k] + ' ' + p, p, lambda cx: cx.d(p)
    t, d = CTO[k]
    return t + ' const & ' + p, p, (lambda cx: d()) if d else (lambda cx: cx.d(p))
SYMB = {'plus': '+', 'minus': '-', 'mult': '*', 'div': '/'}
def arithpairs():
    ks = list(RTK) + list(CTT)
    for a in ks:
        for b in ks:
            if a == 'n' and b == 'n': continue
            if a == 'CL' and b == 'CL': continue  # the product is not representable
            yield a, b
    for a in ODD:
        for b in ('n', 'v', 'e', 'c', 'C', 'V', 'BM'): yield a, b; yield b, a
@family('R15')
def r15(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    for a, b in arithpairs():
        pa, xa, da = opnd(a, 'a'); pb, xb, db = opnd(b, 'b')
        for nm, k in SYMB.items():
            def chk(cx, ob, k=k, da=da, db=db):
                try: w = self_arith(cx, k, da(cx), db(cx))
                except Q.Undefined: return
                g = cx.den(ob.v)
                if not same(cx, g, w): raise Bad('result denotes %s, expected %s' % (show(g), show(w)))
            o('%s_%s_%s' % (nm, a, b), 'auto %s_%s_%s(%s, %s) -> decltype(%s %s %s) { return %s %s %s; }' % (nm, a, b, pa, pb, xa, k, xb, xa, k, xb), check=chk)
    return out

# ------------------------------------------------------------------------------------------------ R16
# further compile-time operands for conversions
CTT2 = dict(CTT)
CTT2.update({
  'N1': ('ct_binary_expr<ct_binary_expr<ct_variable<0>, op_mult<double>, ct_variable<1> >, op_minus<double>, ct_binary_expr<ct_variable<1>, op_div<double>, ct_variable<2> > >', lambda: CTX(0) * CTX(1) - CTX(1) / CTX(2)),
  'N2': ('ct_binary_expr<ct_binary_expr<ct_variable<0>, op_minus<double>, ct_variable<1> >, op_minus<double>, ct_constant<6> >', lambda: CTX(0) - CTX(1) - Q.num(6)),
  'N3': ('ct_binary_expr<ct_constant<2>, op_minus<double>, ct_binary_expr<ct_variable<0>, op_plus<double>, ct_variable<1> > >', lambda: Q.num(2) - CTX(0) - CTX(1)),
  'N4': ('ct_binary_expr<ct_unary_expr<ct_variable<0>, op_sin<double> >, op_div<double>, ct_variable<1> >', lambda: Q.fn('sin', CTX(0)) / CTX(1)),
  'N5': ('ct_binary_expr<ct_variable<0>, op_minus<double>, ct_unary_expr<ct_variable<1>, op_cos<double> > >', lambda: CTX(0) - Q.fn('cos', CTX(1))),
  'N6': ('ct_binary_expr<ct_unary_expr<ct_constant<2>, op_exp<double> >, op_minus<double>, ct_constant<3> >', lambda: Q.fn('exp', Q.num(2)) - Q.num(3)),
  'N7': ('ct_binary_expr<ct_constant<9>, op_div<double>, ct_unary_expr<ct_binary_expr<ct_variable<0>, op_plus<double>, ct_constant<1> >, op_log<double> > >', lambda: Q.num(9) / Q.fn('log', CTX(0) + Q.ONE)),
  'N8': ('ct_binary_expr<ct_function_symbol<test_tag<1> >, op_mult<double>, ct_function_symbol<unknown_tag<2> > >', lambda: Q.sym(('fs', '1', '1')) * Q.sym(('fs', '2', '0'))),
  'N9': ('ct_binary_expr<ct_constant<7>, op_minus<double>, ct_constant<9> >', lambda: Q.num(-2)),
  'NA': ('ct_binary_expr<ct_constant<7>, op_div<double>, ct_variable<3> >', lambda: Q.num(7) / CTX(3)),
  'NB': ('ct_binary_expr<ct_binary_expr<ct_constant<7>, op_div<double>, ct_constant<2> >, op_mult<double>, ct_variable<3> >', lambda: Q.num(7) / Q.num(2) * CTX(3)),
  'UB': ('ct_unary_expr<ct_binary_expr<ct_variable<0>, op_minus<double>, ct_variable<1> >, op_sqrt<double> >', lambda: Q.fn('sqrt', CTX(0) - CTX(1))),
  'UU': ('ct_unary_expr<ct_unary_expr<ct_variable<0>, op_sin<double> >, op_fabs<double> >', lambda: Q.fn('fabs', Q.fn('sin', CTX(0)))),
  'UC': ('ct_unary_expr<ct_constant<4>, op_log10<double> >', lambda: Q.fn('log10', Q.num(4)))})
LG = {  # constants beyond the range of an int and not representable in single precision, for every shape and place
  'L1': ('ct_binary_expr<ct_constant<5000000007L>, op_mult<double>, ct_variable<0> >', lambda: Q.num(5000000007) * CTX(0)),
  'L2': ('ct_binary_expr<ct_variable<0>, op_div<double>, ct_constant<-5000000011L> >', lambda: CTX(0) / Q.num(-5000000011)),
  'L3': ('ct_binary_expr<ct_constant<5000000007L>, op_minus<double>, ct_constant<-5000000011L> >', lambda: Q.num(10000000018)),
  'L4': ('ct_binary_expr<ct_constant<5000000007L>, op_plus<double>, ct_binary_expr<ct_variable<0>, op_div<double>, ct_variable<1> > >', lambda: Q.num(5000000007) + CTX(0) / CTX(1)),
  'L5': ('ct_binary_expr<ct_binary_expr<ct_variable<0>, op_div<double>, ct_variable<1> >, op_mult<double>, ct_constant<5000000007L> >', lambda: CTX(0) / CTX(1) * Q.num(5000000007)),
  'L6': ('ct_unary_expr<ct_constant<5000000007L>, op_sin<double> >', lambda: Q.fn('sin', Q.num(5000000007))),
  'L7': ('ct_constant<-5000000011L>', lambda: Q.num(-5000000011))}
LG.update(ODD)
for k_, (t_, d_) in ODD.items():
    LG['M' + k_] = ('ct_binary_expr<%s, op_minus<double>, ct_variable<0> >' % t_, (lambda d=d_: d() - CTX(0)) if d_ else None)
    LG['N' + k_] = ('ct_binary_expr<ct_variable<0>, op_div<double>, %s >' % t_, (lambda d=d_: CTX(0) / d()) if d_ else None)
    LG['U' + k_] = ('ct_unary_expr<%s, op_exp<double> >' % t_, (lambda d=d_: Q.fn('exp', d())) if d_ else None)
def ctdecl(k): return CTT2[k][0] + ' const & '
@family('R16')
def r16(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    arg = lambda k: (RTK[k] if k in RTK else ctdecl(k)) + ' a'
    ctk = [k for k in CTT2 if k[0] in 'BNU' and k != 'UC' or k in ('V', 'V1')]
    for f in UN[1:]:
        for k in list('cvube') + ctk:
            o('fn_%s_%s' % (f, k), 'auto fn_%s_%s(%s) -> decltype(%s(a)) { return %s(a); }' % (f, k, arg(k), f, f), expect(lambda cx, f=f: uden(cx, f, cx.d('a'))), abort=True)
    for f, g, ks in (('grad', 'gradient', 'febu'), ('div', 'divergence', 'febu')):
        for k in ks:
            o('fn_%s_%s' % (f, k), 'auto fn_%s_%s(%s) -> decltype(%s(a)) { return %s(a); }' % (f, k, arg(k), f, f), expect(lambda cx, g=g: uden(cx, g, cx.d('a'))), abort=True)
    for k in 'ef':
        o('fn_laplace_%s' % k, 'auto fn_laplace_%s(%s) -> decltype(laplace(a)) { return laplace(a); }' % (k, arg(k)), expect(lambda cx: uden(cx, 'divergence', uden(cx, 'gradient', cx.d('a')))), abort=True)
    return out

# ------------------------------------------------------------------------------------------------ R14
CTT2.update({
  'R1': ('ct_binary_expr<rt_constant<double, I>, op_minus<double>, ct_variable<1> >', None),
  'R2': ('ct_binary_expr<ct_variable<2>, op_div<double>, rt_constant<double, I> >', None),
  'R3': ('ct_binary_expr<rt_constant<double, I>, op_plus<double>, ct_binary_expr<ct_variable<1>, op_mult<double>, ct_variable<0> > >', None)})
def isbin(k): return (CTT2.get(k) or LG[k])[0].startswith('ct_binary')
def isun(k): return (CTT2.get(k) or LG[k])[0].startswith('ct_unary')
@family('R14')
def r14(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    for k in list(CTT2) + list(LG):
        t, d = CTT2.get(k) or LG[k]; arg = t + ' const & a'
        ex = expect((lambda cx, d=d: d()) if d else (lambda cx: cx.d('a')))
        o('xe_' + k, 'rt_expr<I> xe_%s(%s){ rt_expr<I> r(a); return r; }' % (k, arg), ex)
        o('xi_' + k, 'rt_expr<I> xi_%s(%s){ return a; }' % (k, arg), ex)
        o('xa_' + k, 'rt_expr<I> xa_%s(%s, I* L){ rt_expr<I> r(L); r = a; return r; }' % (k, arg), ex)
        o('xn_' + k, 'rt_expr<I> xn_%s(%s){ rt_expr<I> r; r = a; return r; }' % (k, arg), ex)
        o('xc_' + k, 'I* xc_%s(%s){ return viennamath::traits::clone<I>(a); }' % (k, arg), ex)
        if isbin(k):
            o('be_' + k, 'rt_binary_expr<I> be_%s(%s){ rt_binary_expr<I> r(a); return r; }' % (k, arg), ex)
            o('ba_' + k, 'rt_binary_expr<I> ba_%s(%s, rt_binary_expr<I> const & b){ rt_binary_expr<I> r(b); r = a; return r; }' % (k, arg), ex)
            o('bn_' + k, 'rt_binary_expr<I> bn_%s(%s){ rt_binary_expr<I> r; r = a; return r; }' % (k, arg), ex)
        if isun(k):
            o('ue_' + k, 'rt_unary_expr<I> ue_%s(%s){ rt_unary_expr<I> r(a); return r; }' % (k, arg), ex)
            o('ua_' + k, 'rt_unary_expr<I> ua_%s(%s, rt_unary_expr<I> const & b){ rt_unary_expr<I> r(b); r = a; return r; }' % (k, arg), ex)
            o('un_' + k, 'rt_unary_expr<I> un_%s(%s){ rt_unary_expr<I> r; r = a; return r; }' % (k, arg), ex)
        if t.startswith('ct_constant'):
            o('ub_' + k, 'rt_unary_expr<I> ub_%s(%s){ rt_unary_expr<I> r(a); return r; }' % (k, arg), ex)
            o('uc_' + k, 'rt_unary_expr<I> uc_%s(%s, rt_unary_expr<I> const & b){ rt_unary_expr<I> r(b); r = a; return r; }' % (k, arg), ex)
            o('bc_' + k, 'rt_binary_expr<I> bc_%s(%s, rt_binary_expr<I> const & b){ rt_binary_expr<I> r(b); r = a; return r; }' % (k, arg), ex)
            o('cv_' + k, 'long cv_%s(%s){ return a; }' % (k, arg), ex)
            o('cd_' + k, 'double cd_%s(%s){ return a; }' % (k, arg), ex)
        if t.startswith('ct_function'):
            o('fs_' + k, 'rt_function_symbol<I> fs_%s(%s){ rt_function_symbol<I> r(a); return r; }' % (k, arg), ex)
    # runtime values into wrappers
    for t, k, sz in NODES:
        sz = sz or (2,)
        ex = expect(lambda cx: cx.d('a'))
        o('re_' + k, 'rt_expr<I> re_%s(%s const & a){ rt_expr<I> r(a); return r; }' % (k, t), ex, sizes=sz)
        o('ri_' + k, 'rt_expr<I> ri_%s(%s const & a){ return a; }' % (k, t), ex, sizes=sz)
        o('ra_' + k, 'rt_expr<I> ra_%s(%s const & a, I* L){ rt_expr<I> r(L); r = a; return r; }' % (k, t), ex, sizes=sz)
    ex = expect(lambda cx: cx.d('a'))
    o('rd', 'rt_expr<I> rd(double a){ return rt_expr<I>(a); }', ex)
    o('rda', 'rt_expr<I> rda(double a, I* L){ rt_expr<I> r(L); r = a; return r; }', ex)
    o('rp', 'rt_expr<I> rp(I* a){ return rt_expr<I>(a); }', ex)
    o('rpa', 'rt_expr<I> rpa(I* a, I* L){ rt_expr<I> r(L); r = a; return r; }', ex)
    o('rk', 'rt_constant<double, I> rk(double a){ return rt_constant<double, I>(a); }', ex)
    o('rkd', 'double rkd(rt_constant<double, I> const & a){ return a; }', ex)
    o('rkv', 'I* rkv(double a){ return viennamath::traits::clone<I>(a); }', ex)
    for n, t in (('c', 'rt_constant<double, I> const &'), ('d', 'double')):
        o('br' + n, 'rt_binary_expr<I> br%s(%s a, rt_binary_expr<I> const & b){ rt_binary_expr<I> r(b); r = a; return r; }' % (n, t), ex)
        o('ur' + n, 'rt_unary_expr<I> ur%s(%s a, rt_unary_expr<I> const & b){ rt_unary_expr<I> r(b); r = a; return r; }' % (n, t), ex)
    o('uv', 'rt_unary_expr<I> uv(rt_variable<I> const & a){ return rt_unary_expr<I>(a); }', ex)
    o('uk', 'rt_unary_expr<I> uk(rt_constant<double, I> const & a){ return rt_unary_expr<I>(a); }', ex)
    o('up', 'rt_unary_expr<I> up(I * a){ return rt_unary_expr<I>(a); }', ex)
    return out

# ------------------------------------------------------------------------------------------------ R25
@family('R25')
def r25(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    F = 'rt_function_symbol<I>'
    def ids(i, t):
        def f(cx, ob):
            r = cx.it.root(cx.st, ob.v[1])
            if cx.cname(r).replace('viennamath::', '') == 'rt_expr': r = cx.it.root(cx.st, cx.accd(r, 'get')[1])
            if cx.cname(r) != 'viennamath::rt_function_symbol': raise Bad('result is a %s' % cx.cname(r))
            for n, w in (('id', i), ('tag_id', t)):
                g = cx.accd(r, n); x = w(cx) if callable(w) else w
                if decide(cx, g, '==', x) is not True: raise Bad('%s() of the result is %s, expected %s' % (n, show(cx.sc(g)), show(cx.sc(x)) if not isinstance(x, int) else x))
        return f
    num = lambda n: Q.num(n)
    src = lambda m: (lambda cx: cx.accd(cx.arg('a')[1], m))
    for tg, t in (('unknown_tag<0>', 0), ('unknown_tag<4>', 0), ('test_tag<0>', 1), ('test_tag<7>', 1), ('unknown_tag<>', 0), ('test_tag<>', 1)):
        n = re.sub(r'\W', '', tg)
        o('mk_' + n, '%s mk_%s(std::size_t i){ return %s(i, %s()); }' % (F, n, F, tg), ids(lambda cx: cx.d('i'), num(t)))
        o('tg_' + n, 'std::size_t tg_%s(){ return %s::tag_id(); }' % (n, tg), expect(lambda cx, t=t: Q.num(t)))
        k = re.search(r'<(\d*)>', tg).group(1) or '0'
        C = 'ct_function_symbol<%s > const & a' % tg
        o('ct_' + n, '%s ct_%s(%s){ return %s(a); }' % (F, n, C, F), ids(num(int(k)), num(t)))
        o('ce_' + n, 'rt_expr<I> ce_%s(%s){ rt_expr<I> r(a); return r; }' % (n, C), ids(num(int(k)), num(t)))
        o('ca_' + n, 'rt_expr<I> ca_%s(%s){ rt_expr<I> r; r = a; return r; }' % (n, C), ids(num(int(k)), num(t)))
    o('ctu', '%s ctu(){ ct_function_symbol<vd::UTag> a; return %s(a); }' % (F, F), ids(num(0), num(42)))
    o('mku', '%s mku(std::size_t i){ return %s(i, vd::UTag()); }' % (F, F), ids(lambda cx: cx.d('i'), num(42)))
    o('mk2', '%s mk2(std::size_t i, std::size_t t){ return %s(i, t); }' % (F, F), ids(lambda cx: cx.d('i'), lambda cx: cx.d('t')))
    o('mk1', '%s mk1(std::size_t i){ return %s(i); }' % (F, F), ids(lambda cx: cx.d('i'), num(0)))
    o('mk0', '%s mk0(){ return %s(); }' % (F, F), ids(num(0), num(0)))
    A = F + ' const & a'
    cp = ids(src('id'), src('tag_id'))
    o('cp', '%s cp(%s){ %s r(a); return r; }' % (F, A, F), cp)
    o('as', '%s as(%s, %s const & b){ %s r(b); r = a; return r; }' % (F, A, F, F), cp)
    o('cl', 'I* cl(%s){ return a.clone(); }' % A, cp)
    o('clv', 'I* clv(%s){ I const & b = a; return b.clone(); }' % A, cp)
    o('tc', 'I* tc(%s){ return viennamath::traits::clone<I>(a); }' % A, cp)
    o('ex', 'rt_expr<I> ex(%s){ rt_expr<I> r(a); return r; }' % A, cp)
    o('ea', 'rt_expr<I> ea(%s){ rt_expr<I> r; r = a; rt_expr<I> s; s = r; return s; }' % A, cp)
    o('si', 'I* si(%s){ return a.simplify(); }' % A, cp)
    o('oc', 'I* oc(%s){ I * r = a.optimize(); return r; }' % A, cp) if False else None
    for k, m in (('de', 'deep_equal'), ('se', 'shallow_equal')):
        f = eq3 if k == 'de' else shallow3
        for t2, k2, sz2 in NODES:
            o('%s_%s' % (k, k2), 'bool %s_%s(%s const & x, %s const & y){ return x.%s(&y); }' % (k, k2, F, t2, m), check=eqcheck(f), sizes=sz2 or (2,))
            if k2 != 'f': o('%sr_%s' % (k, k2), 'bool %sr_%s(%s const & x, %s const & y){ return x.%s(&y); }' % (k, k2, t2, F, m), check=eqcheck(f), sizes=sz2 or (2,))
        o('%s_o' % k, 'bool %s_o(%s const & x, I const * y){ return x.%s(y); }' % (k, F, m), check=eqcheck(f))
    # identity survives where the compared symbols come from
    for n, x, y, w in (('same', 'unknown_tag<0>', 'unknown_tag<0>', True), ('index', 'unknown_tag<0>', 'unknown_tag<1>', False), ('tag', 'unknown_tag<0>', 'test_tag<0>', False), ('both', 'test_tag<1>', 'unknown_tag<0>', False)):
        o('ide_' + n, 'bool ide_%s(ct_function_symbol<%s > const & a, ct_function_symbol<%s > const & b){ %s x(a); %s y(b); return x.deep_equal(&y); }' % (n, x, y, F, F), expect(lambda cx, w=w: w))
    # not a number
    for n, c in (('ev', 'a.eval(p)'), ('evv', 'a.eval(std::vector<double>(1, p))')):
        o(n, 'double %s(%s, double p){ return %s; }' % (n, A, c), throws=['expression_not_evaluable_exception'], want='throw')
    o('uw', 'double uw(%s){ return a.unwrap(); }' % A, throws=['expression_not_unwrappable_exception'], want='throw')
    o('uwv', 'double uwv(%s){ I const & b = a; return b.unwrap(); }' % A, throws=['expression_not_unwrappable_exception'], want='throw')
    o('ic', 'bool ic(%s){ return a.is_constant(); }' % A, expect(lambda cx: False))
    # recognised inside expressions: replacing one symbol leaves the others
    def rep(cx, ob):
        a, b, s, c = [cx.arg(n)[1] for n in ('a', 'b', 's', 'c')]
        def one(x):
            e = eq3(cx, x, s)
            if e is None: raise Bad('a function symbol is not compared completely with the one searched for')
            return cx.d('c') if e else cx.deno(x)
        w = self_arith(cx, '-', one(a), one(b)); g = cx.den(ob.v)
        if not same(cx, g, w): raise Bad('result %s, expected %s' % (show(g), show(w)))
    o('rep', 'I* rep(%s, %s const & b, %s const & s, rt_constant<double, I> const & c){ rt_binary_expr<I> e(a.clone(), new op_binary<op_minus<double>, I>(), b.clone()); return e.substitute(&s, &c); }' % (A, F, F), check=rep)
    return out

# ------------------------------------------------------------------------------------------------ R19
@family('R19')
def r19(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    W = 'rt_vector_expr<I>'
    N = range(0, 6 if thorough else 4)
    P = lambda n: (lambda cx: cx.arg(n)[1])
    def isv(cx, ob):
        r = cx.it.root(cx.st, ob.v[1])
        if cx.cname(r) != 'viennamath::rt_vector_expr': raise Bad('the result is a %s, not a vector expression' % cx.cname(r))
    def vecof(f):
        e = expect(f)
        def chk(cx, ob): isv(cx, ob); return e(cx, ob)
        return chk
    for n in N:
        o('mk%d' % n, '%s mk%d(){ return %s(%d); }' % (W, n, W, n), vecof(lambda cx, n=n: ('vec', [Q.ZERO] * n)))
        for nm, k in (('add', '+'), ('sub', '-')):
            o('%s%d' % (nm, n), '%s %s%d(%s const & a, %s const & b){ return a %s b; }' % (W, nm, n, W, W, k), vecof(lambda cx, k=k: self_arith(cx, k, cx.d('a'), cx.d('b'))), sizes=(n,))
        o('self%d' % n, '%s self%d(%s const & a){ return a - a; }' % (W, n, W), vecof(lambda cx, n=n: ('vec', [Q.ZERO] * n)), sizes=(n,))
        if n: o('dot%d' % n, 'rt_expr<I> dot%d(%s const & a, %s const & b){ return a * b; }' % (n, W, W), expect(lambda cx: self_arith(cx, '*', cx.d('a'), cx.d('b'))), sizes=(n,))
        if n: o('sq%d' % n, 'rt_expr<I> sq%d(%s const & a){ return a * a; }' % (n, W), expect(lambda cx: self_arith(cx, '*', cx.d('a'), cx.d('a'))), sizes=(n,))
        for k in list(RTK) + ['C', 'CM', 'V', 'V1', 'BP', 'BT', 'BD', 'U', 'F'] if n in (1, 2) or thorough and n else ['n', 'e', 'c']:
            ps, xs, ds = opnd(k, 's')
            for nm, op in (('mult', '*'), ('div', '/')):
                o('%sr_%s%d' % (nm, k, n), 'auto %sr_%s%d(%s const & a, %s) -> decltype(a %s s) { return a %s s; }' % (nm, k, n, W, ps, op, op), vecof(lambda cx, op=op, ds=ds: self_arith(cx, op, cx.d('a'), ds(cx))), sizes=(n,))
                o('%sl_%s%d' % (nm, k, n), 'auto %sl_%s%d(%s const & a, %s) -> decltype(s %s a) { return s %s a; }' % (nm, k, n, W, ps, op, op), vecof(lambda cx, op=op, ds=ds: self_arith(cx, op, ds(cx), cx.d('a'))), sizes=(n,))
        o('cl%d' % n, 'I* cl%d(%s const & a){ return a.clone(); }' % (n, W), vecof(lambda cx: cx.d('a')), sizes=(n,))
        o('cc%d' % n, '%s cc%d(%s const & a){ %s r(a); return r; }' % (W, n, W, W), vecof(lambda cx: cx.d('a')), sizes=(n,))
        o('as%d' % n, '%s as%d(%s const & a, %s const & b){ %s r(b); r = a; return r; }' % (W, n, W, W, W), vecof(lambda cx: cx.d('a')), sizes=N)
        o('sim%d' % n, 'I* sim%d(%s const & a){ return a.simplify(); }' % (n, W), vecof(lambda cx: cx.d('a')), sizes=(n,))
        o('dif%d' % n, 'I* dif%d(%s const & a, I const * v){ return a.diff(v); }' % (n, W), vecof(lambda cx: cx.D(cx.d('a'), cx.var(cx.arg('v')[1]))), sizes=(n,))
        o('su%d' % n, 'I* su%d(%s const & a, I const * p, I const * q){ return a.substitute(p, q); }' % (n, W), substs(P('a'), lambda cx: [(cx.arg('p')[1], cx.arg('q')[1])]), sizes=(n,))
        for t, k in (('rt_variable<I>', 'v'), ('rt_constant<double, I>', 'c'), ('rt_unary_expr<I>', 'u')):
            o('su_%s%d' % (k, n), 'I* su_%s%d(%s const & a, %s const & p, I const * q){ return a.substitute(&p, q); }' % (k, n, W, t), substs(P('a'), lambda cx: [(cx.arg('p')[1], cx.arg('q')[1])]), sizes=(n,))
        o('man%d' % n, 'I* man%d(%s const & x, rt_manipulation_wrapper<I> const & fw){ return x.recursive_manipulation(fw); }' % (n, W), check=expect(lambda cx: manip(cx, cx.arg('x')[1])), sizes=(n,))
        for i in range(n):
            def elt(cx, i=i): return cx.deno(cx.it.vec(cx.st, cx.arg('a')[1])[i][1]) if False else cx.d('a')[1][i]
            o('el%d_%d' % (n, i), 'rt_expr<I> el%d_%d(%s const & a){ return a[%d]; }' % (n, i, W, i), expect(elt), sizes=(n,))
            o('st%d_%d' % (n, i), '%s st%d_%d(%s const & a, I* L){ %s r(a); r[%d] = L; return r; }' % (W, n, i, W, W, i), vecof(lambda cx, i=i: ('vec', [cx.d('L') if j == i else x for j, x in enumerate(cx.d('a')[1])])), sizes=(n,))
    # many components
    n = BIG
    for nm, k in (('add', '+'), ('sub', '-')):
        o('%s%d' % (nm, n), '%s %s%d(%s const & a, %s const & b){ return a %s b; }' % (W, nm, n, W, W, k), vecof(lambda cx, k=k: self_arith(cx, k, cx.d('a'), cx.d('b'))), sizes=(n,))
    o('dot%d' % n, 'rt_expr<I> dot%d(%s const & a, %s const & b){ return a * b; }' % (n, W, W), expect(lambda cx: self_arith(cx, '*', cx.d('a'), cx.d('b'))), sizes=(n,))
    for k in ['n', 'e', 'c', 'v', 'C', 'V']:
        ps, xs, ds = opnd(k, 's')
        for nm, op in (('mult', '*'), ('div', '/')):
            o('%sr_%s%d' % (nm, k, n), 'auto %sr_%s%d(%s const & a, %s) -> decltype(a %s %s) { return a %s %s; }' % (nm, k, n, W, ps, op, xs, op, xs), vecof(lambda cx, op=op, ds=ds: self_arith(cx, op, cx.d('a'), ds(cx))), sizes=(n,))
            o('%sl_%s%d' % (nm, k, n), 'auto %sl_%s%d(%s const & a, %s) -> decltype(%s %s a) { return %s %s a; }' % (nm, k, n, W, ps, xs, op, xs, op), vecof(lambda cx, op=op, ds=ds: self_arith(cx, op, ds(cx), cx.d('a'))), sizes=(n,))
    # operands of different size are refused, whatever the two sizes are
    def mism(cx, ob):
        x, y = [len(cx.it.vec(cx.st, cx.arg(n)[1])) for n in 'ab']
        if x != y: raise Bad('vectors of size %d and %d are combined' % (x, y))
    for nm, k, r in (('add', '+', W), ('sub', '-', W), ('dot', '*', 'rt_expr<I>')):
        o('mis_' + nm, '%s mis_%s(%s const & a, %s const & b){ return a %s b; }' % (r, nm, W, W, k), check=mism, sizes=tuple(N), abort=True, throws='*')
    o('ev', 'double ev(%s const & a, double p){ return a.eval(p); }' % W, throws=['expression_not_evaluable_exception'], want='throw', sizes=tuple(N))
    o('evv', 'double evv(%s const & a, Pt const & p){ return a.eval(p); }' % W, throws=['expression_not_evaluable_exception'], want='throw', sizes=tuple(N))
    o('uw', 'double uw(%s const & a){ return a.unwrap(); }' % W, throws=['expression_not_unwrappable_exception'], want='throw', sizes=tuple(N))
    return out

# ------------------------------------------------------------------------------------------------ R20
EQK = list(RTK) + ['C', 'C0', 'CM', 'V', 'V1', 'BP', 'BM', 'BQ', 'BS', 'BT', 'BD', 'U', 'F', 'G']
@family('R20')
def r20(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    def sides(get, da, db):
        def chk(cx, ob):
            r = cx.it.root(cx.st, ob.v[1])
            for g, d, w in zip(get, (da, db), ('first', 'second')):
                x = cx.den(cx.acc(r, g)); y = d(cx)
                if not same(cx, x, y): raise Bad('%s() denotes %s, the %s operand %s' % (g, show(x), w, show(y)))
        return chk
    def ctsides(cx, ob):
        # a compile-time equation or interval is its type
        r = cx.it.root(cx.st, ob.v[1]); ta = cx.it.targs(cx.st.h[r].cls)
        for t, n, w in zip(ta, 'ab', ('first', 'second')):
            x = cx.it.types[t['t']]['s']; y = cx.it.types[cx.it.types[cx.ptypes[cx.names.index(n)]]['t']]['s'].replace('const ', '', 1)
            if x != y: raise Bad('the %s side is %s, the operand %s' % (w, x, y))
    def claimed(fn, a, b):
        if a == 'n':
            if b == 'n': return fn == 'make_interval'
            return b in 'cvube' or b in ('V', 'V1') or (b[0] == 'C' and fn == 'make_interval')
        if b == 'n' and a in CTT: return fn == 'make_equation' or a[0] in 'VC'
        return True
    for a in EQK:
        for b in EQK:
            pa, xa, da = opnd(a, 'a'); pb, xb, db = opnd(b, 'b')
            for fn, get in (('make_equation', ('lhs', 'rhs')), ('make_interval', ('lower', 'upper'))):
                if not claimed(fn, a, b): continue
                nm = '%s_%s_%s' % (fn[5:8], a, b)
                o(nm, 'auto %s(%s, %s) -> decltype(%s(a, b)) { return %s(a, b); }' % (nm, pa, pb, fn, fn), check=ctsides if a in CTT and b in CTT else sides(get, da, db))
    for cls, get in (('rt_equation', ('lhs', 'rhs')), ('rt_interval', ('lower', 'upper'))):
        n = cls[3]; g0, g1 = get; Tc = cls + '<I>'
        o(n + '_two', '%s %s_two(I* L, I* M){ rt_expr<I> a(L), b(M); return %s(a, b); }' % (Tc, n, Tc), check=sides(get, lambda cx: cx.d('L'), lambda cx: cx.d('M')))
        for k in EQK:
            if k in 'n': continue
            p, x, d = opnd(k, 'a')
            o('%s_l%s' % (n, k), '%s %s_l%s(%s, rt_expr<I> const & e){ return %s(a, e); }' % (Tc, n, k, p, Tc), check=sides(get, d, lambda cx: cx.d('e')))
            o('%s_r%s' % (n, k), '%s %s_r%s(%s, rt_expr<I> const & e){ return %s(e, a); }' % (Tc, n, k, p, Tc), check=sides(get, lambda cx: cx.d('e'), d))
        o('%s_nn' % n, '%s %s_nn(double a, double b){ return %s(a, b); }' % (Tc, n, Tc), check=sides(get, lambda cx: cx.d('a'), lambda cx: cx.d('b')))
        src = [lambda cx, g=g: cx.den(cx.accd(cx.arg('x')[1], g)) for g in get]
        o('%s_cp' % n, '%s %s_cp(%s const & x){ %s r(x); return r; }' % (Tc, n, Tc, Tc), check=sides(get, *src))
        o('%s_as' % n, '%s %s_as(%s const & x, %s const & y){ %s r(y); r = x; return r; }' % (Tc, n, Tc, Tc, Tc), check=sides(get, *src))
        o('%s_sa' % n, '%s %s_sa(%s const & x){ %s r(x); %s const & q = r; r = q; return r; }' % (Tc, n, Tc, Tc, Tc), check=sides(get, *src))
        o('%s_sw' % n, '%s %s_sw(%s const & x){ return %s(x.%s(), x.%s()); }' % (Tc, n, Tc, Tc, g1, g0), check=sides(get, *reversed(src)))
        for g in get: o('%s_%s' % (n, g), 'rt_expr<I> %s_%s(%s const & x){ return x.%s(); }' % (n, g, Tc, g), expect(lambda cx, g=g: cx.den(cx.accd(cx.arg('x')[1], g))))
    o('i_def', 'rt_interval<I> i_def(){ return rt_interval<I>(); }', check=sides(('lower', 'upper'), lambda cx: Q.ZERO, lambda cx: Q.ONE))
    o('i_ch', 'rt_interval<I> i_ch(rt_interval<I> const & x, rt_interval<I> const & y, rt_interval<I> const & z){ rt_interval<I> r(y), s(z); r = s = x; return r; }', check=sides(('lower', 'upper'), *[lambda cx, g=g: cx.den(cx.accd(cx.arg('x')[1], g)) for g in ('lower', 'upper')]))
    o('sy', 'rt_symbolic_interval<I> sy(std::size_t k){ return rt_symbolic_interval<I>(k); }', check=lambda cx, ob: None if decide(cx, cx.accd(ob.v[1], 'id'), '==', cx.d('k')) is True else (_ for _ in ()).throw(Bad('another id is kept')))
    return out

# ------------------------------------------------------------------------------------------------ R21
@family('R21')
def r21(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    P = lambda cx, n: cx.it.root(cx.st, cx.arg(n)[1])
    IV = 'rt_interval<I> const & iv'; EX = 'rt_expr<I> const & e'; VA = 'rt_variable<I> const & v'
    def enc(e, v):
        """denotation of the integral of e over iv with respect to v"""
        def f(cx):
            iv = cx.d('iv'); return Q.fn('integral', cx.sc(iv[1]), cx.sc(iv[2]), v(cx), cx.sc(e(cx)))
        return f
    de = lambda cx: cx.d('e'); dv = lambda cx: cx.d('v')
    ctv = lambda n: (lambda cx: CTX(n))
    # encoded integrals
    o('g1', 'rt_expr<I> g1(%s, %s, %s){ return integral(iv, e, v); }' % (IV, EX, VA), expect(enc(de, dv)))
    for n in (0, 1, 5):
        o('g2_%d' % n, 'rt_expr<I> g2_%d(%s, %s){ return integral(iv, e, ct_variable<%d>()); }' % (n, IV, EX, n), expect(enc(de, ctv(n))))
        o('g3_%d' % n, 'rt_expr<I> g3_%d(%s, rt_binary_expr<I> const & e){ return integral(iv, e, ct_variable<%d>()); }' % (n, IV, n), expect(enc(de, ctv(n))))
        o('oc_%d' % n, 'I* oc_%d(%s, I* e){ op_rt_integral<I> q(iv, ct_variable<%d>()); return new rt_unary_expr<I>(e, new op_unary<op_rt_integral<I>, I>(q)); }' % (n, IV, n), expect(enc(de, ctv(n))))
    o('oi', 'I* oi(%s, I* e, %s){ return new rt_unary_expr<I>(e, new op_unary<op_rt_integral<I>, I>(op_rt_integral<I>(iv, v))); }' % (IV, VA), expect(enc(de, dv)))
    o('oiv', 'rt_expr<I> oiv(%s, %s){ op_rt_integral<I> q(iv, v); return q.variable(); }' % (IV, VA), expect(dv))
    for g in ('lower', 'upper'):
        o('oi_' + g, 'rt_expr<I> oi_%s(%s, %s){ op_rt_integral<I> q(iv, v); return q.interval().%s(); }' % (g, IV, VA, g), expect(lambda cx, g=g: cx.den(cx.accd(cx.arg('iv')[1], g))))
    SI = 'rt_symbolic_interval<I> const & s'
    sid = lambda cx: cx.sc(cx.den(cx.accd(cx.arg('s')[1], 'id')))
    for t, k in (('rt_expr<I>', 'e'), ('rt_binary_expr<I>', 'b'), ('rt_unary_expr<I>', 'u'), ('rt_constant<double, I>', 'c'), ('rt_variable<I>', 'v'), ('rt_function_symbol<I>', 'f')):
        o('s_' + k, 'rt_expr<I> s_%s(%s, %s const & e){ return integral(s, e); }' % (k, SI, t), expect(lambda cx: Q.fn('symint', sid(cx), cx.sc(cx.d('e')))))
    # a quadrature object hands exactly the encoded parts to its rule
    def at(cx, oid): return cx.app(cx.it.evalsym(cx.st, cx.it.root(cx.st, oid), cx.arg('p')))
    def inner(cx, n):
        cx.deadok += 1
        try: return cx.it.root(cx.st, cx.acc(cx.arg(n)[1], 'get')[1])
        finally: cx.deadok -= 1
    def rec(v, e=lambda cx: inner(cx, 'e'), iv='iv'):
        def f(cx):
            lo, up = [cx.accd(cx.arg(iv)[1], g)[1] for g in ('lower', 'upper')]
            cx.deadok += 1
            try: lo, up = [cx.acc(x, 'get')[1] for x in (lo, up)]
            finally: cx.deadok -= 1
            return at(cx, lo) + Q.num(10) * at(cx, up) + Q.num(100) * v(cx) + Q.num(1000) * at(cx, e(cx))
        return f
    vid = lambda n: (lambda cx: cx.sc(cx.den(cx.accd(cx.arg(n)[1], 'id'))))
    QN = 'rt_numerical_quadrature<I> q(new Rec(p));'
    o('q3', 'double q3(%s, %s, %s, double p){ %s return q(iv, e, v); }' % (IV, EX, VA, QN), expect(rec(vid('v'))))
    for n in (0, 1, 6): o('q3c_%d' % n, 'double q3c_%d(%s, %s, double p){ %s return q(iv, e, ct_variable<%d>()); }' % (n, IV, EX, QN, n), expect(rec(lambda cx, n=n: Q.num(n))))
    o('q1', 'double q1(%s, %s, %s, double p){ %s return q(integral(iv, e, v)); }' % (IV, EX, VA, QN), expect(rec(vid('v'))))
    o('qcp', 'double qcp(%s, %s, %s, double p){ %s rt_numerical_quadrature<I> r(q); rt_numerical_quadrature<I> t; t = r; return t(iv, e, v); }' % (IV, EX, VA, QN), expect(rec(vid('v'))))
    two = 'rt_interval<I> const & iv, rt_interval<I> const & jv, rt_expr<I> const & e, rt_expr<I> const & f, rt_variable<I> const & v, rt_variable<I> const & w, double p'
    A = rec(vid('v')); Bb = rec(vid('w'), lambda cx: inner(cx, 'f'), 'jv')
    o('qp', 'double qp(%s){ %s return q(integral(iv, e, v) + integral(jv, f, w)); }' % (two, QN), expect(lambda cx: A(cx) + Bb(cx)))
    o('qm', 'double qm(%s){ %s return q(integral(iv, e, v) - integral(jv, f, w)); }' % (two, QN), expect(lambda cx: A(cx) - Bb(cx)))
    o('qpm', 'double qpm(%s){ %s return q(integral(iv, e, v) - (integral(jv, f, w) - integral(iv, f, w))); }' % (two, QN), expect(lambda cx: A(cx) - Bb(cx) + rec(vid('w'), lambda cx: inner(cx, 'f'))(cx)))
    o('qmp', 'double qmp(%s){ %s return q((integral(iv, e, v) - integral(jv, f, w)) + integral(iv, f, w)); }' % (two, QN), expect(lambda cx: A(cx) - Bb(cx) + rec(vid('w'), lambda cx: inner(cx, 'f'))(cx)))
    o('qz', 'double qz(%s){ %s return q(integral(iv, e, v) + rt_expr<I>(rt_constant<double, I>(0))); }' % (two, QN), expect(A))
    o('q0', 'double q0(double p){ %s return q(rt_expr<I>(rt_constant<double, I>(0))); }' % QN, expect(lambda cx: Q.ZERO))
    o('qx', 'double qx(%s){ %s return q(integral(iv, e, v) * integral(jv, f, w)); }' % (two, QN), want='throw', throws='*')
    o('qd', 'double qd(%s){ %s return q(integral(iv, e, v) / integral(jv, f, w)); }' % (two, QN), want='throw', throws='*')
    o('qs', 'double qs(%s, %s, double p){ %s return q(integral(s, e)); }' % (SI, EX, QN), want='throw', throws=['symbolic_integral_evaluation_not_possible_exception'])
    o('qsp', 'double qsp(%s, %s, %s, %s, double p){ %s return q(integral(iv, e, v) + integral(s, e)); }' % (IV, VA, SI, EX, QN), want='throw', throws=['symbolic_integral_evaluation_not_possible_exception'])
    NI = ['integration_without_integral_exception']
    for f in UN + ['gradient', 'divergence', 'partial_deriv']: o('qn_' + f, 'double qn_%s(I* L, double p%s){ rt_expr<I> e(new rt_unary_expr<I>(L, %s)); %s return q(e); }' % (f, opp(f), opn(f), QN), want='throw', throws=NI)
    for t, k in (('rt_variable<I>', 'v'), ('rt_function_symbol<I>', 'f'), ('rt_vector_expr<I>', 'w')):
        o('qn_%s' % k, 'double qn_%s(%s const & x, double p){ rt_expr<I> e(x); %s return q(e); }' % (k, t, QN), want='throw', throws=NI)
    def qc(cx, ob):
        c = cx.d('c')
        if not c == Q.ZERO: raise Bad('a number that need not be zero is taken for an integral')
        if not same(cx, cx.den(ob.v), Q.ZERO): raise Bad('zero is integrated to %s' % show(cx.den(ob.v)))
    o('qn_c', 'double qn_c(rt_constant<double, I> const & c, double p){ rt_expr<I> e(c); %s return q(e); }' % QN, throws=NI, check=qc)
    # the one-point rule: length times the integrand with the variable set to the midpoint
    def cv(cx, g):
        cx.deadok += 1
        try: x = cx.it.root(cx.st, cx.acc(cx.acc(cx.arg('iv')[1], g)[1], 'get')[1])
        finally: cx.deadok -= 1
        return cx.app(cx.it.evalsym(cx.st, x, Q.ZERO)) if not cx.st.facts.get(('const', x)) else cx.app(cx.it.constsym(cx.st, x))
    def gauss(cx, var):
        lo, up = cv(cx, 'lower'), cv(cx, 'upper')
        mid = cx.app((lo + up) / Q.num(2))
        cx.deadok += 1
        try:
            x = inner(cx, 'e')
            val = osym(cx, 'subst(%s;%s->rt_constant<double, I>{%s})' % (cx.st.h[x].tag, var(cx), Q.fmt(mid)))
        finally: cx.deadok -= 1
        return val * (up - lo)
    vkey = lambda n: (lambda cx: cx.it.skey(cx.st, cx.arg(n)[1]))
    NUW = ['expression_not_unwrappable_exception']
    o('ga', 'double ga(%s, %s, %s){ rt_gauss_quad_1<I> g; return g.eval(iv, e, v); }' % (IV, EX, VA), expect(lambda cx: gauss(cx, vkey('v'))), abort=True, throws=NUW)
    o('gaq', 'double gaq(%s, %s, %s){ rt_numerical_quadrature<I> q(new rt_gauss_quad_1<I>()); return q(integral(iv, e, v)); }' % (IV, EX, VA), expect(lambda cx: gauss(cx, vkey('v'))), abort=True, throws=NUW)
    num = 'double a, double b'
    for nm, ex, w in (('k', 'rt_constant<double, I>(c)', lambda cx: cx.d('c')), ('x', 'x', lambda cx: (cx.d('a') + cx.d('b')) / Q.num(2)), ('x2', 'x * x', lambda cx: ((cx.d('a') + cx.d('b')) / Q.num(2)) * ((cx.d('a') + cx.d('b')) / Q.num(2))),
                      ('xc', 'rt_expr<I>(c * x + 1.0)', lambda cx: cx.d('c') * ((cx.d('a') + cx.d('b')) / Q.num(2)) + Q.ONE), ('ix', 'rt_expr<I>(1.0 / (x + c))', lambda cx: Q.ONE / ((cx.d('a') + cx.d('b')) / Q.num(2) + cx.d('c'))),
                      ('fx', 'exp(x)', lambda cx: Q.fn('exp', (cx.d('a') + cx.d('b')) / Q.num(2)))):
        for n in (0, 2):
            o('gn_%s%d' % (nm, n), 'double gn_%s%d(%s, double c){ rt_variable<I> x(%d); rt_gauss_quad_1<I> g; return g.eval(make_interval(a, b), rt_expr<I>(%s), x); }' % (nm, n, num, n, ex),
                expect(lambda cx, w=w: w(cx) * (cx.d('b') - cx.d('a'))), throws=NUW if nm in ('ix', 'x2', 'xc') else None)
    o('gno', 'double gno(%s){ rt_variable<I> x(0), y(1); rt_gauss_quad_1<I> g; return g.eval(make_interval(a, b), rt_expr<I>(y), x); }' % num, want='throw', throws=NUW)
    # a concrete domain takes the place of the symbolic one it is meant for
    for second, sd in (('rt_variable<I>', lambda cx: cx.d('v')), ('ct_variable<4>', lambda cx: CTX(4))):
        n = second[0]
        pr = 'IPair<%s > r(iv, v); ' % second
        vv = '%s const & v' % second
        def ssub(cx, kk, body, sd=sd):
            """denotation of the integral of opaque body over the symbolic domain kk after the replacement"""
            m = decide(cx, kk, '==', cx.accd(cx.arg('s')[1], 'id'))
            if m is None: raise Bad('the symbolic domain is not compared with the one to be replaced')
            if m:
                iv = cx.d('iv'); return Q.fn('integral', cx.sc(iv[1]), cx.sc(iv[2]), sd(cx), cx.sc(cx.d(body)))
            return Q.fn('symint', cx.sc(kk), cx.sc(mo(cx, body)))
        def mo(cx, body): return osym(cx, 'manip(%s)' % cx.st.h[cx.it.root(cx.st, cx.arg(body)[1])].tag)
        pre = 'rt_expr<I> %s(%s, %s, %s, '
        body = lambda e: '){ %s rt_expr<I> e(%s); return substitute(s, r, e); }' % (pr, e)
        def mk(nm, params, e, w): o('%s_%s' % (nm, n), pre % ('%s_%s' % (nm, n), SI, IV, vv) + params + body(e), expect(w))
        mk('sb', 'I* L, unsigned long k', 'new rt_unary_expr<I>(L, %s)' % opn('rt_symbolic_integral'), lambda cx, ssub=ssub: ssub(cx, cx.d('k'), 'L'))
        mk('so', 'I* L', 'L', lambda cx, mo=mo: mo(cx, 'L'))
        for b, k in BIN.items():
            mk('sp_' + b, 'I* L, I* M, unsigned long k, unsigned long j', 'new rt_binary_expr<I>(new rt_unary_expr<I>(L, %s), new op_binary<op_%s<double>, I>(), new rt_unary_expr<I>(M, %s))' % (opn('rt_symbolic_integral'), b, opn('rt_symbolic_integral').replace('(k)', '(j)')),
               lambda cx, ssub=ssub, k=k: self_arith(cx, k, ssub(cx, cx.d('k'), 'L'), ssub(cx, cx.d('j'), 'M')))
            mk('sq_' + b, 'I* L, I* M, unsigned long k', 'new rt_binary_expr<I>(L, new op_binary<op_%s<double>, I>(), new rt_unary_expr<I>(M, %s))' % (b, opn('rt_symbolic_integral')),
               lambda cx, ssub=ssub, k=k, mo=mo: self_arith(cx, k, mo(cx, 'L'), ssub(cx, cx.d('k'), 'M')))
        for f in UN + FORMAL[:2]:
            mk('su_' + f, 'I* L, unsigned long k', 'new rt_unary_expr<I>(new rt_unary_expr<I>(L, %s), new op_unary<op_%s<double>, I>())' % (opn('rt_symbolic_integral'), f), lambda cx, ssub=ssub, f=f: uden(cx, f, ssub(cx, cx.d('k'), 'L')))
        mk('sk_pd', 'I* L, unsigned long k', 'new rt_unary_expr<I>(L, %s)' % opn('partial_deriv'), lambda cx, mo=mo: uden(cx, 'partial_deriv', mo(cx, 'L')))
        for t, k in (('rt_constant<double, I>', 'c'), ('rt_variable<I>', 'v'), ('rt_function_symbol<I>', 'f')):
            mk('sl_' + k, '%s const & x' % t, 'x', lambda cx: cx.d('x'))
    return out
