"""more families: ownership histories, empty objects, failure messages"""
from .fam import *

# ------------------------------------------------------------------------------------------------ R11
def lib(cx, i): return cx.it.rname(cx.st.h[i].cls)
@family('R11')
def r11(thorough=False):
    """histories of construction, copy, assignment and destruction of everything that owns storage; the audit after every path is the oracle"""
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    for t, k, sz in NODES + VALUES:
        sz = sz or (2,)
        P = '%s const & x, %s const & y' % (t, t)
        o('h1_' + k, 'void h1_%s(%s){ %s a(x); %s b(y); a = b; b = a; a = a; { %s c(a); b = c; c = x; } a = b; }' % (k, P, t, t, t), sizes=sz)
        o('h2_' + k, 'void h2_%s(%s){ std::auto_ptr<%s > a(new %s(x)); std::auto_ptr<%s > b(new %s(*a)); *b = y; a.reset(); *b = x; }' % (k, P, t, t, t, t), sizes=sz)
        o('h3_' + k, 'void h3_%s(%s){ std::vector<%s > a; a.push_back(x); a.push_back(y); std::vector<%s > b(a); b[0] = a[1]; a = b; a.pop_back(); a.clear(); }' % (k, P, t, t), sizes=sz)
        o('h4_' + k, '%s h4_%s(%s){ %s a(x); return a; }' % (t, k, P, t), sizes=sz)
    for t, k, sz in NODES:
        sz = sz or (2,)
        P = '%s const & x, %s const & y' % (t, t)
        o('n1_' + k, 'void n1_%s(%s){ std::auto_ptr<I> a(x.clone()); std::auto_ptr<I> b(a->clone()); a.reset(); a = std::auto_ptr<I>(b->clone()); }' % (k, P), sizes=sz)
        o('n2_' + k, 'void n2_%s(%s){ rt_expr<I> a(x); rt_expr<I> b(a); a = y; b = a; a = rt_expr<I>(y.clone()); a = x.clone(); a = a; b = rt_expr<I>(); }' % (k, P), sizes=sz)
        o('n3_' + k, 'void n3_%s(%s, rt_variable<I> const & v){ std::auto_ptr<I> s(x.simplify()); std::auto_ptr<I> d; try { d.reset(x.diff(&v)); } catch (std::exception const &) { d.reset(y.clone()); } }' % (k, P), sizes=sz)
        o('n4_' + k, 'void n4_%s(%s, I const* s, I const* r){ std::auto_ptr<I> a(x.substitute(s, r)); Ptrs S(2, s); Ptrs T(2, r); std::auto_ptr<I> b(a->substitute(S, T)); }' % (k, P), sizes=sz)
        o('n5_' + k, 'void n5_%s(%s, rt_manipulation_interface<I>* f){ rt_manipulation_wrapper<I> w(f); std::auto_ptr<I> a(x.recursive_manipulation(w)); }' % (k, P), sizes=sz)
        o('n6_' + k, 'void n6_%s(%s, rt_traversal_interface<I>* f){ rt_traversal_wrapper<I> w(f); x.recursive_traversal(w); }' % (k, P), sizes=sz)
    # adopting pointers
    o('a_un', 'void a_un(I* L, OpI* q){ rt_unary_expr<I> e(L, q); rt_unary_expr<I> f(e); f = e; }')
    o('a_bi', 'void a_bi(I* L, OpI* q, I* M){ rt_binary_expr<I> e(L, q, M); rt_binary_expr<I> f(e); f = e; }')
    o('a_ex', 'void a_ex(I* L, I* M){ rt_expr<I> e(L); e = M; }')
    o('a_un1', 'void a_un1(I* L){ rt_unary_expr<I> e(L); }')
    o('a_vec', 'void a_vec(rt_expr<I> const & a, rt_expr<I> const & b){ rt_vector_expr<I> w(2); w[0] = a; w[1] = b; w[0] = w[1]; rt_vector_expr<I> z(3); z = w; w = z; }', sizes=(2,))
    o('a_qd', 'void a_qd(numerical_quadrature_interface<I>* q, numerical_quadrature_interface<I>* p){ rt_numerical_quadrature<I> a(q), b(p), c; c = a; a = b; b = c; b = rt_numerical_quadrature<I>(); }')
    # the whole pipeline on freshly built trees
    o('p_ev', 'double p_ev(rt_expr<I> const & a, rt_expr<I> const & b, Pt const & p){ rt_expr<I> s = a * b + a / b; return s(p) - s.get()->eval(p); }', throws='*')
    o('p_df', 'void p_df(rt_expr<I> const & a, rt_variable<I> const & v){ rt_expr<I> d = diff(a, v); rt_expr<I> s = simplify(d); inplace_simplify(d); }', throws='*')
    o('p_sb', 'void p_sb(rt_expr<I> const & a, rt_expr<I> const & b, rt_variable<I> const & v){ rt_expr<I> d = substitute(rt_expr<I>(v), a, rt_expr<I>(a - b)); rt_equation<I> q(d, a); rt_equation<I> r(q); r = q; rt_interval<I> i(d, b); rt_interval<I> j; j = i; }', throws='*')
    o('p_in', 'void p_in(rt_interval<I> const & i, rt_expr<I> const & a, rt_variable<I> const & v){ rt_expr<I> e = integral(i, a, v); rt_expr<I> f = integral(rt_symbolic_interval<I>(3), a); rt_expr<I> g = substitute(rt_symbolic_interval<I>(3), IPair<rt_variable<I> >(i, v), f); }', throws='*')
    return out

# ------------------------------------------------------------------------------------------------ R12
@family('R12')
def r12(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    def true(cx): return True
    def isnull(cx, ob):
        if ob.v is not True: raise Bad('answers %r: the copy differs from the original' % (ob.v,))
    # empty expression wrapper
    E = 'rt_expr<I>'
    o('x_d', 'void x_d(){ %s a; }' % E)
    o('x_g', 'bool x_g(){ %s a; return a.get() == 0; }' % E, expect(true))
    o('x_c', 'bool x_c(){ %s a; %s b(a); return b.get() == 0 && a.get() == 0; }' % (E, E), isnull)
    o('x_as', 'bool x_as(){ %s a; %s b; b = a; return b.get() == 0; }' % (E, E), isnull)
    o('x_af', 'bool x_af(%s const & x){ %s a(x); %s b; a = b; return a.get() == 0; }' % (E, E, E), isnull)
    o('x_fa', '%s x_fa(%s const & x){ %s a; a = x; return a; }' % (E, E, E), expect(lambda cx: cx.d('x')))
    o('x_fp', '%s x_fp(I* L){ %s a; a = L; return a; }' % (E, E), expect(lambda cx: cx.d('L')))
    o('x_ss', 'bool x_ss(){ %s a; %s & r = a; a = r; return a.get() == 0; }' % (E, E), isnull)
    o('x_np', 'bool x_np(){ %s a(static_cast<I*>(0)); %s b(a); b = a; return b.get() == 0; }' % (E, E), isnull)
    o('x_rn', 'bool x_rn(%s const & x){ %s a(x); a = static_cast<I*>(0); return a.get() == 0; }' % (E, E), isnull)
    o('x_rt', 'bool x_rt(){ struct L { static %s f() { %s a; return a; } static %s g(%s a) { return a; } }; return L::g(L::f()).get() == 0; }' % (E, E, E, E), isnull)
    # containers of empty objects
    for t, k in ((E, 'e'), ('rt_equation<I>', 'q'), ('rt_interval<I>', 'i'), ('rt_numerical_quadrature<I>', 'n')):
        o('k1_' + k, 'void k1_%s(){ std::vector<%s > a(2); std::vector<%s > b(a); b[0] = a[1]; a = b; a.push_back(%s()); a.resize(4); a.clear(); }' % (k, t, t, t))
        o('k2_' + k, 'void k2_%s(%s const & x){ std::vector<%s > a(2); a[1] = x; a[0] = a[1]; a[1] = %s(); std::vector<%s > b(a); }' % (k, t, t, t, t))
        o('k3_' + k, '%s k3_%s(%s const & x){ std::auto_ptr<%s > p(new %s()); %s y(*p); *p = x; y = *p; return y; }' % (t, k, t, t, t, t), copyof())
        o('k4_' + k, 'void k4_%s(){ %s a; %s b(a); b = a; %s & r = b; b = r; }' % (k, t, t, t))
    o('z_vec', 'void z_vec(){ rt_vector_expr<I> a(0); rt_vector_expr<I> b(a); rt_vector_expr<I> c(2); c = b; b = a; rt_vector_expr<I> d(3); rt_vector_expr<I> e(d); e = c; }')
    o('z_vec1', 'bool z_vec1(){ rt_vector_expr<I> a(2); rt_vector_expr<I> b(a); return b[0].get() != 0 && b[1].get() != 0 && b.size() == 2; }', isnull)
    o('z_vecc', 'void z_vecc(){ rt_vector_expr<I> a(2); std::auto_ptr<I> c(a.clone()); }')
    # equations of empty expressions
    o('z_eq', 'bool z_eq(){ rt_equation<I> q; rt_equation<I> r(q); r = q; return r.lhs().get() == 0 && r.rhs().get() == 0; }', isnull)
    o('z_eq2', 'bool z_eq2(rt_equation<I> const & x){ rt_equation<I> q(x); rt_equation<I> r; q = r; return q.lhs().get() == 0 && q.rhs().get() == 0; }', isnull)
    # default interval is a complete object
    o('z_iv', 'bool z_iv(){ rt_interval<I> q; rt_interval<I> r(q); r = q; return r.lower().get() != 0 && r.upper().get() != 0; }', isnull)
    o('z_oi', 'bool z_oi(){ op_rt_integral<I> q; op_rt_integral<I> r(q); r = q; op_rt_symbolic_integral<I> s; op_rt_symbolic_integral<I> t(s); t = s; op_partial_deriv<double> u; op_partial_deriv<double> w(u); w = u; return r.interval().lower().get() != 0; }', isnull)
    o('z_qd', 'void z_qd(numerical_quadrature_interface<I>* p){ rt_numerical_quadrature<I> q; rt_numerical_quadrature<I> r(q); rt_numerical_quadrature<I> s(p); s = q; r = s; q = r; }')
    o('z_cl', 'void z_cl(){ std::auto_ptr<I> a(new rt_unary_expr<I>(new rt_constant<double, I>(1), new op_unary<op_rt_integral<I>, I>())); std::auto_ptr<I> b(a->clone()); }')
    # assignment of an object to itself
    extra = [('rt_vector_expr<I>', 'w4', (4,))] if thorough else []
    for t, k, sz in NODES + VALUES + extra:
        sz = sz or (2,)
        o('sf_' + k, '%s sf_%s(%s const & x){ %s y(x); %s const & r = y; y = r; return y; }' % (t, k, t, t, t), copyof(), sizes=sz)
        o('sg_' + k, '%s sg_%s(%s const & x){ %s y(x); %s & r = y; y = r; r = y; return y; }' % (t, k, t, t, t), copyof(), sizes=sz)
    # assigning a part of an object to the whole, and the whole to a part
    UE, BE, EX, VE = 'rt_unary_expr<I>', 'rt_binary_expr<I>', 'rt_expr<I>', 'rt_vector_expr<I>'
    NU = 'new rt_unary_expr<I>(%s, new op_unary<op_%s<double>, I>())'; NB = 'new rt_binary_expr<I>(%s, new op_binary<op_%s<double>, I>(), %s)'
    U1 = NU % ('L', 'sin'); B1 = NB % ('L', 'minus', 'M'); K1 = 'new rt_constant<double, I>(c)'
    dU = lambda cx: cx.uopn('sin', cx.d('L'), None)
    dB = lambda cx: self_arith(cx, '-', cx.d('L'), cx.d('M'))
    dK = lambda cx: cx.d('c')
    A = 'I* L, I* M, I* N, double c'
    def cast(t, p): return '*static_cast<%s const *>(%s)' % (t, p)
    # the whole expression owns the part (the parts that are not used are released by it)
    free = {'U': 'std::auto_ptr<I> fm(M);', 'B': '', 'K': 'std::auto_ptr<I> fl(L); std::auto_ptr<I> fm(M);'}
    for k, part, t, den in (('U', U1, UE, dU), ('B', B1, BE, dB), ('K', K1, 'rt_constant<double, I>', dK)):
        for w, whole, get in (('u', UE + ' y(%s, new op_unary<op_cos<double>, I>()); std::auto_ptr<I> fn(N);' % part, 'y.lhs()'),
                              ('l', BE + ' y(%s, new op_binary<op_div<double>, I>(), N);' % part, 'y.lhs()'),
                              ('r', BE + ' y(N, new op_binary<op_div<double>, I>(), %s);' % part, 'y.rhs()')):
            W = UE if w == 'u' else BE
            if (k, w) in (('U', 'l'), ('U', 'r'), ('B', 'u')): pass          # no such assignment: through the wrapper only
            else: o('al_%s%s' % (k, w), '%s al_%s%s(%s){ %s %s y = %s; return y; }' % (W, k, w, A, free[k], whole, cast(t, get)), expect(den))
            o('ax_%s%s' % (k, w), '%s ax_%s%s(%s){ %s %s %s e(new %s(y)); e = %s; return e; }' % (EX, k, w, A, free[k], whole, EX, W, cast(t, get.replace('y.', 'static_cast<%s const *>(e.get())->' % W))), expect(den))
    o('ax_e', '%s ax_e(%s const & x, %s const & y){ %s w(2); w[0] = x; w[1] = y; %s e(w); e = (%s)[1]; return e; }' % (EX, EX, EX, VE, EX, cast(VE, 'e.get()')), expect(lambda cx: cx.d('y')))
    o('al_v', '%s al_v(%s const & x, %s const & y){ %s m(2); { %s w(2); w[0] = x; w[1] = y; m[0] = w; m[1] = x; } m = %s; return m; }' % (VE, EX, EX, VE, VE, cast(VE, 'm[0].get()')), expect(lambda cx: ('vec', [cx.d('x'), cx.d('y')])))
    o('al_w', '%s al_w(%s const & x, %s const & y){ %s m(2); { %s w(3); w[0] = x; w[1] = y; w[2] = x; m[1] = w; m[0] = x; } m = %s; return m; }' % (VE, EX, EX, VE, VE, cast(VE, 'm[1].get()')), expect(lambda cx: ('vec', [cx.d('x'), cx.d('y'), cx.d('x')])))
    # assigning the held tree itself through its own type, and through a second wrapper or interval/equation holding it
    for t, k, sz in NODES:
        den = (lambda cx: cx.d('x'))
        sz = sz or (2,)
        o('hs_' + k, '%s hs_%s(%s const & x){ %s e(x); e = %s; return e; }' % (EX, k, t, EX, cast(t, 'e.get()')), expect(den), sizes=sz)
        o('ht_' + k, '%s ht_%s(%s const & x, %s const & y){ %s e(x); %s f(y); f = %s; e = f; f = y; return e; }' % (EX, k, t, EX, EX, EX, cast(t, 'e.get()')), expect(den), sizes=sz)
        o('hv_' + k, '%s hv_%s(%s const & x){ %s w(2); w[0] = x; w[1] = x; w[1] = %s; w[0] = %s; return w[0]; }' % (EX, k, t, VE, cast(t, 'w[1].get()'), cast(t, 'w[0].get()')), expect(den), sizes=sz)
    o('ax_s', '%s ax_s(%s const & x){ %s e(x); e = e.get()->clone(); return e; }' % (EX, EX, EX), expect(lambda cx: cx.d('x')))
    o('ax_o', '%s ax_o(%s const & x, %s const & y){ %s a(x); a = %s(a - y); a = %s(a * a); return a; }' % (EX, EX, EX, EX, EX, EX), expect(lambda cx: (cx.d('x') - cx.d('y')) * (cx.d('x') - cx.d('y'))))
    o('pt_ex', 'rt_expr<I> pt_ex(rt_expr<I> const & x, rt_expr<I> const & y){ rt_equation<I> q(x, y); rt_expr<I> e(x); e = q.rhs(); return e; }', expect(lambda cx: cx.d('y')))
    o('pt_u', 'rt_unary_expr<I> pt_u(rt_unary_expr<I> const & x){ rt_unary_expr<I> y(x); std::auto_ptr<I> c(y.clone()); y = *static_cast<rt_unary_expr<I> *>(c.get()); return y; }', copyof())
    return out

# ------------------------------------------------------------------------------------------------ R18
EXC0 = ['integration_without_integral_exception', 'symbolic_integral_evaluation_not_possible_exception', 'analytic_integration_not_supported_exception', 'latex_operation_not_supported_exception',
        'no_rhs_provided_exception', 'rhs_provided_for_unary_operation_exception', 'expression_not_evaluable_exception', 'expression_not_unwrappable_exception', 'expression_not_differentiable_exception']
EXC1 = ['expression_not_evaluable_exception', 'expression_not_unwrappable_exception', 'expression_not_differentiable_exception']
def valid(want=None):
    def f(cx, ob):
        v = ob.v
        if isinstance(v, tuple) and v[0] == 'str':
            if want: raise Bad('the message given at construction is not reported')
            if not v[1]: raise Bad('empty message')
            return
        if isinstance(v, tuple) and v[0] == 'cstr':
            if not cx.st.h[v[1]].alive: raise Bad('message points into %s, which no longer exists' % cx.it.describe(cx.st, v[1]))
            if v[1] not in reach(cx.st, [cx.arg('e')[1]]) and not cx.st.h[v[1]].st == 'static': raise Bad('message points into storage that does not belong to the exception object')
            if want and want not in repr(v[2]): raise Bad('the message given at construction is not reported, but %r' % (v[2],))
            return
        raise Bad('message is %r' % (v,))
    return f
@family('R18')
def r18(thorough=False):
    out = []
    def o(*a, **k): out.append(Ob(*a, **k))
    for n in EXC0 + ['variable_index_out_of_bounds_exception']:
        k = n.replace('_exception', '')
        o('w_' + k, 'char const * w_%s(%s const & e){ std::exception const & b = e; return b.what(); }' % (k, n), valid())
    for n in EXC0:
        k = n.replace('_exception', '')
        o('m_' + k, 'bool m_%s(){ %s e; %s c(e); c = e; std::exception const & b = c; return b.what() != 0; }' % (k, n, n))
        o('u_' + k, 'std::string u_%s(){ %s e; std::exception const & b = e; return std::string(b.what()); }' % (k, n), text(lambda cx, s: None if s else 'empty message'))
    for n in EXC1:
        k = n.replace('_exception', '')
        o('c_' + k, 'std::string c_%s(std::string const & t){ %s e(t); std::exception const & b = e; return std::string(b.what()); }' % (k, n),
          text(lambda cx, s: None if ('sym', 't') in s else 'the message given at construction is not reported, but %r' % (s,)))
        o('cc_' + k, 'std::string cc_%s(std::string const & t){ %s e(t); %s c(e); { %s d("other"); d = c; c = d; } std::exception const & b = c; return std::string(b.what()); }' % (k, n, n, n),
          text(lambda cx, s: None if ('sym', 't') in s else 'the message is lost when the exception is copied: %r' % (s,)))
    def idx(cx, s):
        t = ''.join(x if isinstance(x, str) else '<%s>' % (x[1],) for x in s)
        if '<i_a>' not in t or '<i_b>' not in t: return 'message names neither index nor size: %r' % (s,)
        m = re.search(r'id=<(\w+)>.*size=<(\w+)>', t)
        if m and m.groups() != ('i_a', 'i_b'): return 'index and size are exchanged in the message: %r' % (s,)
    o('c_idx', 'std::string c_idx(long a, long b){ variable_index_out_of_bounds_exception e(a, b); std::exception const & x = e; return std::string(x.what()); }', text(idx))
    # the operations refuse by exception, whichever way they are reached
    for f in FORMAL + ['rt_integral', 'rt_symbolic_integral']:
        o('fe_' + f, 'double fe_%s(I* L%s, double s){ %s return e.eval(s); }' % (f, opp(f), U(f)), want='throw', throws='*')
        o('fv_' + f, 'double fv_%s(I* L%s, Pt const & s){ %s return e.eval(s); }' % (f, opp(f), U(f)), want='throw', throws='*')
        o('fo_' + f, 'double fo_%s(double s%s){ std::auto_ptr<OpI> q(%s); return q->apply(s); }' % (f, opp(f), opn(f)), want='throw', throws='*')
    o('ou', 'double ou(double a, double b){ op_unary<op_sin<double>, I> q; OpI const & r = q; return r.apply(a, b); }', want='throw', throws=['rhs_provided_for_unary_operation_exception'])
    o('ob', 'double ob(double a){ op_binary<op_plus<double>, I> q; OpI const & r = q; return r.apply(a); }', want='throw', throws=['no_rhs_provided_exception'])
    for n, c in (('v', 'rt_variable<I>'), ('f', 'rt_function_symbol<I>')):
        o('uw_' + n, 'double uw_%s(%s const & x){ return x.unwrap(); }' % (n, c), want='throw', throws='*')
    o('fs', 'double fs(rt_function_symbol<I> const & x, double s){ return x.eval(s); }', want='throw', throws='*')
    o('fsv', 'double fsv(rt_function_symbol<I> const & x, Pt const & s){ return x.eval(s); }', want='throw', throws='*')
    return out

def text(f):
    """oracle on the pieces of the returned string; f returns a complaint or None"""
    def check(cx, ob):
        v = ob.v
        if not (isinstance(v, tuple) and v[0] == 'o'): raise Bad('result is %r' % (v,))
        s = cx.st.h[v[1]].f.get('s')
        if s is None: raise Bad('no text')
        m = f(cx, s)
        if m: raise Bad(m)
    return check
