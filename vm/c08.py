"""C08: compile-fail witnesses with compiling twins."""
from concurrent.futures import ThreadPoolExecutor
from . import ct
from .tool import extract, errors, rel

PRE = ct.PRE + '''
#include "viennamath/runtime/numerical_quadrature.hpp"
#include <string>
#include <complex>
#include <valarray>
using namespace viennamath;
typedef X<0> x_t; typedef X<1> y_t; typedef X<2> z_t; typedef F<TgA> u_t;
namespace foreign {
  struct box { int w; };
  template <class A, class Z> struct sum { A a; Z z; };
  template <class A, class Z> sum<A,Z> operator+(A const &, Z const &);
  template <class A, class Z> sum<A,Z> operator-(A const &, Z const &);
  template <class A, class Z> sum<A,Z> operator*(A const &, Z const &);
  template <class A, class Z> sum<A,Z> operator/(A const &, Z const &);
  struct bare { int w; };
}
struct plain { int w; };
namespace viennamath { struct inside_but_not_registered { int w; }; }
template <class T, class W> struct same; template <class T> struct same<T,T> { typedef int ok; };
'''
V1 = 'ct_vector_1<C<4> >'; V2 = 'ct_vector_2<C<4>,C<5> >'; V3 = 'ct_vector_3<C<4>,C<5>,C<6> >'
def E(t): return 'mk<%s>()' % t

def witnesses():
    W = []   # (id, must_compile, statement, what)
    def neg(i, s, what): W.append((i, False, s, what))
    def pos(i, s, what): W.append((i, True, s, what))
    # --- division by the constant zero
    for n, l in (('variable', 'x_t'), ('symbol', 'u_t'), ('const', 'C<3>'), ('one', 'C<1>'), ('zero', 'C<0>'), ('rational', 'B<C<2>,D,C<3> >'), ('sum', 'B<x_t,P,y_t>'), ('negated', 'B<C<0>,M,u_t>')):
        neg('simplify %s/0' % n, 'simplify(mk<B<%s,D,C<0> > >())' % l, 'simplification of a division by the constant zero')
        pos('simplify %s/2' % n, 'simplify(mk<B<%s,D,C<2> > >())' % l, 'the same division by 2')
    for n, t in (('right of +', 'B<u_t,P,B<x_t,D,C<0> > >'), ('left of *', 'B<B<x_t,D,C<0> >,U,u_t>'), ('after folding', 'B<x_t,D,B<C<2>,M,C<2> > >')):
        neg('simplify x/0 ' + n, 'simplify(mk<%s>())' % t, 'division by the constant zero inside a compound expression')
    neg('eval x/0', 'eval(mk<B<x_t,D,C<0> > >(), mk<%s>())' % V1, 'compile-time evaluation of a division by zero')
    neg('eval x/(y-5)', 'eval(mk<B<x_t,D,B<y_t,M,C<5> > > >(), mk<%s>())' % V2, 'compile-time evaluation that divides by zero at the given point')
    pos('eval x/(y-4)', 'eval(mk<B<x_t,D,B<y_t,M,C<4> > > >(), mk<%s>())' % V2, 'same away from the pole')
    # --- components that do not exist
    for k, t in ((1, V1), (2, V2), (3, V3)):
        for j in range(0, 5):
            (pos if j < k else neg)('ct_vector_%d[%d]' % (k, j), 'mk<%s>()[ct_index<%d>()]' % (t, j), 'access to component %d of a compile-time vector of length %d' % (j, k))
            for nm, e in (('x%d' % j, 'X<%d>' % j), ('x%d*2+1' % j, 'B<B<X<%d>,U,C<2> >,P,C<1> >' % j)):
                (pos if j < k else neg)('eval(%s) at ct_vector_%d' % (nm, k), 'eval(%s(), mk<%s>())' % (e, t), 'evaluation of an expression using coordinate %d at a vector of length %d' % (j, k))
                (pos if j < k else neg)('(%s)(ct_vector_%d)' % (nm, k), '%s()(mk<%s>())' % (e, t), 'call of an expression using coordinate %d with a vector of length %d' % (j, k))
        neg('ct_vector_%d[-1]' % k, 'mk<%s>()[ct_index<-1>()]' % t, 'negative component')
    neg('(x+y)(constant)', 'B<x_t,P,B<y_t,U,y_t> >()(C<4>())', None)
    W.pop()
    # --- integration of non polynomials
    I = 'ct_interval<C<0>,C<1> >'
    for n, t in (('sin(x)', 'ct_unary_expr<x_t,op_sin<NT> >'), ('x + exp(x)', 'B<x_t,P,ct_unary_expr<x_t,op_exp<NT> > >'), ('u', 'u_t'), ('x - u', 'B<x_t,M,u_t>'),
                 ('1/x', 'B<C<1>,D,x_t>'), ('x/(x+1)', 'B<x_t,D,B<x_t,P,C<1> > >'), ('y/(x*x)', 'B<y_t,D,B<x_t,U,x_t> >'), ('x + 1/x', 'B<x_t,P,B<C<1>,D,x_t> >'),
                 ('(2/x)*y', 'B<B<C<2>,D,x_t>,U,y_t>')):
        neg('integrate %s dx' % n, 'integrate(mk<%s>(), mk<%s>(), x_t())' % (I, t), 'symbolic integration of something that is not a polynomial')
    SX, UXY = 'ct_unary_expr<x_t,op_sin<NT> >', 'ct_unary_expr<B<y_t,P,x_t>,op_exp<NT> >'
    for n, t in (('y*sin(x)', 'B<y_t,U,%s>' % SX), ('sin(x)*y', 'B<%s,U,y_t>' % SX), ('x*sin(x)', 'B<x_t,U,%s>' % SX), ('sin(x)*sin(x)', 'B<%s,U,%s>' % (SX, SX)), ('2*exp(y+x)', 'B<C<2>,U,%s>' % UXY),
                 ('sin(x)/2', 'B<%s,D,C<2> >' % SX), ('x + y*sin(x)', 'B<x_t,P,B<y_t,U,%s> >' % SX), ('(x+1)*sin(x)', 'B<B<x_t,P,C<1> >,U,%s>' % SX), ('(y*sin(x))/y', 'B<B<y_t,U,%s>,D,y_t>' % SX),
                 ('x/sin(x)', 'B<x_t,D,%s>' % SX), ('y*(y/sin(x))', 'B<y_t,U,B<y_t,D,%s> >' % SX), ('y*sin(exp(y+x))', 'B<y_t,U,ct_unary_expr<%s,op_sin<NT> > >' % UXY),
                 ('x*u', 'B<x_t,U,u_t>'), ('u*x', 'B<u_t,U,x_t>'), ('y*u', 'B<y_t,U,u_t>'), ('x/u', 'B<x_t,D,u_t>'), ('y*(y/u)', 'B<y_t,U,B<y_t,D,u_t> >'), ('x - y*(u*x)', 'B<x_t,M,B<y_t,U,B<u_t,U,x_t> > >'), ('y*sin(u)', 'B<y_t,U,ct_unary_expr<u_t,op_sin<NT> > >'),
                 ('y/(1+u)', 'B<y_t,D,B<C<1>,P,u_t> >'), ('y*(y/x)', 'B<y_t,U,B<y_t,D,x_t> >')):
        neg('integrate %s dx' % n, 'integrate(mk<%s>(), mk<%s>(), x_t())' % (I, t), 'symbolic integration of something that is not a polynomial')
    for n, t in (('x', 'x_t'), ('x*y', 'B<x_t,U,y_t>'), ('y*(y*x)', 'B<y_t,U,B<y_t,U,x_t> >'), ('x/(1+y)', 'B<x_t,D,B<C<1>,P,y_t> >'), ('y*(x/y)', 'B<y_t,U,B<x_t,D,y_t> >'), ('x*y+1', 'B<B<x_t,U,y_t>,P,C<1> >'), ('x/2', 'B<x_t,D,C<2> >')):
        pos('integrate %s dx' % n, 'integrate(mk<%s>(), mk<%s>(), x_t())' % (I, t), 'symbolic integration of a polynomial')
    # --- numbers and indices that no small sample contains
    for n in ct.odd_ints():
        neg('simplify %d/0' % n, 'simplify(mk<B<C<%dL>,D,C<0> > >())' % n, 'simplification of a division by the constant zero')
        pos('simplify %d/2' % n, 'simplify(mk<B<C<%dL>,D,C<2> > >())' % n, 'the same division by 2')
        neg('simplify x/(%d - %d)' % (n, n), 'simplify(mk<B<x_t,D,B<C<%dL>,M,C<%dL> > > >())' % (n, n), 'division by a difference that is zero')
        neg('integrate %d/x dx' % n, 'integrate(mk<%s>(), mk<B<C<%dL>,D,x_t> >(), x_t())' % (I, n), 'symbolic integration of something that is not a polynomial')
        neg('eval x/(y-%d)' % n, 'eval(mk<B<x_t,D,B<y_t,M,C<%dL> > > >(), mk<ct_vector_2<C<4>,C<%dL> > >())' % (n, n), 'compile-time evaluation that divides by zero at the given point')
    for n in ct.odd_ids():
        neg('ct_vector_3[%d]' % n, 'mk<%s>()[ct_index<%d>()]' % (V3, n), 'access to component %d of a compile-time vector of length 3' % n)
        neg('eval(x%d) at ct_vector_3' % n, 'eval(X<%d>(), mk<%s>())' % (n, V3), 'evaluation of an expression using coordinate %d at a vector of length 3' % n)
        neg('integrate u + x%d' % n, 'integrate(mk<%s>(), mk<B<u_t,P,X<%d> > >(), X<%d>())' % (I, n, n), 'symbolic integration of something that is not a polynomial')
        pos('integrate x%d' % n, 'integrate(mk<%s>(), mk<X<%d> >(), X<%d>())' % (I, n, n), 'symbolic integration of a polynomial')
    # --- coefficients of something that is not expanded / compile-time
    for o, nm in (('+', 'plus'), ('-', 'minus'), ('*', 'times'), ('/', 'div')):
        neg('plain %s plain' % nm, 'mk<plain>() %s mk<plain>()' % o, 'operator over two foreign types')
        neg('plain %s 2' % nm, 'mk<plain>() %s 2' % o, 'operator over a foreign type and a number')
        neg('2.0 %s bare' % nm, '2.0 %s mk<plain>()' % o, 'operator over a number and a foreign type')
        neg('unregistered %s unregistered' % nm, 'mk<inside_but_not_registered>() %s mk<inside_but_not_registered>()' % o, 'operator found by argument dependent lookup for a type that is no library expression')
        pos('box %s box keeps its own operator' % nm, 'typedef typename same<decltype(mk<foreign::box>() %s mk<foreign::box>()), foreign::sum<foreign::box,foreign::box> >::ok q' % o, "a foreign type keeps its own generic operator")
        pos('box %s double keeps its own operator' % nm, 'typedef typename same<decltype(mk<foreign::box>() %s 1.0), foreign::sum<foreign::box,double> >::ok q' % o, 'a foreign type keeps its own generic operator')
        pos('complex %s complex' % nm, 'typedef typename same<decltype(mk<std::complex<double> >() %s mk<std::complex<double> >()), std::complex<double> >::ok q' % o, 'operators of std::complex stay unambiguous')
        pos('x %s y' % nm, 'mk<x_t>() %s mk<y_t>()' % o, 'operator over two library types')
        pos('x %s 2' % nm, 'mk<rt_variable<> >() %s 2.0' % o, 'operator over a library type and a number')
    pos('string + string', 'typedef typename same<decltype(mk<std::string>() + "a"), std::string>::ok q', 'operators of std::string stay unambiguous')
    pos('ptr - ptr', 'mk<int const *>() - mk<int const *>()', 'pointer difference')
    neg('diff of a foreign type', 'diff(mk<plain>(), x_t())', 'differentiation of a foreign type')
    neg('ct_variable as number', 'double d = x_t()', 'a variable is not a number')
    neg('ct sum as number', 'double d = mk<B<x_t,P,C<1> > >()', 'an expression is not a number')
    return W

def c08(R):
    R.rule('Compile-fail witnesses: each misuse statement is put into its own function of one translation unit over the current headers and must draw a compiler error on its own line; each has a twin differing only in the misuse that must compile.')
    W = witnesses()
    text = PRE; base = text.count('\n') + 1
    for i, (n, ok, s, what) in enumerate(W):
        text += 'template <int> void w%d() { %s; } template void w%d<0>();\n' % (i, s, i)
    db = extract(text)
    bad = {}; alone = False
    for e in errors(db):
        for l in e['drv']: bad.setdefault(l - base, e)
        if not e['drv']: alone = True
    # an error is diagnosed once per instantiation, so misuse statements that
    # share one with an earlier witness are looked at again on their own
    if alone: bad = {}       # errors that cannot be attributed: every statement in a translation unit of its own
    def isolated(i):
        return i, errors(extract(PRE + 'template <int> void w%d() { %s; } template void w%d<0>();\n' % (i, W[i][2], i)))
    todo = [i for i, w in enumerate(W) if alone or (not w[1] and i not in bad)]
    with ThreadPoolExecutor(8) as ex:
        for i, es in ex.map(isolated, todo):
            for e in es: bad.setdefault(i, e)
            R.count('isolated_witnesses')
    R.require('witnesses', len(W), 100)
    R.require('must_fail', sum(1 for w in W if not w[1]), 40)
    for i, (n, ok, s, what) in enumerate(W):
        if ok and i in bad: R.violation(n, '%s no longer compiles: %s' % (what, bad[i]['m'][:200]), bad[i]['f'], bad[i]['l'])
        elif not ok and i not in bad: R.violation(n, '%s compiles: %s' % (what, s))
        else: R.passed(1, '%s: %s' % (n, 'compiles' if ok else bad[i]['m'][:120]) if i % 17 == 0 else None)
