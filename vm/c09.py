"""C09: every member of every public class and every call of the call matrix type-checks"""
import os, re
from . import tool, rt, ct
from .globchk import CLANG, everything

RTI = 'rt_expression_interface<double>'
CLASSES = ['rt_constant<double, I>', 'rt_variable<I>', 'rt_function_symbol<I>', 'rt_unary_expr<I>', 'rt_binary_expr<I>', 'rt_vector_expr<I>', 'rt_expr<I>', 'rt_equation<I>', 'rt_interval<I>',
  'rt_symbolic_interval<I>', 'rt_numerical_quadrature<I>', 'rt_gauss_quad_1<I>', 'rt_latex_translator<I>', 'op_rt_integral<I>', 'op_rt_symbolic_integral<I>',
  'rt_manipulation_wrapper<I>', 'rt_traversal_wrapper<I>'] + ['op_unary<op_%s<double>, I>' % x for x in ct.UN + ['gradient', 'divergence', 'partial_deriv']] + \
  ['op_binary<op_%s<double>, I>' % x for x in ('plus', 'minus', 'mult', 'div')]
CTCLASSES = ['ct_binary_expr<ct_constant<2>, op_%s<double>, ct_constant<3> >' % x for x in ('plus', 'minus', 'mult', 'div')] + \
  ['ct_unary_expr<ct_variable<0>, op_%s<double> >' % x for x in ct.UN] + ['ct_variable<0>', 'ct_constant<3>', 'ct_vector_1<ct_variable<0> >', 'ct_vector_2<ct_variable<0>, ct_constant<3> >',
  'ct_vector_3<ct_variable<0>, ct_constant<3>, ct_variable<1> >', 'ct_function_symbol<vd::UTag>', 'ct_function_symbol<unknown_tag<0> >', 'ct_function_symbol<test_tag<1> >',
  'ct_equation<ct_variable<0>, ct_constant<3> >', 'ct_interval<ct_constant<0>, ct_constant<1> >']

# name -> (type, 'ct' / 'rt' / 'num')
K = {'num': ('double', 'n'), 'int': ('int', 'n'),
     'ctc': ('ct_constant<3>', 'c'), 'ctv': ('ct_variable<1>', 'c'), 'ctf': ('ct_function_symbol<vd::UTag>', 'c'),
     'ctb': ('ct_binary_expr<ct_variable<0>, op_plus<double>, ct_constant<3> >', 'c'), 'ctp': ('ct_binary_expr<ct_variable<0>, op_mult<double>, ct_variable<1> >', 'c'),
     'ctd': ('ct_binary_expr<ct_variable<0>, op_div<double>, ct_constant<2> >', 'c'), 'ctm': ('ct_binary_expr<ct_function_symbol<vd::UTag>, op_minus<double>, ct_variable<1> >', 'c'),
     'ctu': ('ct_unary_expr<ct_variable<0>, op_sin<double> >', 'c'),
     'rtc': ('rt_constant<double, I>', 'r'), 'rtv': ('rt_variable<I>', 'r'), 'rtf': ('rt_function_symbol<I>', 'r'), 'rtu': ('rt_unary_expr<I>', 'r'), 'rtb': ('rt_binary_expr<I>', 'r'),
     'rte': ('rt_expr<I>', 'r'), 'rtw': ('rt_vector_expr<I>', 'r')}
SC = [k for k in K if k not in ('rtw', 'int')]
RT = [k for k in K if K[k][1] == 'r']
PTS = {'pvec': 'std::vector<double>', 'pnum': 'double', 'puv': 'vd::UV', 'pc1': 'ct_vector_1<ct_constant<4> >', 'pc2': 'ct_vector_2<ct_constant<1>, ct_constant<2> >', 'pc3': 'ct_vector_3<ct_constant<1>, ct_constant<2>, ct_constant<3> >'}
SYS = ['cartesian<%d>' % d for d in (1, 2, 3)]

def matrix():
    """[(name, parameter types, body)]"""
    out = []
    def q(name, kinds, body):
        ts = [K[k][0] if k in K else k for k in kinds]
        out.append((name, ', '.join('%s const & a%d' % (t, i) for i, t in enumerate(ts)), body))
    for on, op in (('plus', '+'), ('minus', '-'), ('mult', '*'), ('div', '/')):
        for x in list(K):
            for y in list(K):
                if K[x][1] == 'n' and K[y][1] == 'n': continue
                q('%s %s %s' % (x, op, y), (x, y), 'a0 %s a1' % op)
    for f in ct.UN:
        for x in SC:
            if x != 'num': q('%s(%s)' % (f, x), (x,), 'viennamath::%s(a0)' % f)
    for f in ('grad', 'div', 'laplace'):
        for x in SC: q('%s(%s)' % (f, x), (x,), 'viennamath::%s(a0)' % f)
    for x in K:
        for y in ('ctv', 'ctf', 'rtv', 'rtf', 'rte'): q('diff(%s, %s)' % (x, y), (x, y), 'viennamath::diff(a0, a1)')
        q('simplify(%s)' % x, (x,), 'viennamath::simplify(a0)')
        if K[x][1] == 'r': out.append(('inplace_simplify(%s)' % x, '%s & a0' % K[x][0], 'viennamath::inplace_simplify(a0)'))
        for p, t in PTS.items():
            q('eval(%s, %s)' % (x, p), (x, t), 'viennamath::eval(a0, a1)')
            if K[x][1] != 'n': q('%s(%s)' % (x, p), (x, t), 'a0(a1)')
        q('cout << %s' % x, (x,), 'std::cout << a0')
        for y in ('rte', 'rtb', 'rtu'):
            if x in SC:
                q('%s(%s)' % (y, x), (x,), '%s z(a0)' % K[y][0] if x != 'num' or y == 'rte' else '%s z(a0)' % K[y][0])
                out.append(('%s = %s' % (y, x), '%s & a0, %s const & a1' % (K[y][0], K[x][0]), 'a0 = a1'))
        for y in ('rte', 'rtv', 'rtc', 'rtf', 'rtu', 'rtb'):
            if y == x: out.append(('%s = %s' % (y, x), '%s & a0, %s const & a1' % (K[y][0], K[x][0]), 'a0 = a1')); q('%s(%s)' % (y, x), (x,), '%s z(a0)' % K[y][0])
    for x in SC:
        for y in SC:
            if K[x][1] == 'n' and K[y][1] == 'n': continue
            q('make_equation(%s, %s)' % (x, y), (x, y), 'viennamath::make_equation(a0, a1)')
            q('make_interval(%s, %s)' % (x, y), (x, y), 'viennamath::make_interval(a0, a1)')
    q('make_interval(num, num)', ('num', 'num'), 'viennamath::make_interval(a0, a1)')
    EQ = {'rteq': 'rt_equation<I>', 'cteq': 'ct_equation<ct_function_symbol<vd::UTag>, ct_variable<0> >', 'rti': 'rt_interval<I>', 'rtsi': 'rt_symbolic_interval<I>', 'cti': 'ct_interval<ct_constant<0>, ct_variable<1> >'}
    for e, t in EQ.items():
        q('cout << %s' % e, (t,), 'std::cout << a0')
    q('rt_equation(cteq)', (EQ['cteq'],), 'rt_equation<I> z(a0)'); q('rt_interval(cti)', (EQ['cti'],), 'rt_interval<I> z(a0)')
    for x in ('num', 'int', 'ctc', 'ctv', 'ctf', 'ctb', 'rtc', 'rtv', 'rtf', 'rtu', 'rtb', 'rte', 'rtw'):
        for s in ('ctv', 'ctf', 'rtv', 'rtf', 'rte', 'rtu', 'rtb'):
            for e in list(SC) + ['rtw']:
                if K[s][1] == 'c' and K[x][1] == 'r': continue
                kinds = tuple(EQ.get(z, z) for z in (s, x, e))
                q('substitute(%s, %s, %s)' % (s, x, e), kinds, 'viennamath::substitute(a0, a1, a2)')
    for v in ('rtv',):
        for e in SC: q('substitute(rtsi, (rti, %s), %s)' % (v, e), (EQ['rtsi'], 'std::pair<rt_interval<I>, %s >' % K[v][0], e), 'viennamath::substitute(a0, a1, a2)')
    for s in ('rtv', 'rte', 'rtf'):
        for x in ('rte', 'num'):
            q('substitute({%s}, {%s}, rte)' % (s, x), ('std::vector<%s >' % K[s][0], 'std::vector<%s >' % K[x][0], K['rte'][0]), 'viennamath::substitute(a0, a1, a2)')
    for iv in ('rti', 'cti', 'rtsi'):
        for e in SC:
            q('integral(%s, %s)' % (iv, e), (EQ[iv], e), 'viennamath::integral(a0, a1)')
            for v in ('rtv', 'ctv'):
                q('integral(%s, %s, %s)' % (iv, e, v), (EQ[iv], e, v), 'viennamath::integral(a0, a1, a2)')
                q('integrate(%s, %s, %s)' % (iv, e, v), (EQ[iv], e, v), 'viennamath::integrate(a0, a1, a2)')
    for e in [k for k in SC if K[k][1] == 'c']:
        q('expand(%s)' % e, (e,), 'viennamath::expand(a0)')
        for v in ('ctv', 'ctp', 'ctc', 'ctf'):
            q('coefficient(%s, %s)' % (v, e), (v, e), 'viennamath::coefficient(a0, a1)')
            q('drop_dependent_terms(%s, %s)' % (v, e), (v, e), 'viennamath::drop_dependent_terms(a0, a1)')
    for s in SYS:
        for e in SC + ['rteq']:
            q('apply_coordinate_system(%s, %s)' % (s, e), ('viennamath::' + s, EQ.get(e, e)), 'viennamath::apply_coordinate_system(a0, a1)')
    out += [('rt_latex_translator(%s)' % x, 'rt_latex_translator<I> const & a0, %s const & a1' % (EQ[x] if x in EQ else K[x][0]), 'a0(a1)') for x in list(K) + list(EQ)]
    for x in ('rtf', 'rtv', 'rte', 'rtc', 'ctf', 'ctv', 'ctc'):
        out.append(('rt_latex_translator.customize(%s)' % x, 'rt_latex_translator<I> & a0, %s const & a1, std::string const & a2' % K[x][0], 'a0.customize(a1, a2)'))
    out += [('rt_numerical_quadrature(%s)' % x, 'rt_numerical_quadrature<I> const & a0, %s const & a1' % K[x][0], 'a0(a1)') for x in RT]
    out += [('rt_numerical_quadrature(rti, %s, %s)' % (x, v), 'rt_numerical_quadrature<I> const & a0, rt_interval<I> const & a1, %s const & a2, %s const & a3' % (K[x][0], K[v][0]), 'a0(a1, a2, a3)') for x in SC for v in ('rtv', 'ctv')]
    for n, ts in (('make_vector(c)', ('ctc',)), ('make_vector(c,v)', ('ctc', 'ctv')), ('make_vector(c,v,b)', ('ctc', 'ctv', 'ctb'))):
        q(n, ts, 'viennamath::make_vector(%s)' % ', '.join('a%d' % i for i in range(len(ts))))
    for x in RT:
        t = K[x][0]
        for e in RT:
            q('%s.deep_equal(%s)' % (x, e), (x, e), 'a0.deep_equal(&a1)') if x != 'rte' and e != 'rte' else None
    seen = set(); r = []
    for n, p, b in out:
        if n in seen: continue
        seen.add(n); r.append((n, p, b))
    return r

NOOV = re.compile(r'no matching (function|member function|constructor|conversion)|invalid operands to binary expression|does not provide a call operator|no viable (overloaded|conversion)|no member named')
def classify(e):
    """'none': the library offers no such call; 'bad': it does but the call fails"""
    if tool.rel(e['f']).startswith('viennamath/'): return 'bad'
    return 'none' if NOOV.search(e['m']) else 'bad'
def errs(text, n, base):
    db = tool.extract(text)
    hit = {}; other = []
    for e in tool.errors(db):
        ls = [l for l in e['drv'] if base <= l < base + n]
        if not ls: other.append(e)
        for l in ls:
            if l - base not in hit or classify(hit[l - base]) == 'none': hit[l - base] = e
    return hit, other
def head():
    t = rt.HDR
    i = t.index('template class rt_constant')
    return t[:i] + '}\nusing namespace viennamath; using vd::I;\n'
def table(part=900):
    """{call: 'ok' | ('none'|'bad', error)}"""
    from concurrent.futures import ThreadPoolExecutor
    m = matrix(); h = head(); base = h.count('\n') + 1; res = {}
    def one(i):
        ms = m[i:i + part]
        return ms, errs(h + ''.join('void q%d(%s){ %s; }\n' % (j, p, b) for j, (n, p, b) in enumerate(ms)), len(ms), base)
    other = []
    with ThreadPoolExecutor(8) as ex:
        for ms, (hit, o) in ex.map(one, range(0, len(m), part)):
            other += o
            for j, (n, p, b) in enumerate(ms): res[n] = (classify(hit[j]), hit[j]) if j in hit else 'ok'
    return res, other

def alltext():
    """every driver of every family of runtime obligations, one line range per driver"""
    seen = {}; out = []
    for p in sorted(rt.FAM):
        for o in rt.FAM[p](True):
            if o.code in seen: continue
            seen[o.code] = 1; out.append(('%s/%s' % (p, o.name), o.code))
    return out
LIST = os.path.join(tool.V, 'vm', 'nocall.txt')
def anchor(n, e):
    """a library location for a failing call: where the compiler points, else the candidate it rejected, else the function's header"""
    if tool.rel(e['f']).startswith('viennamath/'): return e['f'], e['l']
    for f, l, m in e['notes']:
        if tool.rel(f).startswith('viennamath/'): return f, l
    w = re.match(r'\w+', n); w = w.group(0) if w else ''
    p = os.path.join(tool.REPO, 'viennamath', 'manipulation', w + '.hpp')
    return (p, 1) if os.path.exists(p) else (os.path.join(tool.REPO, 'viennamath', 'forwards.h'), 1)
def c09(R):
    from concurrent.futures import ThreadPoolExecutor
    R.rule('Type-level: every public class template is explicitly instantiated (which type-checks every member), every call of a matrix (function x operand kinds) must be accepted by the compiler unless the committed list says that the library offers no such call, '
           'and every driver of every runtime family must type-check. An error inside a library header or an ambiguity is a violation wherever it appears.')
    R.assume.append('clang 18 in gnu++17 mode decides what type-checks; operand kinds stand for their parameters (identifiers, values)')
    none = set(l.rstrip('\n') for l in open(LIST)) if os.path.exists(LIST) else set()
    R.cov['calls_listed_as_not_offered'] = len(none)
    m, other = table()
    R.require("calls", len(m), 3500)
    n = 0
    for k, x in sorted(m.items()):
        if x == 'ok': n += 1; R.passed(1, k if n % 397 == 0 else None)
        elif k in none: pass
        else:
            f, l = anchor(k, x[1]); R.violation(k, '%s does not compile: %s' % (k, x[1]['m'][:240]), f, l)
    R.require('calls_accepted', n, 2500)
    for e in other:
        if tool.rel(e['f']).startswith('viennamath/') and not any(x != 'ok' for x in m.values()): R.violation('in the library: ' + e['m'][:80], e['m'][:240], e['f'], e['l'])
    # explicit instantiation
    cs = ['viennamath::%s' % c for c in CLASSES + CTCLASSES]
    h = head() + '}\nnamespace viennamath {\n' if False else head()
    base = h.count('\n') + 1
    text = h + '\n'.join('template class %s;' % c.replace('I>', 'rt_expression_interface<double> >').replace('vd::UTag', 'vd::UTag') for c in cs) + '\n'
    hit, oth = errs(text, len(cs), base)
    for i, c in enumerate(cs):
        if i in hit:
            f, l = anchor(c, hit[i]); R.violation('members of ' + c, 'explicit instantiation of %s fails: %s' % (c, hit[i]['m'][:240]), f, l)
        else: R.passed(1, 'all members of ' + c if i % 9 == 0 else None)
    R.require('classes_instantiated', len(cs), 50)
    # drivers
    ds = alltext(); R.require('drivers', len(ds), 1500)
    def one(i):
        part = ds[i::8]; line = rt.HDR.count('\n') + 1; rng = []; used = {}; txt = []
        for n, c in part:
            k = re.search(r'\b([A-Za-z_]\w*)\(', c).group(1)
            c = 'namespace n%d { %s }' % (len(txt), c); txt.append(c)
            rng.append((n, line, line + c.count('\n'))); line += c.count('\n') + 1
        db = tool.extract(rt.HDR + '\n'.join(txt) + '\n}\n')
        return rng, tool.errors(db)
    with ThreadPoolExecutor(8) as ex:
        for rng, es in ex.map(one, range(8)):
            for n, a, b in rng:
                bad = [e for e in es if any(a <= l <= b for l in e['drv'])]
                if bad:
                    e = bad[0]; f, l = anchor(n, e); R.violation('driver ' + n, 'driver %s does not compile: %s' % (n, e['m'][:240]), f, l)
                else: R.passed(1)
if __name__ == '__main__':
    m, o = table()
    open(LIST, 'w').write(''.join(k + '\n' for k, x in m.items() if x != 'ok'))
