import re
"""Obligations about the runtime half: driver functions that are abstractly interpreted and their oracles."""
import os, sys, json, hashlib, multiprocessing, pickle, threading, itertools, time
from . import tool, ai, ratio as Q
from .ratio import R
from .ai import isnum, rn, NULL, UNINIT

HDR = '''#include "viennamath/expression.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/integrate.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
namespace vd {
using namespace viennamath;
typedef rt_expression_interface<double> I;
typedef op_interface<I> OpI;
typedef std::vector<double> Pt;
typedef std::vector<const I*> Ptrs;
/* a vector type of the user's own */
struct UV { std::vector<double> d; explicit UV(unsigned long n) : d(n) {} unsigned long size() const { return d.size(); } double operator[](unsigned long i) const { return d[i]; } };
/* a quadrature rule that reports everything it was given, and a domain-variable pair */
struct Rec : numerical_quadrature_interface<I> {
  double p; explicit Rec(double q) : p(q) {}
  numerical_quadrature_interface<I> * clone() const { return new Rec(p); }
  double eval(rt_interval<I> const & iv, rt_expr<I> const & e, rt_variable<I> const & v) const
  { return iv.lower().get()->eval(p) + 10 * iv.upper().get()->eval(p) + 100 * static_cast<double>(v.id()) + 1000 * e.get()->eval(p); }
};
template <typename V> struct IPair { rt_interval<I> first; V second; IPair(rt_interval<I> const & a, V const & b) : first(a), second(b) {} };
/* functor for one kind of node handing on to a visitor, and a visitor that does not choose */
template <typename T> struct Cast { rt_traversal_wrapper<I> const & w; explicit Cast(rt_traversal_wrapper<I> const & f) : w(f) {} void operator()(T const & t) const { w(&t); } };
struct TraverseAll : rt_traversal_interface<I> { void operator()(I const *) const {} };
/* an operation and a LaTeX processor of the user's own */
struct UOp : OpI {
  OpI * clone() const { return new UOp(); }
  std::string str() const { return "user"; }
  I * simplify(I const *, I const *) const { throw std::runtime_error("unary"); }
  bool can_simplify() const { return false; }
  bool equal(OpI const * o) const { return dynamic_cast<UOp const *>(o) != 0; }
};
struct UProc : rt_latex_processor_interface<I> {
  rt_latex_processor_interface<I> * clone() const { return new UProc(); }
  std::string process(I const * e, bool, rt_latex_translator<I> const &) const { if (dynamic_cast<rt_vector_expr<I> const *>(e)) return "user"; return "my " + std::string("own"); }
};
/* a function symbol tag of the user's own */
struct UTag { static std::string str() { return "user"; } static unsigned long tag_id() { return 42; } };
/* the access function such a type has to supply according to the documentation of rt_variable::operator() */
inline double get_from_vector(UV const & v, unsigned long i) { return v.d[i]; }
}
namespace viennamath {
''' + '\n'.join('template class %s;' % c for c in
  [x.replace('I>', 'rt_expression_interface<double> >') for x in ('rt_constant<double, I>', 'rt_variable<I>', 'rt_function_symbol<I>', 'rt_unary_expr<I>', 'rt_binary_expr<I>',
   'rt_vector_expr<I>', 'rt_expr<I>', 'rt_equation<I>', 'rt_interval<I>', 'rt_symbolic_interval<I>', 'rt_numerical_quadrature<I>', 'op_rt_integral<I>',
   'op_rt_symbolic_integral<I>', 'rt_manipulation_wrapper<I>', 'rt_traversal_wrapper<I>', 'op_unary<op_partial_deriv<double>, I>')]) + '''
}
namespace vd {
'''

class Bad(Exception):
    """the result does not denote what the oracle expects"""

class Ob(object):
    """one obligation: C++ text of function `name`, oracle check(cx, o) called for every normal return (o.v result);
    throws: None -> an exception is a violation, else list of acceptable class names / '*' any library exception
    want: 'ret' normal result expected on at least one path, 'throw' every path must throw"""
    def __init__(s, name, code, check=None, throws=None, want='ret', sizes=(2,), desc=None, abort=False, groups=(), tcheck=None):
        s.tcheck = tcheck
        s.name = name; s.code = code; s.check = check; s.throws = throws; s.want = want; s.sizes = sizes
        s.desc = desc or name; s.abort = abort; s.groups = groups

FAM = {}
def family(pid):
    def deco(f): FAM[pid] = f; return f
    return deco

# ---------------------------------------------------------------------------------------------- denotation
OPN = {'op_plus': '+', 'op_minus': '-', 'op_mult': '*', 'op_div': '/'}

class Cx(object):
    def __init__(s, it, st, args, names): s.it = it; s.st = st; s.args = args; s.names = names; s.deadok = 0; s.work = 0; s.eqs = None; s.inwhole = frozenset()
    def arg(s, n): return s.args[s.names.index(n)]
    def d(s, n):
        """denotation of parameter n"""
        s.deadok += 1
        try: return s.den(s.arg(n))
        finally: s.deadok -= 1
    def app(s, v): return s.it.facts_apply(s.st, rn(v))
    # calling accessors
    def acc(s, oid, base, nargs=0, args=()):
        it = s.it; st = s.st.copy(); o = st.h[oid]
        if s.deadok:
            for z in reach(st, [oid]):
                if not st.h[z].alive: st.w(z).alive = True
        m = it.vmethod(o.cls, base, nargs)
        if m is None: raise Bad('class %s has no %s()' % (it.rname(o.cls), base))
        st.handlers = [[]]; res = []
        for st1, v in it.call(m, list(args), st, ('o', oid)): res.append((st1, v))
        if len(res) != 1: raise Bad('%s() of %s has %d outcomes' % (base, it.describe(st, oid), len(res)))
        s.st.h.update({k: v for k, v in res[0][0].h.items() if k not in s.st.h})
        for k, v in res[0][0].h.items():
            if v.lazy and k in s.st.h: s.st.h[k] = v
        s.st.nxt[0] = max(s.st.nxt[0], res[0][0].nxt[0]); s.st.own = ai.tok()
        v = res[0][1]
        if isinstance(v, tuple) and v[0] == 'l':
            v = it.load(s.st, v, {'k': 'float', 's': 'value'})
        return v
    def accd(s, oid, base):
        """accessor of an object that may have been released since"""
        s.deadok += 1
        try: return s.acc(oid, base)
        finally: s.deadok -= 1
    def isvec(s, oid):
        r = s.it.root(s.st, oid); return not s.st.h[r].opq and s.cname(r).endswith('rt_vector_expr')
    def cname(s, oid): return s.it.rname(s.st.h[oid].cls)
    def opname(s, oid):
        """('sin', state) for an operation object"""
        it = s.it; o = s.st.h[it.root(s.st, oid)]
        if o.opq: return ('opaque', o.tag)
        ta = it.targs(o.cls)
        t = it.types[ta[0]['t']]
        n = t['n'].replace('viennamath::', '')
        return (n, t)
    def den(s, v):
        if isinstance(v, bool): return v
        if isnum(v): return s.app(v)
        if isinstance(v, tuple) and v[0] == 'cv': return rn(v[1])
        if isinstance(v, tuple) and v[0] in ('p', 'o'):
            if not v[1]: raise Bad('null pointer')
            return s.deno(v[1])
        if isinstance(v, tuple) and v[0] == 'l':
            x = s.it.load(s.st, v, {'k': 'float', 's': 'number'})
            return s.den(x)
        raise Bad('cannot interpret value %r' % (v,))
    def var(s, oid):
        """differentiation symbol of a variable-like object"""
        it = s.it; r = it.root(s.st, oid); o = s.st.h[r]
        if o.opq: return ('x', 'opq:' + o.tag)
        n = s.cname(r)
        if n == 'viennamath::rt_variable': return ('x', Q.fmt(s.app(s.acc(r, 'id'))))
        if n == 'viennamath::ct_variable': return ('x', str(it.targs(o.cls)[0]['i']))
        if n == 'viennamath::rt_function_symbol': return ('fs', Q.fmt(s.app(s.acc(r, 'id'))), Q.fmt(s.app(s.acc(r, 'tag_id'))))
        if n == 'viennamath::rt_expr': return s.var(s.acc(r, 'get')[1])
        raise Bad('not a variable: %s' % n)
    def opaqueden(s, r, o):
        if o.org is None or o.org[0] in ('copy', 'subst', 'manip', 'fw'):
            for q, x in list(s.st.h.items()):
                if not x.opq and x.org and x.org[0] == 'simp' and x.org[1] == r and '#vec' in x.f:
                    s.deadok += 1
                    try: return s.deno(q)
                    finally: s.deadok -= 1
            if s.st.facts.get(('const', r)) or s.st.facts.get(('unwrappable', r)): return s.app(Q.sym(('v', 'const:' + o.tag)))
            for q, x in s.st.h.items():       # a simplified form turned out to be a number
                if x.opq and x.org and x.org[0] == 'simp' and s.st.facts.get(('const', q)) and s.it.simpbase(s.st, q)[0] == r:
                    return s.app(Q.sym(('v', 'const:' + o.tag)))
            return s.app(Q.sym(('sk', o.tag)))
        k = o.org[0]
        if k in ('simp', 'diff'):             # the tree this one was made from may be gone by now
            s.deadok += 1
            try:
                d = s.deno(o.org[1])
                return d if k == 'simp' else s.D(d, s.var(o.org[2]))
            finally: s.deadok -= 1
        if k == 'opdiff' and not s.st.h[s.it.root(s.st, o.org[1])].cls == 0:
            a = Q.fn('apply:' + s.st.h[o.org[1]].tag, *[s.sc(s.deno(x)) for x in o.org[2][:-1]])
            return s.D(a, s.var(o.org[2][-1]))
        if k == 'opsimplify':
            return Q.fn('apply:' + s.st.h[o.org[1]].tag, *[s.sc(s.deno(x)) for x in o.org[2]])
        return Q.sym(('sk', s.it.skey(s.st, r)))
    def D(s, d, key):
        if isinstance(d, tuple) and d[0] == 'vec': return ('vec', [s.D(x, key) for x in d[1]])
        return s.app(Q.diff(d, key))
    def deno(s, oid):
        it = s.it; st = s.st; r = it.root(st, oid) if st.h[oid].opq else oid
        o = st.h[r]
        s.work += 1
        if s.work > 20000: raise ai.Limit('denotation budget exceeded')
        if o.opq: return s.opaqueden(r, o)
        if not o.alive and not s.deadok and o.st != 'snap': raise Bad('result refers to the destroyed object %s' % it.describe(st, r))
        n = s.cname(r).replace('viennamath::', ''); ta = it.targs(o.cls)
        if n == 'rt_constant': return s.app(s.acc(r, 'unwrap'))
        if n == 'rt_variable': return Q.sym(s.var(r))
        if n == 'rt_function_symbol': return Q.sym(s.var(r))
        if n == 'rt_expr':
            p = s.acc(r, 'get')
            if p[1] == 0: raise Bad('empty expression')
            return s.deno(p[1])
        if n == 'rt_unary_expr':
            a = s.den(s.acc(r, 'lhs')); return s.uop(s.acc(r, 'op')[1], a)
        if n == 'rt_binary_expr':
            a = s.den(s.acc(r, 'lhs')); b = s.den(s.acc(r, 'rhs')); return s.bop(s.acc(r, 'op')[1], a, b)
        if n == 'rt_vector_expr':
            v = it.vec(st, r)
            return ('vec', [s.den(e) for e in v])
        if n == 'ct_constant': return Q.num(int(ta[0]['i']))
        if n == 'ct_variable': return Q.sym(('x', str(ta[0]['i'])))
        if n == 'ct_function_symbol':
            t = it.types[ta[0]['t']]['s'].replace('viennamath::', '')
            m = re.match(r'(unknown|test)_tag<(\d+)>$', t)
            if m: return Q.sym(('fs', m.group(2), {'unknown': '0', 'test': '1'}[m.group(1)]))
            return Q.sym(('fs', '0', 'tag:' + t))
        if n == 'ct_binary_expr':
            a, b = s.ctf(r, 'lhs'), s.ctf(r, 'rhs')
            return s.bopn(it.types[ta[1]['t']]['n'].replace('viennamath::', ''), s.den(a), s.den(b))
        if n == 'ct_unary_expr':
            return s.uopn(it.types[ta[1]['t']]['n'].replace('viennamath::', ''), s.den(s.ctf(r, 'lhs')), None)
        if n in ('rt_equation', 'ct_equation'): return ('eq', s.den(s.acc(r, 'lhs')), s.den(s.acc(r, 'rhs')))
        if n == 'rt_interval': return ('iv', s.den(s.acc(r, 'lower')), s.den(s.acc(r, 'upper')))
        if n == 'rt_symbolic_interval': return ('siv', s.app(s.acc(r, 'id')))
        if n == 'std::vector':
            v = it.vec(st, r)
            if isinstance(v, tuple): return ('pt', v[1])
            return ('vec', [s.den(e) for e in v])
        raise Bad('no denotation for an object of class %s' % n)
    def ctf(s, r, name):
        it = s.it; o = s.st.h[r]
        m = it.vmethod(o.cls, name, 0)
        if m is not None:
            try:
                v = s.acc(r, name)
                if v is not None: return v
            except Bad: pass
        fs = it.allfields(o.cls)
        c = [f for f in fs if f['n'].startswith(name)] or [fs[0 if name == 'lhs' else -1]]
        return it.getf(s.st, r, c[0]['id'], it.ty(c[0]['t']))
    def uop(s, oid, a):
        n, t = s.opname(oid)
        if n == 'opaque': return s.whole(oid, Q.fn('apply:' + t, s.sc(a)))
        return s.uopn(n, a, oid)
    def whole(s, oid, r):
        """an opaque operation applied to the operands of the expression it was found in: if that expression is known only as a
        simplified form of X, the application denotes X"""
        op = s.it.root(s.st, oid); T = s.st.h[op].tag.rsplit('.', 1)[0]
        for i, o in list(s.st.h.items()):
            if o.tag == T and o.org and o.org[0] == 'simp' and not isinstance(o.cls, str) and not o.opq and i not in s.inwhole:
                s.inwhole = s.inwhole | {i}; s.deadok += 1
                try:
                    if Q.fmt(s.app(s.deno(i))) == Q.fmt(s.app(r)): return s.deno(o.org[1])
                finally: s.inwhole = s.inwhole - {i}; s.deadok -= 1
        return r
    def sc(s, a):
        """scalar or vector operand -> ratio argument"""
        if isinstance(a, R): return a
        if isinstance(a, tuple) and a[0] == 'vec': return Q.fn('vector%d' % len(a[1]), *[s.sc(x) for x in a[1]]) if a[1] else Q.sym('emptyvector')
        raise Bad('operand %r' % (a,))
    def uopn(s, n, a, oid):
        n = n.replace('op_', '')
        if n == 'id': return a
        if n in ('exp', 'sin', 'cos', 'tan', 'fabs', 'sqrt', 'log', 'log10'): return Q.fn(n, s.sc(a))
        if n in ('gradient', 'divergence'): return Q.fn(n, s.sc(a))
        if n == 'partial_deriv':
            o = s.opstate(oid); return Q.fn('pd', s.app(s.acc(o, 'id')), s.sc(a))
        if n == 'rt_integral':
            o = s.opstate(oid); iv = s.den(s.acc(o, 'interval')); v = s.acc(o, 'variable')
            return Q.fn('integral', s.sc(iv[1]), s.sc(iv[2]), s.den(v), s.sc(a))
        if n == 'rt_symbolic_integral':
            o = s.opstate(oid); iv = s.den(s.acc(o, 'interval'))
            return Q.fn('symint', iv[1], s.sc(a))
        return Q.fn('op:' + n, s.sc(a))
    def opstate(s, oid):
        v = s.acc(oid, 'op')
        return v[1]
    def bop(s, oid, a, b):
        n, t = s.opname(oid)
        if n == 'opaque': return s.whole(oid, Q.fn('apply:' + t, s.sc(a), s.sc(b)))
        return s.bopn(n, a, b)
    def bopn(s, n, a, b):
        k = OPN.get(n)
        if k is None: raise Bad('binary operation %s' % n)
        return self_arith(s, k, a, b)

def self_arith(s, k, a, b):
    va, vb = isinstance(a, tuple) and a[0] == 'vec', isinstance(b, tuple) and b[0] == 'vec'
    if va and vb:
        if len(a[1]) != len(b[1]): raise Bad('vector sizes differ')
        if k == '*':
            t = Q.ZERO
            for x, y in zip(a[1], b[1]): t = t + self_arith(s, '*', x, y)
            return t
        return ('vec', [self_arith(s, k, x, y) for x, y in zip(a[1], b[1])])
    if va: return ('vec', [self_arith(s, k, x, b) for x in a[1]])
    if vb: return ('vec', [self_arith(s, k, a, y) for y in b[1]])
    a, b = s.app(a), s.app(b)
    if k == '+': return a + b
    if k == '-': return a - b
    if k == '*': return a * b
    return a / b

def same(cx, got, exp):
    if isinstance(got, tuple) or isinstance(exp, tuple):
        if not (isinstance(got, tuple) and isinstance(exp, tuple)) or got[0] != exp[0] or len(got) != len(exp): return False
        if got[0] == 'vec': return len(got[1]) == len(exp[1]) and all(same(cx, x, y) for x, y in zip(got[1], exp[1]))
        return all(same(cx, x, y) for x, y in zip(got[1:], exp[1:]))
    if isinstance(got, bool) or isinstance(exp, bool): return got is exp
    if isinstance(got, str) or isinstance(exp, str): return got == exp
    got = cx.app(got); exp = cx.app(exp)
    if got == exp: return True
    eq = equalities(cx)
    return eq is not None and (eq == 'contradiction' or modulo(cx, eq, got) == modulo(cx, eq, exp))

def equalities(cx):
    """what the structural comparisons that succeeded on the path say: representatives of names of opaque objects and operations, and
    (name, denotation) of opaque objects found equal to known trees; 'contradiction' if they disagree with other facts (the contract of
    deep_equal: equal trees are of one class and agree on being constant)"""
    if cx.eqs is not None: return cx.eqs or None
    st = cx.st; rep = {}; vals = []; objs = []
    def find(t):
        while t in rep: t = rep[t]
        return t
    for k, v in list(st.facts.items()):
        if v is True and isinstance(k, tuple) and len(k) == 3 and k[0] in ('deep_equal', 'opequal') and k[1] in st.h and k[2] in st.h:
            a, b = st.h[k[1]], st.h[k[2]]
            if a.opq and b.opq:
                x, y = find(a.tag), find(b.tag)
                if x != y: rep[max(x, y, key=lambda t: (len(t), t))] = min(x, y, key=lambda t: (len(t), t))
                if k[0] == 'deep_equal': objs += [k[1], k[2]]
            elif a.opq or b.opq:
                if k[0] == 'deep_equal': vals.append((k[1], k[2]) if a.opq else (k[2], k[1]))
            elif a.cls != b.cls: cx.eqs = 'contradiction'; return cx.eqs
    if not rep and not vals: cx.eqs = (); return None
    const = {}
    for i in set(objs):
        c = st.facts.get(('const', i)); t = find(st.h[i].tag)
        if c is None: const.setdefault(t, None)
        elif const.get(t) is None: const[t] = c
        elif const[t] != c: cx.eqs = 'contradiction'; return cx.eqs
    cx.eqs = (find, vals, const); return cx.eqs

def modulo(cx, eq, r):
    find, vals, const = eq
    def name(k):
        if k[0] == 'sk' and isinstance(k[1], str):
            t = find(k[1]); return ('v', 'const:' + t) if t in const else ('sk', t)
        if k[0] == 'v' and isinstance(k[1], str) and k[1].startswith('const:'): return ('v', 'const:' + find(k[1][6:]))
        if k[0] == 'x' and isinstance(k[1], str) and k[1].startswith('opq:'): return ('x', 'opq:' + find(k[1][4:]))
        return k
    def f(r):
        def sa(a):
            k = Q._atoms[a]
            if k[0] == 'sym': return Q.sym(name(k[1])) if isinstance(k[1], tuple) and len(k[1]) > 1 else R({((a, 1),): Fr(1)}, Q._ONE)
            n = k[1]
            if n.startswith('apply:'): n = 'apply:' + find(n[6:])
            return Q.fn(n, *[f(x) for x in k[2]])
        def sp(p):
            t = Q.ZERO
            for m, c in p.items():
                q = Q.num(c)
                for a, e in m:
                    x = sa(a)
                    for _ in range(e): q = q * x
                t = t + q
            return t
        return sp(r.n) / sp(r.d)
    for i, j in vals:
        cx.deadok += 1
        try: d = cx.deno(j)
        except (Bad, ai.Limit): continue
        finally: cx.deadok -= 1
        if isinstance(d, R):
            t = cx.st.h[i].tag
            for k in (('sk', t), ('v', 'const:' + t)): r = Q.subst(r, k, d)
    try: return f(r)
    except Q.Undefined: return r

def show(v):
    if isinstance(v, tuple): return '%s[%s]' % (v[0], ', '.join(show(x) for x in (v[1] if isinstance(v[1], list) else v[1:])))
    return Q.fmt(v) if isinstance(v, R) else str(v)

def expect(f):
    """oracle: the returned value denotes f(cx)"""
    def check(cx, o):
        try: e = f(cx)
        except Q.Undefined: return 'undefined'
        g = cx.den(o.v)
        if not same(cx, g, e): raise Bad('result denotes %s, expected %s' % (show(g), show(e)))
    return check

# ---------------------------------------------------------------------------------------------- running
def reach(st, roots, heaponly=False):
    seen = set(); todo = list(roots)
    while todo:
        x = todo.pop()
        if x in seen or x not in st.h: continue
        seen.add(x); o = st.h[x]
        if isinstance(o.cls, str) and o.cls == '#frame': continue
        vals = list(o.f.values())
        for v in vals:
            if isinstance(v, list):
                for e in v:
                    if isinstance(e, tuple) and e and e[0] in ('o', 'p') and len(e) == 2: todo.append(e[1])
                    elif isinstance(e, tuple) and len(e) == 2:
                        for z in e:
                            if isinstance(z, tuple) and z and z[0] in ('o', 'p') and len(z) == 2: todo.append(z[1])
            elif isinstance(v, tuple) and v and v[0] in ('o', 'p') and len(v) == 2: todo.append(v[1])
    return seen

def audit(it, o, rett):
    """ownership audit at a normal return: destroys the result, then nothing allocated may be left"""
    st = o.st.copy(); st.handlers = []; it.outs = []
    problems = []
    k = rett['k']
    if k == 'ptr' and isinstance(o.v, tuple) and o.v[0] == 'p' and it.types[rett['t']]['k'] == 'rec':
        tgt = st.h.get(o.v[1])
        if tgt is not None and tgt.st == 'heap' and not it.types[rett['t']].get('c'): gen = it.delete(st, o.v)
        elif tgt is not None and not it.types[rett['t']].get('c'):
            problems.append(('foreign-return', 'returns a pointer to %s, which the caller must not delete' % it.describe(st, o.v[1]), o.where)); gen = iter([st])
        else: gen = iter([st])
    elif k == 'rec' and isinstance(o.v, tuple) and o.v[0] == 'o' and st.h[o.v[1]].st not in ('ext', 'esub'): gen = it.destroy(st, o.v[1])
    else: gen = iter([st])
    n = 0
    for st1 in gen:
        n += 1
        ext = reach(st1, [i for i, x in st1.h.items() if x.st in ('ext', 'esub', 'static')])
        for i, x in st1.h.items():
            if x.st == 'heap' and x.alive and i not in ext and not leaky_child(it, st1, i):
                w = x.line or ('', 0, '')
                problems.append(('leak', '%s created at %s:%s in %s is never released' % (it.describe(st1, i), tool.rel(w[0]), w[1], short(w[2])), w))
    for b in it.outs:
        if b.kind == 'bug': problems.append((b.v[0], 'when the result is released: ' + b.v[1], b.where))
    return problems

def leaky_child(it, st, i):
    """part of a lazily copied opaque object that is accounted for by its (dead) parent"""
    return st.h[i].line is None and st.h[i].org is not None and st.h[i].org[0] in ('copy', 'copyobj')

def short(n): return (n or '').replace('viennamath::', '').replace('rt_expression_interface<double>', 'I')[:120]

class Result(object):
    __slots__ = ('name', 'desc', 'bad', 'bugs', 'leaks', 'writes', 'throws', 'undec', 'paths', 'steps', 'visited', 'ok', 'caught', 'cerr', 'note', 'slow')

LIBEXC = None
def is_exception(it, v):
    """thrown value is derived from std::exception"""
    t = v[2] if len(v) > 2 else None
    if v[0].startswith('std::'): return True
    if t is None or t['k'] != 'rec': return False
    return any(it.rname(a) == 'std::exception' for a in it.ancestors(t['r']))

def run_ob(it, ob):
    r = Result(); r.name = ob.name; r.desc = ob.desc
    r.bad = []; r.bugs = []; r.leaks = []; r.writes = []; r.throws = []; r.undec = []; r.paths = 0; r.steps = 0; r.caught = []; r.ok = 0; r.cerr = None; r.visited = []; r.note = []; r.slow = False
    fs = it.byname.get('vd::' + ob.name)
    it.reset()
    if not fs or fs[0].get('body') is None:
        r.undec.append('the driver does not compile'); r.visited = []; return r
    f = fs[0]
    it.vecsizes = ob.sizes
    names = [p['n'] for p in f['ps']]
    states = []
    def prepare(sizes):
        st = ai.State(); args = []; nv = 0
        for p in f['ps']:
            t = it.ty(p['t'])
            tt = it.types[t['t']] if t['k'] in ('ref', 'rref', 'ptr') else t
            v = it.symval(st, t, p['n'], 'ext' if t['k'] != 'rec' else 'auto')
            if t['k'] == 'ptr' and not tt.get('c') and isinstance(v, tuple) and v[0] == 'p':
                st.h[v[1]].st = 'heap'; st.h[v[1]].line = (f['f'], f['l'], f['full'])
            if t['k'] == 'ref' and not tt.get('c'): st.facts[('mut', p['n'])] = True
            if t['k'] in ('ref', 'rref') and not (isinstance(v, tuple) and v[0] == 'o'):
                i = st.new('#cell', 'ext', p['n']); st.h[i].f['v'] = v; v = ('l', i, 'v')
            elif isinstance(v, tuple) and v[0] == 'o' and not st.h[v[1]].opq and '#vec' not in st.h[v[1]].f:
                # vector expressions: every combination of sizes; lists (of pointers): the same size for all of them
                cls = st.h[v[1]].cls
                if it.derives(cls, 'viennamath::rt_vector_expr'):
                    it.veclazy(st, v[1], sizes[nv] if nv < len(sizes) else ob.sizes[0]); nv += 1
            args.append(v)
        return st, args, nv
    nv = prepare(())[2]
    for sizes in itertools.product(ob.sizes, repeat=nv): states.append(prepare(sizes)[:2])
    try:
        for st, args in states:
            cur = args
            for st1, v in it.call(f['id'], args, st):
                it.paths += 1
                it.outs.append(ai.Outcome('ret', v, st1, st1.last[:3] if st1.last else it.where(st1)))
            for x in it.outs:
                if not hasattr(x, 'args'): x.args = args
    except ai.Limit as e:
        r.undec.append(str(e)); r.slow = 'exceeded' in str(e) or 'more than' in str(e)
    except Q.TooBig: r.undec.append('normal form too large')
    except (KeyError, IndexError, TypeError, AttributeError, AssertionError, RecursionError) as e:
        if os.environ.get('VM_DEBUG'): raise
        import traceback
        r.undec.append('interpreter: %s %s at %s' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip()[:120]))
    outs = it.outs; it.outs = []
    rett = it.ty(f['ret'])
    nret = 0
    for o in outs:
        args = getattr(o, 'args', cur)
        if it.deadline and r.slow and time.time() > it.deadline + 10: break
        path = '; '.join(o.st.trace[:8])
        where = o.where or ('', 0, '')
        if o.kind == 'undecided': r.undec.append('%s (%s:%s)' % (o.v, tool.rel(where[0]), where[1])); continue
        for e in o.st.events:
            if e[0] == 'write': r.writes.append((e[1], path, e[2]))
            if e[0] == 'caught': r.caught.append((e[1], path, e[2]))
        if o.kind == 'terminate': r.bugs.append(('terminate', o.v, path, where)); r.bad.append((o.v, path, where)); continue
        if o.kind == 'bug': r.bugs.append((o.v[0], o.v[1], path, where)); continue
        if o.kind == 'abort':
            if not ob.abort: r.bad.append(('terminates the program by a failed assertion', path, where))
            else: r.ok += 1
            continue
        if o.kind == 'throw':
            r.throws.append((o.v[0], is_exception(it, o.v), path, where))
            t = o.v[0].replace('viennamath::', '')
            if ob.throws is None and ob.want != 'throw': r.bad.append(('throws %s' % t, path, where))
            elif ob.throws and '*' not in ob.throws and t not in ob.throws: r.bad.append(('throws %s instead of %s' % (t, '/'.join(ob.throws)), path, where))
            elif not is_exception(it, o.v): r.bad.append(('throws a %s, which is not an exception object' % t, path, where))
            elif ob.tcheck:
                try: ob.tcheck(Cx(it, o.st, args, names), o); r.ok += 1
                except Bad as e: r.bad.append((str(e), path, where))
                except (KeyError, IndexError, TypeError, AttributeError, Q.TooBig, ai.Limit) as e: r.undec.append('oracle: %s' % e)
            else: r.ok += 1
            continue
        nret += 1
        try:
            for p in audit(it, o, rett):
                (r.leaks if p[0] == 'leak' else r.bugs).append((p[0], p[1], path, p[2]))
        except ai.Limit: r.undec.append('audit limit')
        except (KeyError, IndexError, TypeError, AttributeError) as e:
            if os.environ.get('VM_DEBUG'): raise
            r.undec.append('audit: %s %s' % (type(e).__name__, e))
        if ob.want == 'throw': r.bad.append(('returns normally although it has to refuse', path, where)); continue
        if ob.check:
            cx = Cx(it, o.st, args, names); cx.ret = o.v; cx.ptypes = [p['t'] for p in f['ps']]
            try:
                u = ob.check(cx, o)
                if u == 'undecided': r.undec.append('oracle')
                elif isinstance(u, tuple) and u[0] == 'note': r.note.append(u[1]); r.ok += 1
                else: r.ok += 1
            except Bad as e: r.bad.append((str(e), path, where))
            except Q.Undefined: r.bad.append(('result is undefined (division by zero)', path, where))
            except ai.Limit as e: r.undec.append('oracle: ' + str(e)); break
            except Q.TooBig: r.undec.append('normal form too large')
            except (KeyError, IndexError, TypeError, AttributeError, RecursionError) as e:
                if os.environ.get('VM_DEBUG'): raise
                import traceback
                r.undec.append('oracle: %s %s at %s' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip()[:120]))
        else: r.ok += 1
    r.paths = len(outs); r.steps = it.steps; r.visited = sorted(it.visited)
    return r

_IT = None; _OBS = None
def _work(i): 
    return run_ob(_IT, _OBS[i])

START = time.time()
def deadline(): return START + (780 if os.environ.get('VERIF_TIER') == 'thorough' else 480)
def run(obs, extra='', jobs=8):
    """interpret every obligation with a small budget first, then those that did not fit into it with the full one (unless the first
    round has found a violation already); obligations that do not fit into the full budget stay undecided"""
    res, errs, vis = run1(obs, extra, jobs)
    if any(r.slow for r in res) and not any(r.bad or r.bugs for r in res): res, vis = again(obs, res, vis, extra, jobs)
    return res, errs, vis
def again(obs, res, vis, extra='', jobs=8):
    n = {r.name for r in res if r.slow}
    if time.time() > deadline(): return res, vis
    more, errs, v = run1([o for o in obs if o.name in n], extra, jobs, True)
    m = {r.name: r for r in more}; vis = dict(vis); vis.update(v)
    return [m.get(r.name, r) for r in res], vis

def run1(obs, extra='', jobs=8, full=False):
    """extract the driver, interpret every obligation (in parallel processes); returns (results, errors, functions)"""
    seen = {}
    u = []
    for o in obs:
        if o.name not in seen: seen[o.name] = 1; u.append(o)
    obs = u
    # spread over several translation units to extract in parallel
    nt = max(1, min(jobs, len(obs) if full else len(obs) // 25))
    parts = [obs[i::nt] for i in range(nt)]
    if nt == 1: return _runpart((obs, extra, jobs, full))
    ctx = multiprocessing.get_context('fork')
    global _PARTS
    _PARTS = [(p, extra, 1, full) for p in parts]
    with ctx.Pool(nt) as pool: rs = pool.map(_partjob, range(nt), 1)
    results = {}; errs = []; vis = {}
    for a, b, c in rs:
        results.update(a); errs += b; vis.update(c)
    return [results[o.name] for o in obs], errs, vis
_PARTS = None
def _partjob(i):
    a, b, c = _runpart(_PARTS[i])
    return {r.name: r for r in a}, b, c
def _runpart(p):
    obs, extra, jobs, full = p
    head = HDR + extra
    text = head + '\n'.join(o.code for o in obs) + '\n}\n'
    db = tool.extract(text)
    it = ai.Interp(db)
    errs = [(e['f'], e['l'], e['m'], e['drv']) for e in tool.errors(db)]
    cerr = {}; line = head.count('\n') + 1
    for o in obs:
        n = o.code.count('\n') + 1
        for e in errs:
            if any(line <= x < line + n for x in e[3]):
                if e[0].startswith(tool.REPO + '/') or re.match(r"no matching|no viable|invalid operands|call to .* is ambiguous|use of overloaded operator .* is ambiguous|ambiguous|conversion from .* is ambiguous", e[2]):
                    cerr.setdefault(o.name, e)
        line += n
    import gc
    gc.disable()
    res = []
    spent = 0.0
    it.deadline = deadline()
    for o in obs:
        if not full:
            it.MAXSTEPS, it.MAXPATHS = (150000, 1200) if spent < 20 else (40000, 300) if spent < 40 else (10000, 80)
        t0 = time.time()
        res.append(run_ob(it, o)); res[-1].cerr = cerr.get(o.name)
        if res[-1].slow: spent += time.time() - t0
    vis = set()
    for r in res: vis |= set(r.visited)
    names = {i: (it.head[i]['full'], it.head[i]['f'], it.head[i]['l']) for i in vis}
    for r in res: r.visited = [names[i] for i in r.visited]
    if it.cov is not None: pickle.dump((it.cov, [(f['f'], f['full'], f['body']) for f in db['functions'] if tool.REPO + '/viennamath' in f['f'] and f.get('body')]), open(os.path.join(os.environ['VM_COV'], hashlib.md5(text.encode()).hexdigest()), 'wb'))
    return res, errs, {names[i]: 1 for i in vis}
