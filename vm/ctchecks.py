"""Checks C01..C06, C08 and the type-level part of C07."""
import random, itertools
from . import ct, ratio as Q
from .ct import c, v, f, b, u, cpp, den, show, run, patterns, instances, consts, odd_ints, odd_ids
from .tool import extract, errors, rel

SK = [f('A'), f('B'), f('C'), f('D')]

def den_(e):
    try: return den(e)
    except Q.Undefined: return None

def base_db():
    return extract(ct.PRE)

def where(err):
    return (err.get('f'), err.get('l'))

def report_err(R, key, x, what):
    notes = '; '.join(n[2][:120] for n in x['notes'] if 'matches' in n[2])[:400]
    R.violation(key, '%s does not compile: %s %s' % (what, x['m'][:200], notes), *where(x))

def forms(ints):
    return [f('A'), v(0), v(1), c(0), c(1), c(-1), c(2), c(-3), b('-', c(0), f('B')), b('/', c(1), f('B')),
            b('/', c(2), c(3)), b('/', c(-4), c(6)), b('/', c(1), c(2)), b('/', c(0), c(5)), b('-', c(0), c(0)), b('/', c(3), c(1)),
            b('-', c(0), b('/', c(1), c(2))), b('/', c(1), b('/', c(1), c(2))), b('+', f('C'), c(0)), b('*', f('C'), c(1)),
            b('+', f('C'), f('D')), b('/', f('C'), f('D')), b('/', c(1), c(-1)), u('sin', b('+', f('C'), c(0)))]

def ints_for(db):
    s = {0, 1, -1, 2, -2, 3, 5, -12, 3000000019}
    for k in consts(db): s |= {k, k + 1, k - 1, -k}
    return sorted(s | set(odd_ints()))

def odd_forms(x, y, quot=True):
    "expressions over the numbers that no small sample contains"
    out = []
    for n in odd_ints():
        k = c(n)
        out += [k, b('*', k, x), b('*', x, k), b('+', x, k), b('+', k, x), b('-', k, x), b('-', x, k), b('/', x, k), b('+', b('*', k, x), k), b('*', b('-', x, k), y), b('*', b('*', k, y), x), b('+', k, c(1)), b('*', k, c(2)), b('-', k, k)]
        if quot: out += [b('/', k, x), b('/', k, b('+', x, c(1))), b('/', b('*', k, x), b('+', y, k))]
    return [e for e in out if fits(e)]

def generic_grid(db, R, rng, per=20, extra_types=()):
    ints = ints_for(db)
    leaf = [f('A'), f('B'), v(0), v(1)] + [v(i) for i in odd_ids()] + [c(n) for n in ints]
    fm = forms(ints)
    es = []
    for o in '+-*/':
        es += [b(o, l, r) for l in leaf for r in leaf]
        es += [b(o, l, r) for l in fm for r in fm]
    pats = patterns(db)
    types = [f('A'), f('B'), v(0), c(0), c(1), c(-1), c(4), b('/', c(2), c(3)), b('/', c(1), c(2)), b('-', c(0), f('B')), b('/', c(1), f('C')), b('+', f('C'), f('D'))] + list(extra_types)
    inst = instances(pats, types, [0, 1, -1, 2, -3, 7, -12, 6] + [i for i in ints if abs(i) < 100], rng, per)
    es += inst
    # one further level: every operation applied to a one-step form and to a compound
    for o in '+-*/':
        for e in rng.sample(inst, min(len(inst), 150 if not R.thorough() else 1500)):
            es.append(b(o, e, rng.choice(fm))); es.append(b(o, rng.choice(fm), e))
    R.cov['specialization_patterns'] = len(pats); R.cov['pattern_instances'] = len(inst)
    return list(dict.fromkeys(es))

OVER = ('overflow', 'not a constant expression', 'narrow', 'too large', 'integer constant expression')
def overflows(x):
    t = x['m'] + ' '.join(n[2] for n in x['notes'])
    return any(w in t for w in OVER)

def big(e):
    """largest intermediate integer that naive cross multiplication of e can produce"""
    if e[0] == 'c': return abs(e[1]), 1
    if e[0] in 'vf': return 1, 1
    if e[0] == 'u': return big(e[2])
    (n1, d1), (n2, d2) = big(e[2]), big(e[3])
    if e[1] in '+-': return n1 * d2 + n2 * d1, d1 * d2
    if e[1] == '*': return n1 * n2, d1 * d2
    return n1 * d2, d1 * n2

def fits(e): return max(big(e)) < 2 ** 62

def c01(R):
    R.rule('For every pattern of every partial specialization used by the compile-time simplifier, instantiated with opaque function symbols, variables, and the integers that occur in any pattern and their neighbours, and for all pairs of a basis of operand forms under all four operations, the result type of simplify() (read back from the type-checked program) must denote the same rational function as its argument; a compile error inside the library for an argument whose denotation is defined is a violation (ambiguity or non-termination).')
    db = base_db(); rng = random.Random(R.seed)
    es = [e for e in generic_grid(db, R, rng, 20 if not R.thorough() else 150) if fits(e)]
    R.require('simplify_queries', len(es), 2500)
    R.require('patterns', R.cov['specialization_patterns'], 40)
    und = 0; changed = 0
    for part in chunks(es, 6000):
        r = run([(e, 'decltype(viennamath::simplify(mk<%s>()))' % cpp(e)) for e in part])
        for e in part:
            d = den_(e); k, x = r[e]
            if d is None: und += 1; continue
            key = 'simplify(%s)' % show(e)
            if k != 'ok':
                if k == 'err' and overflows(x): R.undecided(key, 'integer overflow'); continue
                if k == 'notct': R.violation(key, 'result is not an expression: %s' % x, None, None); continue
                report_err(R, key, x, key); continue
            try: ok = den(x) == d
            except Q.Undefined: ok = False
            if ok:
                changed += x != e
                R.passed(1, key + ' = ' + show(x) if x != e else None)
            else: R.violation(key, 'denotes %s instead of %s (result type %s)' % (show(x), Q.fmt(d)[:200], show(x)), *spec_loc(db, 'simplify'))
    R.cov['undefined_arguments_skipped'] = und; R.cov['rewritten'] = changed
    if changed < 500: R.error('simplifier rewrote only %d expressions' % changed)

def spec_loc(db, name):
    for p in db['partials']:
        if p['n'].split('::')[-1].startswith(name): return (p['f'], p['l'])
    for t in db.get('templates', []):
        if t.get('n', '').split('::')[-1] == name: return (t.get('f'), t.get('l'))
    return (None, None)

def chunks(l, n):
    for i in range(0, len(l), n): yield l[i:i + n]

VARS = [v(0), v(1), v(2)]
def poly_forms():
    return [v(0), v(1), c(0), c(1), c(-2), c(5), b('*', v(0), v(0)), b('*', v(0), v(1)), b('+', v(0), c(3)), b('-', v(1), v(0)),
            b('/', v(0), c(2)), b('*', c(3), v(0)), b('*', v(1), c(-1)), b('+', b('*', v(0), v(1)), c(2)), b('-', c(1), b('*', v(1), v(1)))]

def rnd_poly(rng, d, leaves, ops='+-*'):
    if d == 0 or rng.random() < .15: return rng.choice(leaves)
    o = rng.choice(ops)
    return b(o, rnd_poly(rng, d - 1, leaves, ops), rnd_poly(rng, d - 1, leaves, ops))

def c02(R):
    R.rule('Every pattern of every library partial specialization instantiated with variables and constants, and all pairs of operand forms under all four operations: the type returned by diff(e, x_i) must denote the exact partial derivative of e (rational-function identity); compile errors are violations.')
    db = base_db(); rng = random.Random(R.seed)
    pf = poly_forms() + [b('/', v(0), v(1)), b('/', c(1), v(0)), b('/', v(1), b('+', v(0), c(1)))]
    es = [v(0), v(1), v(2), v(7)] + [c(n) for n in (0, 1, -1, 4)]
    for o in '+-*/': es += [b(o, l, r) for l in pf for r in pf]
    types = [v(0), v(1), c(0), c(1), c(3), b('*', v(0), v(1)), b('+', v(0), v(1)), b('/', v(1), v(0))]
    pats = [p for p in patterns(db) if 'u' != p[0][0]]
    es += [e for e in instances(pats, types, [0, 1, -1, 2, 5], rng, 4 if not R.thorough() else 40) if not has(e, 'u') and not has(e, 'f')]
    for _ in range(150 if not R.thorough() else 3000): es.append(rnd_poly(rng, 3, [v(0), v(1), v(2), c(2), c(-1), c(0)], '+-*/'))
    ids = odd_ids()
    es += odd_forms(v(0), v(1))
    for i in ids: es += [v(i), b('*', v(i), v(0)), b('/', v(0), v(i)), b('*', b('+', v(i), v(1)), v(i))]
    es = list(dict.fromkeys(e for e in es if fits(e) and den_(e) is not None))
    items = []
    for e in es:
        for i in (0, 1, 2, 7) if e in [v(0), v(7)] else (0, 1): items.append((e, i))
        items += [(e, i) for i in ids if has_v(e, i)]
    R.require('diff_queries', len(items), 1000)
    nz = 0
    for part in chunks(items, 4000):
        r = run([(k, 'decltype(viennamath::diff(mk<%s>(), mk<X<%d> >()))' % (cpp(k[0]), k[1])) for k in part])
        for e, i in part:
            k, x = r[(e, i)]; key = 'diff(%s, x%d)' % (show(e), i)
            if k != 'ok':
                if k == 'err': report_err(R, key, x, key)
                else: R.violation(key, 'result is not a compile-time expression: %s' % x)
                continue
            want = Q.diff(den(e), ('x', i))
            try: ok = den(x) == want
            except Q.Undefined: ok = False
            nz += not want.iszero()
            if ok: R.passed(1, '%s = %s' % (key, show(x)[:100]) if nz % 97 == 1 else None)
            else: R.violation(key, 'yields %s, which is not the derivative %s' % (show(x)[:200], Q.fmt(want)[:200]), *spec_loc(db, 'diff'))
    R.cov['nonzero_derivatives'] = nz

def has(e, k):
    return e[0] == k or any(isinstance(x, tuple) and has(x, k) for x in e[1:])

def product_of_sums(e):
    """a product (outside denominators and function arguments) with a sum or
    difference as (nested) factor"""
    def sumfactor(x):
        if x[0] != 'b': return False
        if x[1] in '+-': return True
        if x[1] == '*': return sumfactor(x[2]) or sumfactor(x[3])
        return sumfactor(x[2])
    if e[0] != 'b': return False
    if e[1] == '*': return sumfactor(e[2]) or sumfactor(e[3])
    if e[1] in '+-': return product_of_sums(e[2]) or product_of_sums(e[3])
    return product_of_sums(e[2])

def c03(R):
    R.rule('expand(e) for all pairs of operand forms, pattern instances and seeded compound expressions: result type must denote the same rational function and contain no product with a sum or difference as factor outside denominators.')
    db = base_db(); rng = random.Random(R.seed)
    S1 = b('+', f('A'), f('B')); S2 = b('-', f('C'), v(0))
    pf = [f('A'), v(0), c(3), c(0), S1, S2, b('*', f('A'), S2), b('*', S1, v(1)), b('*', S1, S2), b('/', S1, f('D')), b('/', f('A'), S2), b('/', c(1), c(2)),
          b('+', S1, b('*', v(0), S2)), b('*', b('*', S1, f('D')), S2), b('-', b('*', f('A'), f('B')), b('*', S1, S2)), b('/', b('*', S1, v(0)), c(4)), u('sin', S1),
          b('+', b('+', f('A'), f('B')), v(0)), b('*', f('A'), b('*', f('B'), S1)), b('/', b('/', S2, f('A')), f('B'))]
    es = list(pf)
    for o in '+-*/': es += [b(o, l, r) for l in pf for r in pf]
    types = [f('A'), v(0), S1, S2, c(2), b('*', S1, f('D')), b('/', S2, c(3))]
    es += instances(patterns(db), types, [0, 1, -1, 5], rng, 3 if not R.thorough() else 40)
    leaves = [f('A'), f('B'), v(0), v(1), c(2), c(-1)]
    for _ in range(200 if not R.thorough() else 3000): es.append(rnd_poly(rng, 4, leaves, '+-*'))
    es += odd_forms(f('A'), S1) + [b(o, b('+', c(n), f('A')), b('-', f('B'), c(n))) for n in odd_ints() for o in '*/'] + [b('*', v(i), S1) for i in odd_ids()]
    es = [e for e in dict.fromkeys(es) if den_(e) is not None]
    R.require('expand_queries', len(es), 800)
    n = 0
    for part in chunks(es, 3000):
        r = run([(e, 'decltype(viennamath::expand(mk<%s>()))' % cpp(e)) for e in part])
        for e in part:
            k, x = r[e]; key = 'expand(%s)' % show(e)
            if k != 'ok':
                if k == 'err': report_err(R, key, x, key)
                else: R.violation(key, 'result is not a compile-time expression: %s' % x)
                continue
            try: ok = den(x) == den(e)
            except Q.TooBig: R.undecided(key, 'too large'); continue
            except Q.Undefined: ok = False
            if not ok: R.violation(key, 'result %s differs in value' % show(x)[:200], *spec_loc(db, 'expand'))
            elif product_of_sums(x): R.violation(key, 'result %s still has a product with a sum as factor' % show(x)[:200], *spec_loc(db, 'expand'))
            else:
                n += product_of_sums(e); R.passed(1, '%s = %s' % (key, show(x)[:120]) if product_of_sums(e) and n % 50 == 1 else None)
    R.cov['expanded'] = n
    if n < 100: R.error('only %d arguments needed expansion' % n)

def poly_grid(R, rng, leaves_extra=(), n=150):
    x, y = v(0), v(1)
    pf = [x, y, c(2), c(-1), c(0), f('A'), b('*', x, y), b('*', x, x), b('+', x, c(3)), b('-', y, x), b('/', x, c(2)), b('*', c(3), x), b('*', f('A'), x),
          b('*', x, f('A')), b('/', b('*', x, y), c(-3)), b('-', c(1), b('*', x, b('*', y, x))), b('*', b('+', x, y), b('-', x, y)), b('*', b('/', c(1), c(2)), x), b('+', f('A'), b('*', f('B'), x)), b('*', b('*', x, x), x)]
    es = list(pf)
    for o in '+-*': es += [b(o, l, r) for l in pf for r in pf]
    es += [b('/', l, r) for l in pf for r in (c(2), c(-3), f('C'), b('/', c(1), c(2)))]
    for _ in range(n): es.append(rnd_poly(rng, 3, [x, x, y, c(2), c(-1), f('A'), b('/', x, c(2))], '+-*'))
    es += odd_forms(x, y, False)
    return [e for e in dict.fromkeys(es) if fits(e)]

def c04(R):
    R.rule('coefficient(x, P) and drop_dependent_terms(x, P) for a basis of polynomials closed under one operation plus seeded compound ones, x a variable or a function symbol: types returned must denote (P - P|x=0)/x and P|x=0.')
    rng = random.Random(R.seed); db = base_db()
    es = poly_grid(R, rng, n=150 if not R.thorough() else 2000)
    items = [(e, x) for e in es for x in (v(0), v(1), f('A'))]
    if not R.thorough(): items = [it for i, it in enumerate(items) if it[1] == v(0) or i % 3 == 0]
    for i in odd_ids():
        z = v(i); items += [(e, y) for e in (z, b('*', c(3), z), b('+', b('*', z, v(0)), c(2)), b('-', v(0), b('*', z, z)), b('*', v(0), v(1))) for y in (z, v(0))]
    R.require('polynomial_queries', len(items), 800)
    for part in chunks(items, 2000):
        q = []
        for e, x in part:
            q.append((('c', e, x), 'decltype(viennamath::coefficient(mk<%s>(), mk<%s>()))' % (cpp(x), cpp(e))))
            q.append((('d', e, x), 'decltype(viennamath::drop_dependent_terms(mk<%s>(), mk<%s>()))' % (cpp(x), cpp(e))))
        r = run(q)
        for e, x in part:
            P = den(e); key = ('x', x[1]) if x[0] == 'v' else ('sk', x[1])
            P0 = Q.subst(P, key, Q.ZERO); K = (P - P0) / den(x)
            if Q.poly_in(P, key) is None: continue
            for w, want, nm in (('c', K, 'coefficient'), ('d', P0, 'drop_dependent_terms')):
                k, y = r[(w, e, x)]; kk = '%s(%s, %s)' % (nm, show(x), show(e))
                if k != 'ok':
                    if k == 'err': report_err(R, kk, y, kk)
                    else: R.violation(kk, 'result is not a compile-time expression: %s' % y)
                    continue
                try: ok = den(y) == want
                except Q.Undefined: ok = False
                if ok: R.passed(1, '%s = %s' % (kk, show(y)[:100]) if R.ok % 211 == 0 else None)
                else: R.violation(kk, 'yields %s, expected %s' % (show(y)[:160], Q.fmt(want)[:160]), *spec_loc(db, nm))

    c04_sub(R, db)

def c04_sub(R, db):
    """the factor is itself a compound expression: it counts as one indivisible factor"""
    T = f('D')
    def put(e, F):
        if e == T: return F
        return e[:2] + tuple(put(x, F) for x in e[2:]) if e[0] in 'bu' else e
    mono = [T, b('*', c(3), T), b('*', T, c(3)), b('*', v(2), T), b('*', T, v(2)), b('/', T, c(2)), b('*', c(3), b('*', v(2), T)), b('*', b('*', T, v(2)), c(3)), b('*', c(3), b('*', T, v(2))), b('*', f('A'), b('/', T, c(2)))]
    z = [v(2), c(5), b('*', v(2), v(3)), f('A')]
    comp = mono + [b(o, m, y) for m in mono for y in z for o in '+-'] + [b(o, y, m) for m in mono for y in z[:2] for o in '+-'] + [b('+', m, n) for m in mono[:4] for n in mono[1:6]]
    plain = [T] + [b(o, T, y) for y in z for o in '+-'] + [b(o, y, T) for y in z for o in '+-']
    items = [(put(e, F), F, e) for F in (b('*', v(0), v(1)), b('/', v(0), v(1)), b('*', v(0), v(0)), b('*', c(4), v(0)), b('*', f('B'), v(1))) for e in comp]
    items += [(put(e, F), F, e) for F in (b('+', v(0), v(1)), b('-', v(0), v(1)), b('+', v(0), c(1)), b('-', c(1), f('B'))) for e in plain]
    R.require('compound_factor_queries', len(items), 400)
    r = run([((e, F), 'decltype(viennamath::coefficient(mk<%s>(), mk<%s>()))' % (cpp(F), cpp(e))) for e, F, _ in items])
    for e, F, t in items:
        P = den(t); K = (P - Q.subst(P, ('sk', 'D'), Q.ZERO)) / den(T); kk = 'coefficient(%s, %s)' % (show(F), show(e))
        k, y = r[(e, F)]
        if k != 'ok':
            if k == 'err': report_err(R, kk, y, kk)
            else: R.violation(kk, 'result is not a compile-time expression: %s' % y)
            continue
        try: ok = den(y) == K
        except Q.Undefined: ok = False
        if ok: R.passed(1)
        else: R.violation(kk, 'yields %s, expected %s' % (show(y)[:160], Q.fmt(K)[:160]), *spec_loc(db, 'coefficient'))

def integral(P, key, lo, up):
    pc = Q.poly_in(P, key)
    if pc is None: return None
    t = Q.ZERO
    for e, k in pc.items():
        a, z = Q.ONE, Q.ONE
        for _ in range(e + 1): a = a * up; z = z * lo
        t = t + k * (a - z) / Q.num(e + 1)
    return t

def c05(R):
    R.rule('integrate(interval, P, x) for polynomials P over variables and constants and polynomial bounds free of x: the type returned must denote the exact integral (antiderivative difference computed on the normal form).')
    rng = random.Random(R.seed); db = base_db()
    es = [e for e in poly_grid(R, rng, n=120 if not R.thorough() else 1500) if not has(e, 'f')]
    bounds = [(c(0), c(1)), (c(-1), c(2)), (c(1), v(2)), (v(1), c(3)), (b('-', c(1), v(1)), b('*', v(1), v(2))), (b('/', c(1), c(2)), c(5))]
    items = []
    for i, e in enumerate(es):
        for x in (0, 1):
            for j, (l, h) in enumerate(bounds):
                if has_v(l, x) or has_v(h, x): continue
                if R.thorough() or j in (0, (i % 5) + 1): items.append((e, x, l, h))
    for k in (3, 4, 5, 6, 7):
        p = v(0)
        for _ in range(k - 1): p = b('*', p, v(0))
        items.append((p, 0, c(-1), v(1))); items.append((b('*', c(2), p), 0, v(1), c(2)))
    for n in odd_ints():
        if abs(n) > 2 ** 21: continue
        items += [(v(0), 0, c(n), c(n + 1)), (c(3), 0, c(0), c(n)), (b('*', v(0), v(0)), 0, c(0), b('*', c(n), v(1)))]
    for i in odd_ids(): items += [(v(i), i, c(0), c(2)), (b('*', v(i), v(0)), i, v(0), c(2)), (v(0), i, c(0), c(2)), (v(i), 0, c(0), v(1))]
    R.require('integrals', len(items), 500)
    for part in chunks(items, 1500):
        r = run([(k, 'decltype(viennamath::integrate(mk<viennamath::ct_interval<%s,%s> >(), mk<%s>(), mk<X<%d> >()))' % (cpp(k[2]), cpp(k[3]), cpp(k[0]), k[1])) for k in part])
        for it in part:
            e, x, l, h = it; k, y = r[it]
            want = integral(den(e), ('x', x), den(l), den(h))
            key = 'integrate([%s,%s], %s, x%d)' % (show(l), show(h), show(e), x)
            if want is None: continue
            if k != 'ok':
                if k == 'err' and overflows(y): R.undecided(key, 'integer overflow'); continue
                if k == 'err': report_err(R, key, y, key)
                else: R.violation(key, 'result is not a compile-time expression: %s' % y)
                continue
            try: ok = den(y) == want
            except Q.Undefined: ok = False
            except Q.TooBig: R.undecided(key, 'too large'); continue
            if ok: R.passed(1, '%s = %s' % (key, show(y)[:100]) if R.ok % 101 == 0 else None)
            else: R.violation(key, 'yields %s, expected %s' % (show(y)[:160], Q.fmt(want)[:160]), *spec_loc(db, 'integrate'))

def has_v(e, i): return e == ('v', i) or any(isinstance(x, tuple) and has_v(x, i) for x in e[1:])

def csub(e, a, z):
    if e == a: return z
    if e[0] in 'cvf': return e
    return e[:2] + tuple(csub(x, a, z) for x in e[2:])

def c06(R):
    R.rule('substitute(A, B, E) for expressions containing A zero, one and several times, nested, and next to look-alikes (different index, value, operation, order): the result type must be exactly E with every occurrence of type A replaced by B.')
    rng = random.Random(R.seed); db = base_db()
    A = [v(0), v(1), f('A'), c(2), c(0), b('+', v(0), c(1)), b('*', f('A'), v(0)), u('sin', v(0)), b('-', v(0), v(1)), b('/', c(1), c(2))]
    Z = [v(2), c(7), b('*', v(1), f('B')), f('B'), u('exp', v(1)), v(0)]
    leaves = A + [b('+', c(1), v(0)), b('-', v(1), v(0)), u('cos', v(0)), u('sin', v(1)), f('B'), c(-2)]
    es = list(leaves)
    for o in '+-*/': es += [b(o, l, r) for l in leaves for r in leaves if rng.random() < (.35 if not R.thorough() else 1)]
    es += [u('exp', e) for e in leaves]
    for _ in range(60 if not R.thorough() else 800): es.append(rnd_poly(rng, 3, leaves, '+-*/'))
    es = list(dict.fromkeys(es))
    items = [(a, z, e) for e in es for a in A for z in ([rng.choice(Z)] if not R.thorough() else Z)]
    for n in odd_ints(): items += [(c(n), v(1), b('+', b('*', c(n), v(0)), c(n + 1))), (v(0), c(n), b('*', v(0), b('-', c(n), v(0)))), (c(2), c(n), b('/', c(n), c(2)))]
    for n in odd_ids(): items += [(v(n), v(1), b('+', b('*', v(n), v(0)), v(n + 1))), (v(0), v(n), b('*', v(0), b('-', v(n), v(0))))]
    R.require('substitutions', len(items), 2000)
    hit = 0
    for part in chunks(items, 6000):
        r = run([(k, 'decltype(viennamath::substitute(mk<%s>(), mk<%s>(), mk<%s>()))' % tuple(map(cpp, k))) for k in part])
        for it in part:
            a, z, e = it; k, x = r[it]; key = 'substitute(%s, %s, %s)' % tuple(map(show, it))
            want = csub(e, a, z); hit += want != e
            if k != 'ok':
                if k == 'err': report_err(R, key, x, key)
                else: R.violation(key, 'result is not a compile-time expression: %s' % x)
            elif x != want: R.violation(key, 'yields %s, expected %s' % (show(x), show(want)), *spec_loc(db, 'substitute'))
            else: R.passed(1, '%s = %s' % (key, show(x)) if want != e and hit % 301 == 1 else None)
    R.cov['with_match'] = hit

def c07_types(R):
    """exact compile-time evaluation at vectors of constants"""
    db = base_db(); rng = random.Random(R.seed)
    pts = [[c(2)], [c(-3), c(5)], [c(7), c(-2), c(4)], [c(3000000019), c(2), c(-1)]]
    leaves = [v(0), v(1), v(2), c(0), c(1), c(-1), c(3), c(6), b('/', c(1), c(2)), b('/', c(2), v(0)), b('-', c(0), v(0))]
    es = list(leaves)
    for o in '+-*/': es += [b(o, l, r) for l in leaves for r in leaves]
    for _ in range(100 if not R.thorough() else 2000): es.append(rnd_poly(rng, 3, leaves, '+-*/'))
    es += [e for e in instances([p for p in patterns(db) if p[0][0] == 'b'], [v(0), c(2), b('/', c(1), v(0)), b('-', c(0), v(0))], [1, -1, 4, 7, -6], rng, 3) if not has(e, 'f') and not has(e, 'u')]
    es += odd_forms(v(0), v(1))
    pts += [[c(n), c(3)] for n in odd_ints()]
    items = []
    for e in dict.fromkeys(es):
        for p in pts:
            if any(has_v(e, i) for i in range(len(p), 8)): continue
            g = e
            for i, q in enumerate(p): g = csub(g, v(i), q)
            if den_(g) is None or not fits(g): continue
            items.append((e, tuple(p), g))
    R.require('compile_time_evaluations', len(items), 600)
    for part in chunks(items, 4000):
        r = run([(k, 'typename viennamath::result_of::eval<%s, viennamath::ct_vector_%d<%s> >::type' % (cpp(k[0]), len(k[1]), ','.join(map(cpp, k[1])))) for k in part])
        for it in part:
            e, p, g = it; k, x = r[it]; key = 'eval(%s, (%s))' % (show(e), ', '.join(map(show, p)))
            if k != 'ok':
                if k == 'err' and overflows(x): R.undecided(key, 'integer overflow'); continue
                if k == 'err': report_err(R, key, x, key)
                else: R.violation(key, 'result is not a compile-time expression: %s' % x)
                continue
            want = den(g).const()
            try: got = den(x).const()
            except Q.Undefined: got = None
            if got != want: R.violation(key, 'yields %s, expected %s' % (show(x), want), *spec_loc(db, 'eval'))
            elif not (x[0] == 'c' or (x[0] == 'b' and x[1] == '/' and x[2][0] == 'c' and x[3][0] == 'c')):
                R.violation(key, 'evaluates to %s, which is not a single number' % show(x), *spec_loc(db, 'eval'))
            else: R.passed(1, '%s = %s' % (key, show(x)) if R.ok % 201 == 0 else None)
