"""R24: the headers alone, repeatedly, in every order, and from several translation units"""
import os, re, subprocess, glob, itertools
from concurrent.futures import ThreadPoolExecutor
from . import tool, rt
from .globchk import CLANG

I = 'viennamath::rt_expression_interface<double>'
INST = {'runtime/constant.hpp': ['rt_constant<double, %s>' % I], 'runtime/variable.hpp': ['rt_variable<%s>' % I], 'runtime/function_symbol.hpp': ['rt_function_symbol<%s>' % I],
        'runtime/binary_expr.hpp': ['rt_binary_expr<%s>' % I], 'runtime/equation.hpp': ['rt_equation<%s>' % I], 'runtime/interval.hpp': ['rt_interval<%s>' % I],
        'runtime/numerical_quadrature.hpp': ['rt_numerical_quadrature<%s>' % I, 'rt_gauss_quad_1<%s>' % I], 'manipulation/latex.hpp': ['rt_latex_translator<%s>' % I]}

def headers():
    r = os.path.join(tool.REPO, 'viennamath')
    hs = [os.path.relpath(p, r) for p in glob.glob(os.path.join(r, '**', '*'), recursive=True) if re.search(r'\.(h|hpp|hh|hxx)$', p)]
    return sorted(hs)

def gcc(text):
    r = subprocess.run(['g++', '-I' + tool.REPO, '-w', '-fmax-errors=3', '-fsyntax-only', '-x', 'c++', '-'], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if not r.returncode: return None, ''
    for l in r.stderr.splitlines():
        m = re.match(r'(.+?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m: return (os.path.normpath(m.group(1)), int(m.group(2)), m.group(3)), ''
    return ('', 0, (r.stderr.strip().splitlines() or ['g++ failed'])[-1]), ''

def clang(text, *flags):
    r = subprocess.run([CLANG, '-std=gnu++17', '-I' + tool.REPO, '-w', '-Wno-error=c++11-narrowing', '-ferror-limit=3', '-ftemplate-depth=400', '-x', 'c++'] + list(flags) + ['-'],
                       input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    e = None
    if r.returncode:
        for l in r.stderr.splitlines():
            m = re.match(r'(.+?):(\d+):\d+: (?:fatal )?error: (.*)', l)
            if m: e = (os.path.normpath(m.group(1)), int(m.group(2)), m.group(3)); break
        else: e = ('', 0, (r.stderr.strip().splitlines() or ['clang failed'])[-1])
    return e, r.stdout

def inc(*hs): return ''.join('#include "viennamath/%s"\n' % h for h in hs)

def strong(ir):
    """symbols of a module which a second translation unit with the same text would define again"""
    out = []
    for l in ir.splitlines():
        m = re.match(r'define (.*?)@("?[\w.$]+"?)\(', l) or re.match(r'@("?[\w.$]+"?) = (.*)', l)
        if not m: continue
        if l.startswith('define'): link, name = m.group(1), m.group(2)
        else:
            name, link = m.group(1), m.group(2)
            if not re.search(r'\b(global|constant)\b', link): continue
            link = re.split(r'\b(?:global|constant)\b', link)[0]
            if re.search(r'\bexternal\b', link): continue
        if re.search(r'\b(linkonce|linkonce_odr|weak|weak_odr|internal|private|available_externally|appending|extern_weak|common)\b', link): continue
        if name.startswith('llvm.') or '_GLOBAL__' in name: continue
        out.append(name.strip('"'))
    return out

def entered(text):
    """headers of the library that contribute code to a preprocessed text"""
    cur = None; out = set(); pre = os.path.join(tool.REPO, 'viennamath') + '/'
    for l in text.splitlines():
        m = re.match(r'# \d+ "(.*?)"', l)
        if m:
            p = os.path.normpath(m.group(1)); cur = p[len(pre):] if p.startswith(pre) else None
        elif cur and l.strip() and not l.startswith('#'): out.add(cur)
    return out

def demangle(n):
    r = subprocess.run(['c++filt', n], stdout=subprocess.PIPE, text=True)
    return r.stdout.strip() or n

def r24(R):
    R.rule('Every header of the library is parsed by clang alone and twice in one translation unit, and before / after all others; the module generated for every header may define no symbol with strong linkage (a second unit would define it again); classes of the public headers are explicitly instantiated in a unit that includes nothing else.')
    R.assume.append('clang 18 in gnu++17 mode (and, for all headers together and the classes alone, g++ 13 and gnu++20) stands for every compiler; one definition per translation unit is read off the linkage of the generated module')
    hs = headers(); R.require('headers', len(hs), 40)
    known = set(open(os.path.join(tool.V, 'vm', 'headers.txt')).read().split())
    jobs = []
    for h in hs:
        jobs.append(('%s alone' % h, h, inc(h), 'syntax', h in known))
        jobs.append(('%s twice' % h, h, inc(h, h), 'ir', h in known))
        jobs.append(('%s before all' % h, h, inc(h, *hs), 'syntax', True))
        if R.thorough(): jobs.append(('%s after all' % h, h, inc(*([x for x in hs if x != h and x in known] + [h])), 'syntax', True))
    std = [x for x in hs if x in known]
    jobs.append(('all headers in alphabetic order', hs[0], inc(*std), 'ir', True))
    jobs.append(('all headers in reverse order', hs[0], inc(*reversed(std)), 'ir', True))
    jobs.append(('all headers after viennamath/expression.hpp', hs[0], inc('expression.hpp', *hs), 'ir', True))
    jobs.append(('all headers in C++20', hs[0], inc(*std), 'c++20', True))
    jobs.append(('all headers with g++', hs[0], inc(*std), 'gcc', True))
    jobs.append(('all headers in reverse order with g++', hs[0], inc(*reversed(std)), 'gcc', True))
    if R.thorough():
        for a, b in itertools.permutations(std, 2): jobs.append(('%s then %s' % (a, b), b, inc(a, b), 'syntax', True))
    for h, cs in INST.items():
        if h in hs:
            for c in cs:
                jobs.append(('members of %s with only %s' % (c, h), h, inc(h) + 'template class viennamath::%s;\n' % c, 'syntax', True))
                jobs.append(('members of %s with only %s and g++' % (c, h), h, inc(h) + 'template class viennamath::%s;\n' % c, 'gcc', True))
    def one(j):
        name, h, text, kind, must = j
        if kind == 'gcc': return gcc(text)
        if kind == 'c++20': return clang(text, '-std=gnu++20', '-fsyntax-only')
        if kind == 'syntax': return clang(text, '-fsyntax-only')
        return clang(text, '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-llvm-passes', '-o', '-')
    have = {}
    def pre(t): return entered(clang(t, '-E')[1])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for h, a in zip(hs, ex.map(pre, [inc(h) for h in hs])): have[h] = h in a
        for name, a in zip(('alphabetic', 'reverse'), ex.map(pre, [inc(*std), inc(*reversed(std))])):
            for h in std:
                if have[h] and h not in a:
                    R.violation('%s is skipped in %s order' % (h, name), 'the contents of %s disappear when the other headers are included before it (include guard shared with another header)' % h, os.path.join(tool.REPO, 'viennamath', h), 1)
                else: R.passed(1)
    sym = {}
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for j, (e, out) in zip(jobs, ex.map(one, jobs)):
            name, h, text, kind, must = j
            R.count('translation_units')
            if e:
                if must: R.violation('%s does not compile' % name, '%s: %s' % (name, e[2]), e[0] if e[0] != '<stdin>' else os.path.join(tool.REPO, 'viennamath', h), e[1])
                else: R.undecided(name, 'header unknown to the check does not compile alone: ' + e[2])
                continue
            if kind == 'ir':
                for s in strong(out): sym.setdefault(s, name)
            R.passed(1, name if len(R.samples) < 8 else None)
    for s, name in sorted(sym.items()):
        d = demangle(s); f, l = locate(d, hs)
        R.violation('strong definition %s' % d, '%s is defined with strong linkage by a header (%s); two translation units would define it twice' % (d, name), f, l)
    for x in db_lints():
        R.violation('strong definition %s' % x.get('n', x.get('fn')), 'a header defines %s with external linkage and without inline' % x.get('n', x.get('fn')), x['f'], x['l'])
    R.passed(1, 'no strong definition in any header')

def db_lints():
    db = tool.extract(rt.HDR + '}\n')
    return [x for x in db['lints'] if x['k'] == 'strongdef' and x['f'].startswith(tool.REPO + '/viennamath')]

def locate(d, hs):
    b = re.sub(r'\(.*', '', d).split('::')[-1].split(' ')[-1]
    b = re.sub(r'<.*', '', b)
    for h in hs:
        p = os.path.join(tool.REPO, 'viennamath', h)
        for i, l in enumerate(open(p, errors='replace'), 1):
            if re.search(r'\b%s\b\s*(\(|=|;|<)' % re.escape(b), l) and 'return' not in l: return p, i
    return os.path.join(tool.REPO, 'viennamath'), 0
