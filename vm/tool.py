"""Front end: builds and runs the clang based fact extractor tools/vmx.cpp."""
import os, subprocess, json, tempfile, hashlib, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LL = '/usr/lib/llvm-18'
RES = LL + '/lib/clang/18'
BUILD = os.path.join(V, 'build')

class ToolError(Exception): pass

def build():
    src = os.path.join(V, 'tools', 'vmx.cpp'); out = os.path.join(BUILD, 'vmx')
    stamp = out + '.stamp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h: return out
    os.makedirs(BUILD, exist_ok=True)
    cxx = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'g++'
    tmp = out + '.tmp%d' % os.getpid()
    cmd = [cxx, '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + LL + '/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '-L' + LL + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,' + LL + '/lib']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise ToolError('cannot build vmx: ' + r.stdout[-2000:])
    os.rename(tmp, out)
    open(stamp, 'w').write(h)
    return out

def extract(text, name='driver.cpp', flags=(), timeout=600):
    """run vmx on a translation unit given as text; returns the fact base"""
    exe = build()
    d = tempfile.mkdtemp(prefix='vmx')
    try:
        p = os.path.join(d, name)
        open(p, 'w').write(text)
        cmd = [exe, os.path.join(REPO, 'viennamath') + ',' + d, p, '--', '-std=gnu++17', '-I' + REPO, '-I' + d,
               '-resource-dir', RES, '-w', '-Wno-error=c++11-narrowing', '-ferror-limit=0', '-ftemplate-depth=400'] + list(flags)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        if not r.stdout.strip(): raise ToolError('vmx failed: ' + r.stderr[-2000:])
        db = json.loads(r.stdout)
        db['_dir'] = d; db['_path'] = p
        return db
    finally:
        shutil.rmtree(d, ignore_errors=True)

def rel(path):
    return path[len(REPO) + 1:] if path and path.startswith(REPO + '/') else path

def errors(db):
    """[(file, line, message, [driver lines], notes)] for clang errors"""
    out = []; cur = None
    for g in db['diags']:
        if g['lv'] >= 4:
            cur = {'f': g['f'], 'l': g['l'], 'm': g['m'], 'notes': [], 'drv': []}; out.append(cur)
            if g['f'] == db['_path']: cur['drv'].append(g['l'])
        elif cur is not None and g['lv'] == 1:
            cur['notes'].append((g['f'], g['l'], g['m']))
            if g['f'] == db['_path']: cur['drv'].append(g['l'])
    return out
