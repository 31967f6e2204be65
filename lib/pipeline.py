"""Shared build/extract steps: everything is derived from /repo's working tree on every run."""
import os, sys, json, subprocess, hashlib, glob, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = max(2, min(8, os.cpu_count() or 4))
CLANG = 'clang++'

class ToolError(Exception): pass

class Work:
    """scratch directory of one check run; removed at exit"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='mzverif-')
        self.gen = None; self.t = {}
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def path(self, *a): return os.path.join(self.dir, *a)

def run(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE); kw.setdefault('stderr', subprocess.PIPE)
    return subprocess.run(cmd, **kw)

def build_tool(w):
    """the extractor, cached under /verif/build when that is writable"""
    src = os.path.join(VERIF, 'tool', 'cx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    cdir = os.path.join(VERIF, 'build')
    out = os.path.join(cdir, 'cx-' + h)
    if os.path.exists(out): return out
    try:
        os.makedirs(cdir, exist_ok=True)
    except OSError: out = w.path('cx')
    tmp = out + '.%d' % os.getpid()
    flags = run(['llvm-config-18', '--cxxflags']).stdout.decode().split()
    r = run([CLANG, '-w'] + flags + ['-O0', '-fno-rtti', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'])
    if r.returncode != 0: raise ToolError('cannot build the extractor: ' + r.stderr.decode()[-2000:])
    os.replace(tmp, out)
    return out

def generate(w):
    """run flex and bison on the grammar, as the project's build does"""
    if w.gen: return w.gen
    g = w.path('gen'); d = os.path.join(g, 'mizugaki', 'parser'); os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, 'src/mizugaki/parser')
    a = subprocess.Popen(['flex', '-Cfe', '-o', os.path.join(d, 'sql_scanner_generated.cpp'), os.path.join(src, 'sql_scanner.ll')], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    b = subprocess.Popen(['bison', '-Wno-error=conflicts-sr', '-ra', '--xml=' + os.path.join(d, 'p.xml'), '-d', '-o', os.path.join(d, 'sql_parser_generated.cpp'), os.path.join(src, 'sql_parser.yy')], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    eb = b.communicate()[1]; ea = a.communicate()[1]
    if a.returncode or b.returncode: raise ToolError('flex/bison failed: ' + (ea + eb).decode()[-1500:])
    w.gen = g
    return g

def includes(w, gen=True):
    inc = ['-I' + os.path.join(VERIF, 'stubs'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]
    if gen: inc += ['-I' + generate(w), '-I' + os.path.join(REPO, 'src/mizugaki/parser')]
    return inc

def sources(kind):
    """translation units of a part of the code base"""
    src = os.path.join(REPO, 'src/mizugaki')
    def cpp(*d): return sorted(glob.glob(os.path.join(src, *d, '**', '*.cpp'), recursive=True))
    if kind == 'ast': return cpp('ast')
    if kind == 'parser': return [f for f in cpp('parser')]
    if kind == 'parser-core': return [f for f in cpp('parser')]
    raise ValueError(kind)

def extract(w, files, gen=True, extra=()):
    """run the extractor over files in parallel; returns list of parsed JSON documents"""
    tool = build_tool(w)
    inc = includes(w, gen)
    out = w.path('js'); os.makedirs(out, exist_ok=True)
    pref = REPO.rstrip('/') + '/:' + VERIF + '/stubs:' + VERIF + '/drivers' + ((':' + w.gen + ':gen') if w.gen else '')
    fails = []
    def one(f):
        o = os.path.join(out, f.replace('/', '_') + '.json')
        if os.path.exists(o): return o
        r = run([tool, o, pref, f, '--', '-std=c++17', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + inc + list(extra))
        if r.returncode != 0 or not os.path.exists(o):
            fails.append((f, r.stderr.decode()[-1500:])); return None
        return o
    with ThreadPoolExecutor(JOBS) as ex: outs = list(ex.map(one, files))
    docs = []
    for o in outs:
        if o: docs.append(json.load(open(o)))
    return docs, fails

def compile_objs(w, files, flags=(), gen=True, opt='-O0', sub='obj'):
    inc = includes(w, gen)
    od = w.path(sub); os.makedirs(od, exist_ok=True)
    fails = []
    def one(f):
        o = os.path.join(od, f.replace('/', '_') + '.o')
        if os.path.exists(o): return o
        r = run([CLANG, '-std=c++17', opt, '-w', '-c', f, '-o', o] + inc + list(flags))
        if r.returncode != 0: fails.append((f, r.stderr.decode()[-3000:])); return None
        return o
    with ThreadPoolExecutor(JOBS) as ex: objs = list(ex.map(one, files))
    return [o for o in objs if o], fails

def link(w, objs, out, flags=()):
    r = run([CLANG] + objs + ['-o', out] + list(flags))
    return r.returncode == 0, r.stderr.decode()[-3000:]
