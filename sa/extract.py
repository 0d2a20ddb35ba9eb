"""Front end: build the resolved-AST extractor and load the program under analysis.

Every run re-parses /repo's current working tree; nothing is cached between runs except inside one
process tree (the extractor binary itself lives in /verif/.build and depends only on /verif)."""
import os, sys, json, subprocess, hashlib, tempfile, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AMPGEN_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
LLVM = '/usr/lib/llvm-18'
INSTR = {'AVX512d': 1, 'AVX2d': 2, 'AVX2f': 3, 'ARM128d': 4}

class AnalysisBroken(Exception):
    pass

def tool():
    src = os.path.join(VERIF, 'tools', 'astx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'astx-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d.tmp' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', src, '-I%s/include' % LLVM,
           '%s/lib/libclang-cpp.so.18.1' % LLVM, '-L%s/lib' % LLVM, '-lLLVM-18', '-Wl,-rpath,%s/lib' % LLVM, '-o', tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('extractor build failed: ' + r.stderr[:2000])
    os.replace(tmp, exe)
    return exe

def flags(instr='AVX2d', extra=()):
    f = ['-x', 'c++', '-std=c++17', '-resource-dir', LLVM + '/lib/clang/18', '-fopenmp', '-w', '-ferror-limit=0',
         '-DAMPGENROOT="%s"' % REPO, '-DAMPGENROOT_CMAKE="%s"' % REPO, '-DAMPGEN_CXX="g++"', '-DAMPGEN_CXX_FLAGS=""', '-DAMPGEN_OPENMP_FLAGS="-fopenmp"', '-DENABLE_FITTING=OFF', '-DUSE_CXX="g++"', '-D_REENTRANT',
         '-I' + REPO, '-I' + os.path.join(VERIF, 'tools', 'stubs')]
    if instr == 'AVX2d': f += ['-mfma', '-mavx2', '-DENABLE_AVX=1', '-DINSTRUCTION_SET=2', '-DUSE_MVEC=1']
    elif instr == 'AVX2f': f += ['-mfma', '-mavx2', '-DENABLE_AVX=1', '-DINSTRUCTION_SET=1']
    elif instr == 'AVX512d': f += ['-mfma', '-mavx2', '-mavx512f', '-mavx512dq', '-mavx512vl', '-mavx512bw', '-DENABLE_AVX=1', '-DINSTRUCTION_SET=3']
    elif instr == 'ARM128d': f += ['-DENABLE_AVX=1', '-DINSTRUCTION_SET=10']
    return f + list(extra)

def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out)

def run_tu(src, fl, root=None):
    exe = tool()
    fd, out = tempfile.mkstemp(suffix='.json', prefix='astx')
    os.close(fd)
    try:
        r = subprocess.run([exe, (root or REPO) + '/', out, src, '--'] + fl, capture_output=True, text=True)
        try:
            with open(out, encoding='latin-1') as fh:
                d = json.load(fh)
        except Exception as e:
            return {'src': src, 'fatal': r.stderr[:3000] + str(e)}
        d['src'] = src
        d['diag'] = r.stderr[:4000]
        return d
    finally:
        os.unlink(out)

class Program:
    def __init__(self):
        self.fns = {}       # usr -> function (with body)
        self.byq = {}       # qualified name -> [functions with body]
        self.decls = {}     # usr -> declaration only
        self.records = {}   # qualified name (with template args) -> record
        self.enums = {}
        self.vars = {}
        self.tus = []
        self.skipped = []
        self.lambdas = {}

    def add(self, d, n):
        self.tus.append(d['src'])
        off = n * 1000000
        def walk(x):
            if isinstance(x, dict):
                if 'id' in x: x['id'] += off
                if 'lam' in x and isinstance(x['lam'], int): x['lam'] += off
                if 'of' in x and isinstance(x['of'], int): x['of'] += off
                for v in x.values():
                    if isinstance(v, (dict, list)): walk(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)): walk(v)
        for f in d['functions']:
            key = f['u'] + ('@' + str(f['id'] + off) if f.get('lam') else '')
            if key in self.fns: continue
            walk(f)
            f['tu'] = d['src']
            self.fns[key] = f
            self.byq.setdefault(f['q'], []).append(f)
            if f.get('lam'): self.lambdas.setdefault(f['lam'], []).append(f)
        for f in d['decls']: self.decls.setdefault(f['u'], f)
        for r in d['records']:
            if r['qt'] not in self.records: walk(r); self.records[r['qt']] = r
        for e in d['enums']: self.enums.setdefault(e['q'], e)
        for v in d['vars']:
            k = v['q'] + ('@' + v['in'] if 'in' in v else '')
            if k not in self.vars or (v.get('def') and not self.vars[k].get('def')) or ('init' in v['v'] and 'init' not in self.vars[k]['v']):
                walk(v); self.vars[k] = v

    def fn(self, q, pred=None, need=True):
        c = [f for f in self.byq.get(q, []) if not f.get('dep') and (pred is None or pred(f))]
        if not c:
            if need: raise AnalysisBroken('anchor function not found: ' + q)
            return None
        return c[0]

    def all(self, q):
        return [f for f in self.byq.get(q, []) if not f.get('dep')]

    def find(self, q):
        """definitions whose name, template arguments removed, is q"""
        if not hasattr(self, '_strip'):
            from .value import strip_targs
            self._strip = {}
            for f in self.fns.values():
                if f.get('body') and not f.get('dep') and 'type-parameter' not in f['q']: self._strip.setdefault(strip_targs(f['q']), []).append(f)
        return self._strip.get(q, [])

    def subclasses(self, base):
        out, frontier = [], {base}
        changed = True
        while changed:
            changed = False
            for q, r in self.records.items():
                if q in out or r.get('dep'): continue
                if any(b in frontier or b.split('<')[0] in frontier for b in r['bases']):
                    out.append(q); frontier.add(q); frontier.add(r['q']); changed = True
        return out

def load(srcs=None, instr='AVX2d', extra_tus=(), root_stubs=False, extra_flags=()):
    """Parse the given sources (default: every source in /repo/src that parses without ROOT)."""
    srcs = list(srcs) if srcs is not None else sources()
    srcs = [s if s.startswith('/') else os.path.join(REPO, s) for s in srcs] + list(extra_tus)
    fl = flags(instr, extra_flags)
    if root_stubs: fl += ['-I' + os.path.join(VERIF, 'tools', 'rootstubs')]
    tool()
    P = Program()
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda s: run_tu(s, fl), srcs))
    for n, (s, d) in enumerate(zip(srcs, res)):
        if 'fatal' in d or (d['errors'] and not root_stubs):
            P.skipped.append((s, (d.get('fatal') or d.get('diag') or '')[:300])); continue
        P.add(d, n)
    return P
