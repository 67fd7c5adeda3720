"""Front end driver: runs the AST exporter on the real sources of /repo and links the result."""
import os, sys, json, hashlib, subprocess, glob, marshal, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MXV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = REPO + '/Sourcecode'
MX = SRC + '/private/mx'
INCS = [SRC + '/include', SRC + '/private', MX + '/ezxml/src/include', MX + '/ezxml/src/private']

def flags():
    rd = subprocess.check_output(['clang-18', '-print-resource-dir'], text=True).strip()
    return ['-std=c++17', '-w', '-include', 'cstdint'] + ['-I' + i for i in INCS] + ['-resource-dir', rd]

def sh(b): return hashlib.sha256(b).hexdigest()[:24]
def readb(p):
    with open(p, 'rb') as f: return f.read()

def exporter():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'mxv/frontend/mxast.cpp')
    out = os.path.join(BUILD, 'mxast-' + sh(readb(src)))
    if not os.path.exists(out):
        cxx = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        lib = sorted(glob.glob('/usr/lib/llvm-18/lib/libclang-cpp.so*'))[0]
        tmp = out + '.tmp%d' % os.getpid()
        subprocess.check_call(['clang++-18'] + cxx + ['-O1', '-fno-rtti', '-w', src, '-o', tmp, lib, '/usr/lib/llvm-18/lib/libLLVM-18.so'])
        os.rename(tmp, out)
    return out

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root in (SRC + '/include', MX):
            for d, ds, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith('.h') or f.endswith('.hpp'):
                        p = os.path.join(d, f); h.update(p.encode()); h.update(readb(p))
        _hdr = h.hexdigest()[:24]
    return _hdr

class Type:
    __slots__ = ('s', 'k', 'd', 'tab', 'cv')
    def __init__(self, d, tab): self.s = d['s']; self.k = d.get('k', 'other'); self.d = d; self.tab = tab
    @property
    def elem(self): return self.tab[self.d['e']]
    @property
    def name(self): return self.d.get('n', self.s)
    @property
    def tn(self): return self.d.get('tn', '')
    def targ(self, i):
        a = self.d.get('ta', [])[i]
        return self.tab[a] if isinstance(a, int) else a
    @property
    def nq(self):
        s = self.s
        if self.d.get('const'):
            if s.startswith('const '): s = s[6:]
            if s.endswith(' const'): s = s[:-6]
        return s
    @property
    def const(self): return bool(self.d.get('const'))
    def __repr__(self): return '<' + self.s + '>'
    def deref(self):
        t = self
        while t.k in ('lref', 'rref'): t = t.elem
        return t
    @property
    def is_int(self): return self.k == 'b' and 'w' in self.d
    @property
    def is_bool(self): return self.k == 'b' and self.d.get('w') == 1
    @property
    def is_float(self): return self.k == 'b' and 'f' in self.d
    @property
    def is_char(self): return self.k == 'b' and bool(self.d.get('ch'))

class Func:
    def __init__(self, d, types): self.d = d; self.types = types; self.f = d['f']; self.q = d['q']; self.body = d['body']; self.params = d['p']
    def __repr__(self): return 'Func(%s)' % self.q
    @property
    def where(self): return '%s:%d' % (os.path.relpath(self.d.get('file', '?'), REPO), self.d.get('l', 0))

class Rec:
    def __init__(self, d, types):
        self.d = d; self.n = d['n']; self.types = types
        self.fields = [(f['n'], types[f['t']], f.get('init')) for f in d['f']]
        self.bases = [types[b] for b in d.get('b', [])]
        self.methods = d.get('m', [])
        self.q = d['q']

class Program:
    def __init__(self):
        self.funcs = {}; self.recs = {}; self.enums = {}; self.globals = {}; self.byq = {}; self.tus = []
        self._alltypes = {}
    def add(self, data):
        tab = []
        for d in data['types']: tab.append(Type(d, tab))
        for t in tab:
            if t.s not in self._alltypes: self._alltypes[t.s] = t
        self.tus.append(data['tu'])
        for f in data['funcs']:
            if f['f'] in self.funcs: continue
            fn = Func(f, tab); self.funcs[f['f']] = fn; self.byq.setdefault(f['q'], []).append(fn)
        for r in data['records']:
            if r['n'] not in self.recs: self.recs[r['n']] = Rec(r, tab)
        for e in data['enums']:
            o = self.enums.get(e['n'])
            if o is None or len(o) < len(e['c']): self.enums[e['n']] = [(n, v) for n, v in e['c']]
        for g in data['globals']:
            o = self.globals.get(g['g'])
            if o is None or ('init' not in o[0] and 'init' in g): self.globals[g['g']] = (g, tab)
    def type(self, s): return self._alltypes[s]
    def find(self, q, nparams=None, param_sub=None, cls=None):
        r = [f for f in self.byq.get(q, []) if (nparams is None or len(f.params) == nparams)]
        if param_sub: r = [f for f in r if all(sub in f.types[p['t']].s for sub, p in zip(param_sub, f.params))]
        return r

def _parse(files, label):
    """files: list of .cpp exported as one translation unit"""
    h = hashlib.sha256()
    h.update(headers_hash().encode()); h.update(os.path.basename(exporter()).encode()); h.update(REPO.encode())
    for f in files: h.update(f.encode()); h.update(readb(f))
    key = h.hexdigest()[:32]
    os.makedirs(BUILD + '/ast', exist_ok=True)
    out = '%s/ast/%s.m' % (BUILD, key)
    if os.path.exists(out):
        try:
            return marshal.loads(readb(out))
        except Exception: pass
    if len(files) == 1: src = files[0]
    else:
        src = '%s/ast/%s.%d.cpp' % (BUILD, label, os.getpid())
        with open(src, 'w') as f:
            for x in files: f.write('#include "%s"\n' % x)
    js = '%s/ast/%s.%d.json' % (BUILD, key, os.getpid())
    p = subprocess.run([exporter(), SRC, js, src, '--'] + flags(), capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(js):
        raise FrontendError('front end failed on %s:\n%s' % (files, p.stderr[-3000:]))
    d = json.loads(readb(js)); os.unlink(js)
    if len(files) > 1: os.unlink(src)
    if len(files) > 1: d['tu'] = label
    tmp = out + '.tmp%d' % os.getpid()
    with open(tmp, 'wb') as f: f.write(marshal.dumps(d))
    os.rename(tmp, out)
    return d

class FrontendError(Exception): pass

def load(groups):
    """groups: list of (label, [files]) ; files relative to Sourcecode/private/mx or absolute"""
    exporter()
    gs = []
    for g in groups:
        if isinstance(g, str): g = (g, [g])
        label, fs = g
        fs = [f if f.startswith('/') else MX + '/' + f for f in fs]
        gs.append((label, [f for f in fs if os.path.exists(f)]))
    gs = [g for g in gs if g[1]]
    P = Program()
    with ThreadPoolExecutor(8) as ex:
        for d in ex.map(lambda g: _parse(g[1], g[0]), gs): P.add(d)
    return P

def elements_groups(n=16):
    fs = sorted(glob.glob(MX + '/core/elements/*.cpp'))
    return [('elements%d' % i, fs[i::n]) for i in range(n)]
def dir_groups(sub):
    return [(os.path.relpath(f, MX), [f]) for f in sorted(glob.glob(MX + '/' + sub + '/*.cpp'))]
