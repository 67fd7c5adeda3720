"""Builds and runs C++ programs against the real library compiled from /repo's current tree."""
import os, re, subprocess, hashlib, glob, fcntl, threading, time
from . import fe
LIBDIR = fe.BUILD + '/lib'
INC = ' '.join('-I' + i for i in fe.INCS)
FLAGS = '-std=c++17 -O0 -w -include cstdint'

def lib():
    """libmx.a from the current sources (ninja keeps it up to date)"""
    d = LIBDIR if fe.REPO == '/repo' else fe.BUILD + '/lib-' + fe.sh(fe.REPO.encode())
    os.makedirs(d, exist_ok=True)
    with open(d + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = []
        for root, ds, fs in os.walk(fe.MX):
            for f in sorted(fs):
                if f.endswith('.cpp'): srcs.append(os.path.join(root, f))
        srcs.sort()
        # the files of a directory are compiled in groups; where a group does not compile, each file of its directory is compiled for itself
        groups = {'impl': 7, 'api': 1, 'core/elements': 20}
        while True:
            units = []
            el = []
            for sub, n in groups.items():
                xs = [x for x in srcs if os.path.dirname(x) == fe.MX + '/' + sub]; el += xs
                for k in range(n):
                    part = xs[k::n]
                    if not part: continue
                    u = '%s/unit_%s%02d.cpp' % (d, sub.replace('/', '_'), k); t = ''.join('#include "%s"\n' % x for x in part)
                    if not os.path.exists(u) or open(u).read() != t:
                        with open(u, 'w') as f: f.write(t)
                    units.append(u)
            alone = set(srcs) - set(el)
            objs = []
            with open(d + '/build.ninja.new', 'w') as b:
                b.write('rule cxx\n  command = g++ %s %s -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n' % (FLAGS, INC))
                b.write('rule ar\n  command = rm -f $out && ar rcs $out @$out.rsp\n  rspfile = $out.rsp\n  rspfile_content = $in\n')
                for s in sorted(alone) + units:
                    o = os.path.relpath(s, fe.MX).replace('..', '').replace('/', '_')[:-4] + '.o' if s in alone else os.path.basename(s)[:-4] + '.o'
                    objs.append(o); b.write('build %s: cxx %s\n' % (o, s))
                b.write('build libmx.a: ar %s\n' % ' '.join(objs))
            new = open(d + '/build.ninja.new').read()
            if not os.path.exists(d + '/build.ninja') or open(d + '/build.ninja').read() != new: os.rename(d + '/build.ninja.new', d + '/build.ninja')
            p = subprocess.run(['ninja', '-C', d, '-j8', '-k', '0', 'libmx.a'], capture_output=True, text=True)
            if p.returncode == 0: break
            bad = [g for g in groups if re.search(r'^FAILED: (\[code=\d+\] )?unit_%s\d\d\.o' % g.replace('/', '_'), p.stdout, re.M)]
            if not bad: raise RuntimeError('library build failed: ' + p.stdout[-1500:])
            for g in bad: del groups[g]
    return d + '/libmx.a'

_lk = threading.Lock(); _locks = {}; _done = {}
def build(src, name, need_lib=True, extra=''):
    with _lk: l = _locks.setdefault((src, name), threading.Lock())
    with l:
        k = (src, name, extra)
        if k not in _done: _done[k] = build1(src, name, need_lib, extra)
        return _done[k]
def build1(src, name, need_lib, extra):
    d = fe.BUILD + '/replay'; os.makedirs(d, exist_ok=True)
    h = fe.sh((src + fe.REPO).encode())[:12]
    cpp = '%s/%s-%s.cpp' % (d, name, h); exe = cpp[:-4]
    w = '%s.%d.%d.w' % (exe, os.getpid(), threading.get_ident())
    with open(w, 'w') as f: f.write(src)
    os.rename(w, cpp)
    tmp = '%s.%d.%d' % (exe, os.getpid(), threading.get_ident())       # workers may build the same program
    # compiled while the library is being built
    c = subprocess.Popen('g++ %s %s %s -c %s -o %s.o' % (FLAGS, extra, INC, cpp, tmp), shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    try: l = lib() if need_lib else ''
    finally: err = c.communicate()[1]
    if c.returncode != 0: raise RuntimeError('replay program does not compile: ' + err[:1500])
    p = subprocess.run('g++ %s.o -o %s %s -lpthread && mv -f %s %s; r=$?; rm -f %s.o; exit $r' % (tmp, tmp, l, tmp, exe, tmp), shell=True, capture_output=True, text=True)
    if p.returncode != 0: raise RuntimeError('replay program does not link: ' + p.stderr[:1500])
    return exe, cpp

def run(src, name, need_lib=True, args=(), timeout=120, extra='', env=None):
    exe, cpp = build(src, name, need_lib, extra)
    try:
        for k in range(4):
            try: return run1(exe, args, timeout, cpp, env)
            except OSError:      # busy: another worker is putting the same program in place
                if k == 3: raise
                time.sleep(0.5)
    except subprocess.TimeoutExpired as e:
        return -99, 'timeout', cpp
def run1(exe, args, timeout, cpp, env=None):
    if True:
        p = subprocess.run([exe] + list(args), capture_output=True, text=True, timeout=timeout, errors='replace', env=dict(os.environ, **env) if env else None)
        return p.returncode, p.stdout + p.stderr, cpp

def cstr(s):
    return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\?' else '\\%03o' % (ord(c) & 255) for c in s) + '"'
def cnum(x):
    from fractions import Fraction
    if isinstance(x, Fraction):
        if x.denominator == 1: return '%d.0L' % x.numerator
        return '(%d.0L/%d.0L)' % (x.numerator, x.denominator)
    if isinstance(x, bool): return 'true' if x else 'false'
    return str(x)
