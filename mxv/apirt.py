"""Round trips of public records through the writing and reading functions, evaluated symbolically over all field values.

A specification-side lemma function (mxv/cpp/lem_*.cpp) calls the library's writer or reader; both are evaluated on the real bodies.
Every field of the record becomes one obligation; a refuted one is replayed by compiling the lemma file natively with the model's values."""
import os, re
from .run import *
from .sym import Sym
from .terms import *
from .values import *
from .stdlib import tn
from .datatypes import q6, _frame
from . import replay, apigen
from .checks.c01 import engine, start, P_, method
from .checks.c04 import subst_q6

LEM = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cpp')
def lem_tu(name): return (name, ['%s/%s.cpp' % (LEM, name)])

class Rec:
    """symbolic records with named leaves"""
    def __init__(self, I_, P, sy=None):
        self.I = I_; self.P = P; self.sy = sy or Sym(I_); self.leaves = []   # (path, type, value term)
        self.facts = []
    def make(self, cls, path, over={}):
        """over: path -> value | callable(path) -> value | None (keep the default)"""
        t = self.P.type(cls)
        self.I.frames.append(_frame())
        try: d = self.I.default(t)
        finally: self.I.frames.pop()
        return self.fill(d, cls, path, over)
    def fill(self, d, cls, path, over):
        def go(c):
            nonlocal d
            r = self.P.recs[c]
            for b in r.bases:
                if b.name in self.P.recs: go(b.name)
            for n, t, _ in r.fields:
                p = path + '.' + n
                k = next((o for o in over if o == p or (o.startswith('*') and p.endswith(o[1:]))), None)
                if k is not None:
                    v = over[k]
                    if v is None: continue
                    d = d.set(n, v(p) if callable(v) else v); continue
                v = self.leaf(t, p, d.f.get(n), over)
                if v is not None: d = d.set(n, v)
        go(cls)
        return d
    def leaf(self, t, p, dflt=None, over={}):
        t = t.deref()
        if t.is_float:
            v = Var(p, 'R'); self.leaves.append((p, t, v)); return q6(v)
        if t.k == 'rec':
            k = tn(t)
            if k == 'std::optional':
                v = self.leaf(t.targ(0), p + '.val', None, over)
                return OptV(self.named(p + '.has', Var(p + '.has', 'B')), v if v is not None else self.sy.make(t.targ(0), p + '.val'))
            if k in ('std::vector', 'std::map', 'std::set', 'std::array'): return None
            if t.name in self.P.recs and not k.startswith('std::'): return self.make(t.name, p, over)
        v = self.sy.make(t, p); self.leaves.append((p, t, v)); return v
    def named(self, p, v): self.leaves.append((p, None, v)); return v
    def vec(self, path, cls_or_type, n, over={}):
        """a vector of up to n arbitrary members"""
        t = self.P.type(cls_or_type) if isinstance(cls_or_type, str) else cls_or_type
        g = TRUE; out = []
        size = Var(path + '.size', 'I'); self.I.ranges[size.val] = (0, n); self.facts += [Ge(size, I(0)), Le(size, I(n))]
        self.leaves.append((path + '.size', None, size))
        for i in range(n):
            p = '%s[%d]' % (path, i)
            out.append((Gt(size, I(i)), self.leaf(t, p, None, over)))
        return VecV(out)
    def token(self, path):
        """a text that is its own whitespace-normal form"""
        v = Var(path, 'S'); self.facts.append(Eq(App('norm:mx::core::XsToken', 'S', v), v))
        self.leaves.append((path, self.strt(), v)); return v
    def strt(self):
        return next(t for n, t, _ in self.P.recs['mx::api::PartData'].fields if n == 'name')
    def choice(self, path, members):
        """a vector that holds any number of the given members, from the first on"""
        n = len(members); size = Var(path + '.size', 'I'); self.I.ranges[size.val] = (0, n); self.facts += [Ge(size, I(0)), Le(size, I(n))]
        self.leaves.append((path + '.size', None, size))
        return VecV([(Gt(size, I(i)), x) for i, x in enumerate(members)])
    def all_facts(self): return list(self.sy.facts) + list(self.facts)

def same(a, b):
    """the two values are equal"""
    if a is b: return TRUE
    if type(a) is T and type(b) is T: return Eq(a, b) if a.sort == b.sort else FALSE
    if type(a) is StructV and type(b) is StructV: return And(*[same(a.f[k], b.f[k]) for k in a.f])
    if type(a) is OptV and type(b) is OptV: return And(Eq(a.has, b.has), Implies(a.has, same(a.v, b.v)) if a.has is not FALSE and b.has is not FALSE else TRUE)
    if type(a) is VecV and type(b) is VecV:
        if not a.e and not b.e: return TRUE
        out = []
        if all(prefix(x) for x in (a, b)):
            for i in range(max(len(a.e), len(b.e))):
                ga = a.e[i][0] if i < len(a.e) else FALSE; gb = b.e[i][0] if i < len(b.e) else FALSE
                out.append(Eq(ga, gb) if ga is not gb else TRUE)
                if i < len(a.e) and i < len(b.e): out.append(Implies(And(ga, gb), same(a.e[i][1], b.e[i][1])))
            return And(*out)
        # members that may be missing: align by position among the present ones
        return aligned(a, b)
    if type(a) is MapV and type(b) is MapV:
        if len(a.e) != len(b.e): return FALSE
        return And(*[And(Eq(x[0], y[0]) if x[0] is not y[0] else TRUE, Implies(x[0], And(same(x[1], y[1]), same(x[2], y[2])))) for x, y in zip(a.e, b.e)])
    raise Unsupported('comparison of %r and %r' % (a, b))
def prefix(v):
    """each member can only be present when its predecessor is"""
    return all(v.e[i][0] is TRUE or i == 0 or implied(v.e[i][0], v.e[i - 1][0]) for i in range(len(v.e)))
def implied(g, h): return h is TRUE or Implies(g, h) is TRUE
def aligned(a, b):
    def pos(v):
        n = I(0); out = []
        for g, x in v.e: out.append((g, n, x)); n = Add(n, Ite(g, I(1), I(0)))
        return out, n
    pa, na = pos(a); pb, nb = pos(b)
    out = [Eq(na, nb)]
    for ga, ia, x in pa:
        for gb, ib, y in pb: out.append(Implies(And(ga, gb, Eq(ia, ib)), same(x, y)))
    return And(*out)

def pointwise(a, b, path, rules, out, ctx):
    """(name, goal) for every leaf field; rules: path suffix -> None (not covered) | f(a, b) -> goal"""
    r = next((k for k in rules if k == path), None)
    if r is not None:
        f = rules[r]
        if f is None: return
        out.append((path, f(a, b) if callable(f) else same(f, b))); return
    if type(a) is StructV and type(b) is StructV and a.f and not any(k.startswith('my') for k in a.f):
        for k in a.f: pointwise(a.f[k], b.f[k], path + '.' + k, rules, out, ctx)
        return
    out.append((path, same(a, b)))

def deref(I_, st, v):
    if type(v) is StructV: return v
    al = [a for a in v.alts if a[1] is not None]
    if len(v.alts) == 1 and len(al) == 1:
        try: return I_.load_at(st, al[0][1])
        except AttributeError:
            from . import loops
            return loops.I_load(st, al[0][1])
    raise Unsupported('result %r' % v)

def lem(P, name):
    c = [f for f in P.byq.get('lem::' + name, []) if f.body is not None]
    if len(c) != 1: raise Unsupported('lemma function %s: %d candidates' % (name, len(c)))
    return c[0]

def normal(chk, key, outs, where, wit, what='no exception'):
    """outcomes that return; the others must be impossible"""
    ok = []
    for o in outs:
        if o.kind in ('normal', 'return'): ok.append(o)
        else: chk.prove('%s/%s' % (key, what), list(o.st.pc), FALSE, where, wit, kind='panic')
    if not ok: raise Unsupported('no normal outcome of %s' % key)
    return ok

def clit(P, t, v):
    t = t.deref()
    if t.is_bool: return 'true' if v else 'false'
    if t.k == 'enum': return '(%s)%d' % (t.d['n'], v)
    if t.is_int: return str(v) if v > -(1 << 31) else '(-2147483647-1)'
    if t.is_float: return '%.6fL' % float(v)
    if t.k == 'rec' and tn(t) == 'std::basic_string': return 'std::string(%s)' % cstr(v or '')
    return None
def cstr(s): return '"' + ''.join('\\%03o' % b if b < 32 or b > 126 or chr(b) in '"\\?' else chr(b) for b in str(s).encode('utf-8', 'replace')) + '"'

def assigns(P, leaves, m, rename=lambda p: p):
    """C++ statements that give the leaves their values in the model"""
    from .solve import model_value
    out = []; sizes = []
    for p, t, v in leaves:
        x = model_value(m, v)
        if x is None: continue
        q = rename(p)
        if q is None: continue
        if any(q_.endswith('.has') and p.startswith(q_[:-3] + 'val') and not model_value(m, w) for q_, t_, w in leaves): continue
        q = q.replace('.val.', '.value().'); q = q[:-4] + '.value()' if q.endswith('.val') else q
        if t is None:
            if p.endswith('.size'): sizes.append('%s.resize(%d);' % (q[:-5], x))
            elif p.endswith('.has') and x: sizes.append('ag_emplace(%s);' % q[:-4])
            continue
        if '[' in p and t is not None:
            # only members that exist
            ok = True
            for mm in re.finditer(r'\[(\d+)\]', p):
                s = next((model_value(m, w) for pp, tt, w in leaves if pp == p[:mm.start()] + '.size'), None)
                if s is not None and int(mm.group(1)) >= s: ok = False
            if not ok: continue
        l = clit(P, t, x)
        if l is not None: out.append('%s = %s;' % (q, l))
    return '\n  '.join(sizes + out)

_hdr = {}
def header(P):
    if 'h' not in _hdr: _hdr['h'] = apigen.header(P)
    return _hdr['h']
def native(P, lemma, body, name):
    """compile the lemma file with a main and run it; lines 'FAIL ...' confirm"""
    src = '#include <cstdio>\n#include <climits>\n#include <optional>\n#include <type_traits>\ntemplate<class T> void ag_emplace(std::optional<T>& o){ if constexpr(std::is_default_constructible_v<T>) o.emplace(); else o.emplace(0,0); }\n' + header(P) + open('%s/%s.cpp' % (LEM, lemma)).read() + '\nusing namespace mx; using namespace mx::api;\n' + \
        'int main(){ try {\n  %s\n } catch(std::exception& e){ printf("FAIL exception %%s\\n", e.what()); }\n return 0; }\n' % body
    rc, txt, cpp = replay.run(src, name, timeout=120)
    fails = [l for l in txt.splitlines() if l.startswith('FAIL')]
    return {'confirmed': bool(fails) or rc not in (0,), 'text': 'program %s\nexit %s\n%s' % (cpp, rc, '\n'.join(fails[:20]) or txt[-800:])}
def diffs(a, b, fields=None, skip=()):
    """C++ that prints the differing fields of two records"""
    cond = ''
    if fields is not None: cond = 'bool in=false; for(const char* f: {%s}) if(e.first.find(f)==0) in=true; if(!in) continue;' % ','.join('"%s"' % f for f in fields)
    return 'ag::Diff d_; ag::diff(%s,%s,"",d_); for(auto&e:d_){ %s printf("FAIL %%s: %%s\\n", e.first.c_str(), e.second.c_str()); }' % (a, b, cond)

def campaign(chk, P, mode, secs, runs=100000):
    """bounded: generated valid scores are written and read back by the real library (labelled bounded, never counted as proved)"""
    if os.environ.get('MXV_DEBUG') == '2': return []
    secs = secs * (4 if chk.tier == 'thorough' else 1)
    src = apigen.header(P) + ''.join(open('%s/cpp/%s.cpp' % (os.path.dirname(__file__), f)).read() for f in ('rt', 'gen'))
    K = 5                                                               # processes; each takes every fifth score
    from concurrent.futures import ThreadPoolExecutor
    replay.build(src, 'gen', True, '-O1')
    with ThreadPoolExecutor(K) as ex:
        rs = list(ex.map(lambda k: replay.run(src, 'gen', args=[mode, str(secs), str(runs)], timeout=secs * 3 + 120, extra='-O1', env={'MXV_PART': '%d/%d' % (k + 1, K)}), range(K)))
    rc = max((r[0] for r in rs), key=lambda c: (c not in (0, 1), c)); txt = '\n'.join(r[1] for r in rs); cpp = rs[0][2]
    fails = [l for l in txt.splitlines() if l.startswith('FAIL')]; n = sum(int(l.split()[2]) for l in txt.splitlines() if l.startswith('RUNS'))
    chk.bounded.append('%d generated scores (%s; up to 3 parts, 4 measures, 2 staves, 2 voices) written and read back by the real code in at most %d s by each of %d processes' % (n, mode, secs, K))
    if fails or rc not in (0, 1) or (rc == 1 and not n): return [{'key': 'bounded:%s' % mode, 'text': 'program %s %s %s %s\nexit %d\n%s' % (cpp, mode, secs, runs, rc, '\n'.join(fails[:20]) or txt[-1500:])}]
    return []
