"""C07: equality operators of the public API data types."""
from ..run import *
from ..sym import Sym
from ..stdlib import tn, sameU
from .. import loops, replay
from fractions import Fraction

EPS_LO = R(Fraction(1, 10 ** 12)); EPS_HI = R(Fraction(101, 10 ** 10))

def sig(f): return [f.types[p['t']].deref() for p in f.params]
def is_api(f): return f.q.startswith('mx::api::')

def main():
    chk = Check('C07')
    P = fe.load(fe.dir_groups('api') + fe.dir_groups('impl'))
    chk.log('loaded')
    eqs = list({f.f: f for q, fs in P.byq.items() if q.startswith('mx::api::') and q.endswith('::operator==') for f in fs}.values())
    nes = [f for q, fs in P.byq.items() if q.startswith('mx::api::') and q.endswith('operator!=') for f in fs]
    # helpers that compare two containers of one type (whatever they are called): contracted only once proved
    helpers = []
    for q, fs in P.byq.items():
        if not q.startswith('mx::api::') or q.split('::')[-1].startswith('operator'): continue
        for f in fs:
            if f.body is None or len(f.params) != 2 or not f.types[f.d['rt']].is_bool: continue
            a, b = sig(f)
            if a.k == 'rec' and a.nq == b.nq and tn(a) in ('std::vector', 'std::list', 'std::map'): helpers.append(f)
    def styp(f):
        s = sig(f)
        return s[0]
    memb = lambda f: len(f.params) == 1
    eqset = {f.f for f in eqs}; neset = {f.f for f in nes}
    def rd(I_, x): return I_.read(x) if type(x) is PtrV else x
    def eqc(I_, d, obj, args, node):
        vs = [rd(I_, a) for a in ([obj] if obj is not None else []) + args]
        return val_same(I_, vs[0], vs[1])
    def val_same(I_, x, y):
        if type(x) is T: return sameU(x, y)
        if type(x) is OptV: return And(Eq(x.has, y.has), Implies(x.has, val_same(I_, x.v, y.v)))
        raise Unsupported('contract equality on %r' % (x,))
    def mk(t, own):
        I_ = chk.interp(P); I_.loop_hook = loops.hook
        def opq(x):
            if x.k != 'rec' or x.nq == own: return False
            return tn(x) not in ('std::basic_string', 'std::optional')
        sy = Sym(I_, opq)
        return I_, sy
    def call(I_, f, st, names):
        args = [ptr(LV((n,))) for n in names]
        outs = I_.run(f, args[0] if memb(f) else None, args[1:] if memb(f) else args, st)
        bad = [o for o in outs if o.kind != 'normal']
        if bad: raise Unsupported('operator throws %r' % bad[0].val)
        return outs
    def seqs_equal(a, b):
        j = Fresh('q', 'I')
        def el(x, y):
            return And(*[el(x.f[k], y.f[k]) for k in x.f]) if type(x) is StructV else sameU(x, y)
        return And(Eq(a.n, b.n), ForAll(j, Implies(And(Ge(j, I(0)), Lt(j, a.n)), el(a.elem(j), b.elem(j)))))
    hc = {}
    for f in helpers:
        try:
            t = sig(f)[0]
            I_, sy = mk(t, t.nq)
            for g in eqset | neset: I_.contracts[g] = eqc if g in eqset else (lambda *a: Not(eqc(*a)))
            a, b = sy.make(t, 'a'), sy.make(t, 'b')
            s = State(tuple(sy.facts)); s.mem[('A',)] = a; s.mem[('B',)] = b
            outs = call(I_, f, s, ['A', 'B'])
            e = seqs_equal(a, b)
            if not outs or any(chk.solver.prove(o.pc, o.goal)[0] != 'proved' for o in I_.obls): chk.log('helper obls', f.q, t.nq); continue
            for want, con in ((e, eqc), (Not(e), lambda *x: Not(eqc(*x)))):
                if all(chk.solver.prove(o.st.pc, Eq(o.val, want))[0] == 'proved' for o in outs):
                    hc[f.f] = con; chk.n += len(outs); chk.byz3 += len(outs)
                    chk.absorb(I_, f.q + '(' + t.nq + ')'); break
            else: chk.log('helper refuted', f.q, t.nq)
        except Exception as ex: chk.log('helper', f.q, ex)
    chk.log('%d of %d container helpers proved' % (len(hc), len(helpers)))
    classes = []
    for f in eqs:
        t = styp(f) if not memb(f) else sig(f)[0]
        t = P.type(t.nq) if t.nq in P._alltypes else t
        name = t.nq
        key = 'equals<%s>' % name.replace('std::', '').replace('mx::api::', '').split(', allocator')[0].split(', less')[0]
        classes.append((f, t, key))
        def one(f=f, t=t, key=key, name=name):
            I_, sy = mk(t, name)
            for g in eqset | neset:
                if g != f.f: I_.contracts[g] = eqc if g in eqset else (lambda *a: Not(eqc(*a)))
            if name not in [sig(h)[0].nq for h in helpers if h.f in hc] or t.name in P.recs: I_.contracts.update(hc)
            a = sy.make(t, 'a'); b = sy.make(t, 'b')
            def start(va, vb):
                s = State(tuple(sy.facts)); s.mem[('A',)] = va; s.mem[('B',)] = vb; return s
            chk.cover(key, sy.facts)
            outs = call(I_, f, start(a, b), ['A', 'B'])
            outs_sym = call(I_, f, start(a, b), ['B', 'A'])
            fields = [(k, a.f[k], b.f[k]) for k in a.f] if type(a) is StructV else [('elements', a, b)]
            def exact(x, y):
                if type(x) is OptV: return And(Eq(x.has, y.has), Implies(x.has, exact(x.v, y.v)))
                if type(x) is StructV: return And(*[exact(x.f[k], y.f[k]) for k in x.f])
                if type(x) is VecV: return And(*[exact(u, v) for (_, u), (_, v) in zip(x.e, y.e)])
                if type(x) is SeqV:
                    j = Fresh('q', 'I')
                    return And(Eq(x.n, y.n), ForAll(j, Implies(And(Ge(j, I(0)), Lt(j, x.n)), exact(x.elem(j), y.elem(j)))))
                return sameU(x, y)
            def loose(x, y):
                if type(x) is OptV: return And(Eq(x.has, y.has), Implies(x.has, loose(x.v, y.v)))
                if type(x) is StructV: return And(*[loose(x.f[k], y.f[k]) for k in x.f])
                if type(x) is VecV: return And(*[loose(u, v) for (_, u), (_, v) in zip(x.e, y.e)])
                if type(x) is SeqV:
                    j = Fresh('q', 'I')
                    return And(Eq(x.n, y.n), ForAll(j, Implies(And(Ge(j, I(0)), Lt(j, x.n)), loose(x.elem(j), y.elem(j)))))
                if x.sort == 'R': return And(Le(Sub(x, y), EPS_HI), Le(Sub(y, x), EPS_HI))
                return sameU(x, y)
            for i, o in enumerate(outs):
                for k, x, y in fields:
                    chk.prove('%s/detects-difference-in/%s' % (key, k), o.st.pc, Implies(o.val, loose(x, y)), f.where,
                              witness=lambda m, k=k: witness(P, t, k))
                chk.prove('%s/identical-implies-equal' % key, o.st.pc, Implies(And(*[exact(x, y) for _, x, y in fields]), o.val), f.where,
                          witness=lambda m: witness(P, t, None))
                if not any(isinstance(x, SeqV) for _, x, _ in fields):
                    for o2 in outs_sym:
                        chk.prove('%s/symmetric' % key, tuple(o.st.pc) + tuple(o2.st.pc), Eq(o.val, o2.val), f.where, witness=lambda m: witness(P, t, None))
            chk.prove_obls(I_, key)
            chk.absorb(I_, f.q + '(' + name + ')')
        chk.guard(key, one)
    for f in nes:
        t = sig(f)[0]
        key = 'not-equals<%s>' % t.nq.replace('std::', '').replace('mx::api::', '').split(', allocator')[0]
        def one(f=f, t=t, key=key):
            isv = tn(t) in ('std::vector', 'std::map')
            I_, sy = mk(t, t.nq if isv else '')
            for g in eqset | neset:
                if g != f.f: I_.contracts[g] = eqc if g in eqset else (lambda *a: Not(eqc(*a)))
            a, b = sy.make(t, 'a'), sy.make(t, 'b')
            s = State(tuple(sy.facts)); s.mem[('A',)] = a; s.mem[('B',)] = b
            for o in call(I_, f, s, ['A', 'B']):
                if isv and type(a) is SeqV:
                    j = Fresh('q', 'I')
                    e = And(Eq(a.n, b.n), ForAll(j, Implies(And(Ge(j, I(0)), Lt(j, a.n)), sameU(a.elem(j), b.elem(j)))))
                else: e = sameU(a, b)
                chk.prove(key, o.st.pc, Eq(o.val, Not(e)), f.where, witness=lambda m: witness(P, t, None))
            chk.prove_obls(I_, key)
            chk.absorb(I_, f.q + '!=(' + t.nq + ')')
        chk.guard(key, one)
    # every public data type that is compared has an operator
    chk.assumptions = ['floating point arithmetic treated as real arithmetic; differences between 1e-12 and 1.01e-8 are left unconstrained',
                       'equality of a nested type is taken from its own operator==, which is verified separately (induction over type nesting)',
                       'library equality of strings, optionals and scalars is modelled, not verified']
    def standin(keys): return bounded(P, classes, chk)
    return chk.finish(standin)

# ---------------------------------------------------------------- replay on the real code
import glob as _glob
def HDR():
    return ''.join('#include "mx/api/%s"\n' % os.path.basename(h) for h in sorted(_glob.glob(fe.SRC + '/include/mx/api/*.h'))) + '''
#include <cstdio>
#include <map>
using namespace mx::api;
'''
def cname(t): return t.nq
def decl(P, t, v, like=None):
    if t.k == 'rec' and t.name in P.recs:
        rec = P.recs[t.name]
        ctors = []
        for m in rec.methods:
            fn = P.funcs.get(m['f'])
            if fn is not None and 'C:' in fn.f[:60] and fn.d.get('cc') not in ('copy', 'move'): ctors.append(fn)
        if ctors and not any(len(c.params) == 0 or c.d.get('cc') == 'default' for c in ctors):
            c = min(ctors, key=lambda c: len(c.params))
            return '%s %s( %s );' % (cname(t), v, ', '.join(c.types[p['t']].deref().nq + '{}' for p in c.params))
    return 'std::decay_t<decltype(%s)> %s{};' % (like, v) if like else '%s %s{};' % (cname(t), v)
_mk = [0]
def mutate(P, t, lv, depth=0):
    """C++ statements that change lvalue lv to a clearly different value"""
    t = t.deref()
    if depth > 6: return ''
    if t.is_bool: return '%s = !%s;' % (lv, lv)
    if t.is_float: return '%s += 1;' % lv
    if t.is_int: return '%s += 1;' % lv
    if t.k == 'enum': 
        vals = sorted(set(x for _, x in P.enums[t.d['n']]))
        return '%s = static_cast<%s>( (int)%s == %d ? %d : %d );' % (lv, t.nq, lv, vals[-1], vals[0], vals[-1])
    k = tn(t)
    if k == 'std::basic_string': return '%s += "x";' % lv
    if k == 'std::optional':
        return 'if( %s ) %s = std::nullopt; else %s = typename std::decay_t<decltype(%s)>::value_type{};' % (lv, lv, lv, lv)
    if k in ('std::vector', 'std::list'):
        _mk[0] += 1; n = 'm%d' % _mk[0]
        return decl(P, t.targ(0), n, '*%s.begin()' % lv) + ' %s.push_back(%s);' % (lv, n)
    if k == 'std::map': return '%s[7];' % lv
    if k == 'std::set': return '%s.insert(%s{});' % (lv, t.targ(0).nq)
    if k == 'std::pair': return mutate(P, t.targ(0), lv + '.first', depth + 1)
    if k == 'std::variant': return ''
    if t.name in P.recs:
        for c in [t.name] + [b.name for b in P.recs[t.name].bases]:
            for fn, ft, _ in (P.recs[c].fields if c in P.recs else []):
                s = mutate(P, ft, lv + '.' + fn, depth + 1)
                if s: return s
    return ''
def program(P, items):
    """items: list of (t, field or None).  Each prints a line when equality misbehaves."""
    out = [HDR(), 'template<class X> void chk(const char* w, const X& a, const X& b, bool same){ bool e=(a==b), f=(b==a), n=(a!=b); if(e!=same||f!=same||n==same) printf("FAIL %s same=%d a==b=%d b==a=%d a!=b=%d\\n",w,same,e,f,n); }', 'int main(){']
    for t, fld in items:
        nm = t.nq.replace('"', '')
        out.append('{ %s %s' % (decl(P, t, 'a'), 'auto b = a;'))
        out.append('chk("%s/identical", a, b, true);' % nm)
        if fld is not None and fld != 'elements':
            for c in [t.name] + [b.name for b in P.recs[t.name].bases]:
                for fn, ft, _ in (P.recs[c].fields if c in P.recs else []):
                    if fn == fld:
                        m = mutate(P, ft, 'b.' + fn)
                        if m: out.append(m + ' chk("%s/%s", a, b, false);' % (nm, fn))
                        if m: out.append('a = b; chk("%s/%s copied", a, b, true);' % (nm, fn))
                        if m and tn(ft.deref()) in ('std::vector',):
                            m2 = mutate(P, ft.deref().targ(0), 'b.' + fn + '.back()')
                            if m2: out.append(m2 + ' chk("%s/%s element", a, b, false);' % (nm, fn))
                        if m and tn(ft.deref()) == 'std::optional':
                            m2 = mutate(P, ft.deref().targ(0), '*b.' + fn if ft.deref().targ(0).k != 'rec' else '(*b.' + fn + ')')
                            if m2: out.append(m2 + ' chk("%s/%s value", a, b, false);' % (nm, fn))
                        if m and tn(ft.deref()) == 'std::map':
                            m2 = mutate(P, ft.deref().targ(1), 'b.' + fn + '[7]')
                            if m2: out.append(m2 + ' chk("%s/%s mapped", a, b, false);' % (nm, fn))
        else:
            m = mutate(P, t, 'b')
            if m:
                out.append(m + ' chk("%s/differs", a, b, false); auto c=b; chk("%s/copied", c, b, true);' % (nm, nm))
                if tn(t) == 'std::vector':
                    m2 = mutate(P, t.targ(0), 'c.back()')
                    if m2: out.append(m2 + ' chk("%s/element0", c, b, false);' % nm)
                    out.append('{ auto d=b; d.push_back(d[0]); auto e=d; chk("%s/len2", e, d, true);' % nm)
                    if m2: out.append(mutate(P, t.targ(0), 'e.back()') + ' chk("%s/element1", e, d, false); ' % nm + mutate(P, t.targ(0), 'e.front()') + ' chk("%s/both", e, d, false);' % nm)
                    out.append('}')
        out.append('}')
    out.append('return 0; }')
    return '\n'.join(out)
def run_items(P, items, name):
    src = program(P, items)
    rc, txt, cpp = replay.run(src, name, need_lib=True, extra='-fno-access-control')
    return rc, txt, cpp
def witness(P, t, fld):
    rc, txt, cpp = run_items(P, [(t, fld)], 'c07')
    return {'confirmed': 'FAIL' in txt or rc != 0, 'text': 'program %s\nexit %d\n%s' % (cpp, rc, txt)}
def bounded(P, classes, chk):
    items = []
    for f, t, key in classes:
        if t.name in P.recs:
            for c in [t.name] + [b.name for b in P.recs[t.name].bases]:
                for fn, _, _ in (P.recs[c].fields if c in P.recs else []): items.append((t, fn))
        else: items.append((t, None))
    rc, txt, cpp = run_items(P, items, 'c07b')
    chk.bounded.append('every field of every comparable type changed once, vectors of length 0..2: %d cases' % len(items))
    res = []
    for l in txt.splitlines():
        if l.startswith('FAIL'): res.append({'key': 'bounded:' + l.split()[1], 'text': 'program %s\n%s' % (cpp, l)})
    if rc != 0: res.append({'key': 'bounded:crash', 'text': 'program %s exit %d\n%s' % (cpp, rc, txt[-2000:])})
    return res
