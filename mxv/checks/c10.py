"""C10: dates obey the calendar."""
from ..run import *
from ..sym import Sym
from .. import replay, loops
from ..terms import *
from .c01 import start, OS, P_, method
from .c03 import outs_ok, toks, text_of

D = 'mx::core::Date'; IM = 'mx::core::Date::impl'
MAXORD = 3652059          # 9999-12-31
dv = lambda a, b: EDiv(a, I(b))
md = lambda a, b: EMod(a, I(b))
def leap(y): return Or(Eq(md(y, 400), I(0)), And(Eq(md(y, 4), I(0)), Ne(md(y, 100), I(0))))
def dim(y, m): return Ite(Eq(m, I(2)), Ite(leap(y), I(29), I(28)), Ite(Or(*[Eq(m, I(k)) for k in (4, 6, 9, 11)]), I(30), I(31)))
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
def cum(y, m):
    r = I(0)
    for k in range(12, 1, -1): r = Ite(Eq(m, I(k)), I(CUM[k - 1]), r)
    return Add(r, Ite(And(Gt(m, I(2)), leap(y)), I(1), I(0)))
def ordinal(y, m, d):
    z = Sub(y, I(1))
    return Add(Mul(I(365), z), dv(z, 4), Neg(dv(z, 100)), dv(z, 400), cum(y, m), d)
def valid(y, m, d): return And(Ge(y, I(1)), Le(y, I(9999)), Ge(m, I(1)), Le(m, I(12)), Ge(d, I(1)), Le(d, dim(y, m)))
def clamp(v, a, b): return Ite(Lt(v, a), a, Ite(Gt(v, b), b, v))
def eq3(a, b): return And(*[Eq(x, y) for x, y in zip(a, b)])
def date0(I_, n=''):
    v = [Var(n + k, 'I') for k in ('year', 'month', 'day')]
    for x, hi in zip(v, (9999, 12, 31)): I_.ranges[x.val] = (1, hi)
    return v, valid(*v)
def objs(v, root): return {root: StructV(IM, {'myYear': v[0], 'myMonth': v[1], 'myDay': v[2]}), 'D' + root: StructV(D, {'myImpl': ptr(LV((root,)))})}
def fields(st, root): s = st.mem[(root,)]; return [s.f['myYear'], s.f['myMonth'], s.f['myDay']]
def impl_of(I_, st, root):
    """the fields of the date object stored at root (wherever its implementation object lives)"""
    p = st.mem[(root,)].f['myImpl']
    al = [a for a in p.alts if a[1] is not None]
    if len(al) != 1 or len(p.alts) != 1: raise Unsupported('date without a unique implementation object')
    s = I_.load_at(st, al[0][1]) if hasattr(I_, 'load_at') else loops.I_load(st, al[0][1])
    return [s.f['myYear'], s.f['myMonth'], s.f['myDay']]
def intvar(I_, n):
    v = Var(n, 'I'); I_.ranges[n] = (-(1 << 31), (1 << 31) - 1)
    return v, And(Ge(v, I(-(1 << 31))), Le(v, I((1 << 31) - 1)))
def pub(P, name, npar=None, types=None):
    c = [f for f in P.byq.get(D + '::' + name, []) if f.body is not None and (npar is None or len(f.params) == npar)]
    if not c: raise Unsupported('no ' + name)
    return c[0]

WHICH = {}
def bycase(solver, pc, goal, x, vals):
    """proves goal for every value of x in vals (the caller shows that there are no others)"""
    for k in vals:
        m = {x.id: I(k)}
        p = [subst(c, m) for c in pc]; g = subst(goal, m)
        if And(*p, Not(g)) is FALSE: continue
        if solver.prove(p, g, 20000)[0] != 'proved': return False
    return True
def engine(chk, P):
    I_ = chk.interp(P); I_.check_overflow = True
    return I_
def check_setters(chk, P):
    for nm, k in (('setYear', 0), ('setMonth', 1), ('setDay', 2)):
        I_ = engine(chk, P); key = 'date/' + nm; wit = lambda m: witness()
        v, ok = date0(I_); x, rx = intvar(I_, 'value')
        f = pub(P, nm); chk.cover(key, [ok, rx])
        e = list(v)
        if k == 2: e[2] = clamp(x, I(1), dim(v[0], v[1]))
        else:
            e[k] = clamp(x, I(1), I((9999, 12)[k])); dd = dim(e[0], e[1]); e[2] = Ite(Gt(v[2], dd), dd, v[2])
        for o in outs_ok(chk, key, I_.run(f, P_('DX'), [x], start((ok, rx), **objs(v, 'X'))), f.where, wit):
            g = impl_of(I_, o.st, 'DX')
            chk.prove_all(o.st.pc, [(key + '/the date stays valid', valid(*g)), (key + '/sets its own part, within the calendar', eq3(g, e))], f.where, wit)
        chk.prove_obls(I_, key, wit); chk.absorb(I_, f.q)
def check_construct(chk, P):
    wit = lambda m: witness()
    def ctor(n, t=None):
        c = [f for f in P.byq.get(D + '::Date', []) if f.body is not None and len(f.params) == n and (n != 1 or f.types[f.params[0]['t']].deref().tn.startswith(t))]
        if not c: raise Unsupported('constructor')
        return c[0]
    I_ = engine(chk, P); key = 'date/construct'
    a = [intvar(I_, n) for n in ('y', 'm', 'd')]
    # evaluated through setValue and the constructor
    v, ok = date0(I_); f = pub(P, 'setValue')
    pc = [ok] + [r for _, r in a]; xs = [x for x, _ in a]
    for o in outs_ok(chk, key, I_.run(f, P_('DX'), xs, start(pc, **objs(v, 'X'))), f.where, wit):
        g = impl_of(I_, o.st, 'DX')
        chk.prove_all(o.st.pc, [(key + '/setValue accepts exactly the valid dates', Eq(o.val, valid(*xs))), (key + '/an accepted date is set', Implies(o.val, eq3(g, xs))), (key + '/a rejected date changes nothing', Implies(Not(o.val), eq3(g, v)))], f.where, wit)
    chk.prove_obls(I_, key, wit); chk.absorb(I_, f.q)
    I_ = engine(chk, P); I_.ranges.update({n: (-(1 << 31), (1 << 31) - 1) for n in 'ymd'})
    def build():
        return I_.construct(D, ctor(3), xs)
    from .. import datatypes
    I_.frames.append(datatypes._frame())
    for o in I_.multi(start(pc[1:]), build):
        if o.kind != 'normal': chk.prove(key + '/no exception', o.st.pc, FALSE, '', wit); continue
        o.st.mem[('N',)] = o.val; g = impl_of(I_, o.st, 'N')
        y = clamp(xs[0], I(1), I(9999)); m = clamp(xs[1], I(1), I(12)); d = clamp(xs[2], I(1), dim(y, m))
        chk.prove_all(o.st.pc, [(key + '/a constructed date is valid', valid(*g)), (key + '/a constructed date is the nearest valid one', eq3(g, [y, m, d]))], ctor(3).where, wit)
    chk.absorb(I_, ctor(3).q)
    # copies
    I_ = engine(chk, P); v, ok = date0(I_); w, okw = date0(I_, 'o.')
    asg = [f for f in P.byq.get(D + '::operator=', []) if f.body is not None and not f.d.get('mv')]
    for f in P.byq.get(D + '::operator=', []):
        if f.body is None: continue
        for o in outs_ok(chk, key, I_.run(f, P_('DX'), [P_('DY')], start((ok, okw), **{**objs(v, 'X'), **objs(w, 'Y')})), f.where, wit):
            chk.prove(key + '/assignment copies the date', o.st.pc, eq3(impl_of(I_, o.st, 'DX'), w), f.where, wit)
            px = o.st.mem[('DX',)].f['myImpl'].alts[0][1].root
            if not f.types[f.params[0]['t']].d.get('rv') and f.types[f.params[0]['t']].d.get('k') == 'lref':
                chk.prove(key + '/assignment does not share the date', o.st.pc, B(px != o.st.mem[('DY',)].f['myImpl'].alts[0][1].root if o.st.mem[('DY',)].f['myImpl'].alts[0][1] else True), f.where, wit)
        chk.absorb(I_, f.q)
    for n, nm in ((1, 'copy'),):
        for c in P.byq.get(D + '::Date', []):
            if c.body is None or len(c.params) != 1: continue
            t = c.types[c.params[0]['t']].deref()
            if t.tn != D and t.name != D: continue
            I_ = engine(chk, P); I_.frames.append(datatypes._frame())
            for o in I_.multi(start((ok,), **objs(v, 'X')), lambda: I_.construct(D, c, [P_('DX')])):
                if o.kind != 'normal': chk.prove(key + '/no exception', o.st.pc, FALSE, '', wit); continue
                o.st.mem[('N',)] = o.val
                chk.prove(key + '/a copy is the same date', o.st.pc, eq3(impl_of(I_, o.st, 'N'), v), c.where, wit)
            chk.absorb(I_, c.q)
def check_compare(chk, P):
    wit = lambda m: witness()
    for op, rel in (('==', Eq), ('!=', Ne), ('<', Lt), ('>', Gt), ('<=', Le), ('>=', Ge)):
        I_ = engine(chk, P); v, ok = date0(I_); w, okw = date0(I_, 'o.'); key = 'date/compare'
        f = pub(P, 'operator' + op); num = lambda t: Add(Mul(I(10000), t[0]), Mul(I(100), t[1]), t[2])
        for o in outs_ok(chk, key, I_.run(f, P_('DX'), [P_('DY')], start((ok, okw), **{**objs(v, 'X'), **objs(w, 'Y')})), f.where, wit):
            chk.prove(key + '/%s is the order of the calendar' % op, o.st.pc, Eq(o.val, rel(num(v), num(w))), f.where, wit)
        chk.prove_obls(I_, key, wit); chk.absorb(I_, f.q)
def check_facts(chk, P):
    wit = lambda m: witness()
    I_ = engine(chk, P); v, ok = date0(I_); key = 'date/facts'
    st = lambda: start((ok,), **objs(v, 'X'))
    for f in P.byq.get(D + '::isLeapYear', []):
        if f.body is None: continue
        y, ry = (v[0], TRUE) if not f.params else intvar(I_, 'y')
        s = st(); s.assume(ry)
        for o in outs_ok(chk, key, I_.run(f, P_('DX'), [y] if f.params else [], s), f.where, wit):
            chk.prove(key + '/leap years', o.st.pc, Implies(And(Ge(y, I(1)), Le(y, I(9999))), Eq(o.val, leap(y))), f.where, wit)
        chk.absorb(I_, f.q)
    f = pub(P, 'daysInMonth')
    for o in outs_ok(chk, key, I_.run(f, P_('DX'), [], st()), f.where, wit): chk.prove(key + '/days of the month', o.st.pc, Eq(o.val, dim(v[0], v[1])), f.where, wit)
    chk.absorb(I_, f.q)
    f = pub(P, 'daysIntMonth'); m, rm = intvar(I_, 'm'); y, ry = intvar(I_, 'y')
    s = st(); s.assume(rm).assume(ry)
    for o in outs_ok(chk, key, I_.run(f, P_('DX'), [m, y], s), f.where, wit):
        chk.prove(key + '/days of a given month', o.st.pc, Implies(And(Ge(y, I(1)), Le(y, I(9999)), Ge(m, I(1)), Le(m, I(12))), Eq(o.val, dim(y, m))), f.where, wit)
    chk.absorb(I_, f.q)
    f = pub(P, 'getWeekday')
    chk.prove_obls(I_, key, wit); chk.absorb(I_, f.q)
def check_weekday(chk, P, rs):
    wit = lambda m: witness(); key = 'date/facts'
    f = pub(P, 'getWeekday'); a = Var('a', 'I'); d = Var('day', 'I')
    for r in rs:          # every year is 400 a + r
      y = Add(Mul(I(400), a), I(r)); goals = []
      I_ = engine(chk, P); I_.ranges.update({'a': (0, 25), 'day': (1, 31)})
      for mm in range(1, 13):
        vv = [y, I(mm), d]
        for o in outs_ok(chk, key, I_.run(f, P_('DX'), [], start((Ge(a, I(0)), Le(a, I(25)), valid(*vv)), **objs(vv, 'X'))), f.where, wit):
            chk.prove(key + '/weekday in month %d of years 400a+%d' % (mm, r), o.st.pc, Eq(o.val, Add(md(ordinal(*vv), 7), I(1))), f.where, wit)
      chk.prove_obls(I_, key, wit); chk.absorb(I_, f.q)

def check_add(chk, P, what):
    wit = lambda m: witness()
    I_ = engine(chk, P); key = 'date/' + what; v, ok = date0(I_); n, rn = intvar(I_, 'n'); f = pub(P, what)
    root = ('X',)
    if what == 'addDays':
        o0 = ordinal(*v)
        def hook(I2, nd, st):
            if nd['k'] not in ('for', 'while'): return None
            if st.mem.get(root) is None: return None
            fr = I2.frames[-1]; body = nd['b']; loc = loops.declared(body)
            cnt = {}
            for i in loops.modified([body, nd.get('inc') or {}, nd.get('c') or {}]):
                if isinstance(i, tuple) or i in loc: continue
                kx = ('L', fr.id, i); x = st.mem.get(kx)
                if type(x) is T and x.sort == 'I': cnt[kx] = x
            steps = {}
            for sg in (1, -1):
                kv = Fresh('k', 'I'); I2.ranges[kv.val] = (0, 1 << 31); steps = {c: 1 for c in cnt}
                for attempt in range(3):
                    nob = len(I2.obls)
                    h = st.copy(); w, okw = [Fresh(z, 'I') for z in 'ymd'], None
                    for x, hi in zip(w, (9999, 12, 31)): I2.ranges[x.val] = (1, hi)
                    inv = lambda t, k: And(valid(*t), Eq(ordinal(*t), clamp(Add(o0, Mul(I(sg), k)), I(1), I(MAXORD))))
                    h.mem[root] = StructV(IM, {'myYear': w[0], 'myMonth': w[1], 'myDay': w[2]})
                    for c, x in cnt.items(): h.mem[c] = Add(x, Mul(I(steps[c]), kv))
                    h.assume(Ge(kv, I(0))).assume(inv(w, kv))
                    outs = loops.one_iter(I2, nd, h); again = False
                    for o in outs:
                        if o.kind != 'next': continue
                        for c in cnt:
                            d = Sub(o.st.mem[c], h.mem[c])
                            if not isc(d): raise Unsupported('loop contract: non-constant step')
                            if d.val != steps[c]: steps[c] = d.val; again = True
                    if not again: break
                    del I2.obls[nob:]
                good = I2.solver.prove(st.pc, inv(fields(st, 'X'), I(0)))[0] == 'proved' and all(bycase(I2.solver, o.st.pc, inv(fields(o.st, 'X'), Add(kv, I(1))), w[1], range(1, 13)) for o in outs if o.kind == 'next')
                if good: break
                del I2.obls[nob:]
            else:
                # state the failing direction as obligations
                chk.undec(key + '/loop', 'no inductive invariant: one step of the loop is not one day'); raise Unsupported('loop contract: one step is not one day')
            chk.n += 2; chk.byz3 += 2; chk.obl_kinds['loop invariant'] = chk.obl_kinds.get('loop invariant', 0) + 2
            ws = {x.val for x in w}; base = set(h.pc)
            for o in outs:          # the loop was not left one iteration earlier
                if o.kind != 'exit': continue
                ex = And(*[c for c in o.st.pc if c not in base])
                if ws.isdisjoint(freevars(ex)): o.st.assume(Or(Eq(kv, I(0)), Not(subst(ex, {kv.id: Sub(kv, I(1))}))))
            return [Out('normal' if o.kind in ('exit', 'break') else o.kind, o.st, o.val) for o in outs if o.kind != 'next']
        I_.loop_hook = hook
    lim = And(Ge(n, I(-(1 << 31) + 1)), TRUE)
    pc = (ok, rn)
    if what == 'addMonths':
        # months counted from year 0
        tot = Add(Mul(I(12), v[0]), Sub(v[1], I(1)), n); y = dv(tot, 12); m = Add(md(tot, 12), I(1)); dd = dim(y, m)
        exp = [Ite(Lt(y, I(1)), I(1), Ite(Gt(y, I(9999)), I(9999), y)), Ite(Lt(y, I(1)), I(1), Ite(Gt(y, I(9999)), I(12), m)), Ite(Lt(y, I(1)), I(1), Ite(Gt(y, I(9999)), I(31), Ite(Gt(v[2], dd), dd, v[2])))]
    if what == 'addYears':
        y = clamp(Add(v[0], n), I(1), I(9999)); mv = And(Eq(v[1], I(2)), Eq(v[2], I(29)), Not(leap(y)))
        exp = [y, Ite(mv, I(3), v[1]), Ite(mv, I(1), v[2])]
    chk.cover(key, pc)
    for o in outs_ok(chk, key, I_.run(f, P_('DX'), [n], start(pc, **objs(v, 'X'))), f.where, wit):
        g = impl_of(I_, o.st, 'DX')
        it = [(key + '/the date stays valid', valid(*g))]
        if what == 'addDays': it.append((key + '/the date moves by that many days', Eq(ordinal(*g), clamp(Add(o0, n), I(1), I(MAXORD)))))
        else: it.append((key + '/the date moves by the calendar', eq3(g, exp)))
        chk.prove_all(o.st.pc, it, f.where, wit, timeout=30000)
    I_.loop_hook = None
    chk.prove_obls(I_, key, wit); chk.absorb(I_, f.q)
def check_step(chk, P):
    wit = lambda m: witness()
    for nm, sg in (('operator++', 1), ('operator--', -1)):
        for f in P.byq.get(D + '::' + nm, []):
            if f.body is None: continue
            for mm in range(1, 13):
                I_ = engine(chk, P); v, ok = date0(I_); key = 'date/step'; v[1] = I(mm); ok = valid(*v)
                for o in outs_ok(chk, key, I_.run(f, P_('DX'), [I(0)] if f.params else [], start((ok,), **objs(v, 'X'))), f.where, wit):
                    g = impl_of(I_, o.st, 'DX')
                    it = [(key + '/%s gives a valid date' % nm, valid(*g)), (key + '/%s moves by one day in month %d' % (nm, mm), Eq(ordinal(*g), clamp(Add(ordinal(*v), I(sg)), I(1), I(MAXORD))))]
                    if f.params:
                        o.st.mem[('N',)] = o.val; it.append((key + '/%s returns the date as it was' % nm, eq3(impl_of(I_, o.st, 'N'), v)))
                    chk.prove_all(o.st.pc, it, f.where, wit, timeout=30000)
                chk.prove_obls(I_, key, wit); chk.absorb(I_, f.q)
def check_text(chk, P):
    wit = lambda m: witness(); key = 'date/text'
    I_ = engine(chk, P); v, ok = date0(I_); f = pub(P, 'parse')
    cs = [Var('c%d' % i, 'I') for i in range(10)]
    for c in cs: I_.ranges[c.val] = (0, 255)
    pc = [ok] + [And(Ge(c, I(0)), Le(c, I(255))) for c in cs]
    txt = Concat(*[Unit(c) for c in cs])
    dg = lambda c: And(Ge(c, I(48)), Le(c, I(57)))
    num = lambda l: Add(*[Mul(I(10 ** (len(l) - 1 - i)), Sub(c, I(48))) for i, c in enumerate(l)])
    form = And(*[dg(cs[i]) for i in (0, 1, 2, 3, 5, 6, 8, 9)], Eq(cs[4], I(45)), Eq(cs[7], I(45)))
    w = [num(cs[0:4]), num(cs[5:7]), num(cs[8:10])]
    s = start(pc, **objs(v, 'X')); s.mem[('S',)] = txt
    for o in outs_ok(chk, key, I_.run(f, P_('DX'), [P_('S')], s), f.where, wit):
        g = impl_of(I_, o.st, 'DX')
        def split():          # by the month's two characters
            rest = []
            for mm in range(1, 13):
                m = {cs[5].id: I(48 + mm // 10), cs[6].id: I(48 + mm % 10)}; rest.append(And(*[Eq(x, m[x.id]) for x in (cs[5], cs[6])]))
                if mm != 2: yield mm, [subst(c, m) for c in o.st.pc], lambda t, m=m: subst(t, m); continue
                more = []
                for k in range(100):
                    m2 = dict(m); m2.update({cs[2].id: I(48 + k // 10), cs[3].id: I(48 + k % 10)})
                    yield '2, year ..%02d' % k, [subst(c, m2) for c in o.st.pc], lambda t, m=m2: subst(t, m)
                m2 = dict(m); yield '2, other year', [subst(c, m) for c in o.st.pc] + [Not(And(dg(cs[2]), dg(cs[3])))], lambda t, m=m2: subst(t, m)
            yield 0, list(o.st.pc) + [Not(Or(*rest))], lambda t: t
        for mm, pcs, sb in split():
            n = ' (month %s)' % mm if mm else ' (no month)'
            ww = [sb(x) for x in w]
            chk.prove_all(pcs, [(key + '/a text is accepted exactly when it is yyyy-mm-dd of a calendar date' + n, Eq(sb(o.val), And(sb(form), valid(*ww)) if mm else FALSE)), (key + '/an accepted text gives its date' + n, Implies(sb(o.val), eq3([sb(x) for x in g], ww))), (key + '/a rejected text changes nothing' + n, Implies(Not(sb(o.val)), eq3([sb(x) for x in g], v)))], f.where, wit)
    x = Var('text', 'S'); s = start((ok, Ne(Len(x), I(10)), Lt(Len(x), I(1 << 31))), **objs(v, 'X')); s.mem[('S',)] = x
    for o in outs_ok(chk, key, I_.run(f, P_('DX'), [P_('S')], s), f.where, wit):
        chk.prove_all(o.st.pc, [(key + '/a text of another length is rejected', Not(o.val)), (key + '/a rejected text changes nothing', eq3(impl_of(I_, o.st, 'DX'), v))], f.where, wit)
    chk.prove_obls(I_, key, wit); chk.absorb(I_, f.q)
    from ..stdlib import pad, itoa, stream
    for nm, f in [(n, f) for n in ('toStream', 'operator<<') for f in P.byq.get('mx::core::' + n, []) if f.body is not None and len(f.params) == 2 and f.types[f.params[1]['t']].deref().name == D]:
        I_ = engine(chk, P); v, ok = date0(I_)
        e = Concat(pad(itoa(v[0]), I(4), I(48)), S('-'), pad(itoa(v[1]), I(2), I(48)), S('-'), pad(itoa(v[2]), I(2), I(48)))
        for o in outs_ok(chk, key, I_.run(f, None, [P_('OS'), P_('DX')], start((ok,), OS=stream(), **objs(v, 'X'))), f.where, wit):
            chk.prove(key + '/a date is written as yyyy-mm-dd', o.st.pc, Eq(text_of(toks(o.st)), e), f.where, wit)
        chk.absorb(I_, f.q)
def witness():
    if 'w' not in WHICH:
        rc, txt, cpp = replay.run(PROG, 'c10', timeout=300)
        fails = [l for l in txt.splitlines() if l.startswith('FAIL')]
        WHICH['w'] = {'confirmed': bool(fails) or rc != 0, 'text': 'program %s\nexit %d\n%s' % (cpp, rc, '\n'.join(fails[:20]) or txt[-800:])}
    return WHICH['w']
PROG = r'''#include <cstdio>
#include <string>
#include <climits>
#include "mx/core/Date.h"
using mx::core::Date;
static int nfail=0;
#define FAIL(...) do{ if(++nfail<40){ printf("FAIL "); printf(__VA_ARGS__); printf("\n"); } }while(0)
static bool leap(long y){ return y%400==0||(y%4==0&&y%100!=0); }
static int dim(long y,int m){ return m==2?(leap(y)?29:28):(m==4||m==6||m==9||m==11)?30:31; }
static const long MX=3652059;
static long ord(long y,int m,int d){ static const int c[]={0,31,59,90,120,151,181,212,243,273,304,334}; long z=y-1; return 365*z+z/4-z/100+z/400+c[m-1]+((m>2&&leap(y))?1:0)+d; }
static long cl(long v,long a,long b){ return v<a?a:v>b?b:v; }
static long D(const Date&d){ return ord(d.getYear(),d.getMonth(),d.getDay()); }
static bool ok(const Date&d){ return d.getYear()>=1&&d.getYear()<=9999&&d.getMonth()>=1&&d.getMonth()<=12&&d.getDay()>=1&&d.getDay()<=dim(d.getYear(),d.getMonth()); }
static void is(const char*w,const Date&d,long y,long m,long dd){ if(d.getYear()!=y||d.getMonth()!=m||d.getDay()!=dd) FAIL("%s: %d-%d-%d is not %ld-%ld-%ld",w,d.getYear(),d.getMonth(),d.getDay(),y,m,dd); }
static void text(const Date&d){ char b[40]; snprintf(b,40,"%04d-%02d-%02d",d.getYear(),d.getMonth(),d.getDay()); if(toString(d)!=b) FAIL("text %s of %s",toString(d).c_str(),b); Date e{3,3,3}; if(!e.parse(b)||e!=d) FAIL("text %s does not read back",b);
  Date f{ std::string(b) }; if(!(f==d)) FAIL("constructing from %s",b); }
int main(){
  { Date d{1,1,1}; long n=1; for(;;){ if(!ok(d)) FAIL("invalid"); if(D(d)!=n) FAIL("day %ld",n); if(d.getWeekday()!=n%7+1) FAIL("weekday of day %ld",n); if(n%37==0) text(d); if(n==MX) break; Date e=d; Date f=++d; ++n; if(!(e<d)||d<e||e==d||!(e!=d)||e>d||!(d>e)||!(e<=d)||e>=d||!(f==d)) FAIL("order at %ld",n);
     if(n%53==0){ Date g=d; --g; if(!(g==e)) FAIL("-- at %ld",n); Date h=d--; if(D(h)!=n||D(d)!=n-1) FAIL("post -- at %ld",n); h=d++; if(D(h)!=n-1||D(d)!=n) FAIL("post ++ at %ld",n); } if(nfail>30) return 1; } ++d; if(D(d)!=MX) FAIL("past the end"); }
  static const int YS[]={1,2,3,4,5,99,100,101,399,400,401,1582,1899,1900,1901,1999,2000,2001,2003,2004,2005,2099,2100,2400,9996,9998,9999};
  static const int NS[]={INT_MIN,INT_MIN+1,-200000,-120000,-119988,-5000,-4800,-1201,-1200,-61,-60,-48,-25,-24,-23,-13,-12,-11,-10,-4,-3,-2,-1,0,1,2,3,4,5,10,11,12,13,23,24,25,36,37,48,400,1199,1200,4800,5000,119988,200000,INT_MAX-9999,INT_MAX};
  for(long y: YS) for(int m=1;m<=12;++m) for(int d=1;d<=dim(y,m);d+=(d<27?13:1)){ Date q(y,m,d); is("construct",q,y,m,d); text(q);
    if(q.isLeapYear()!=leap(y)||q.isLeapYear((int)y)!=leap(y)||q.daysInMonth()!=dim(y,m)||q.daysIntMonth(m,(int)y)!=dim(y,m)) FAIL("facts of %ld-%d",y,m);
    for(int n: NS){ { Date e=q; e.addMonths(n); long t=12*y+m-1+(long)n; long yy=(t>=0?t/12:-((11-t)/12)); int mm=(int)(t-12*yy)+1; if(yy<1) is("addMonths",e,1,1,1); else if(yy>9999) is("addMonths",e,9999,12,31); else is("addMonths",e,yy,mm,d>dim(yy,mm)?dim(yy,mm):d); }
      { Date e=q; e.addYears(n); long yy=cl(y+(long)n,1,9999); if(m==2&&d==29&&!leap(yy)) is("addYears",e,yy,3,1); else is("addYears",e,yy,m,d); }
      if(n>-6000&&n<6000){ Date e=q; e.addDays(n); if(!ok(e)||D(e)!=cl(D(q)+n,1,MX)) FAIL("addDays %d from %ld-%d-%d",n,y,m,d); } }
    for(int n: {INT_MIN,-1,0,1,2,4,6,9,11,12,13,28,29,30,31,32,99,100,1900,2000,2001,2004,9999,10000,INT_MAX}){ Date e=q; e.setYear(n); long yy=cl(n,1,9999); is("setYear",e,yy,m,d>dim(yy,m)?dim(yy,m):d); e=q; e.setMonth(n); int mm=(int)cl(n,1,12); is("setMonth",e,y,mm,d>dim(y,mm)?dim(y,mm):d); e=q; e.setDay(n); is("setDay",e,y,m,cl(n,1,dim(y,m))); }
    { Date e=q; bool a=e.setValue(2001,2,29); is("setValue",e,y,m,d); if(a) FAIL("accepts 2001-02-29"); a=e.setValue(2004,2,29); if(!a) FAIL("rejects 2004-02-29"); is("setValue",e,2004,2,29); a=e.setValue((int)y,m,d); if(!a) FAIL("rejects valid"); is("setValue",e,y,m,d); Date c(e); is("copy",c,y,m,d); Date z; z=c; is("assign",z,y,m,d); c.setYear(5); is("assign",z,y,m,d); }
    if(nfail>30) return 1; }
  for(const char*t: {"","2000-1-01","2000-01-1","02000-01-01","2000/01/01","2000-01/01","2000-13-01","2000-00-01","2000-01-00","2000-01-32","2000-04-31","1900-02-29","0000-01-01","200a-01-01","2000-0a-01","2000-01-0a"," 000-01-01","2000-01-01 ","-200-01-01","+200-01-01","2000-+1-01","2000-01--1"}){ Date e{1987,6,5}; if(e.parse(t)) FAIL("accepts '%s'",t); is("rejected text",e,1987,6,5); }
  for(int y: {-5,0,1,10000,2001}) for(int m: {-1,0,1,2,12,13}) for(int d: {-1,0,1,28,29,31,32}){ long yy=cl(y,1,9999); int mm=(int)cl(m,1,12); is("construct",Date(y,m,d),yy,mm,cl(d,1,dim(yy,mm))); Date e{1987,6,5}; bool v=yy==y&&mm==m&&d>=1&&d<=dim(yy,mm); if(e.setValue(y,m,d)!=v) FAIL("setValue accepts %d %d %d",y,m,d); if(v) is("setValue",e,y,m,d); else is("setValue",e,1987,6,5); }
  return 0; }
'''
def main():
    chk = Check('C10'); P = fe.load([('core/Date.cpp', [fe.MX + '/core/Date.cpp'])]); chk.log('loaded')
    items = [('setters', lambda: check_setters(chk, P)), ('construct', lambda: check_construct(chk, P)), ('compare', lambda: check_compare(chk, P)), ('facts', lambda: check_facts(chk, P)), ('text', lambda: check_text(chk, P)), ('step', lambda: check_step(chk, P))]
    items += [(w, lambda w=w: check_add(chk, P, w)) for w in ('addDays', 'addMonths', 'addYears')]
    items += [('weekday', lambda k=k: check_weekday(chk, P, range(k, 400, 32))) for k in range(32)]
    chk.parallel(items, lambda it: chk.guard('date/' + it[0], it[1]), limit=300)
    def bounded(keys):
        w = witness(); chk.bounded.append('every day from 0001-01-01 to 9999-12-31 and a table of arithmetic and texts on the real code')
        return [{'key': 'bounded:dates', 'text': w['text']}] if w['confirmed'] else []
    chk.assumptions += ['64-bit sizes of texts below 2^31', 'digit extraction from text by streams is the library model']
    return chk.finish(bounded, trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'])
