"""C04: the public vocabulary (notation enumerations, pitch alteration, transposition) and MusicXML's mean the same both ways."""
from ..run import *
from ..sym import Sym
from .. import replay, datatypes, xmlmodel
from ..terms import *
from .c01 import start, OS, P_, same, method
from .c03 import outs_ok
from fractions import Fraction as F
import re

CV = 'mx::impl::Converter'; A = 'mx::api::'; C = 'mx::core::'
# enumerators of the public vocabulary that mean "nothing given"
NOTHING = {'unspecified', 'error_bad_string', 'errorBadString'}
# public name -> MusicXML name, where they differ by more than the category prefix
EXC = {
 'DurationName': {'longa': 'long_', 'dur16th': 'sixteenth', 'dur32nd': 'thirtySecond', 'dur64th': 'sixtyFourth', 'dur128th': 'oneHundredTwentyEighth', 'dur256th': 'twoHundredFifthySixth', 'dur512th': 'fiveHundredTwelfth', 'dur1024th': 'oneThousandTwentyFourth'},
 'Beam': {'extend': 'continue_', 'forwardBroken': 'forwardHook', 'backwardBroken': 'backwardHook'},
 'Stem': {'both': 'double_'},
 'BarlineType': {'normal': 'regular', 'unsupported': None},
 'HorizontalAlignment:RightLeftMiddle': {'center': 'middle'},
 'EndingType': {'none': None},
 'Accidental': {'none': None},
}
PREFIX = {'AccidentalValue': 'accidentalMark', 'FermataShape': 'fermata'}
CATEGORY = {'ArticulationsChoice::Choice': 'isMarkArticulation', 'DynamicsEnum': 'isMarkDynamic', 'OrnamentsChoice::Choice': 'isMarkOrnament', 'TechnicalChoice::Choice': 'isMarkTechnical', 'FermataShape': 'isMarkFermata'}
norm = lambda s: s.lower().replace('_', '')
sn = lambda q: q.replace('mx::api::', '').replace('mx::core::', '')

def load():
    return fe.load([('impl/Converter.cpp', [fe.MX + '/impl/Converter.cpp'])] + fe.dir_groups('core') + fe.dir_groups('api') + fe.elements_groups(16))
def converters(P):
    d = {}
    for f in P.funcs.values():
        if f.d.get('cls') != CV or not f.body or len(f.params) != 1 or 'rt' not in f.d: continue
        t = f.types[f.params[0]['t']].deref(); r = f.types[f.d['rt']].deref()
        if t.k == 'enum' and r.k == 'enum': d[(f.q.split('::')[-1], t.d['n'], r.d['n'])] = f
    return d
def expected(P, a, c, judged):
    """[(public enumerator, MusicXML enumerator)], [public enumerators without counterpart]"""
    an = P.enums[a]; cn = P.enums[c]; ex = EXC.get('%s:%s' % (sn(a), sn(c)), EXC.get(sn(a), {}))
    byname = {}
    for n, x in cn: byname.setdefault(norm(n), (n, x))
    pre = PREFIX.get(sn(c), '') if sn(a) == 'MarkType' else ''
    out = []; none = []
    for n, x in an:
        if n in NOTHING or not judged(n, x): continue
        if n in ex:
            if ex[n] is None: continue
            m = [(k, v) for k, v in cn if k == ex[n]]
        elif pre:
            m = [byname[norm(n[len(pre):])]] if n.startswith(pre) and norm(n[len(pre):]) in byname else [byname['emptystring']] if n == pre and 'emptystring' in byname else []
        else: m = [byname[norm(n)]] if norm(n) in byname else []
        if m: out.append(((n, x), m[0]))
        else: none.append(n)
    return out, none
SHARED = {}
def shared(chk, P):
    """one evaluator per process: the tables are initialised once"""
    if 'I' not in SHARED: SHARED['I'] = chk.interp(P)
    return SHARED['I']
def call(chk, P, f, x):
    I_ = shared(chk, P)
    o = I_.run(f, P_('C'), [I(x)], start((), C=StructV(CV, {})))
    if len(o) != 1 or o[0].kind != 'normal' or not isc(o[0].val): raise Unsupported('conversion of a constant is not a constant')
    return o[0].val.val
def predicate(chk, P, name, x):
    f = [f for f in P.byq.get(A + name, []) if f.body]
    if not f: raise Unsupported('no ' + name)
    o = shared(chk, P).run(f[0], None, [I(x)], State()); chk.contracts.add(f[0].q)
    return o[0].val is TRUE

def check_pair(chk, P, key3, D, cut=None):
    q, a, c = key3; f = D[key3]; g = D.get((q, c, a)); key = 'names<%s,%s>' % (sn(a), sn(c))
    wit = lambda m: witness_names(P, D, key3, chk)
    pred = CATEGORY.get(sn(c)) if sn(a) == 'MarkType' else None
    judged = (lambda n, x: True) if sn(a) != 'MarkType' else (lambda n, x: predicate(chk, P, pred, x)) if pred else (lambda n, x: n.startswith(PREFIX.get(sn(c), '?')))
    ex, none = expected(P, a, c, judged)
    if sn(a) == 'MarkType':      # handled by their own writers and readers
        none = [n for n in none if not re.match('tremolo|unknown|other|custom', n) and not (n.startswith('fermata') and re.search('Upright|Inverted', n))]
    chk.cover(key, [B(bool(ex))])
    if cut is None: chk.prove(key + '/every public value has a MusicXML counterpart', [], B(not none), f.where, wit)
    rn = {x: n for n, x in P.enums[c]}; an = {x: n for n, x in P.enums[a]}
    for (n, x), (m, y) in (ex if cut is None else ex[cut[0]::cut[1]]):
        v = call(chk, P, f, x)
        chk.prove(key + '/%s is written as %s' % (n, m), [], B(v == y), f.where, wit)
        if g is not None:
            w = call(chk, P, g, y)
            chk.prove(key + '/%s is read as %s' % (m, n), [], B(w == x), g.where, wit)
    chk.absorb(shared(chk, P))
    chk.contracts.add('%s(%s)' % (f.q, sn(a)))
    if g is not None:
        chk.contracts.add('%s(%s)' % (g.q, sn(c)))
        # values without a public name are read as something harmless: whatever they are read as is a value of the vocabulary
        known = {y for _, (_, y) in ex}
        if cut is None or cut[0] == 0:
            for n, y in P.enums[c]:
                if y not in known:
                    w = call(chk, P, g, y)
                    chk.prove(key + '/%s is not read as another named value' % n, [], B(w not in {x for (_, x), _ in ex} or an[w] == 'none'), g.where, wit)
    if pred and cut is None:
        for (n, x), (m, y) in ex: pass
        names = {x for (_, x), _ in ex}
        for n, y in P.enums[c]:
            if g is None: continue
            w = call(chk, P, g, y)
            if an[w] in NOTHING or an[w].startswith('tremolo'): continue
            chk.prove(key + '/%s is recognised as belonging to its category' % an[w], [], B(predicate(chk, P, pred, w)), g.where, wit)
HEAD = '''#include <cstdio>
#include <cmath>
#include <string>
#include "mx/impl/Converter.h"
#include "mx/core/elements/Transpose.h"
#include "mx/core/elements/Chromatic.h"
#include "mx/core/elements/Diatonic.h"
#include "mx/core/elements/OctaveChange.h"
#include "mx/core/elements/Alter.h"
using namespace mx;
static int nfail=0;
#define FAIL(...) do{ if(++nfail<60){ printf("FAIL "); printf(__VA_ARGS__); printf("\\n"); } }while(0)
'''
def prog(name, body):
    rc, txt, cpp = replay.run(HEAD + 'int main(){\n' + '\n'.join(body) + '\nreturn 0; }\n', 'c04' + name)
    fails = [l for l in txt.splitlines() if l.startswith('FAIL')]
    return {'confirmed': bool(fails) or rc != 0, 'text': 'program %s\nexit %d\n%s' % (cpp, rc, '\n'.join(fails[:20]) or txt[-800:])}
def witness_names(P, D, key3, chk):
    q, a, c = key3; inv = (q, c, a) in D
    pred = CATEGORY.get(sn(c)) if sn(a) == 'MarkType' else None
    judged = (lambda n, x: True) if sn(a) != 'MarkType' or pred else (lambda n, x: n.startswith(PREFIX.get(sn(c), '?')))
    ex, none = expected(P, a, c, judged)
    b = ['impl::Converter cv;']
    for (n, x), (m, y) in ex:
        if pred: b.append('if(api::%s(%s::%s)) {' % (pred, a, n))
        b.append('if(cv.%s(%s::%s)!=%s::%s) FAIL("%s is not written as %s");' % (q, a, n, c, m, n, m))
        if pred: b.append('}')
        if inv: b.append('if(cv.%s(%s::%s)!=%s::%s) FAIL("%s is not read as %s");' % (q, c, m, a, n, m, n))
    if inv:
        known = {y for _, (_, y) in ex}; nm = [n for (n, _), _ in ex if n != 'none']
        for n, y in P.enums[c]:
            if y not in known:
                b.append('{ auto r = cv.%s(%s::%s); for(auto k : {%s}) if(r==k) FAIL("%s is read as another named value"); }' % (q, c, n, ','.join('%s::%s' % (a, z) for z in nm), n))
            if pred: b.append('{ auto r = cv.%s(%s::%s); if(r!=%s::unspecified && int(r)!=int(%s::tremoloSingleThree) && !api::%s(r)) FAIL("what %s is read as does not belong to its category"); }' % (q, c, n, a, a, pred, n))
    return prog('names', b)

def check_sound(chk, P, cut):
    """public text of every instrument sound reads back"""
    key = 'sound text'; to = P.byq[A + 'SoundIDToString'][0]; fr = P.byq[A + 'SoundIDFromString'][0]
    for n, x in P.enums[A + 'SoundID'][cut[0]::cut[1]]:
        if n in NOTHING: continue
        I_ = shared(chk, P)
        o = I_.run(to, None, [I(x)], State())
        if len(o) != 1 or o[0].kind != 'normal': raise Unsupported('sound text outcomes')
        r = [z for z in I_.run(fr, None, [P_('S')], start((), S=o[0].val))]
        for z in r: chk.prove(key + '/text of %s reads back' % n, z.st.pc, And(B(z.kind == 'normal'), Eq(z.val, I(x)) if z.kind == 'normal' else FALSE), to.where, lambda m: witness_sound())
    chk.absorb(I_)
    chk.contracts |= {to.q, fr.q}
def witness_sound():
    return prog('sound', ['for(int i=(int)api::SoundID::errorBadString+1; i<=(int)api::SoundID::woodSlit; ++i){ auto s=(api::SoundID)i; if(api::SoundIDFromString(api::SoundIDToString(s))!=s) FAIL("sound %d has text %s", i, api::SoundIDToString(s).c_str()); }'])

def check_alter(chk, P):
    key = 'alter'; wit = lambda m: witness_alter()
    to = method(P, CV, 'convertToAlter'); fr = method(P, CV, 'convertToSemitonesAndCents')
    s = Var('semitones', 'I'); c = Var('cents', 'R')
    I_ = chk.interp(P); I_.ranges['semitones'] = (-1000, 1000)
    base = (Ge(s, I(-1000)), Le(s, I(1000)), Ge(c, R(-100000)), Le(c, R(100000)))
    chk.cover(key, base)
    eps = R(F(1, 10 ** 9))
    near = lambda x, y: And(Le(Sub(x, y), eps), Le(Sub(y, x), eps))
    for o in outs_ok(chk, key, I_.run(to, None, [s, c], start(base)), to.where, wit):
        al = o.val
        chk.prove(key + '/the alteration is the semitones plus the hundredths', o.st.pc, near(al, Add(ToReal(s), Mul(R(F(1, 100)), c))), to.where, wit)
        for r in outs_ok(chk, key, I_.run(fr, None, [al], o.st.copy()), fr.where, wit):
            s2, c2 = r.val.f['first'], r.val.f['second']
            chk.prove(key + '/reading an alteration gives the same pitch', r.st.pc, near(Add(Mul(R(100), ToReal(s2)), c2), Add(Mul(R(100), ToReal(s)), c)), fr.where, wit)
            same_sign = And(Lt(c, R(100)), Gt(c, R(-100)), Or(And(Ge(s, I(0)), Ge(c, R(0))), And(Le(s, I(0)), Le(c, R(0)))))
            chk.prove(key + '/semitones and cents read back when they point the same way', r.st.pc, Implies(same_sign, And(Eq(s2, s), near(c2, c))), fr.where, wit)
    chk.absorb(I_, to.q); chk.contracts.add(fr.q)
    # any alteration read from a file
    a = Var('alter', 'R'); I_ = chk.interp(P); pre = (Ge(a, R(-1000)), Le(a, R(1000)))
    for r in outs_ok(chk, key, I_.run(fr, None, [a], start(pre)), fr.where, wit):
        s2, c2 = r.val.f['first'], r.val.f['second']
        for o in outs_ok(chk, key, I_.run(to, None, [s2, c2], r.st.copy()), to.where, wit):
            chk.prove(key + '/writing a read alteration gives the same alteration', o.st.pc, near(o.val, a), to.where, wit)
    chk.absorb(I_)
def witness_alter():
    return prog('alter', ['''for(int s=-4;s<=4;++s) for(int ci=-4000; ci<=4000; ci+=1){ double c=ci/40.0; auto al = impl::Converter::convertToAlter(s,c); if(fabsl(al-(s+c/100.0L))>1e-9L) FAIL("alter of %d %f is %Lf", s, c, al);
  auto r = impl::Converter::convertToSemitonesAndCents(al); if(fabsl(r.first*100.0L+r.second-(s*100.0L+c))>1e-6L) FAIL("%d semitones %f cents read as %d %f", s, c, r.first, r.second);
  if(fabs(c)<99.9 && ((s>=0&&c>=0)||(s<=0&&c<=0)) && (r.first!=s || fabs(r.second-c)>1e-6)) FAIL("%d semitones %f cents read as %d %f", s, c, r.first, r.second); }'''])
def check_transpose(chk, P):
    key = 'transposition'; wit = lambda m: witness_transpose()
    to = method(P, CV, 'convertToTranspose'); fr = method(P, CV, 'convertToTransposeData')
    x = Var('chromatic', 'I'); y = Var('diatonic', 'I'); L = 100000000
    base = (Ge(x, I(-L)), Le(x, I(L)), Ge(y, I(-L)), Le(y, I(L)))
    I_ = chk.interp(P); datatypes.install(I_, P)
    for v in (x, y): I_.ranges[v.val] = (-L, L)
    chk.cover(key, base)
    t = StructV(A + 'TransposeData', {'chromatic': x, 'diatonic': y})
    for o in outs_ok(chk, key, I_.run(to, None, [P_('T')], start(base, T=t)), to.where, wit):
        # a whole number of semitones is stored exactly (C03)
        for r in outs_ok(chk, key, I_.run(fr, None, [o.val], o.st.copy()), fr.where, wit):
            sub_ = lambda v: subst_q6(v)
            chk.prove_all(r.st.pc, [(key + '/chromatic steps read back', Eq(sub_(r.val.f['chromatic']), x)), (key + '/diatonic steps read back', Eq(sub_(r.val.f['diatonic']), y))], fr.where, wit)
    chk.absorb(I_, to.q); chk.contracts.add(fr.q)
def subst_q6(t, memo=None):
    """q6 of a whole number is that number (contract of the decimal type, C03 'a six digit value is stored exactly')"""
    if memo is None: memo = {}
    if t.id in memo: return memo[t.id]
    if not t.args: r = t
    elif t.op == 'app' and t.val == 'q6' and t.args[0].op == 'toreal': r = subst_q6(t.args[0], memo)
    else: r = rebuild(t, [subst_q6(a, memo) for a in t.args])
    memo[t.id] = r
    return r
def witness_transpose():
    return prog('transpose', ['''for(int c=-60;c<=60;++c) for(int d=-40;d<=40;++d){ api::TransposeData t{c,d}; auto p=impl::Converter::convertToTranspose(t); auto r=impl::Converter::convertToTransposeData(*p); if(r.chromatic!=c||r.diatonic!=d) FAIL("transposition %d %d reads back as %d %d", c, d, r.chromatic, r.diatonic);
  if(p->getHasOctaveChange() && p->getOctaveChange()->getValue().getValue()==0) FAIL("octave 0"); }'''])

def main():
    chk = Check('C04'); P = load(); chk.log('loaded')
    D = converters(P)
    pairs = [k for k in sorted(D) if k[1].startswith(A)]
    items = [('pair', k, None) for k in pairs if 'SoundID' not in k[1]]
    for k in pairs:
        if 'SoundID' in k[1]: items += [('pair', k, (i, 8)) for i in range(8)]
    items += [('sound', None, (i, 8)) for i in range(8)] + [('alter', None, None), ('transpose', None, None)]
    items.sort(key=lambda i: i[2] is None)
    def one(it):
        k, p, cut = it
        f = {'pair': lambda: check_pair(chk, P, p, D, cut), 'sound': lambda: check_sound(chk, P, cut), 'alter': lambda: check_alter(chk, P), 'transpose': lambda: check_transpose(chk, P)}[k]
        return chk.guard('names<%s,%s>' % (sn(p[1]), sn(p[2])) if p else {'sound': 'sound text', 'alter': 'alter', 'transpose': 'transposition'}[k], f)
    if not pairs: chk.undec('names', 'no conversions found')
    chk.parallel(items, one)
    def bounded(keys):
        jobs = [('names<%s,%s>' % (sn(k[1]), sn(k[2])), lambda k=k: witness_names(P, D, k, chk)) for k in pairs] + [('sound text', witness_sound), ('alter', witness_alter), ('transposition', witness_transpose)]
        if chk.tier != 'thorough': jobs = [j for j in jobs if any(k.startswith(j[0]) or k == 'worker' for k in keys)]
        out = []
        for k, w in jobs:
            r = w()
            if r['confirmed']: out.append({'key': 'bounded:' + k, 'text': r['text']})
        chk.bounded.append('real-code sweeps of %s' % ', '.join(k for k, _ in jobs))
        return out
    chk.assumptions += ['floating point arithmetic is treated as real arithmetic', 'names: a public enumerator corresponds to the MusicXML enumerator of the same name, up to the exceptions listed in mxv/checks/c04.py (EXC, PREFIX)']
    return chk.finish(bounded, trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'])
