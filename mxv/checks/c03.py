"""C03: every lexical value of MusicXML has a text form that reads back to the same value and stays in the schema's range."""
from ..run import *
from ..sym import Sym
from .. import replay, datatypes, xmlmodel
from ..datatypes import derives, kind, is_cenum, PD, dec2s, q6
from ..stdlib import tn, put, unitlist
from ..terms import *
from .c01 import spec, method, start, OS, P_, same
from fractions import Fraction as F
import json, re

def kebab(n): return re.sub(r'(?<=[a-z0-9])([A-Z])', r'-\1', n).lower()
def simple(sp, n):
    """the schema's simple types with this name (3.0, 3.1), [] when the schema has none"""
    k = kebab(n); out = []
    for v in ('3.0', '3.1'):
        for a in (k, re.sub('-(value|enum)$', '', k)):
            if a in sp[v]['simple']: out.append(dict(sp[v]['simple'][a], name=a, ver=v)); break
    return out
def bounds(sp, n, seen=()):
    """(lo, lo exclusive, hi, hi exclusive) over 3.0 and 3.1 of a numeric simple type, None when unknown"""
    r = []
    for d in simple(sp, n):
        lo = hi = None; lx = hx = False; b = d
        while True:
            for k, s in (('minInclusive', 0), ('minExclusive', 1), ('maxInclusive', 2), ('maxExclusive', 3)):
                if b.get(k) is not None:
                    if s < 2 and lo is None: lo = F(b[k]); lx = s == 1
                    if s >= 2 and hi is None: hi = F(b[k]); hx = s == 3
            base = b.get('base')
            if base == 'xs:positiveInteger' and lo is None: lo = F(1)
            if base == 'xs:nonNegativeInteger' and lo is None: lo = F(0)
            nb = next((sp[v]['simple'][base] for v in ('3.1', '3.0') if base in sp[v]['simple']), None)
            if nb is None: break
            b = nb
        r.append((lo, lx, hi, hx))
    return r

NOTLEX = {'mx::core::' + x for x in ('DocumentChoice', 'MusicXmlVersion', 'SpecificationType', 'XmlVersion', 'XmlEncoding', 'XmlStandalone')}   # header of the document, not values of MusicXML
def functions(P):
    """enumeration -> {'to': toString, 'out': toStream, 'parse': [(fn, optional)]}; custom enumerations likewise"""
    d = {}; c = {}
    for f in P.funcs.values():
        if f.body is None or not f.q.startswith('mx::core::') or f.d.get('cls') or 'rt' not in f.d: continue
        pts = [f.types[p['t']].deref() for p in f.params]; rt = f.types[f.d['rt']]; nm = f.q.split('::')[-1]
        r = rt.deref(); opt = False
        if r.k == 'rec' and tn(r) == 'std::optional': r = r.targ(0).deref(); opt = True
        def sl(t): return d.setdefault(t.d['n'], {'parse': []}) if t.k == 'enum' else c.setdefault(t.name, {'parse': []})
        isval = lambda t: (t.k == 'enum' and t.d['n'].startswith('mx::core')) or (t.k == 'rec' and is_cenum(P, t))
        if len(pts) == 1 and isval(pts[0]) and r.k == 'rec' and tn(r) == 'std::basic_string': sl(pts[0])['to'] = f
        elif len(pts) == 2 and pts[0].k == 'rec' and tn(pts[0]) == 'std::basic_ostream' and isval(pts[1]) and nm != 'stream':
            sl(pts[1])['op' if nm.startswith('operator') else 'out'] = f
        elif len(pts) == 1 and pts[0].k == 'rec' and tn(pts[0]) == 'std::basic_string' and isval(r): sl(r)['parse'].append((f, opt))
    return d, c

def engine(chk, P, low=True, decs=True):
    """evaluator; low: the enumerations and integers come through their contracts"""
    I_ = chk.interp(P)
    return I_
def outs_ok(chk, key, outs, where, wit):
    for o in outs:
        if o.kind != 'normal': chk.prove(key + '/no exception', o.st.pc, FALSE, where, wit)
    return [o for o in outs if o.kind == 'normal']
def toks(st, root='OS'):
    """everything written, as one string term"""
    return st.mem[(root,)].f['toks']
def text_of(tk): return Concat(*[Ite(g, v, S('')) for g, v in tk.e]) if tk.e else S('')
S_ = lambda st, v, n='S': st.mem.__setitem__((n,), v)

# ------------------------------------------------------------------ enumerations
def check_enum(chk, P, en, fs, sp):
    short = en.split('::')[-1]; key = 'enum<%s>' % short
    wit = lambda m: witness_enum(P, en, fs)
    if 'to' not in fs: return None
    tof = fs['to']; texts = []
    for n, x in P.enums[en]:
        I_ = chk.interp(P)
        os_ = outs_ok(chk, key, I_.run(tof, None, [I(x)], State()), tof.where, wit)
        if len(os_) != 1 or not isc(os_[0].val): raise Unsupported('text of enumerator %s is not constant' % n)
        t = os_[0].val.val; texts.append((n, x, t))
        for nm in ('out', 'op'):
            if nm in fs:
                I_ = chk.interp(P)
                for o in outs_ok(chk, key, I_.run(fs[nm], None, [P_('OS'), I(x)], start((), OS=OS())), fs[nm].where, wit):
                    chk.prove(key + '/%s is written as its text' % n, o.st.pc, Eq(text_of(toks(o.st)), S(t)), fs[nm].where, wit)
                chk.absorb(I_, fs[nm].q)
        for f, opt in fs['parse']:
            I_ = chk.interp(P)
            for o in outs_ok(chk, key, I_.run(f, None, [P_('S')], start((), S=S(t))), f.where, wit):
                v = o.val
                g = And(v.has, Eq(v.v, I(x))) if opt else Eq(v, I(x))
                chk.prove(key + '/text of %s reads back' % n, o.st.pc, g, f.where, wit)
            chk.absorb(I_, f.q)
        chk.absorb(I_, tof.q)
    s = Var('text', 'S'); known = Or(*[Eq(s, S(t)) for _, _, t in texts])
    for f, opt in fs['parse']:
        I_ = chk.interp(P)
        for o in outs_ok(chk, key, I_.run(f, None, [P_('S')], start((), S=s)), f.where, wit):
            v = o.val; val = v.v if opt else v
            if opt:
                chk.prove(key + '/any other text is rejected', o.st.pc, Eq(v.has, known), f.where, wit)
                chk.prove(key + '/an accepted text is the text of the value', o.st.pc, Implies(v.has, Or(*[And(Eq(val, I(x)), Eq(s, S(t))) for _, x, t in texts])), f.where, wit)
            else:
                chk.prove(key + '/a known text gives its value', o.st.pc, Implies(known, Or(*[And(Eq(val, I(x)), Eq(s, S(t))) for _, x, t in texts])), f.where, wit)
                chk.prove(key + '/reading gives a valid value', o.st.pc, Or(*[Eq(val, I(x)) for _, x, _ in texts]), f.where, wit)
        chk.absorb(I_)
    # the schema
    sd = [d for d in simple(sp, short) if d['enum']]
    miss = []
    if sd:
        allowed = set().union(*[set(d['enum']) for d in sd])
        old = set(sd[0]['enum'])
        names = {n for n, _, _ in texts}
        for n, x, t in texts:
            if n.startswith('other') or n in ('unspecified',): continue
            chk.prove(key + '/schema defines %s' % t, [], B(t in allowed), tof.where, lambda m, t=t: {'confirmed': True, 'text': '%s is written but MusicXML 3.0/3.1 does not define it' % t}, kind='schema')
        have = {t for _, _, t in texts}
        for t in sorted(old): chk.prove(key + '/schema value %s can be read' % t, [], B(t in have), tof.where, lambda m, t=t: {'confirmed': True, 'text': 'MusicXML 3.0 value %s is not known' % t}, kind='schema')
        miss = sorted(allowed - have)
    return miss
def witness_enum(P, en, fs):
    b = []
    for n, x in P.enums[en]:
        e = '%s::%s' % (en, n)
        b.append('{ std::string t = %s(%s);' % (fs['to'].q, e))
        if 'out' in fs: b.append('std::ostringstream o; %s(o, %s); if(o.str()!=t) FAIL("%s: written as [%%s], text [%%s]", o.str().c_str(), t.c_str());' % (fs['out'].q, e, n))
        for f, opt in fs['parse']:
            b.append('if(!(%s(t)==%s)) FAIL("%s: text [%%s] reads back as something else", t.c_str());' % (f.q, e, n))
        b.append('for(std::string u : {t+" ", " "+t, t+"x", std::string(), t.substr(0,t.size()/2), std::string("zzz"), up(t)}) { bool kn=false; for(auto& k: all) kn = kn || k==u; if(kn) continue;')
        for f, opt in fs['parse']:
            if opt: b.append('if(%s(u)) FAIL("%s: text [%%s] accepted", u.c_str());' % (f.q, n))
        b.append('}}')
    return prog('enum', ['{ std::vector<std::string> all; %s' % ' '.join('all.push_back(%s(%s::%s));' % (fs['to'].q, en, n) for n, _ in P.enums[en])] + b + ['}'])
HEAD = '''#include <cstdio>
#include <cmath>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <limits>
#include "mx/core/Elements.h"
#include "mx/core/Enums.h"
#include "mx/core/EnumsBuiltin.h"
#include "mx/core/FontSize.h"
#include "mx/core/NumberOrNormal.h"
#include "mx/core/PositiveIntegerOrEmpty.h"
#include "mx/core/YesNoNumber.h"
#include "mx/core/CommaSeparatedText.h"
#include "mx/core/CommaSeparatedPositiveIntegers.h"
#include "mx/core/PlaybackSound.h"
#include "mx/core/DocumentSpec.h"
#include "mx/core/XsID.h"
#include "mx/core/XsToken.h"
using namespace mx::core;
static int nfail=0;
#define FAIL(...) do{ if(++nfail<60){ printf("FAIL "); printf(__VA_ARGS__); printf("\\n"); } }while(0)
static std::string up(std::string s){ for(auto& c: s) c = toupper(c); return s; }
template<class T> std::string txt(const T& t){ std::ostringstream s; s << t; return s.str(); }
static std::string unxml(const std::string& s){ std::string r; for(size_t i=0;i<s.size();){ if(s[i]=='&'){ size_t e=s.find(';',i); if(e==std::string::npos) return "<unterminated entity>"; std::string n=s.substr(i+1,e-i-1); if(n=="lt") r+='<'; else if(n=="gt") r+='>'; else if(n=="amp") r+='&'; else if(n=="quot") r+='"'; else if(n=="apos") r+='\\''; else return "<unknown entity>"; i=e+1; } else { if(s[i]=='<') return "<raw less-than>"; if(s[i]=='"') return "<raw quote>"; r+=s[i++]; } } return r; }
'''
WC = {}
def prog(name, body):
    src = HEAD + 'int main(){\n' + '\n'.join(body) + '\nreturn 0; }\n'
    if src not in WC:
        rc, txt, cpp = replay.run(src, 'c03' + name)
        WC[src] = (rc, [l for l in txt.splitlines() if l.startswith('FAIL')], txt, cpp)
    rc, fails, txt, cpp = WC[src]
    return {'confirmed': bool(fails) or rc != 0, 'text': 'program %s\nexit %d\n%s' % (cpp, rc, '\n'.join(fails[:20]) or txt[-800:]), 'fails': fails}

# ------------------------------------------------------------------ enumerations that also hold a free text
def check_cenum(chk, P, cls, fs, enums):
    short = cls.split('::')[-1]; key = 'custom<%s>' % short
    wit = lambda m: witness_cenum(P, cls, fs)
    rec = P.recs[cls]; et = dict((n, t) for n, t, _ in rec.fields)['myEnum'].d['n']
    I_ = chk.interp(P)
    texts = dict(zip([x for _, x in P.enums[et]], datatypes.enum_texts(chk.interp(P), P, et)))
    other = [x for n, x in P.enums[et] if n.startswith('other')]
    if len(other) != 1: raise Unsupported('no other enumerator in %s' % et)
    oth = other[0]
    named = [x for x in texts if x != oth]
    def obj(): return Interp_default(chk, P, cls)
    s = Var('text', 'S'); x = Var('enum', 'I'); fe_ = Or(*[Eq(x, I(k)) for k in texts])
    isn = Or(*[Eq(s, S(texts[k])) for k in named])
    setters = [f for f in P.byq.get(cls + '::setValue', []) if f.body]
    get = method(P, cls, 'getValue'); gets = method(P, cls, 'getValueString')
    any_ = Sym(I_).make(P.type(cls), 'o')
    inv = lambda o: And(Or(*[Eq(o.f['myEnum'], I(k)) for k in texts]), Implies(Not(Eq(o.f['myEnum'], I(oth))), Eq(o.f['myCustomValue'], S(''))),
                        And(*[Implies(Eq(o.f['myEnum'], I(oth)), Not(Eq(o.f['myCustomValue'], S(texts[k])))) for k in named]))
    def view(I0, st, o):
        st = State(st.pc); st.mem[('V',)] = o
        r = []
        for a in I0.run(gets, P_('V'), [], st):
            for b in I0.run(get, P_('V'), [], a.st): r.append((b.st.pc, b.val, a.val))
        return r
    for f in setters:
        isstr = datatypes.isstr(f.types[f.params[0]['t']])
        I_ = chk.interp(P)
        st = start((inv(any_),) if isstr else (inv(any_), fe_), O=any_, S=s)
        chk.cover(key, st.pc)
        for o in outs_ok(chk, key, I_.run(f, P_('O'), [P_('S') if isstr else x], st), f.where, wit):
            no = o.st.mem[('O',)]
            chk.prove(key + '/stored value is consistent', o.st.pc, inv(no), f.where, wit)
            for pc, e, t in view(I_, o.st, no):
                if isstr:
                    g = And(Eq(t, s), Eq(Eq(e, I(oth)), Not(isn)))
                    # the text of the "other" enumerator names no value of its own
                    chk.prove(key + '/setting a text stores that text', pc, Implies(Not(Eq(s, S(texts[oth]))), g), f.where, wit)
                else: chk.prove(key + '/setting an enumerator stores it', pc, And(Eq(e, x), Implies(Not(Eq(x, I(oth))), Or(*[And(Eq(x, I(k)), Eq(t, S(texts[k]))) for k in named]))), f.where, wit)
        chk.absorb(I_, f.q)
    chk.contracts |= {get.q, gets.q}
    for f, opt in fs['parse']:
        I_ = chk.interp(P)
        for o in outs_ok(chk, key, I_.run(f, None, [P_('S')], start((), S=s)), f.where, wit):
            for pc, e, t in view(I_, o.st, o.val): chk.prove(key + '/reading a text stores that text', pc, Implies(Not(Eq(s, S(texts[oth]))), Eq(t, s)), f.where, wit)
        chk.absorb(I_, f.q)
    if 'to' in fs:
        I_ = chk.interp(P)
        for o in outs_ok(chk, key, I_.run(fs['to'], None, [P_('O')], start((inv(any_),), O=any_)), fs['to'].where, wit):
            for pc, e, t in view(I_, o.st, any_): chk.prove(key + '/toString is the stored text', pc, Eq(o.val, t), fs['to'].where, wit)
        chk.absorb(I_, fs['to'].q)
    for nm in ('out', 'op'):
        if nm not in fs: continue
        I_ = chk.interp(P); xmlmodel.install(I_); datatypes.install(I_, P)
        for o in outs_ok(chk, key, I_.run(fs[nm], None, [P_('OS'), P_('O')], start((inv(any_),), O=any_, OS=OS())), fs[nm].where, wit):
            w = text_of(toks(o.st))
            try: g = xmlmodel.untext(w)
            except xmlmodel.Malformed: g = None
            for pc, e, t in view(I_, o.st, any_):
                chk.prove(key + '/written text is the stored text', pc, Eq(g, t) if g is not None else FALSE, fs[nm].where, wit)
        chk.absorb(I_, fs[nm].q)
    for cn in rec_ctors(P, cls):
        if len(cn.params) != 1: continue
        pt = cn.types[cn.params[0]['t']]
        if not datatypes.isstr(pt) and pt.deref().k != 'enum': continue
        isstr = datatypes.isstr(pt); I_ = chk.interp(P)
        for o in outs_ok(chk, key, run_ctor(I_, P, cls, cn, [P_('S') if isstr else x], start((fe_,), S=s)), cn.where, wit):
            no = o.st.mem[('N',)]
            for pc, e, t in view(I_, o.st, no):
                if isstr: chk.prove(key + '/constructed from a text', pc, Implies(Not(Eq(s, S(texts[oth]))), Eq(t, s)), cn.where, wit)
                else: chk.prove(key + '/constructed from an enumerator', pc, Eq(e, x), cn.where, wit)
        chk.absorb(I_, cn.q)
def witness_cenum(P, cls, fs):
    et = dict((n, t) for n, t, _ in P.recs[cls].fields)['myEnum'].d['n']
    b = []
    b.append('for(std::string t : {"x","beam","a b","x<y","\\"q\\"","&amp;","light barline","p","fff","dorian","","Beam"}) { %s v{t}; if(v.getValueString()!=t) FAIL("%s from text [%%s] holds [%%s]", t.c_str(), v.getValueString().c_str()); if(unxml(txt(v))!=t) FAIL("%s [%%s] written [%%s]", t.c_str(), txt(v).c_str()); %s w; w.setValue(t); if(w.getValueString()!=t) FAIL("%s set to [%%s] holds [%%s]", t.c_str(), w.getValueString().c_str()); if(toString(w)!=t) FAIL("%s toString [%%s]", t.c_str()); %s }' % (cls, cls, cls, cls, cls, cls, ' '.join('if(toString(%s(t))!=t) FAIL("reading [%%s] gives [%%s]", t.c_str(), toString(%s(t)).c_str());' % (f.q, f.q) for f, _ in fs['parse'])))
    for n, x in P.enums[et]:
        b.append('{ for(std::string t : {"zz","x"}) { %s v{t}; v.setValue(%s::%s); if(v.getValue()!=%s::%s) FAIL("%s"); %s } %s u{%s::%s}; if(u.getValue()!=%s::%s) FAIL("constructed %s"); }' % (cls, et, n, et, n, n, '' if n.startswith('other') else 'if(v.getValueString()!=toString(%s::%s)) FAIL("%s after text"); if(toString(%s{v.getValueString()})!=v.getValueString()) FAIL("%s");' % (et, n, n, cls, n), cls, et, n, et, n, n))
        if not n.startswith('other'): b.append('{ %s v{toString(%s::%s)}; if(v.getValue()!=%s::%s) FAIL("text of %s"); }' % (cls, et, n, et, n, n))
    return prog('cenum', b)
def rec_ctors(P, cls): return [f for f in P.byq.get(cls + '::' + cls.split('::')[-1], []) if f.body]
def Interp_default(chk, P, cls): return chk.interp(P).default(P.type(cls))
def run_ctor(I_, P, cls, fn, args, st, root='N'):
    """outcomes of constructing an object of class cls at root"""
    st.mem[(root,)] = StructV(cls, {})
    def go():
        I_.run_ctor(fn, P_(root), args, cls); return VOID
    return I_.multi(st, go)

# ------------------------------------------------------------------ integers
def int_classes(P): return sorted(n for n in P.recs if derives(P, n, 'mx::core::Integer') and n not in ('mx::core::IntRange',))
IMIN, IMAX = -(1 << 31), (1 << 31) - 1
def rectype(f, i): 
    t = f.types[f.params[i]['t']].deref()
    return t.name if t.k == 'rec' else None
# documented at their definition as deliberately different from MusicXML 3.0
WIDER = {'AccordionMiddleValue'}
def check_int(chk, P, cls, sp):
    short = cls.split('::')[-1]; key = 'integer<%s>' % short; wit = lambda m: witness_int(P, cls, sp)
    I_ = chk.interp(P); d = I_.default(P.type(cls))
    lo, hi = (d.f['myMin'].val, d.f['myMax'].val) if 'myMin' in d.f else (IMIN, IMAX)
    x = Var('x', 'I'); v0 = Var('v', 'I')
    for v in (x, v0): I_.ranges[v.val] = (IMIN, IMAX)
    rng = lambda v: And(Ge(v, I(IMIN)), Le(v, I(IMAX)))
    inr = lambda v: And(Ge(v, I(lo)), Le(v, I(hi)))
    clamp = lambda v: Ite(Lt(v, I(lo)), I(lo), Ite(Gt(v, I(hi)), I(hi), v))
    o = d.set('myValue', v0)
    chk.cover(key, [inr(v0)])
    chk.prove(key + '/default value is in range', [], inr(d.f['myValue']), '', wit)
    sv = method(P, cls, 'setValue'); gv = method(P, cls, 'getValue'); pa = method(P, cls, 'parse')
    for r in outs_ok(chk, key, I_.run(sv, P_('O'), [x], start((rng(x), inr(v0)), O=o)), sv.where, wit):
        n = r.st.mem[('O',)]
        chk.prove(key + '/setting clamps to the range', r.st.pc, And(Eq(n.f['myValue'], clamp(x)), same(n.set('myValue', v0), o)), sv.where, wit)
        for q in I_.run(gv, P_('O'), [], r.st): chk.prove(key + '/the value set is the value read', q.st.pc, Eq(q.val, clamp(x)), gv.where, wit)
    chk.absorb(I_, sv.q); chk.contracts.add(gv.q)
    for cn in rec_ctors(P, cls):
        if len(cn.params) != 1 or not cn.types[cn.params[0]['t']].is_int: continue
        I2 = chk.interp(P); I2.ranges.update(I_.ranges)
        for r in outs_ok(chk, key, run_ctor(I2, P, cls, cn, [x], start((rng(x),))), cn.where, wit):
            chk.prove(key + '/construction clamps to the range', r.st.pc, Eq(r.st.mem[('N',)].f['myValue'], clamp(x)), cn.where, wit)
        chk.absorb(I2, cn.q)
    I3 = chk.interp(P); I3.ranges.update(I_.ranges)
    for f in P.byq.get('mx::core::toString', []) + P.byq.get('mx::core::toStream', []) + P.byq.get('mx::core::operator<<', []):
        if not f.body or rectype(f, -1) != 'mx::core::Integer': continue
        args = [P_('O')] if len(f.params) == 1 else [P_('OS'), P_('O')]
        for r in outs_ok(chk, key, I3.run(f, None, args, start((inr(v0),), O=o, OS=OS())), f.where, wit):
            w = r.val if len(f.params) == 1 else text_of(toks(r.st))
            st = State(r.st.pc); st.mem[('N',)] = d; st.mem[('S',)] = w
            for q in outs_ok(chk, key, I3.run(pa, P_('N'), [P_('S')], st), pa.where, wit):
                chk.prove(key + '/the text reads back to the same value', q.st.pc, And(q.val, Eq(q.st.mem[('N',)].f['myValue'], v0)), f.where, wit)
        chk.absorb(I3, f.q)
    s = Var('text', 'S')
    for q in outs_ok(chk, key, I3.run(pa, P_('O'), [P_('S')], start((inr(v0),), O=o, S=s)), pa.where, wit):
        n = q.st.mem[('O',)].f['myValue']
        chk.prove(key + '/a rejected text changes nothing', q.st.pc, Implies(Not(q.val), Eq(n, v0)), pa.where, wit)
        if (lo, hi) != (IMIN, IMAX): chk.prove(key + '/an accepted text gives a value in range', q.st.pc, inr(n), pa.where, wit)
    chk.absorb(I3, pa.q)
    los = [b[0] for b in bounds(sp, short)]; his = [b[2] for b in bounds(sp, short)]
    if los and short not in WIDER:
        lb = None if None in los else min(los); hb = None if None in his else max(his)
        chk.prove(key + '/every value is allowed by the schema', [], And(B(lb is None or lo >= lb), B(hb is None or hi <= hb)), sv.where, wit, kind='schema')
        chk.prove(key + '/every value of the schema can be held', [], And(B(lo <= (IMIN if lb is None else lb)), B(hi >= (IMAX if hb is None else hb))), sv.where, wit, kind='schema')
def witness_int(P, cls, sp):
    bs = bounds(sp, cls.split('::')[-1]) if cls.split('::')[-1] not in WIDER else None
    lo = hi = None
    if bs:
        l = [b[0] for b in bs]; h = [b[2] for b in bs]
        lo = IMIN if None in l else int(min(l)); hi = IMAX if None in h else int(max(h))
    b = ['long long lo = %s, hi = %s;' % (('%dLL' % lo, '%dLL' % hi) if bs else ('%s{std::numeric_limits<int>::min()}.getValue()' % cls, '%s{std::numeric_limits<int>::max()}.getValue()' % cls)),
      '{ %s v; if(v.getValue()<lo||v.getValue()>hi) FAIL("default %%d", (int)v.getValue()); }' % cls,
      'std::vector<long long> xs; for(int i=-300;i<20000;++i) xs.push_back(i); for(long long e : {lo-1,lo,lo+1,hi-1,hi,hi+1,-2147483648LL,2147483647LL,1000000LL,-1000000LL,123456789LL}) if(e>=-2147483648LL&&e<=2147483647LL) xs.push_back(e);',
      'for(long long x : xs) { long long c = x<lo?lo:x>hi?hi:x; %s a{(int)x}; %s b; b.setValue((int)x); %s e; bool ok = e.parse(std::to_string(x));' % (cls, cls, cls),
      'if(a.getValue()!=c) FAIL("%s(%%lld) is %%d", x, (int)a.getValue()); if(b.getValue()!=c) FAIL("%s set to %%lld gives %%d", x, (int)b.getValue()); if(!ok||e.getValue()!=c) FAIL("%s text %%lld reads as %%d", x, (int)e.getValue());' % (cls, cls, cls),
      '%s r; if(!r.parse(txt(b))||r.getValue()!=b.getValue()) FAIL("%%d written [%%s] reads %%d", (int)b.getValue(), txt(b).c_str(), (int)r.getValue()); if(toString(b)!=txt(b)) FAIL("toString of %%lld", x); }' % cls,
      '{ %s v{hi>5?5:(int)hi}; int w=v.getValue(); for(std::string t : {"","x","5x","1.5","--1","1 2","99999999999999999999"}) { bool ok=v.parse(t); if(ok) FAIL("text [%%s] accepted", t.c_str()); if(v.getValue()!=w) FAIL("rejected text [%%s] changed the value", t.c_str()); } }' % cls]
    return prog('int', b)

# ------------------------------------------------------------------ decimals
def dec_classes(P): return sorted(n for n in P.recs if derives(P, n, 'mx::core::DecimalRange') and n != 'mx::core::DecimalRange')
BIG = 10 ** 18
def check_precise(chk, P):
    """PreciseDecimal with the digits every decimal of the library uses (19 and 6)"""
    key = 'decimal digits'; wit = lambda m: witness_precise(m)
    I_ = chk.interp(P); d = I_.default(P.type('mx::core::Decimal')).f['myValue']
    sv = method(P, PD, 'setValue'); gv = method(P, PD, 'getValue')
    x = Var('x', 'R'); e = Var('e', 'R'); n = Var('n', 'I')
    dom = And(Lt(x, R(BIG)), Gt(x, R(-BIG)))
    I0 = chk.interp(P)
    def value(st, o):
        s2 = State(st.pc); s2.mem[('G',)] = o
        r = I0.run(gv, P_('G'), [], s2)
        if len(r) != 1 or r[0].kind != 'normal': raise Unsupported('getValue outcomes')
        return r[0].val
    inv = lambda o: And(Ge(o.f['myInteger'], I(0)), Ge(o.f['myDecimal'], I(0)), Le(o.f['myDecimal'], I(999999)))
    o0 = d.set('myIsNegative', Var('neg', 'B')).set('myInteger', Var('int', 'I')).set('myDecimal', Var('dec', 'I'))
    clr = lambda o: o.set('myIsNegative', TRUE).set('myInteger', I(0)).set('myDecimal', I(0))
    chk.cover(key, [inv(o0), dom])
    for r in outs_ok(chk, key, I_.run(sv, P_('O'), [x], start((dom, inv(o0)), O=o0)), sv.where, wit):
        o = r.st.mem[('O',)]; v = value(r.st, o); m6 = Mul(R(10 ** 6), v)
        chk.prove_all(r.st.pc, [(key + '/six decimal digits are stored', inv(o)), (key + '/precision settings stay', same(clr(o), clr(d))),
            (key + '/stored value is within half of the last digit', And(Le(Sub(m6, Mul(R(10 ** 6), x)), R(F(5000010, 10 ** 7))), Le(Sub(Mul(R(10 ** 6), x), m6), R(F(5000010, 10 ** 7))))),
            (key + '/stored value keeps the sign', And(Implies(Ge(x, R(0)), Ge(v, R(0))), Implies(Le(x, R(0)), Le(v, R(0)))))], sv.where, wit)
    chk.absorb(I_, sv.q); chk.contracts.add(gv.q); chk.contracts.add(PD + '::express')
    # a value with six digits, given with a small error (floating point text), is stored exactly
    I2 = chk.interp(P)
    m = Var('magnitude', 'I'); neg = Var('negative', 'B')
    val = Ite(neg, Neg(ToReal(m)), ToReal(m)); err = And(Le(e, R(F(4, 10))), Ge(e, R(F(-4, 10))))
    xe = Mul(R(F(1, 10 ** 6)), Add(val, e))
    pre = (Ge(m, I(0)), Lt(m, I(BIG * 10 ** 6 - 2)), err, inv(o0))
    chk.cover(key + '/exact', pre)
    for r in outs_ok(chk, key, I2.run(sv, P_('O'), [xe], start(pre, O=o0)), sv.where, wit):
        o = r.st.mem[('O',)]
        chk.prove(key + '/a six digit value is stored exactly', r.st.pc, Eq(Add(Mul(I(10 ** 6), o.f['myInteger']), o.f['myDecimal']), m), sv.where, wit)
        chk.prove(key + '/a six digit value keeps its sign', r.st.pc, Implies(Gt(m, I(0)), Eq(o.f['myIsNegative'], neg)), sv.where, wit)
    chk.absorb(I2)
def check_digits(chk, P, kz):
    """text of a value whose fraction, as an integer, has k digits (k = 0: no fraction) of which the last z are zero"""
    k, z = kz
    key = 'decimal text'; wit = lambda m: witness_precise(m)
    I_ = chk.interp(P); d = I_.default(P.type('mx::core::Decimal')).f['myValue']
    ts = method(P, PD, 'toStream'); gv = method(P, PD, 'getValue'); to = method(P, PD, 'toString')
    n = Var('int', 'I'); neg = Var('neg', 'B')
    ds = [Var('digit%d' % i, 'I') if i < k - z else I(0) for i in range(k)]        # most significant first
    facts = [Ge(n, I(0)), Lt(n, I(BIG))]
    for i, x in enumerate(ds):
        if isc(x): continue
        lo = 1 if i in (0, k - z - 1) else 0
        facts += [Ge(x, I(lo)), Le(x, I(9))]; I_.ranges[x.val] = (lo, 9)
        if lo: facts.append(Not(Eq(x, I(0))))
    I_.ranges[n.val] = (0, BIG)
    dec = Add(*[Mul(I(10 ** (k - 1 - i)), x) for i, x in enumerate(ds)]) if k else I(0)
    from ..stdlib import itoa
    def to_string(I0, dd, o, a, nn):
        v = I0.read(a[0]) if type(a[0]) is PtrV else a[0]
        if v is dec and k: return Concat(*[Unit(Add(I(48), x)) for x in ds])
        return itoa(v)
    for nm in ('std::to_string', 'std::__cxx11::to_string'): I_.contracts[nm] = to_string
    o = d.set('myIsNegative', neg).set('myInteger', n).set('myDecimal', dec)
    chk.cover(key, facts)
    for fn in (ts, to):
        for r in outs_ok(chk, key, I_.run(fn, P_('O'), [P_('OS')] if fn is ts else [], start(facts, O=o, OS=OS())), fn.where, wit):
            w = r.st.mem[('OS',)].f['toks'] if fn is ts else TokV(((TRUE, r.val),))
            s2 = State(r.st.pc); s2.mem[('G',)] = o
            ex = chk.interp(P).run(gv, P_('G'), [], s2)[0].val
            for gc, g in decode(w):
                pc = list(r.st.pc) + [gc]
                chk.prove(key + '/text of a %d digit fraction denotes the value' % k, pc, Eq(g[0], ex) if g else FALSE, fn.where, wit)
                chk.prove(key + '/text of a %d digit fraction has no needless zeros and at most six digits' % k, pc, g[1] if g else FALSE, fn.where, wit)
        chk.absorb(I_, fn.q)
def decode(w):
    """[(condition, (value denoted, digits without redundant zeros) or None)] of the tokens as a decimal numeral"""
    cases = [(TRUE, [])]
    def flat(v):
        if v.op == 'ite': return [(And(v.args[0], g), p) for g, p in flat(v.args[1])] + [(And(Not(v.args[0]), g), p) for g, p in flat(v.args[2])]
        ps = [(TRUE, [])]
        for p in pieces(v):
            if p.op == 'ite': nx = flat(p)
            elif isc(p): nx = [(TRUE, [I(ord(c)) for c in p.val])]
            elif p.op == 'unit': nx = [(TRUE, [p.args[0]])]
            else: nx = [(TRUE, [p])]
            ps = [(And(a, b), x + y) for a, x in ps for b, y in nx]
        return ps
    for g, v in w.e:
        fl = flat(v); nc = []
        for c, parts in cases:
            if g is not TRUE: nc.append((And(c, Not(g)), parts))
            for fc, fp in fl: nc.append((And(c, g, fc), parts + fp))
        cases = [(c, p) for c, p in nc if c is not FALSE]
    return [(c, decode1(p)) for c, p in cases]
def decode1(parts):
    neg = bool(parts) and parts[0] is I(45)
    if neg: parts = parts[1:]
    sg = lambda v: Neg(v) if neg else v
    if not parts: return None
    if len(parts) == 1 and parts[0] is I(48): return R(0), TRUE
    if parts[0].sort == 'S':
        if not (parts[0].op == 'app' and parts[0].val == 'itoa'): return None
        ip = parts[0].args[0]
    elif isc(parts[0]) and 48 <= parts[0].val <= 57: ip = I(parts[0].val - 48)
    else: return None
    if len(parts) == 1: return sg(ToReal(ip)), TRUE
    if parts[1] is not I(46) or len(parts) == 2: return None
    fr = parts[2:]
    if any(p.sort != 'I' for p in fr): return None
    isd = And(*[And(Ge(p, I(48)), Le(p, I(57))) for p in fr])
    val = Add(ToReal(ip), *[Mul(R(F(1, 10 ** (i + 1))), ToReal(Sub(p, I(48)))) for i, p in enumerate(fr)])
    return sg(val), And(isd, B(len(fr) <= 6), Not(Eq(fr[-1], I(48))))
def check_dec(chk, P, cls, sp):
    """a restricted decimal: every stored value is in the schema's range; values in range are kept"""
    short = cls.split('::')[-1]; key = 'decimal<%s>' % short; wit = lambda m: witness_dec(P, cls, sp)
    HALF = R(F(5000010, 10 ** 13))
    def eng():
        I_ = chk.interp(P); ctr = [0]
        def q(I, v):
            # what PreciseDecimal stores (proved in 'decimal digits'): a multiple of 10^-6 nearby
            ctr[0] += 1; k = Var('q%d' % ctr[0], 'I'); r = Mul(R(F(1, 10 ** 6)), ToReal(k))
            I.st.assume(And(Le(Sub(r, v), HALF), Le(Sub(v, r), HALF), Implies(Ge(v, R(0)), Ge(k, I_zero)), Implies(Le(v, R(0)), Le(k, I_zero))))
            return r
        def pd_ctor(I, fn, this, args):
            v = R(0)
            if args and fn.types[fn.params[-1]['t']].deref().is_float:
                a = args[-1]; v = q(I, ToReal(I.read(a) if type(a) is PtrV else a))
            o = I.read(this); I.write(this, StructV(o.cls, {**o.f, 'v': v})); return VOID
        I_.contracts[PD + '::PreciseDecimal'] = pd_ctor
        def pset(I, dd, o, a, n):
            v = a[0]; v = I.read(v) if type(v) is PtrV else v
            I.write(I.sub(o, 'v'), q(I, ToReal(v))); return VOID
        I_.contracts[PD + '::setValue'] = pset
        I_.contracts[PD + '::getValue'] = lambda I, dd, o, a, n: I.read(I.sub(o, 'v'))
        return I_
    I_zero = I(0)
    x = Var('x', 'R'); dom = And(Lt(x, R(BIG)), Gt(x, R(-BIG))); y = Var('y', 'R')
    bs = bounds(sp, short)
    if not bs: raise Unsupported('no schema type for %s' % short)
    def ok(v):
        c = []
        for lo, lx, hi, hx in bs:
            if lo is not None: c.append(Gt(v, R(lo)) if lx else Ge(v, R(lo)))
            if hi is not None: c.append(Lt(v, R(hi)) if hx else Le(v, R(hi)))
        return And(*c)
    V = lambda o: o.f['myValue'].f['v']
    tol = R(F(1, 10 ** 6)) if any(b[1] or b[3] for b in bs) else HALF
    near = lambda a, b: And(Le(Sub(a, b), tol), Le(Sub(b, a), tol))
    sv = method(P, cls, 'setValue'); gv = method(P, cls, 'getValue'); d0 = None
    for cn in rec_ctors(P, cls):
        if len(cn.params) > 1 or (cn.params and not cn.types[cn.params[0]['t']].deref().is_float): continue
        I2 = eng()
        for r in outs_ok(chk, key, run_ctor(I2, P, cls, cn, [x] if cn.params else [], start((dom,))), cn.where, wit):
            o = r.st.mem[('N',)]
            chk.prove(key + ('/constructed value is in the range of the schema' if cn.params else '/default value is in the range of the schema'), r.st.pc, ok(V(o)), cn.where, wit)
            if not cn.params: d0 = o
            else: chk.prove(key + '/construction keeps values in range', r.st.pc, Implies(ok(x), near(V(o), x)), cn.where, wit)
        chk.absorb(I2, cn.q)
    if d0 is None: raise Unsupported('no default constructor')
    o0 = d0.set('myValue', d0.f['myValue'].set('v', y))
    chk.cover(key, (dom, ok(y)))
    I3 = eng()
    for r in outs_ok(chk, key, I3.run(sv, P_('O'), [x], start((dom, ok(y)), O=o0)), sv.where, wit):
        o = r.st.mem[('O',)]
        chk.prove(key + '/value set is in the range of the schema', r.st.pc, ok(V(o)), sv.where, wit)
        chk.prove(key + '/setting keeps values in range', r.st.pc, Implies(ok(x), near(V(o), x)), sv.where, wit)
        for q in I3.run(gv, P_('O'), [], r.st): chk.prove(key + '/the value read is the value set', q.st.pc, Eq(q.val, V(o)), gv.where, wit)
    chk.absorb(I3, sv.q); chk.contracts.add(gv.q)
    I4 = eng(); kk = Var('k', 'I'); v = Mul(R(F(1, 10 ** 6)), ToReal(kk))
    for r in outs_ok(chk, key, I4.run(sv, P_('O'), [v], start((ok(v), Lt(v, R(BIG)), Gt(v, R(-BIG)), ok(y)), O=o0)), sv.where, wit):
        chk.prove(key + '/a stored value stored again is the same', r.st.pc, Eq(V(r.st.mem[('O',)]), v), sv.where, wit)
def check_dec_text(chk, P):
    """Decimal::parse and its writers are inverse to each other, given the digits"""
    key = 'decimal'; wit = lambda m: witness_precise(m); cls = 'mx::core::Decimal'
    I_ = chk.interp(P); datatypes.install(I_, P)
    d = I_.default(P.type(cls)); y = Var('d6:y', 'R'); z = Var('d6:z', 'R')
    oy = d.set('myValue', d.f['myValue'].set('v', y)); oz = d.set('myValue', d.f['myValue'].set('v', z))
    pa = method(P, cls, 'parse'); ms = [method(P, cls, 'toString'), method(P, cls, 'toStream')]
    fs = [f for q in ('toString', 'toStream', 'operator<<') for f in P.byq.get('mx::core::' + q, []) if f.body and any(rectype(f, i) == cls for i in range(len(f.params)))]
    chk.cover(key, [])
    for f in fs + ms:
        args = []
        for p in f.params:
            t = f.types[p['t']].deref()
            args.append(P_('OS') if t.k == 'rec' and tn(t) == 'std::basic_ostream' else P_('O') if t.k == 'rec' else I(6))
        ret = f.types[f.d['rt']].deref()
        for r in outs_ok(chk, key, I_.run(f, P_('O') if f in ms else None, args, start((), O=oy, OS=OS())), f.where, wit):
            w = r.val if tn(ret) == 'std::basic_string' else text_of(toks(r.st))
            s2 = State(r.st.pc); s2.mem[('N',)] = oz; s2.mem[('S',)] = w
            for q in outs_ok(chk, key, I_.run(pa, P_('N'), [P_('S')], s2), pa.where, wit):
                chk.prove(key + '/the text reads back to the same value', q.st.pc, And(q.val, Eq(q.st.mem[('N',)].f['myValue'].f['v'], y)), f.where, wit)
        chk.absorb(I_, f.q)
    s = Var('text', 'S')
    for q in outs_ok(chk, key, I_.run(pa, P_('N'), [P_('S')], start((), N=oz, S=s)), pa.where, wit):
        chk.prove(key + '/a rejected text changes nothing', q.st.pc, Implies(Not(q.val), Eq(q.st.mem[('N',)].f['myValue'].f['v'], z)), pa.where, wit)
    chk.absorb(I_, pa.q)
DECPROG = '''for(int sgn=-1; sgn<=1; sgn+=2) for(unsigned long long ip : {0ULL,1ULL,7ULL,10ULL,99ULL,123456ULL,4000000ULL}) for(int d=0; d<1000000; d += (ip==0? STEP : STEP*7)) {
   char b[64]; snprintf(b,64,"%s%llu.%06d", sgn<0?"-":"", ip, d); std::string full=b; long double want = strtold(b,nullptr);
   std::string t=full; while(t.back()=='0') t.pop_back(); if(t.back()=='.') t.pop_back(); if(t=="-0") t="0";
   Decimal v; if(!v.parse(full)) { FAIL("%s is not read", b); continue; } if(v.toString()!=t) FAIL("%s is written %s", b, v.toString().c_str());
   Decimal a{want}; if(a.toString()!=t) FAIL("value %s is written %s", b, a.toString().c_str()); Decimal c; c.setValue(a.getValue()); if(c.toString()!=t) FAIL("value %s stored again is %s", b, c.toString().c_str());
   if(fabsl(a.getValue()-want) > 1e-9L) FAIL("value %s is stored as %.9Lf", b, a.getValue()); std::ostringstream o; o << a; if(o.str()!=t||toString(a)!=t) FAIL("stream of %s", b); }
 for(long double x : {0.0000004L,0.0000006L,0.9999996L,0.9999994L,1.9999999L,-1.9999999L,12.3456785L,1e12L+0.25L,-0.0000001L}) { Decimal d{x}; if(fabsl(d.getValue()-x)>0.51e-6L) FAIL("%.9Lf stored as %.9Lf", x, d.getValue()); }
 { Decimal v{1.5L}; for(std::string t : {"","x","1.5x","1,5","1 2","--1"}) { if(v.parse(t)) FAIL("text [%s] accepted", t.c_str()); if(v.toString()!="1.5") FAIL("rejected text [%s] changed the value", t.c_str()); } }'''
def witness_precise(m=None): return prog('dec', [DECPROG.replace('STEP', '1' if os.environ.get('VERIF_TIER') == 'thorough' else '37')])
def witness_dec(P, cls, sp):
    bs = bounds(sp, cls.split('::')[-1]); f = lambda v: '%sL' % float(v)
    bad = ' || '.join(['v.getValue() < %s-1e-12L' % f(b[0]) for b in bs if b[0] is not None] + ['v.getValue() <= %s' % f(b[0]) for b in bs if b[0] is not None and b[1]] + ['v.getValue() > %s+1e-12L' % f(b[2]) for b in bs if b[2] is not None]) or 'false'
    inr = ' && '.join(['x >= %s' % f(b[0]) for b in bs if b[0] is not None] + ['x > %s' % f(b[0]) for b in bs if b[0] is not None and b[1]] + ['x <= %s' % f(b[2]) for b in bs if b[2] is not None]) or 'true'
    edge = ','.join('%s%+.10fL' % (f(v), dl) for b in bs for v in (b[0], b[2]) if v is not None for dl in (0, 1e-9, -1e-9, 1e-6, -1e-6, 4e-7, -4e-7, .5, -.5, 6e-7, 1, -1))
    return prog('decr', ['for(long double x : std::vector<long double>{%s 0.0L,1e-9L,1.0L,-1.0L,2.5L,-2.5L,100.0L,1e6L,-1e6L,33.333333L,0.000001L,99.999999L,-179.5L,57.25L}) { for(int how=0; how<3; ++how) { %s v; if(how==0) v = %s{x}; else if(how==1) v.setValue(x); else { char b[80]; snprintf(b,80,"%%.12Lf",x); v.parse(b); }' % (edge + ',' if edge else '', cls, cls),
      'if(%s) FAIL("%s given %%.12Lf (way %%d) holds %%.9Lf, outside the schema", x, how, v.getValue()); if((%s) && fabsl(v.getValue()-x) > 1.01e-6L) FAIL("%s given %%.12Lf (way %%d) holds %%.9Lf", x, how, v.getValue()); %s w; if(!w.parse(v.toString())||fabsl(w.getValue()-v.getValue())>1e-9L) FAIL("%s text %%s reads %%.9Lf", v.toString().c_str(), w.getValue()); } }' % (bad, cls, inr, cls, cls, cls),
      '{ %s v; if(%s) FAIL("%s default %%.9Lf", v.getValue()); }' % (cls, bad, cls)])

# ------------------------------------------------------------------ strings
def check_escape(chk, P):
    """writing a string: every character is written as a text that decodes to that character"""
    from .. import loops
    key = 'string'; wit = lambda m: witness_xs()
    n = 0
    for f in P.byq.get('mx::core::toStream', []):
        if not f.body or len(f.params) != 3 or kind(P, f.types[f.params[1]['t']]) != 'xs': continue
        n += 1
        for esc in (True, False):
            I_ = chk.interp(P); I_.loop_hook = loops.hook; s = Var('string', 'S')
            o = I_.default(P.type('mx::core::XsString')).set('myValue', s)
            for r in outs_ok(chk, key, I_.run(f, None, [P_('OS'), P_('O'), B(esc)], start((), O=o, OS=OS())), f.where, wit):
                w = r.st.mem[('OS',)].f['toks']
                if not esc:
                    chk.prove(key + '/without escaping the string itself is written', r.st.pc, Eq(text_of(w), s), f.where, wit); continue
                ok = len(w.e) == 1 and w.e[0][0] is TRUE and w.e[0][1].op == 'app' and w.e[0][1].val in loops.SMAPS and w.e[0][1].args[0] is s
                if not ok: raise Unsupported('escaped string is not written character by character')
                c, cases = loops.SMAPS[w.e[0][1].val]
                def text_at(t, k):
                    """the text written for the character code k"""
                    if isc(t): return t.val
                    if t.op == 'unit' and t.args[0] is c: return chr(k % 256)
                    if t.op == 'concat': return ''.join(text_at(x, k) for x in t.args)
                    if t.op == 'ite':
                        q = subst(t.args[0], {c.id: I(k)})
                        if q is TRUE or q is FALSE: return text_at(t.args[1] if q is TRUE else t.args[2], k)
                    raise Unsupported('text of one character: %s' % t.op)
                for k in range(-128, 128):
                    hit = [t for cond, t in cases if subst(cond, {c.id: I(k)}) is TRUE]
                    try: g = B(bool(hit) and xmlmodel.unxml(list(text_at(hit[0], k))) is S(chr(k % 256)))
                    except xmlmodel.Malformed: g = FALSE
                    chk.prove(key + '/every character is written as a text that means it', [], g, f.where, wit)
                chk.prove(key + '/every character is covered', [Ge(c, I(-128)), Le(c, I(127))], Or(*[cond for cond, _ in cases]), f.where, wit)
            chk.absorb(I_, f.q)
    if not n: raise Unsupported('no string writer found')
def witness_xs():
    return prog('xs', ['std::vector<std::string> all; for(int c=1;c<256;++c){ all.push_back(std::string(1,(char)c)); all.push_back("a"+std::string(1,(char)c)+"b"); all.push_back(std::string(1,(char)c)+"<"); all.push_back("&"+std::string(2,(char)c)); } all.push_back(""); all.push_back("&amp;"); all.push_back("&lt;x&gt;");',
     'for(auto& t : all) { XsString v{t}; if(v.getValue()!=t||toString(v)!=t) FAIL("string [%s] holds [%s]", t.c_str(), v.getValue().c_str()); if(unxml(txt(v))!=t) FAIL("string [%s] is written [%s]", t.c_str(), txt(v).c_str()); std::ostringstream o; toStream(o, v, false); if(o.str()!=t) FAIL("string [%s] is written raw [%s]", t.c_str(), o.str().c_str()); XsString w; w.setValue(t); if(w.getValue()!=t) FAIL("set [%s]", t.c_str()); }'])
def check_xs(chk, P):
    key = 'string'; wit = lambda m: witness_xs(); cls = 'mx::core::XsString'
    s = Var('string', 'S'); t = Var('old', 'S')
    I_ = chk.interp(P); d = I_.default(P.type(cls)); o = d.set('myValue', t)
    sv = method(P, cls, 'setValue'); gv = method(P, cls, 'getValue')
    chk.cover(key, [])
    for r in outs_ok(chk, key, I_.run(sv, P_('O'), [P_('S')], start((), O=o, S=s)), sv.where, wit):
        for q in I_.run(gv, P_('O'), [], r.st): chk.prove(key + '/the value set is the value read', q.st.pc, Eq(q.val, s), sv.where, wit)
    for cn in rec_ctors(P, cls):
        if len(cn.params) != 1 or not datatypes.isstr(cn.types[cn.params[0]['t']]): continue
        for r in outs_ok(chk, key, run_ctor(I_, P, cls, cn, [P_('S')], start((), S=s)), cn.where, wit):
            chk.prove(key + '/a string built from a text holds it', r.st.pc, Eq(r.st.mem[('N',)].f['myValue'], s), cn.where, wit)
        chk.contracts.add(cn.q)
    for f in P.byq.get('mx::core::toString', []):
        if f.body and len(f.params) == 1 and rectype(f, 0) == cls:
            for r in outs_ok(chk, key, I_.run(f, None, [P_('O')], start((), O=o)), f.where, wit): chk.prove(key + '/toString is the value', r.st.pc, Eq(r.val, t), f.where, wit)
            chk.contracts.add(f.q)
    chk.absorb(I_, sv.q); chk.contracts.add(gv.q)

# ------------------------------------------------------------------ values that are one of two kinds
def check_choice(chk, P, cls):
    """FontSize, YesNoNumber, NumberOrNormal, PositiveIntegerOrEmpty: text of any reachable value reads back to it"""
    short = cls.split('::')[-1]; key = 'choice<%s>' % short; wit = lambda m: witness_choice(P, cls)
    def eng():
        I_ = chk.interp(P); xmlmodel.install(I_); datatypes.install(I_, P, opaque=False)
        I_.ranges['i'] = (IMIN, IMAX)
        return I_
    def values(I_):
        """argument for every one-argument constructor that is not a text or a copy"""
        out = [(None, None, ())]
        for cn in rec_ctors(P, cls):
            if len(cn.params) != 1 or cn.d.get('cc') in ('copy', 'move'): continue
            t = cn.types[cn.params[0]['t']].deref()
            if datatypes.isstr(t): continue
            mk = datatypes.Maker(I_, P, Sym(I_)); 
            if t.k == 'enum': out += [(cn, I(x), ()) for _, x in P.enums[t.d['n']]]; continue
            v = mk.make(t, 'v'); out.append((cn, v, tuple(mk.facts) + tuple(mk.sy.facts)))
        return out
    def observe(I_, st, root):
        r = {}
        for f in P.funcs.values():
            if f.d.get('cls') == cls and f.body and not f.params and f.q.split('::')[-1].startswith('get'):
                st2 = st.copy()
                o = I_.run(f, P_(root), [], st2)
                if len(o) != 1 or o[0].kind != 'normal': raise Unsupported('observer outcomes')
                r[f.q.split('::')[-1]] = o[0].val; chk.contracts.add(f.q)
        return r
    def eqobs(a, b): return And(*[same(a[k], b[k]) for k in a])
    ops = [f for q in ('toString', 'toStream', 'operator<<') for f in P.byq.get('mx::core::' + q, []) if f.body and rectype(f, -1) == cls]
    pa = [f for f in P.byq.get(cls + '::parse', []) if f.body]
    sctor = [cn for cn in rec_ctors(P, cls) if len(cn.params) == 1 and datatypes.isstr(cn.types[cn.params[0]['t']])]
    I0 = eng()
    n = len(values(I0))
    for i in range(n):
        for f in ops:
            I_ = eng(); cn, v, facts = values(I_)[i]
            st = start(facts, V=v if v is not None else VOID, OS=OS())
            if cn is None: os_ = [Out('normal', st, VOID)]; st.mem[('N',)] = I_.default(P.type(cls)); st.mem.update({k: x for k, x in I_.st.mem.items() if k not in st.mem}) if I_.st else None
            else: os_ = outs_ok(chk, key, run_ctor(I_, P, cls, cn, [v if type(v) is T else P_('V')], st), cn.where, wit)
            if i == 0 and f is ops[0]: chk.cover(key, facts)
            for o in os_:
                ob = observe(I_, o.st, 'N')
                for r in outs_ok(chk, key, I_.run(f, None, [P_('N')] if len(f.params) == 1 else [P_('OS'), P_('N')], o.st.copy()), f.where, wit):
                    w = r.val if len(f.params) == 1 else text_of(toks(r.st))
                    for p in pa:
                        st2 = r.st.copy(); st2.mem[('S',)] = w
                        for b in rec_ctors(P, cls):
                            # any object may be the target of parse: one of each kind
                            if len(b.params) == 1 and datatypes.isstr(b.types[b.params[0]['t']]): continue
                            if b.d.get('cc') in ('copy', 'move'): continue
                            av = None
                            if b.params:
                                mk = datatypes.Maker(I_, P, Sym(I_)); av = mk.make(b.types[b.params[0]['t']].deref(), 'w')
                                st3 = st2.copy()
                                for x in mk.facts + mk.sy.facts: st3.assume(x)
                                st3.mem[('W',)] = av
                            else: st3 = st2.copy()
                            for m in outs_ok(chk, key, run_ctor(I_, P, cls, b, ([av] if type(av) is T else [P_('W')]) if b.params else [], st3, 'M'), b.where, wit):
                                for q in outs_ok(chk, key, I_.run(p, P_('M'), [P_('S')], m.st), p.where, wit):
                                    g = eqobs(ob, observe(I_, q.st, 'M'))
                                    if type(q.val) is T and q.val.sort == 'B': g = And(g, q.val)
                                    chk.prove(key + '/the text reads back to the same value', q.st.pc, g, f.where, wit)
                        chk.contracts.add(p.q)
                    for b in sctor:
                        st2 = r.st.copy(); st2.mem[('S',)] = w
                        for m in outs_ok(chk, key, run_ctor(I_, P, cls, b, [P_('S')], st2, 'M'), b.where, wit):
                            chk.prove(key + '/an object built from the text is the same value', m.st.pc, eqobs(ob, observe(I_, m.st, 'M')), b.where, wit)
                        chk.contracts.add(b.q)
            chk.absorb(I_, f.q)
CH = {'FontSize': ['FontSize()', 'FontSize(Decimal(10.5))', 'FontSize(Decimal(-3))', 'FontSize(Decimal(0.000001))'] + ['FontSize(CssFontSize::%s)' % x for x in ('xxSmall', 'xSmall', 'small', 'medium', 'large', 'xLarge', 'xxLarge')],
      'YesNoNumber': ['YesNoNumber()', 'YesNoNumber(YesNo::yes)', 'YesNoNumber(YesNo::no)', 'YesNoNumber(Decimal(2.5))', 'YesNoNumber(Decimal(-0.25))', 'YesNoNumber(Decimal(0))'],
      'NumberOrNormal': ['NumberOrNormal()', 'NumberOrNormal(Decimal(12.5))', 'NumberOrNormal(Decimal(0))', 'NumberOrNormal(Decimal(-7))'],
      'PositiveIntegerOrEmpty': ['PositiveIntegerOrEmpty()', 'PositiveIntegerOrEmpty(PositiveInteger(1))', 'PositiveIntegerOrEmpty(PositiveInteger(7))', 'PositiveIntegerOrEmpty(PositiveInteger(100000))']}
def witness_choice(P, cls):
    s = cls.split('::')[-1]
    ob = {'FontSize': 'std::to_string(v.getIsDecimal())+"|"+toString(v.getValueDecimal())+"|"+toString(v.getValueCssFontSize())', 'YesNoNumber': 'std::to_string(v.getIsDecimal())+"|"+toString(v.getValueDecimal())+"|"+toString(v.getValueYesNo())',
          'NumberOrNormal': 'std::to_string(v.getIsNumber())+std::to_string(v.getIsNormal())+"|"+toString(v.getValueNumber())', 'PositiveIntegerOrEmpty': 'std::to_string(v.getIsNumber())+std::to_string(v.getIsEmpty())+"|"+toString(v.getValueNumber())'}[s]
    return prog('choice', ['auto ob = [](const %s& v){ return %s; };' % (s, ob), 'std::vector<%s> vs; %s' % (s, ' '.join('vs.push_back(%s);' % x for x in CH[s])),
      'for(auto& v : vs) for(auto& t0 : vs) { auto t = t0; std::string w = txt(v); t.parse(w); if(ob(t)!=ob(v)||toString(v)!=w) FAIL("%s [%%s] reads back as [%%s]", ob(v).c_str(), ob(t).c_str()); %s u{w}; if(ob(u)!=ob(v)) FAIL("%s built from [%%s] is [%%s]", w.c_str(), ob(u).c_str()); }' % (s, s, s)])

# ------------------------------------------------------------------ bounded: lists and restricted strings
def bounded_lists():
    return prog('lists', ['''
 const char al[] = {'a','B','7',' ','\\t','\\n',',','-','_','.','&','<',':','\\xc3'}; int na = sizeof al; std::vector<std::string> ss{""}; for(size_t i=0, b=0; b<4; ++b){ size_t e=ss.size(); for(; i<e; ++i) for(int k=0;k<na;++k) ss.push_back(ss[i]+al[k]); }
 const std::string ws=" \\t\\n\\v\\f\\r", nc="-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz";
 for(auto& s : ss) { XsToken t{s}; std::string want; bool sp=false; for(char c: s) if(ws.find(c)!=std::string::npos) sp = !want.empty(); else { if(sp) want+=' '; sp=false; want+=c; }
   if(t.getValue()!=want) FAIL("token of [%s] is [%s]", s.c_str(), t.getValue().c_str()); XsToken u; u.setValue(s); if(u.getValue()!=want) FAIL("token set to [%s] is [%s]", s.c_str(), u.getValue().c_str());
   XsID d{s}; std::string v=d.getValue(); bool ok=!v.empty() && !isdigit(v[0]); for(char c: v) ok = ok && nc.find(c)!=std::string::npos; if(!ok) FAIL("id of [%s] is [%s]", s.c_str(), v.c_str()); XsID e{v}; if(e.getValue()!=v) FAIL("id [%s] read again is [%s]", v.c_str(), e.getValue().c_str());
   bool plain=!s.empty() && !isdigit(s[0]); for(char c: s) plain = plain && nc.find(c)!=std::string::npos; if(plain && v!=s) FAIL("valid id [%s] becomes [%s]", s.c_str(), v.c_str());
   CommaSeparatedText c{s}; { bool gap=false; for(auto& m : c.getValues()) gap = gap || m.getValue().empty(); if(gap) continue; } std::string w=txt(c); CommaSeparatedText c2{unxml(w)}; if(toString(c2)!=toString(c)||txt(c2)!=w) FAIL("list [%s] read again is [%s]", w.c_str(), toString(c2).c_str()); }
 for(int m=0;m<4096;++m) for(int sp=0;sp<2;++sp){ std::set<int> v; for(int b=0;b<12;++b) if(m>>b&1) v.insert((int[]){1,2,3,5,8,13,21,99,100,1000,65536,2147483647}[b]); CommaSeparatedListOfPositiveIntegers l{v}; l.setUseSpaceBetweenItems(sp); if(l.getValues()!=v) FAIL("list holds other values"); std::string w=txt(l); if(toString(l)!=w) FAIL("list text"); CommaSeparatedListOfPositiveIntegers r; r.parse(w); if(r.getValues()!=v) FAIL("list [%s] reads back as [%s]", w.c_str(), txt(r).c_str()); CommaSeparatedListOfPositiveIntegers q{w}; if(q.getValues()!=v) FAIL("list [%s] built as [%s]", w.c_str(), txt(q).c_str()); if(w.find_first_not_of("0123456789, ")!=std::string::npos) FAIL("list text [%s]", w.c_str()); }
 { CommaSeparatedListOfPositiveIntegers l{std::set<int>{-1,0,4}}; if(l.getValues()!=std::set<int>{4}) FAIL("non positive members kept"); }'''])

def items_of(P):
    ens, cens = functions(P)
    it = [('enum', k) for k in sorted(ens) if k not in NOTLEX and 'to' in ens[k] and ens[k]['parse']] + [('cenum', k) for k in sorted(cens)]
    it += [('int', c) for c in int_classes(P)] + [('dec', c) for c in dec_classes(P)] + [('digits', (k, z)) for k in range(6, -1, -1) for z in range(max(k, 1))] + [('precise', None), ('dectext', None), ('escape', None), ('xs', None)]
    it += [('choice', 'mx::core::' + c) for c in sorted(CH)]
    return it, ens, cens
def bounded(P, chk, keys, sp):
    it, ens, cens = items_of(P); jobs = []
    for k, c in it:
        if k == 'enum': jobs.append(('enum<%s>' % c.split('::')[-1], lambda c=c: witness_enum(P, c, ens[c])))
        elif k == 'cenum': jobs.append(('custom<%s>' % c.split('::')[-1], lambda c=c: witness_cenum(P, c, cens[c])))
        elif k == 'int': jobs.append(('integer<%s>' % c.split('::')[-1], lambda c=c: witness_int(P, c, sp)))
        elif k == 'dec': jobs.append(('decimal<%s>' % c.split('::')[-1], lambda c=c: witness_dec(P, c, sp)))
        elif k == 'choice': jobs.append(('choice<%s>' % c.split('::')[-1], lambda c=c: witness_choice(P, c)))
    jobs += [('decimal digits', witness_precise), ('decimal text', witness_precise), ('decimal', witness_precise), ('string', witness_xs)]
    if chk.tier != 'thorough': jobs = [j for j in jobs if any(k.startswith(j[0]) or k == 'worker' for k in keys)]
    jobs.append(('lists', bounded_lists))
    replay.lib()
    from concurrent.futures import ThreadPoolExecutor
    out = []
    with ThreadPoolExecutor(8) as ex:
        for (k, _), w in zip(jobs, ex.map(lambda j: j[1](), jobs)):
            if w['confirmed']: out.append({'key': 'bounded:' + k, 'text': w['text']})
    chk.bounded.append('XsToken, XsID, CommaSeparatedText: every text of at most 4 characters over 14 characters; CommaSeparatedListOfPositiveIntegers: every subset of 12 integers, with and without spaces')
    if len(jobs) > 1: chk.bounded.append('real-code sweeps of %s' % ', '.join(k for k, _ in jobs[:-1]))
    return out

def main():
    chk = Check('C03'); sp = spec()
    P = fe.load(fe.dir_groups('core') + fe.elements_groups(16))
    chk.log('loaded')
    it, ens, cens = items_of(P)
    only = os.environ.get('MXV_ONLY')
    if only: it = [x for x in it if re.search(only, '%s %s' % x)]
    def one(x):
        k, c = x
        f = {'enum': lambda: check_enum(chk, P, c, ens[c], sp), 'cenum': lambda: check_cenum(chk, P, c, cens[c], ens), 'int': lambda: check_int(chk, P, c, sp), 'dec': lambda: check_dec(chk, P, c, sp),
             'digits': lambda: check_digits(chk, P, c), 'precise': lambda: check_precise(chk, P), 'dectext': lambda: check_dec_text(chk, P), 'escape': lambda: check_escape(chk, P), 'xs': lambda: check_xs(chk, P), 'choice': lambda: check_choice(chk, P, c)}[k]
        sh = str(c).split('::')[-1]
        key = {'enum': 'enum<%s>' % sh, 'cenum': 'custom<%s>' % sh, 'int': 'integer<%s>' % sh, 'dec': 'decimal<%s>' % sh, 'digits': 'decimal text', 'precise': 'decimal digits', 'dectext': 'decimal', 'escape': 'string', 'xs': 'string', 'choice': 'choice<%s>' % sh}[k]
        return chk.guard(key, f)
    res = chk.parallel(it, one)
    miss = {x[1].split('::')[-1]: r for x, r in zip(it, res) if x[0] == 'enum' and r}
    chk.notes.append('values of MusicXML 3.1 enumerations the library does not know (reported, not judged): %s' % json.dumps(miss))
    chk.assumptions += ['a standard stream reads back the integer or decimal numeral it is given; a decimal numeral of six digits is delivered with an error below 4e-7 of the last digit (long double, magnitudes below 1e12)',
        'PreciseDecimal arithmetic on long double is treated as real arithmetic, magnitudes below 1e18']
    return chk.finish(lambda keys: bounded(P, chk, keys, sp), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'], bounded_always=True)
