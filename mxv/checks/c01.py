"""C01: attributes of every MusicXML element survive writing and reading, and agree with the published schema."""
from ..run import *
from ..sym import Sym
from .. import replay, xmlmodel, datatypes, loops
from ..datatypes import Maker, derives, kind, is_opaque
from ..stdlib import tn
import json, re

AI = 'mx::core::AttributesInterface'; EI = 'mx::core::ElementInterface'
def spec():
    return json.load(open(VERIF + '/spec/musicxml.json'))

def engine(chk, P, opaque=True):
    I_ = chk.interp(P)
    xmlmodel.install(I_); datatypes.install(I_, P, opaque); datatypes.install_strings(I_, P)
    return I_

def flag_of(name, fields):
    """the presence flag of a value field, by the has<Field> naming of the class; None when there is none"""
    name = name.rstrip('_'); c = 'has' + name[0].upper() + name[1:]
    return c if c in fields else None

def obj_of(I_, P, cls):
    t = P.type(cls)
    return I_.default(t)

def start(pc, **roots):
    s = State(tuple(pc))
    for k, v in roots.items(): s.mem[(k,)] = v
    return s
OS = lambda: StructV('std::ostream', {'toks': TokV(())})
P_ = lambda k: ptr(LV((k,)))

def element_tables(P, I_):
    """attributes class -> [element names]; and element class -> name"""
    from . import elemtab
    return elemtab.tables(P, I_)

def method(P, cls, name):
    for f in P.byq.get(cls + '::' + name, []):
        if f.body is not None: return f
    for b in P.recs[cls].bases:
        if b.name in P.recs:
            m = method(P, b.name, name)
            if m: return m
    return None

def vals(cls, o, P, t_of):
    fl = {k for k in o.f if t_of[k].is_bool}
    return [k for k in o.f if not t_of[k].is_bool], fl

def check_class(chk, P, cls, sp, elnames, lemma=True):
    short = cls.split('::')[-1]
    I_ = engine(chk, P)
    key = 'attributes<%s>' % short
    wit = lambda m: witness(P, cls)
    sy = Sym(I_); mk = Maker(I_, P, sy)
    I_.frames.append(datatypes._frame())
    d = obj_of(I_, P, cls)
    t_of = {n: t for n, t, _ in P.recs[cls].fields}
    const = {k for k in d.f if t_of[k].is_bool and t_of[k].const}
    flags = [k for k in d.f if t_of[k].is_bool]
    fields = [k for k in d.f if not t_of[k].is_bool]
    o = d
    for k in flags:
        if k in const: continue
        o = o.set(k, Var('f:' + k, 'B'))
    for k in fields:
        if not t_of[k].const: o = o.set(k, mk.make(t_of[k], 'v:' + k))
    I_.frames.pop()
    facts = list(sy.facts) + list(mk.facts)
    chk.cover(key, facts)
    ts = method(P, cls, 'toStream'); hv = method(P, cls, 'hasValues'); fx = method(P, cls, 'fromXElement')
    outs = I_.run(ts, P_('O'), [P_('OS')], start(facts, O=o, OS=OS()))
    if len(outs) != 1 or outs[0].kind != 'normal': raise Unsupported('writer outcomes %d' % len(outs))
    st = outs[0].st
    chk.absorb(I_, ts.q)
    try: at = xmlmodel.attributes(st.mem[('OS',)].f['toks'])
    except xmlmodel.Malformed as e:
        chk.log(key, 'malformed:', e, repr(st.mem[('OS',)].f['toks'])[:600]); chk.prove(key + '/well-formed', [], FALSE, ts.where, wit); return None
    chk.prove(key + '/writer leaves the object alone', st.pc, same(st.mem[('O',)], o), ts.where, wit)
    # names
    names = {}
    for g, n, v in at: names.setdefault(n, []).append(g)
    for n, gs in names.items():
        for i in range(len(gs)):
            for j in range(i): chk.prove(key + '/name %s written once' % n, st.pc, Not(And(gs[i], gs[j])), ts.where, wit)
    chk.prove(key + '/well-formed', [], TRUE, ts.where)
    # hasValues
    houts = I_.run(hv, P_('O'), [], start(facts, O=o))
    for h in houts:
        if h.kind != 'normal': raise Unsupported('hasValues throws')
        chk.prove(key + '/hasValues says whether something is written', h.st.pc, Eq(h.val, Or(*[g for g, _, _ in at])), hv.where, wit)
    chk.absorb(I_, hv.q)
    # read back
    xe = xmlmodel.xelement(S('x'), [(g, xmlmodel.xattr(S(n), v)) for g, n, v in at])
    I2 = engine(chk, P); I2.ranges.update(I_.ranges)
    outs = I2.run(fx, P_('R'), [P_('M'), P_('X')], start(facts, R=d, M=OS(), X=xe))
    for r in outs:
        if r.kind != 'normal':
            chk.prove(key + '/read back does not throw', r.st.pc, FALSE, fx.where, wit); continue
        res = r.st.mem[('R',)]
        chk.prove(key + '/read back succeeds', r.st.pc, r.val, fx.where, wit)
        items = [(key + '/presence of %s' % k, Eq(res.f[k], o.f[k])) for k in flags]
        for k in fields:
            f = flag_of(k, o.f)
            items.append((key + '/value of %s' % k, Implies(o.f[f] if f else TRUE, same(res.f[k], o.f[k]))))
        chk.prove_all(r.st.pc, items, fx.where, wit)
    chk.prove_obls(I2, key + '/reader', wit)
    chk.absorb(I2, fx.q)
    fi = method(P, cls, 'fromXElementImpl')
    if fi is not None: chk.contracts.add(fi.q)
    # one attribute of any name changes nothing but the field of that name
    owner = {}
    for k in fields:
        f = flag_of(k, o.f); gg = o.f[f] if f else None
        for g, n, v in at:
            if gg is not None and chk.solver.prove(facts, Implies(g, gg))[0] == 'proved' and (same_text(v, o.f[k]) or t_of[k].const): owner[k] = n
            elif gg is None and same_text(v, o.f[k]): owner[k] = n
    if lemma:
        I3 = engine(chk, P); abstract_enums(I3, P)
        N = Var('attribute name', 'S'); V = Var('attribute value', 'S')
        xe = xmlmodel.xelement(S('x'), [(TRUE, xmlmodel.xattr(N, V))])
        outs = I3.run(fx, P_('R'), [P_('M'), P_('X')], start((), R=d, M=OS(), X=xe))
        for r in outs:
            if r.kind != 'normal': continue
            res = r.st.mem[('R',)]; items = []
            for k in fields:
                f = flag_of(k, o.f)
                ok = Or(Eq(N, S(owner[k])), Eq(N, S(owner[k].split(':')[-1]))) if k in owner else FALSE
                unch = same(res.f[k], d.f[k])
                if f and f not in const: unch = And(unch, Eq(res.f[f], d.f[f]))
                items.append((key + '/only attribute %s sets %s' % (owner.get(k), k), Or(ok, unch)))
                if f and k in owner: items.append((key + '/attribute %s is noticed' % owner[k], Implies(Eq(N, S(owner[k])), res.f[f])))
            chk.prove_all(r.st.pc, items, fx.where, wit)
        chk.absorb(I3)
    # schema: names and required-ness
    missing = {}
    for el in elnames:
        al = {}; req = {}
        for ver in ('3.0', '3.1'):
            for dd in sp[ver]['elements'].get(el, []):
                for n, a in dd['attrs'].items():
                    al[n] = 1; req.setdefault(n, []).append(a['required'])
        if not any(el in sp[v]['elements'] for v in sp): continue
        for n in names:
            chk.prove(key + '/schema allows %s on <%s>' % (n, el), [], B(n in al or el in ('measure', 'part')), ts.where, lambda m, n=n, el=el: {'confirmed': True, 'text': 'attribute %s is written on <%s>, which MusicXML 3.0/3.1 does not define' % (n, el)}, kind='schema')
        for n in al:
            if n not in names: missing.setdefault(n, []).append(el)
            elif all(req[n]):
                gs = [g for g, nn, _ in at if nn == n]
                chk.prove(key + '/required attribute %s always written' % n, facts, Or(*gs), ts.where, wit, kind='schema')
    # required attributes: absent -> failure is reported
    for n, gs in names.items():
        if chk.solver.prove(facts, Or(*gs))[0] != 'proved': continue
        I4 = engine(chk, P); I4.ranges.update(I_.ranges)
        xe = xmlmodel.xelement(S('x'), [(g, xmlmodel.xattr(S(m), v)) for g, m, v in at if m != n])
        outs = I4.run(fx, P_('R'), [P_('M'), P_('X')], start(facts, R=d, M=OS(), X=xe))
        for r in outs:
            if r.kind == 'normal': chk.prove(key + '/missing required attribute %s is reported' % n, r.st.pc, Not(r.val), fx.where, lambda m, n=n: witness(P, cls, drop=n))
        chk.absorb(I4)
    return {'missing': missing, 'names': sorted(names), 'always': [n for n in names]}

def abstract_enums(I_, P):
    for f in P.funcs.values():
        if f.body is None or not f.q.startswith('mx::core::') or f.d.get('cls') or len(f.params) != 1: continue
        t = f.types[f.params[0]['t']]; rt = f.types[f.d['rt']] if 'rt' in f.d else None
        if datatypes.isstr(t) and rt is not None and rt.deref().k == 'enum':
            def pe(I, d, o, a, n, e=rt.deref()):
                s = I.read(a[0]) if type(a[0]) is PtrV else a[0]
                return App('parse:' + e.d['n'], 'I', s)
            I_.contracts[f.f] = pe
    def pd(I, d, o, a, n):
        s = I.read(a[0]) if type(a[0]) is PtrV else a[0]
        if derives(P, I.read(o).cls, 'mx::core::Decimal'): pass
        return None
def same_text(v, x):
    """is v the text of field value x"""
    ids = {z.id for z in leaves(x)}
    return any(z.id in ids for z in subterms(v))
def leaves(x):
    if type(x) is T: return [x] + ([y for a in [x.args] if x.op == 'app' for y in a if type(y) is T] )
    if type(x) is StructV: return [z for k, y in x.f.items() if k in ('myValue', 'v', 'myCustomValue', 'myEnum') or type(y) is StructV for z in leaves(y)]
    return []
def subterms(t):
    out = []; st = [t]; seen = set()
    while st:
        x = st.pop()
        if type(x) is not T or x.id in seen: continue
        seen.add(x.id); out.append(x); st.extend(a for a in x.args if type(a) is T)
    return [z for z in out if not isc(z)]
def same(a, b):
    if type(a) is T: return Eq(a, b) if a.sort == b.sort else FALSE
    if type(a) is StructV: return And(*[same(a.f[k], b.f[k]) for k in a.f])
    if type(a) is FnV: return TRUE
    if type(a) is VecV and type(b) is VecV and not a.e and not b.e: return TRUE
    if a is b: return TRUE
    if type(a) in (Opaque,): return TRUE
    raise Unsupported('comparison of %r' % (a,))

# ---------------------------------------------------------------- the real code
SAMPLES = {
 'xs': ['"abc"', '"a b"', '"x&y<\\"z"', '"1"'], 'Color': ['Color("#0A141E")', 'Color("#28141E0A")'],
 'Date': ['Date(2020,2,29)', 'Date(1999,12,31)'], 'CommaSeparatedText': ['CommaSeparatedText("a,b")'],
 'CommaSeparatedListOfPositiveIntegers': ['CommaSeparatedListOfPositiveIntegers("1,2")', 'CommaSeparatedListOfPositiveIntegers("3")'],
 'FontSize': ['FontSize(CssFontSize::large)', 'FontSize(Decimal(10.5))', 'FontSize(Decimal(3))'],
 'YesNoNumber': ['YesNoNumber(YesNo::yes)', 'YesNoNumber(Decimal(2.5))'], 'NumberOrNormal': ['NumberOrNormal()', 'NumberOrNormal(Decimal(12.5))'],
 'PositiveIntegerOrEmpty': ['PositiveIntegerOrEmpty(PositiveInteger(3))'],
}
def samples(P, t):
    t = t.deref(); k = kind(P, t)
    if k == 'enum':
        n = t.d['n']; es = P.enums[n]
        return ['%s::%s' % (n, e) for e, _ in es]
    if k == 'cenum':
        return ['%s{std::string(%s)}' % (t.name, x) for x in ('"beam"', '"other"', '"x<y"', '"light barline"')]
    if k == 'xs': return ['%s{%s}' % (t.name, s) for s in SAMPLES['xs']]
    if k == 'int': return ['%s{%s}' % (t.name, s) for s in ('1', '2', '5', '100')]
    if k == 'dec': return ['%s{mx::core::DecimalType(%s)}' % (t.name, s) for s in ('0', '1.5', '-2.25', '33.333333', '0.000001', '100')]
    s = SAMPLES.get(t.name.split('::')[-1])
    return s or []
HEAD = '''#include <cstdio>
#include <sstream>
#include <string>
#include "ezxml/XFactory.h"
#include "ezxml/XElement.h"
#include "ezxml/XElementIterator.h"
#include "ezxml/XAttribute.h"
#include "ezxml/XAttributeIterator.h"
#include "mx/core/Elements.h"
#include "mx/core/Enums.h"
#include "mx/core/FontSize.h"
#include "mx/core/NumberOrNormal.h"
#include "mx/core/PositiveIntegerOrEmpty.h"
#include "mx/core/YesNoNumber.h"
#include "mx/core/Color.h"
#include "mx/core/Date.h"
#include "mx/core/CommaSeparatedText.h"
#include "mx/core/CommaSeparatedPositiveIntegers.h"
%s
using namespace mx::core;
template<class T> std::string txt(const T& t){ std::ostringstream s; s << t; return s.str(); }
static bool rd(AttributesInterface& a, const std::string& attrs, std::string& msg){
  std::string x = "<?xml version=\\"1.0\\"?><x" + attrs + "/>"; std::istringstream is(x); auto d = ezxml::XFactory::makeXDoc(); d->loadStream(is); auto r = d->getRoot();
  std::ostringstream m; bool ok = a.fromXElement(m, *r); msg = m.str(); return ok; }
#define FAIL(...) do{ printf("FAIL "); printf(__VA_ARGS__); printf("\\n"); }while(0)
'''
def program(P, classes, drop=None):
    incs = set()
    for c in classes:
        f = P.recs[c].d.get('file', '')
        if f: incs.add('#include "%s"' % f)
    out = [HEAD % '\n'.join(sorted(incs))]
    fns = []
    for c in classes:
        short = c.split('::')[-1]; fn = 't_' + short; fns.append(fn)
        t_of = [(n, t) for n, t, _ in P.recs[c].fields]
        fl = [(n, t) for n, t in t_of if t.is_bool]; vs = [(n, t) for n, t in t_of if not t.is_bool and not t.const]
        fset = {n for n, _ in fl}; mut = [n for n, t in fl if not t.const]
        cmp = ''
        for n, t in fl: cmp += 'if(a.%s!=b.%s) FAIL("%s: presence %s of [%%s]", w.c_str());' % (n, n, short, n)
        for n, t in vs:
            f = 'has' + n[0].upper() + n[1:].rstrip('_')
            g = 'a.%s&&' % f if f in fset else ''
            cmp += 'if(%stxt(a.%s)!=txt(b.%s)) FAIL("%s: value %s: %%s became %%s", txt(a.%s).c_str(), txt(b.%s).c_str());' % (g, n, n, short, n, n, n)
        out.append('static void rt_%s(const %s& a){ std::string w = txt(a), m; %s b; bool ok = rd(b, w, m); if(!ok) FAIL("%s: reading [%%s] reports failure", w.c_str()); %s if(a.hasValues()!=!w.empty()) FAIL("%s: hasValues %%d but writes [%%s]", (int)a.hasValues(), w.c_str()); if(txt(b)!=w) FAIL("%s: [%%s] rewritten as [%%s]", w.c_str(), txt(b).c_str()); }' % (short, c, c, short, cmp, short, short))
        b = ['static void %s(){ { %s a; rt_%s(a); }' % (fn, c, short)]
        for n, t in vs:
            f = 'has' + n[0].upper() + n[1:].rstrip('_')
            for s in samples(P, t):
                b.append('{ %s a; a.%s = %s; %s rt_%s(a); }' % (c, n, s, 'a.%s = true;' % f if f in mut else '', short))
        for rep in range(4):
            b.append('{ %s a; %s rt_%s(a); }' % (c, ' '.join(('a.%s = %s;' % (n, samples(P, t)[(rep + i) % len(samples(P, t))]) if samples(P, t) else '') for i, (n, t) in enumerate(vs)) + ' ' + ' '.join('a.%s=true;' % f for f in mut), short))
        b.append('{ %s a; std::string m; rd(a, " no-such-attribute=\\"1\\"", m); %s b; if(txt(a)!=txt(b)) FAIL("%s: unknown attribute changes the object"); }' % (c, c, short))
        if drop: b.append('{ %s a; %s b; std::string m, w = txt(a); size_t p = w.find(" %s=\\""); if(p!=std::string::npos){ size_t q = w.find(\'"\', p+%d); w.erase(p, q+1-p); if(rd(b, w, m)) FAIL("%s: attribute %s missing from [%%s] is not reported", w.c_str()); } }' % (c, c, drop, len(drop) + 4, short, drop))
        b.append('}')
        out.append('\n'.join(b))
    out.append('int main(){ %s return 0; }' % ' '.join(f + '();' for f in fns))
    return '\n'.join(out)
WC = {}
def witness(P, cls, drop=None):
    k = (cls, drop)
    if k not in WC: WC[k] = witness_(P, cls, drop)
    return WC[k]
def witness_(P, cls, drop=None):
    rc, txt, cpp = replay.run(program(P, [cls], drop), 'c01', need_lib=True)
    fails = [l for l in txt.splitlines() if l.startswith('FAIL')]
    return {'confirmed': bool(fails) or rc != 0, 'text': 'program %s\nexit %d\n%s' % (cpp, rc, '\n'.join(fails[:20]) or txt[-800:])}
def bounded(P, classes, chk):
    res = []
    from concurrent.futures import ThreadPoolExecutor
    replay.lib()
    parts = [p for p in (classes[i::8] for i in range(8)) if p]
    with ThreadPoolExecutor(8) as ex:
        for rc, txt, cpp in ex.map(lambda p: replay.run(program(P, p), 'c01b', need_lib=True), parts):
            seen = set()
            for l in txt.splitlines():
                if l.startswith('FAIL'):
                    k = ' '.join(l.split()[1:4])
                    if k in seen: continue
                    seen.add(k); res.append({'key': 'bounded:' + k, 'text': 'program %s\n%s' % (cpp, l)})
            if rc != 0: res.append({'key': 'bounded:crash', 'text': 'program %s exit %d\n%s' % (cpp, rc, txt[-1500:])})
    chk.bounded.append('write/read of %d attribute classes: each attribute alone with sample values, all together in 4 value combinations' % len(classes))
    return res

def main():
    chk = Check('C01')
    P = fe.load(fe.dir_groups('core') + fe.elements_groups(16))
    chk.log('loaded')
    sp = spec()
    classes = sorted(n for n in P.recs if n != AI and derives(P, n, AI) and method(P, n, 'fromXElementImpl'))
    I_ = engine(chk, P)
    tab = element_tables(P, I_)
    chk.log('%d classes' % len(classes))
    only = os.environ.get('MXV_ONLY')
    if only: classes = [c for c in classes if re.search(only, c)]
    def one(cls):
        return chk.guard('attributes<%s>' % cls.split('::')[-1], lambda: check_class(chk, P, cls, sp, tab['attr'].get(cls, [])))
    res = chk.parallel(classes, one, limit=60)
    miss = {}
    for c, r in zip(classes, res):
        if r:
            for n, els in r['missing'].items(): miss.setdefault(c.split('::')[-1], []).append(n)
    chk.notes.append('attributes of the schema that the library does not model (reported, not judged): %s' % json.dumps(miss))
    chk.assumptions += ['pugixml / ezxml deliver exactly the attributes in the text, with entities decoded (assumed contract, mxv/xmlmodel.py)',
        'text forms of the lexical data types can be read back (contract, proved by C03)']
    return chk.finish(lambda keys: bounded(P, classes, chk), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'])
