"""Contracts of the lexical data types of mx::core (numbers, enumerations, strings, ...).

Callers of a data type are verified against these; C03 verifies the bodies against them.  The contract of a type is
always the same: there is a text form, and reading the text form of a value gives that value back."""
from .terms import *
from .values import *
from .stdlib import tn, put
from .interp import State
from fractions import Fraction
import math

PD = 'mx::core::PreciseDecimal'
def q6(x):
    """the value a decimal with six fractional digits stores for x"""
    if isc(x):
        v = x.val; s = -1 if v < 0 else 1
        return R(Fraction(s * math.floor(abs(v) * 10 ** 6 + Fraction(1, 2)), 10 ** 6))
    if x.op == 'ite': return Ite(x.args[0], q6(x.args[1]), q6(x.args[2]))
    if x.op == 'app' and x.val == 'q6': return x
    if x.op == 'var' and x.val.startswith('d6:'): return x
    return App('q6', 'R', x)
def dec2s(v):
    if isc(v):
        t = '%.6f' % abs(v.val); t = t.rstrip('0').rstrip('.')
        return S(('-' if v.val < 0 else '') + t)
    if v.op == 'ite': return Ite(v.args[0], dec2s(v.args[1]), dec2s(v.args[2]))
    return App('dec2s', 'S', v)

def derives(P, cls, base):
    r = P.recs.get(cls)
    if r is None: return False
    return cls == base or any(derives(P, b.name, base) for b in r.bases)
def kind(P, t):
    """'enum' | 'xs' | 'int' | 'dec' | 'cenum' | 'opaque' | None"""
    t = t.deref()
    if is_cenum(P, t): return 'cenum'
    if t.k == 'enum': return 'enum'
    if t.k != 'rec' or t.name not in P.recs or not t.name.startswith('mx::core::'): return None
    for b, k in (('mx::core::XsString', 'xs'), ('mx::core::Integer', 'int'), ('mx::core::Decimal', 'dec')):
        if derives(P, t.name, b): return k
    return 'opaque'
OPAQUE = ('CommaSeparatedText', 'CommaSeparatedListOfPositiveIntegers', 'FontSize', 'YesNoNumber', 'NumberOrNormal', 'PositiveIntegerOrEmpty', 'Color', 'Date')
def is_opaque(P, t):
    t = t.deref()
    return t.k == 'rec' and t.name.startswith('mx::core::') and t.name.split('::')[-1] in OPAQUE
def is_cenum(P, t):
    """enumeration that can also hold a custom text"""
    r = P.recs.get(t.name) if t.k == 'rec' else None
    return r is not None and {n for n, _, _ in r.fields} == {'myEnum', 'myCustomValue'}
def isstr(t): t = t.deref(); return t.k == 'rec' and tn(t) == 'std::basic_string'
def isos(t): t = t.deref(); return t.k == 'rec' and tn(t) in ('std::basic_ostream',)

def txt(t, v):
    return App('txt:' + t, 'S', v)
def untxt(t, s):
    """value read from text s, or None when s is not known to be a text of type t"""
    if type(s) is not T: return None
    if s.op == 'app' and s.val == 'txt:' + t: return s.args[0]
    if s.op == 'ite':
        a, b = untxt(t, s.args[1]), untxt(t, s.args[2])
        if a is not None and b is not None: return Ite(s.args[0], a, b)
    return None

def install(I_, P, opaque=True):
    rd = lambda I, x: I.read(x) if type(x) is PtrV else x
    con = I_.contracts
    # ---- decimals
    def pd_ctor(I, fn, this, args):
        v = R(0)
        if args:
            lt = fn.types[fn.params[-1]['t']].deref()
            if lt.is_float: v = q6(ToReal(rd(I, args[-1])))
        o = I.read(this)
        I.write(this, StructV(o.cls, {**o.f, 'v': v}))
        return VOID
    con[PD + '::PreciseDecimal'] = pd_ctor
    def pd_set(I, d, o, a, n): I.write(I.sub(o, 'v'), q6(ToReal(rd(I, a[0])))); return VOID
    con[PD + '::setValue'] = pd_set
    con[PD + '::getValue'] = lambda I, d, o, a, n: I.read(I.sub(o, 'v'))
    con[PD + '::toStream'] = lambda I, d, o, a, n: put(I.lib, a[0], dec2s(I.read(I.sub(o, 'v'))), n)
    con[PD + '::toString'] = lambda I, d, o, a, n: dec2s(I.read(I.sub(o, 'v')))
    # ---- functions by signature
    for f in P.funcs.values():
        if f.body is None or not f.q.startswith('mx::core::') or f.q.startswith('mx::core::PreciseDecimal'): continue
        pts = [f.types[p['t']] for p in f.params]
        isctor = ('C1' in f.f or 'C2' in f.f) and f.q.split('::')[-1] == f.q.split('::')[-2]
        cls = f.d.get('cls')
        rt = f.types[f.d['rt']] if not isctor and 'rt' in f.d else None
        # enumerations
        if cls is None and len(pts) == 1 and isstr(pts[0]) and rt is not None:
            e = rt.deref(); opt = False
            if e.k == 'rec' and tn(e) == 'std::optional': e = e.targ(0); opt = True
            if e.k == 'enum':
                con[f.f] = enum_parse(e, opt, f); continue
        if cls is None and len(pts) == 1 and pts[0].deref().k == 'enum' and rt is not None and isstr(rt):
            def te(I, d, o, a, n, e=pts[0].deref(), f=f):
                v = rd(I, a[0])
                if isc(v): return I.call_fn(f, o, a, n)
                return txt(e.d['n'], v)
            con[f.f] = te; continue
        # strings: toStream( os, xsstring, escape )
        if cls is None and len(pts) == 3 and isos(pts[0]) and kind(P, pts[1]) == 'xs' and pts[2].is_bool:
            def xs(I, d, o, a, n, f=f):
                v = I.read(I.sub(a[1], 'myValue')) if type(a[1]) is PtrV else a[1].f['myValue']
                if isc(v): return I.call_fn(f, o, a, n)
                esc = rd(I, a[2]) if len(a) > 2 else TRUE
                put(I.lib, a[0], Ite(esc, App('xmlesc', 'S', v), v), n); return a[0]
            con[f.f] = xs; continue
        # opaque data types
        if not opaque: continue
        if isctor and cls and is_opaque(P, P_type(P, cls)):
            def oc(I, fn, this, args, cls=cls):
                t = cls
                if fn.d.get('cc') in ('copy', 'move') or (len(args) == 1 and type(rd(I, args[0])) is T and rd(I, args[0]).sort == 'U:' + t):
                    I.write(this, rd(I, args[0])); return VOID
                vs = [rd(I, a) for a in args]
                if len(vs) == 1 and type(vs[0]) is T and vs[0].sort == 'S':
                    u = untxt(t, vs[0])
                    if u is not None: I.write(this, u); return VOID
                I.write(this, opaque_new(t, fn, vs)); return VOID
            con[f.f] = oc; continue
        if cls and is_opaque(P, P_type(P, cls)):
            nm = f.q.split('::')[-1]
            if nm == 'operator=':
                def oa(I, d, o, a, n): I.write(o, rd(I, a[0])); return o
                con[f.f] = oa; continue
            if nm == 'setUseSpaceBetweenItems':
                # reading the spacing style of a list from its own text leaves the text of the list as it is
                def sp(I, d, o, a, n, cls=cls):
                    v = I.read(o); b = rd(I, a[0]); own = txt(cls, v)
                    if type(b) is T and any(x.id == own.id for x in _subs(b)): return VOID
                    I.write(o, App('spaced', 'U:' + cls, v, b)); return VOID
                con[f.f] = sp; continue
            if len(pts) == 1 and isstr(pts[0]) and rt is not None:
                def opz(I, d, o, a, n, cls=cls, rt=rt):
                    s = rd(I, a[0]); v = untxt(cls, s)
                    I.write(o, v if v is not None else App('parse:' + cls, 'U:' + cls, s))
                    return (TRUE if v is not None else App('parses:' + cls, 'B', s)) if rt.is_bool else VOID
                con[f.f] = opz; continue
        if cls is None and len(pts) == 1 and is_opaque(P, pts[0]) and rt is not None and isstr(rt):
            con[f.f] = lambda I, d, o, a, n, t=pts[0].deref().name: txt(t, rd(I, a[0])); continue
        if cls is None and len(pts) == 2 and isos(pts[0]) and is_opaque(P, pts[1]):
            def os_(I, d, o, a, n, t=pts[1].deref().name): put(I.lib, a[0], txt(t, rd(I, a[1])), n); return a[0]
            con[f.f] = os_; continue
def _subs(t):
    out = []; st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); out.append(x); st.extend(x.args)
    return out
def enum_parse(e, opt, f):
    def pe(I, d, o, a, n):
        s = I.read(a[0]) if type(a[0]) is PtrV else a[0]; v = untxt(e.d['n'], s)
        if v is None:
            if type(s) is T and s.op == 'ite':
                return I.branch(s.args[0], lambda: pe(I, d, o, [s.args[1]], n), lambda: pe(I, d, o, [s.args[2]], n))
            return I.call_fn(f, o, [I.tmp(s)], n)
        return OptV(TRUE, v) if opt else v
    return pe
class _PT:
    def __init__(self, n): self.k = 'rec'; self.name = n
    def deref(self): return self
def P_type(P, cls): return _PT(cls)
def opaque_new(t, fn, vs):
    args = [v for v in vs if type(v) is T]
    return App('new:%s:%d' % (t, len(vs)), 'U:' + t, *args)

def norm(cls, s):
    """text normalisation of a restricted string type (idempotent by contract)"""
    if s.op == 'app' and s.val == 'norm:' + cls: return s
    if s.op == 'app' and s.val == 'itoa' and cls == 'mx::core::XsToken': return s
    if s.op == 'const' and (cls == 'mx::core::XsToken' or cls == 'mx::core::XsID' and s.val[:1].isalpha() and s.val.isalnum()) and s.val and all(33 <= ord(c) < 127 for c in s.val): return s      # a text without white space is its own normal form (C03)
    return App('norm:' + cls, 'S', s)
def install_strings(I_, P):
    """setValue of string types with restricted content: an idempotent normalisation"""
    for r in P.recs.values():
        if not derives(P, r.n, 'mx::core::XsString') or r.n == 'mx::core::XsString': continue
        for f in P.byq.get(r.n + '::setValue', []):
            def sv(I, d, o, a, n, cls=r.n):
                s = I.read(a[0]) if type(a[0]) is PtrV else a[0]
                I.write(I.sub(o, 'myValue'), norm(cls, s)); return VOID
            I_.contracts[f.f] = sv
def restricted(P, cls):
    """most derived class that overrides setValue, or None"""
    r = P.recs.get(cls)
    if r is None or cls == 'mx::core::XsString': return None
    if P.byq.get(cls + '::setValue'): return cls
    for b in r.bases:
        x = restricted(P, b.name)
        if x: return x
    return None

def enum_texts(I_, P, en):
    """text of every enumerator, from the real toString"""
    out = []
    f = [f for f in P.byq.get(en.rsplit('::', 1)[0] + '::toString', []) if len(f.params) == 1 and f.types[f.params[0]['t']].deref().d.get('n') == en and f.types[f.params[0]['t']].deref().k == 'enum']
    for n, x in P.enums[en]:
        st0 = I_.st
        r = I_.run(f[0], None, [I(x)], State())
        I_.st = st0
        out.append(r[0].val.val)
    return out

class Maker:
    """arbitrary valid values of the data types"""
    def __init__(self, I_, P, sy): self.I = I_; self.P = P; self.sy = sy; self.facts = []
    def make(self, t, name):
        P, I_ = self.P, self.I
        t = t.deref(); k = kind(P, t)
        if is_opaque(P, t): return Var(name, 'U:' + t.name)
        if k == 'cenum':
            v = self.sy.make(t, name); et = dict((n, ty) for n, ty, _ in P.recs[t.name].fields)['myEnum']
            en = et.d['n']; other = [x for n, x in P.enums[en] if n.startswith('other')]
            texts = enum_texts(I_, P, en)
            isoth = Or(*[Eq(v.f['myEnum'], I(x)) for x in other])
            self.facts += [Implies(Not(isoth), Eq(v.f['myCustomValue'], S('')))]
            self.facts += [Implies(isoth, Not(Eq(v.f['myCustomValue'], S(x)))) for x in texts]
            return v
        if k == 'xs':
            c = restricted(P, t.name); v = Var(name, 'S')
            base = I_.default(t)
            return StructV(t.name, {**base.f, 'myValue': norm(c, v) if c else v})
        if k == 'int':
            v = Var(name, 'I'); b = I_.default(t)
            if 'myMin' in b.f and isc(b.f['myMin']):
                lo, hi = b.f['myMin'].val, b.f['myMax'].val
            else: lo, hi = -(1 << 31), (1 << 31) - 1
            I_.ranges[v.val] = (lo, hi); self.facts += [Ge(v, I(lo)), Le(v, I(hi))]
            return StructV(t.name, {**b.f, 'myValue': v})
        if k == 'dec':
            v = Var('d6:' + name, 'R'); b = I_.default(t)
            s = StructV(t.name, dict(b.f)); s = s.set('myValue', StructV(PD, {**b.f['myValue'].f, 'v': v}))
            # class invariant: storing the stored value again does not change it (clamps and rounding)
            st = I_.st; root = ('INV', name); st.mem[root] = s
            m = [f for f in P.byq.get('mx::core::DecimalRange::setValue', [])]
            if 'myMinClamp' in b.f and m:
                I_.frames.append(_frame()); 
                try: outs = I_.run(m[0], ptr(LV(root)), [v], st)
                finally: I_.frames.pop()
                for o in outs:
                    nv = o.st.mem[root].f['myValue'].f['v']
                    self.facts.append(Implies(And(*o.st.pc), Eq(nv, v)))
                I_.st = st
            st.mem.pop(root, None)
            return s
        return self.sy.make(t, name)
def _frame():
    from .interp import Frame
    return Frame(None, [], 0, None, 'maker')
