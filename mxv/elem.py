"""Element trees: child elements (and attribute lists) are represented by their contract only.

Contract of an element object X (assumed where X is used as a child, proved for X itself by the check of X):
 * X.toStream(os, n) writes one XML element  <name ...>...</name>  that stands for the value #v of X;
 * X.fromXElement(msg, e), where e is what an object of the same class wrote for value v, makes the value v and reports success;
 * a new X has the fixed value new:X.
An object whose inside is looked at by the code under evaluation (groups, choices) is not represented by a contract: it is evaluated (NeedInline)."""
from .run import *
from .sym import Sym
from . import xmlmodel, datatypes
from .datatypes import Maker, derives
from .stdlib import tn
from .interp import NeedInline, Frame
from .xmlmodel import Malformed, flat, unxml, XE
EI = 'mx::core::ElementInterface'; AI = 'mx::core::AttributesInterface'
NEW = lambda c: Var('new:' + c, 'U:elem')
NESTED = {}; PARTS = {}

class World:
    def __init__(self, chk, P, names, root, inline=(), nitems=2, big=None):
        self.sets = []; self.big = big or {}
        self.chk = chk; self.P = P; self.names = names; self.root = root; self.parts = PARTS.get(id(P)) or PARTS.setdefault(id(P), parts(P)); self.inline = set(inline); self.nitems = nitems
        self.facts = []; self.guards = []; self.fix = {}
    def ghostable(self, cls):
        P = self.P
        return cls in P.recs and cls not in self.inline and (derives(P, cls, EI) or derives(P, cls, AI)) and not P.recs[cls].d.get('abstract')
    def engine(self):
        I_ = self.chk.interp(self.P); I_.skip_refs = True
        xmlmodel.install(I_); datatypes.install(I_, self.P, True); datatypes.install_strings(I_, self.P)
        C = I_.contracts
        from .stdlib import _mk
        def mk(I, d, o, a, n):
            x = I.ty(n).targ(0)
            if not a and x.k == 'rec' and self.ghostable(x.name): return ptr(I.alloc(x.name, StructV(x.name, {'#v': NEW(x.name)})))
            return NotImplemented
        C['std::make_shared'] = mk; C['std::make_unique'] = mk
        def ghost(I, o):
            v = I.read(o)
            return v.f['#v'] if type(v) is StructV and '#v' in v.f else None
        def put(I, os, t):
            from .stdlib import put as p
            p(I.lib, os, t)
        def to_stream(I, d, o, a, n):
            v = ghost(I, o); cls = I.read(o).cls
            if v is not None:
                put(I, a[0], App('xml:' + cls, 'S', v)); return a[0]
            put(I, a[0], self.nested(I, o, cls)); return a[0]
        C[EI + '::toStream'] = to_stream
        def from_x(I, d, o, a, n):
            v = ghost(I, o); x = I.read(a[1]); cls = I.read(o).cls
            if v is None: return I.vcall(self.impl_d(EI), EI + '::fromXElementImpl', o, a, n)
            if '#v' not in x.f:
                if cls in self.parts: raise NeedInline(cls, 'xml')
                # an element of its own, read from an element that it did not write: anything can come out
                I.st.ctr += 1
                I.write(I.sub(o, '#v'), Var('misread:%s:%d' % (cls, I.st.ctr), 'U:elem'))
                return Var('misread-ok:%d' % I.st.ctr, 'B')
            if x.f['#cls'] != cls:
                nm = x.f['name']
                I.write(I.sub(o, '#v'), App('as:' + cls, 'U:elem', x.f['#v']))
                return TRUE if isc(nm) and self.names.get(cls) == nm.val else FALSE
            I.write(I.sub(o, '#v'), x.f['#v'])
            return TRUE
        C[EI + '::fromXElement'] = from_x
        def a_stream(I, d, o, a, n):
            v = ghost(I, o)
            if v is None: return NotImplemented
            put(I, a[0], App('attrs:' + I.read(o).cls, 'S', v)); return a[0]
        def a_has(I, d, o, a, n):
            v = ghost(I, o)
            if v is None: return NotImplemented
            return App('hasvals', 'B', v)
        def a_from(I, d, o, a, n):
            v = ghost(I, o); x = I.read(a[1])
            if v is None: return I.vcall(self.impl_d(AI), AI + '::fromXElementImpl', o, a, n)
            cls = I.read(o).cls
            g = x.f.get('#attrs')
            if g is None: raise NeedInline(cls, 'xml')
            I.write(I.sub(o, '#v'), g.get(cls, NEW(cls)))
            return TRUE
        for c in self.P.recs:
            if c != AI and derives(self.P, c, AI):
                C[('cls', c, 'toStream')] = a_stream; C[('cls', c, 'hasValues')] = a_has
        C[AI + '::fromXElement'] = a_from
        C[EI + '::getElementName'] = lambda I, d, o, a, n: S(self.names[I.read(o).cls]) if self.names.get(I.read(o).cls) else NotImplemented
        return I_
    def plain(self):
        I_ = self.chk.interp(self.P); xmlmodel.install(I_); datatypes.install(I_, self.P, True); return I_
    def impl_d(self, base):
        for m in self.P.recs[base].methods:
            if m['n'] == 'fromXElementImpl': return m
    def nested(self, I, o, cls):
        """a child element whose class is evaluated rather than abstracted: the tree it writes"""
        sv = I.st.mem.get(('NOS',))
        def part(meth, extra):
            f = self.method(cls, meth)
            r = ('N', I.st.ctr, meth); I.st.ctr += 1
            I.st.mem[r] = StructV('std::ostream', {'toks': TokV(())})
            v = I.call_fn(f, o, [ptr(LV(r))] + extra)
            t = I.st.mem.pop(r).f['toks']
            return t
        r = ('N', I.st.ctr, 'flag'); I.st.ctr += 1; I.st.mem[r] = FALSE
        h = I.call_fn(self.method(cls, 'hasAttributes'), o, [])
        at = TokV(()) if h is FALSE else part('streamAttributes', [])
        if h is not TRUE: at = TokV([(And(h, g), t) for g, t in at.e])
        tk = part('streamContents', [I_0, ptr(LV(r))])
        I.st.mem.pop(r)
        key = (cls, tuple((id(g), id(t)) for g, t in at.e), tuple((id(g), id(t)) for g, t in tk.e))
        k = 'xmln:%d' % len(NESTED)
        NESTED[k] = (cls, at, tk)
        return App(k, 'S')
    def method(self, cls, name):
        for f in self.P.byq.get(cls + '::' + name, []):
            if f.body is not None: return f
        for b in self.P.recs[cls].bases:
            if b.name in self.P.recs:
                m = self.method(b.name, name)
                if m: return m
        return None
    # ------------------------------------------------------------ reading side
    def xml(self, name, at, tk):
        """XElement for written attribute tokens and content tokens"""
        attrs = []; ghosts = {}; plain = []
        for g, t in at.e:
            if type(t) is T and t.op == 'app' and t.val.startswith('attrs:'):
                c = t.val[6:]; ghosts[c] = Ite(g, t.args[0], ghosts.get(c, NEW(c)))
            else: plain.append((g, t))
        if plain: attrs = [(g, xmlmodel.xattr(S(n), v)) for g, n, v in xmlmodel.attributes(TokV(plain))]
        f = flat(tk); kids = []; text = []
        for g, p in f:
            if type(p) is T and p.op == 'app' and p.val.startswith('xml:'):
                c = p.val[4:]; kids.append((g, StructV(XE, {'name': S(self.names[c]), 'value': Var('inner text', 'S'), 'attrs': VecV(()), 'children': VecV(()), '#v': p.args[0], '#cls': c})))
            elif type(p) is T and p.op == 'app' and p.val.startswith('xmln:'):
                c, a2, t2 = NESTED[p.val]; kids.append((g, self.xml(self.names[c], a2, t2)))
            elif type(p) is T and p.op == 'app' and p.val.startswith('attrs:'): raise Malformed('attributes inside the content')
            else: text.append((g, p))
        if any(p == '<' for _, p in text if type(p) is str):
            if kids: raise Malformed('markup written by hand next to child elements')
            kids, text = self.markup(text)
        if kids or all(type(p) is str and p in ' \n\t\r' for _, p in text):
            for g, p in text:
                if not (type(p) is str and p in ' \n\t\r'): raise Malformed('text between child elements: %r' % (p,))
            val = S('')
        else:
            val = S(''); i = 0
            while i < len(text):
                j = i
                while j < len(text) and text[j][0] is text[i][0]: j += 1
                v = unxml([p for _, p in text[i:j]])
                val = Concat(val, v if text[i][0] is TRUE else Ite(text[i][0], v, S(''))); i = j
        x = StructV(XE, {'name': S(name), 'value': val, 'attrs': VecV(attrs), 'children': VecV(kids)})
        if not plain: x = x.set('#attrs', ghosts)
        return x
    def markup(self, f):
        """child elements without attributes that a class writes as plain text"""
        kids = []; rest = []; i = 0
        def name():
            nonlocal i
            n = ''
            while i < len(f) and f[i][0] is g and type(f[i][1]) is str and (f[i][1].isalnum() or f[i][1] in '-_.:'): n += f[i][1]; i += 1
            if not n: raise Malformed('tag without a name')
            return n
        def need(s):
            nonlocal i
            for ch in s:
                if i >= len(f) or f[i][0] is not g or f[i][1] != ch: raise Malformed('expected %s in a tag' % s)
                i += 1
        while i < len(f):
            g, p = f[i]
            if p != '<': rest.append(f[i]); i += 1; continue
            i += 1; n = name()
            if i < len(f) and f[i][1] == '/': need('/>'); v = S('')
            else:
                need('>'); body = []
                while i < len(f) and f[i][1] != '<':
                    if f[i][0] is not g: raise Malformed('text under a condition')
                    body.append(f[i][1]); i += 1
                need('</' + n + '>'); v = unxml(body)
            kids.append((g, StructV(XE, {'name': S(n), 'value': v, 'attrs': VecV(()), 'children': VecV(())})))
        return kids, rest
    # ------------------------------------------------------------ arbitrary objects
    def fields(self, cls):
        out = []
        for b in self.P.recs[cls].bases:
            if b.name in self.P.recs: out += self.fields(b.name)
        return out + list(self.P.recs[cls].fields)
    def new(self, I_, st, cls):
        """default constructed object of cls in a fresh cell of st"""
        ctor = None
        for m in self.P.recs[cls].methods:
            fn = self.P.funcs.get(m['f'])
            if fn is not None and 'C:' in fn.f[:80] and not fn.params and fn.body is not None: ctor = fn
        if ctor is None:
            for fn in self.P.byq.get(cls + '::' + cls.split('::')[-1], []):
                if not fn.params: ctor = fn
        st.ctr += 1; root = ('H', st.ctr, cls)
        def go():
            I_.st.mem[root] = StructV(cls, {})
            I_.frames.append(datatypes._frame())
            I_.run_ctor(ctor, ptr(LV(root)), [], cls)
            return VOID_
        outs = I_.multi(st, go)
        if len(outs) != 1 or outs[0].kind != 'normal': raise Unsupported('constructor of %s: %r' % (cls, outs))
        return outs[0].st, root
    def arbitrary(self, I_, st, root, path=(), name='o'):
        """replace what the cell holds by an arbitrary valid object of the class; returns the state"""
        o = st.mem[root]
        for k in path: o = o.f[k]
        sy = Sym(I_); mk = Maker(I_, self.P, sy)
        new = o; has = {}
        fl = self.fields(o.cls)
        kinds = {n: t for n, t, _ in fl}
        for n, t, _ in fl:
            if n not in o.f: continue
            nm = name + '.' + n; v = o.f[n]
            if t.is_bool: new = new.set(n, Var(nm, 'B')) if not t.const else new
        for n, t, _ in fl:
            if n not in o.f or t.is_bool: continue
            nm = name + '.' + n; v = o.f[n]
            if n == 'myProcessingInstructions' or (t.k == 'rec' and t.name.endswith('mutex')): continue
            k = tn(t) if t.k == 'rec' else ''
            if k in ('std::shared_ptr', 'std::unique_ptr'):
                x = t.targ(0).name
                flag = self.flag(n, kinds)
                if isnull(v) is TRUE:
                    st.ctr += 1; r2 = ('H', st.ctr, x)
                    if self.ghostable(x): st.mem[r2] = StructV(x, {'#v': Var(nm, 'U:elem')})
                    else:
                        st, r2 = self.new(I_, st, x); st = self.arbitrary(I_, st, r2, (), nm)
                    nn = Var(nm + '.set', 'B')
                    self.facts.append(nn)      # an absent sub-object is created on demand by its accessor: equivalent to a default one
                    new = new.set(n, ptr(LV(r2)))
                    continue
                if len(v.alts) != 1: raise Unsupported('pointer field ' + n)
                lv = v.alts[0][1]; tv = st.mem[lv.root]
                if lv.path: raise Unsupported('pointer into an object')
                if '#v' in tv.f: st.mem[lv.root] = StructV(tv.cls, {'#v': Var(nm, 'U:elem')})
                else: st = self.arbitrary(I_, st, lv.root, (), nm)
            elif k in ('std::vector', 'std::list') and tn(t.targ(0)) == 'std::shared_ptr':
                x = t.targ(0).targ(0).name
                e = []
                lo = len(v.e)
                self.sets.append(nm)
                for i in range(max(self.big.get(nm, self.nitems), lo)):
                    g = TRUE if i < lo else Var('%s.%d' % (nm, i), 'B')
                    if i > lo: self.facts.append(Implies(g, e[-1][0]))
                    if self.ghostable(x):
                        st.ctr += 1; r2 = ('H', st.ctr, x); st.mem[r2] = StructV(x, {'#v': Var('%s[%d]' % (nm, i), 'U:elem')})
                    else:
                        st, r2 = self.new(I_, st, x); st = self.arbitrary(I_, st, r2, (), '%s[%d]' % (nm, i))
                    e.append((g, ptr(LV(r2))))
                self.listed = True
                new = new.set(n, VecV(e))
            else:
                I_.frames.append(datatypes._frame()); I_.st = st
                v = mk.make(t, nm); st = I_.st
                if nm in self.fix:
                    e, x = self.fix[nm]
                    v = I(x) if type(v) is T else v.set('myEnum', I(x))
                    if type(v) is not T and not e.startswith('other'): v = v.set('myCustomValue', S(''))
                new = new.set(n, v)
                I_.frames.pop()
        self.facts += list(sy.facts) + list(mk.facts)
        if path: raise Unsupported('arbitrary: path')
        st.mem[root] = new
        return st
    def flag(self, n, kinds):
        c = 'myHas' + n[2:] if n.startswith('my') else None
        return c if c in kinds else None
    # ------------------------------------------------------------ comparison
    def compare(self, st1, o, st2, r, toks, ctx, path, out):
        """what reading produced (r) against what was written (o): list of (what, goal)"""
        if '#v' in o.f:
            if not [n for n, _, _ in self.fields(o.cls) if n != 'myProcessingInstructions']: return      # all objects of the class are equal
            out.append((path, Implies(ctx, Eq(o.f['#v'], r.f['#v'])))); return
        kinds = {n: t for n, t, _ in self.fields(o.cls)}
        choice = type(o.f.get('myChoice')) is T
        for n, t in kinds.items():
            if n not in o.f or n == 'myProcessingInstructions' or (t.k == 'rec' and t.name.endswith('mutex')): continue
            a, b = o.f[n], r.f.get(n); p = path + '.' + n
            if t.is_bool:
                out.append((p, Implies(ctx, Eq(a, b)))); continue
            if choice and n == 'myChoice':
                # an alternative that stands for no content at all cannot be told from another one
                out.append((p, Implies(And(ctx, self.emitted(self.vars_below(st1, o), toks)), Eq(a, b)))); continue
            f = self.flag(n, kinds)
            c = And(ctx, o.f[f]) if f else ctx
            k = tn(t) if t.k == 'rec' else ''
            if k in ('std::shared_ptr', 'std::unique_ptr'):
                cc = c
                if choice or t.targ(0).name not in self.inline or True:
                    em = self.emitted(self.vars_below(st1, a), toks)
                    if choice: cc = And(c, em)
                    elif f is None and derives(self.P, t.targ(0).name, AI): cc = And(c, em)
                lv = a.alts[0][1]
                if len(b.alts) > 1 or b.alts[0][1] is None:
                    # read back as "not there"
                    nn = Not(isnull(b))
                    out.append((p + ' is there', Implies(And(cc, em), nn)))
                for g, l2 in b.alts:
                    if l2 is None: continue
                    self.compare(st1, st1.mem[lv.root], st2, st2.mem[l2.root], toks, And(cc, g), p, out)
            elif type(a) is VecV and type(b) is VecV:
                cc = And(c, self.emitted(self.vars_below(st1, a), toks)) if choice else c
                na = self.count(a); nb = self.count(b)
                out.append((p + ' length', Implies(cc, Eq(na, nb))))
                for i, (g, x) in enumerate(a.e):
                    for j, (h, y) in enumerate(b.e):
                        # i-th present against i-th present
                        s = And(cc, g, h, Eq(self.rank(a, i), self.rank(b, j)))
                        if s is FALSE: continue
                        for gy, ly in y.alts:
                            self.compare(st1, st1.mem[x.alts[0][1].root], st2, st2.mem[ly.root], toks, And(s, gy), '%s[%d]' % (p, i), out)
            else:
                cc = c
                if choice: cc = And(c, self.emitted(set(freevars_of(a)), toks))
                from .checks.c01 import same
                out.append((p, Implies(cc, same(b, a))))
    def count(self, v): return Add(I(0), *[Ite(g, I(1), I(0)) if g is not TRUE else I(1) for g, _ in v.e])
    def rank(self, v, i): return Add(I(0), *[Ite(g, I(1), I(0)) if g is not TRUE else I(1) for g, _ in v.e[:i]])
    def vars_below(self, st, v, acc=None):
        if acc is None: acc = set()
        if type(v) is PtrV:
            for _, l in v.alts:
                if l is not None: self.vars_below(st, st.mem[l.root], acc)
        elif type(v) is VecV:
            for g, x in v.e: self.vars_below(st, x, acc)
        elif type(v) is StructV:
            for k, x in v.f.items():
                if k == '#v' or type(x) is not T or x.sort != 'B': self.vars_below(st, x, acc)
        elif type(v) is T: acc |= set(freevars(v))
        return acc
    def emitted(self, vs, toks):
        return Or(*[g for g, fv in toks if fv & vs])
    def tokvars(self, tk, g0=TRUE):
        """[(guard, variables in the token)]"""
        out = []
        for g, t in tk.e:
            if type(t) is not T: continue
            todo = [t]; vs = set(freevars(t))
            for x in pieces(t):
                if x.op == 'app' and x.val.startswith('xmln:'):
                    _, a2, t2 = NESTED[x.val]
                    out += self.tokvars(a2, And(g0, g)) + self.tokvars(t2, And(g0, g))
            out.append((And(g0, g), vs))
        return out
def freevars_of(v):
    acc = set()
    def w(x):
        if type(x) is T: acc.update(freevars(x))
        elif type(x) is StructV:
            for y in x.f.values(): w(y)
        elif type(x) is VecV:
            for g, y in x.e: w(y)
        elif type(x) is OptV: w(x.v)
        elif type(x) is VarV:
            w(x.idx)
            for y in x.alts.values(): w(y)
    w(v)
    return acc
I_0 = I(0)
VOID_ = TRUE

def parts(P):
    """classes whose contents are written directly by another class: not elements of their own"""
    out = set()
    def walk(x, own):
        if isinstance(x, list):
            for y in x: walk(y, own)
        elif isinstance(x, dict):
            if x.get('k') == 'call' and isinstance(x.get('d'), dict) and x['d'].get('n') == 'streamContents':
                c = x['d']['q'].rsplit('::', 1)[0]
                if c != own: out.add(c)
            for y in x.values():
                if isinstance(y, (dict, list)): walk(y, own)
    if 'mx::core::DirectionType' in P.recs: out.add('mx::core::DirectionType')      # read by Direction
    for f in P.funcs.values():
        if f.q.startswith('mx::core::') and f.body is not None and not f.q.startswith(EI): walk(f.body, f.d.get('cls'))
    return out
