"""Trusted models of the C++ standard library (the verifier's only 'assumed contracts').  Every model used in
a run is recorded in I.trusted and reported in the evidence."""
from .terms import *
from .values import *
from fractions import Fraction
import math, re

SEQ = ('std::vector', 'std::list', 'std::deque', 'std::initializer_list', 'std::array', 'std::set', 'std::multiset', 'std::unordered_set')
MAPS = ('std::map', 'std::unordered_map', 'std::multimap')
STREAMS = ('std::basic_ostream', 'std::basic_istream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_iostream', 'std::basic_ofstream', 'std::basic_ifstream')
def tn(t): return t.tn.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')

def stream(content=None):
    f = {'toks': TokV(()), 'fill': I(32), 'width': I(0), 'flags': I(0), 'prec': I(6)}
    if content is not None: f['in'] = content
    f['fail'] = FALSE; f['eof'] = FALSE
    return StructV('std::stream', f)

class Lib:
    def __init__(self, I_):
        self.I = I_
        self.m = {}
        for k in dir(self):
            if k.startswith('m_'): pass
        self.parse = {}      # hooks: text parse functions
    # ---------------------------------------------------------------- helpers
    def pt(self, d, i):
        return self.I.frames[-1].types[d['pt'][i]] if 'pt' in d and i < len(d['pt']) else None
    def vals(self, d, args):
        """argument values: references are read, values passed through"""
        out = []
        for i, a in enumerate(args):
            t = self.pt(d, i)
            if type(a) is PtrV and (t is None or t.k in ('lref', 'rref')): a = self.I.read(a)
            out.append(a)
        return out
    def one(self, obj, n):
        al = self.I.live(obj, n)
        return al
    def objv(self, obj, n=None):
        return self.I.read(obj, n)
    def wr(self, obj, f, n=None):
        """apply f to the container(s) designated by obj"""
        I_ = self.I
        if len(obj.alts) == 1 and obj.alts[0][1] is not None:
            lv = obj.alts[0][1]; I_.store(lv, f(I_.load(lv)))
        else:
            for g, t in I_.live(obj, n):
                old = I_.load(t); I_.store(t, mergev(g, f(old), old))
    def known(self, g):
        return g is TRUE or g in self.I.st.has
    def absent(self, g):
        return g is FALSE or Not(g) in self.I.st.has
    # ---------------------------------------------------------------- values
    def default(self, t):
        k = tn(t)
        if k in ('std::basic_string', 'std::basic_string_view'): return S('')
        if k in SEQ: return VecV(()) if k != 'std::array' else VecV([(TRUE, self.I.default(t.targ(0))) for _ in range(t.targ(1)['v'])])
        if k in MAPS: return MapV(())
        if k in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'): return NULL
        if k == 'std::optional': return OptV(FALSE, None)
        if k == 'std::nullopt_t': return OptV(FALSE, None)
        if k == 'std::function': return NULL
        if k == 'std::pair': return StructV('std::pair', {'first': self.I.default(t.targ(0)), 'second': self.I.default(t.targ(1))})
        if k == 'std::variant': return VarV(I(0), {0: self.I.default(t.targ(0))})
        if k == 'std::monostate': return Opaque('monostate')
        if k in STREAMS: return stream(S('') if 'i' in k else None)
        if k in ('std::mutex', 'std::recursive_mutex'): return StructV('std::mutex', {'locked': I(0)})
        if k in ('std::atomic',): return I(0)
        if k.startswith('std::allocator') or k in ('std::locale', 'std::less'): return Opaque(k)
        raise Unsupported('default of library type %s' % t)
    def global_value(self, n):
        q = n.get('q', '')
        if q.endswith('nullopt'): return OptV(FALSE, None)
        if q == 'std::string::npos' or n.get('n') == 'npos': return I((1 << 64) - 1)
        if q.endswith('ignore') or q.endswith('in_place'): return Opaque(q)
        if q.startswith('std::'):
            return I(self.iosflag(n.get('n')))
        raise Unsupported('global %s' % (n.get('q') or n.get('g')))
    def iosflag(self, n):
        d = {'in': 8, 'out': 16, 'binary': 4, 'app': 1, 'ate': 2, 'trunc': 32, 'fixed': 4, 'hex': 8, 'dec': 2, 'uppercase': 16384, 'left': 32, 'right': 128, 'nothrow': 0, 'basefield': 74}
        if n in d: return d[n]
        raise Unsupported('library global ' + str(n))
    def ilist(self, t, vals, n):
        k = tn(t)
        if k in ('std::shared_ptr', 'std::unique_ptr') and not vals: return NULL
        if k == 'std::array':
            if len(vals) == 1 and type(vals[0]) is VecV: return vals[0]
            return VecV([(TRUE, v) for v in vals])
        if k == 'std::pair' and len(vals) == 2: return StructV('std::pair', {'first': vals[0], 'second': vals[1]})
        if not vals: return self.default(t)
        if len(vals) == 1 and type(vals[0]) in (IterV, StructV): return vals[0]
        raise Unsupported('init list for %s' % t)
    def ctor(self, t, n, d):
        I_ = self.I
        k = tn(t)
        a = n['a']
        if n.get('cc') in ('copy', 'move'):
            if k in STREAMS: raise Unsupported('stream copy')
            v = I_.E(a[0])
            lv = a[0].get('lv')
            if lv and type(v) is PtrV:
                r = I_.read(v)
                if n.get('cc') == 'move' and k in ('std::shared_ptr', 'std::unique_ptr') and a[0]['k'] != 'ctor':
                    try: I_.write(v, NULL)
                    except Unsupported: pass
                return r
            return v
        I_.trusted[k] = I_.trusted.get(k, 0) + 1
        if not a or n.get('cc') == 'default': return self.default(t)
        args = [I_.val(x) for x in a]
        if k == 'std::basic_string': return self.string_ctor(args, a, n)
        if k in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
            v = args[0]
            if type(v) is PtrV: return v
            raise Unsupported('smart ptr ctor')
        if k == 'std::optional':
            v = args[0]
            if type(v) is OptV:
                return v
            if type(v) is Opaque: return OptV(FALSE, None)
            return OptV(TRUE, self.coerce(v, t.targ(0)))
        if k == 'std::function': return args[0]
        if k in ('std::vector', 'std::list', 'std::deque', 'std::set'):
            v = args[0]
            if type(v) is VecV:
                if k == 'std::set': return self.mkset(v)
                return v
            if type(v) is IterV:
                r = self.slice(args[0], args[1])
                return self.mkset(r) if k == 'std::set' else r
            if type(v) is T and v.sort == 'I' and isc(v):
                x = args[1] if len(args) > 1 and type(args[1]) is not Opaque else I_.default(t.targ(0))
                return VecV([(TRUE, x)] * v.val)
            raise Unsupported('%s ctor' % t)
        if k in MAPS:
            v = args[0]
            if type(v) is VecV:
                r = MapV(())
                for g, x in v.e:
                    r = self.map_insert(r, x.f['first'], x.f['second'], g, False)
                return r
            raise Unsupported('map ctor %r' % (v,))
        if k == 'std::pair':
            if len(args) == 1 and type(args[0]) is StructV:
                f = args[0].f
                return StructV('std::pair', {'first': self.coerce(f['first'], t.targ(0)), 'second': self.coerce(f['second'], t.targ(1))})
            return StructV('std::pair', {'first': self.coerce(args[0], t.targ(0)), 'second': self.coerce(args[1], t.targ(1))})
        if k == 'std::variant':
            ta = [t.targ(i) for i in range(len(t.d.get('ta', [])))]
            st = I_.ty(a[0]).deref()
            for i, x in enumerate(ta):
                if x.nq == st.nq: return VarV(I(i), {i: args[0]})
            raise Unsupported('variant ctor from %s' % st)
        if k in STREAMS:
            c = args[0]
            if type(c) is T and c.sort == 'S': return stream(c)
            return stream(S('') )
        if k in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'):
            I_.lock_event(args[0]) if hasattr(I_, 'lock_event') else None
            return Opaque('lock')
        if k in ('std::runtime_error', 'std::exception', 'std::logic_error', 'std::invalid_argument', 'std::out_of_range'):
            return StructV(k, {'msg': args[0] if type(args[0]) is T else S('')})
        if k == 'std::reverse_iterator':
            it = args[0]
            return IterV(it.c, it.i, True)
        if k in ('std::_Rb_tree_const_iterator', 'std::_List_const_iterator', '__gnu_cxx::__normal_iterator'): return args[0]
        if k.startswith('std::allocator') or k in ('std::locale', 'std::nullopt_t'): return Opaque(k)
        raise Unsupported('library constructor %s' % t)
    def coerce(self, v, t):
        if type(v) is T and v.sort == 'S' and tn(t) == 'std::basic_string': return v
        if type(v) is T: return self.I.conv(v, t)
        if tn(t) == 'std::optional' and type(v) is not OptV: return OptV(TRUE, v)
        return v
    def string_ctor(self, args, nodes, n):
        I_ = self.I
        v = args[0]
        if type(v) is T and v.sort == 'S':
            if len(args) == 1 or type(args[1]) is Opaque: return v
            if type(args[1]) is T and args[1].sort == 'I' and type(args[0]) is T:
                # (const string&, pos[, n]) or (const char*, n)
                if I_.ty(nodes[0]).deref().k == 'ptr' or I_.ty(nodes[0]).k == 'array': return Substr(v, I(0), args[1])
                ln = args[2] if len(args) > 2 and type(args[2]) is T else Sub(Len(v), args[1])
                return Substr(v, args[1], ln)
        if type(v) is T and v.sort == 'I' and len(args) >= 2:   # (count, ch)
            if isc(v) and v.val < 4096: return Concat(*[Unit(args[1])] * v.val)
            return App('repeat', 'S', v, args[1])
        if type(v) is IterV and type(args[1]) is IterV:
            return self.strslice(v, args[1])
        if type(v) is VecV: return Concat(*[Unit(x) for g, x in v.e])
        if type(v) is PtrV:
            return I_.read(v)
        raise Unsupported('string ctor %r' % (args,))
    def strslice(self, a, b):
        s = self.I.load(a.c)
        if type(s) is not T: raise Unsupported('string from iterators')
        u = unitlist(s)
        i = a.i if type(a.i) is int else a.i; j = b.i
        if u is None:
            n = Len(s)
            lo = I(i) if i >= 0 else Add(n, I(i + 1))
            hi = I(j) if j >= 0 else Add(n, I(j + 1))
            return Substr(s, lo, Sub(hi, lo))
        return Concat(*[Unit(x) for x in u[i:j]]) if not a.rev else Concat(*[Unit(u[k]) for k in range(a.i - 1, b.i - 1, -1)])
    # ---------------------------------------------------------------- calls
    def call(self, d, q, obj, args, n):
        I_ = self.I
        k = q.replace('::', '__').replace(' ', '_')
        name = d['n']
        if name.startswith('operator') : base = q.rsplit('::operator', 1)[0] if '::operator' in q else ''
        else: base = q.rsplit('::', 1)[0]
        I_.trusted[q] = I_.trusted.get(q, 0) + 1
        f = TABLE.get(q)
        if f is None and obj is not None:
            f = TABLE.get((CLSMAP.get(base, base), name))
            if f is None and name.startswith('operator ') : f = TABLE.get((CLSMAP.get(base, base), 'convert'))
        if f is None and name.startswith('~'): return VOID
        if f is None:
            r = self.external(d, q, obj, args, n)
            if r is not None: return r
            I_.unsupported_calls[q] = I_.unsupported_calls.get(q, 0) + 1
            raise Unsupported('library call %s at %s' % (q, I_.where(n)))
        return f(self, d, obj, args, n)
    def external(self, d, q, obj, args, n):
        h = self.ext.get(q) if hasattr(self, 'ext') else None
        if h is not None: return h(self.I, d, obj, args, n)
        return None
    def range_of(self, lv, v, n):
        if type(v) is StructV and v.cls in self.I.P.recs: return None
        return None
    # ---------------------------------------------------------------- sequences
    def lv1(self, obj, n=None):
        """single location of a container; ambiguous pointers are resolved by splitting"""
        I_ = self.I
        al = I_.live(obj, n)
        if len(al) == 1: return al[0][1]
        outs = []
        for g, t in al:
            s = I_.st.fork(g)
            from .interp import Out
            outs.append(Out('normal', s, t))
        return I_.choose(outs)
    def length(self, v):
        if type(v) is SeqV: return v.n
        if type(v) is T and v.op == 'app' and v.val == 'itoa':      # at least one digit
            k = App('digits', 'I', v.args[0]); return Add(I(1), Ite(Ge(k, I(0)), k, I(0)))
        if type(v) is T: return Len(v)
        if type(v) is MapV: return Add(I(0), *[Ite(g, I(1), I(0)) for g, _, _ in v.e])
        return Add(I(0), *[Ite(g, I(1), I(0)) for g, _ in v.e])
    def guards(self, v):
        if type(v) is SeqV: raise Unsupported('spine of symbolic sequence')
        if type(v) is T:
            u = unitlist(v)
            if u is None: raise Unsupported('iteration over symbolic string')
            return [TRUE] * len(u)
        return [x[0] for x in v.e]
    def slice(self, a, b):
        v = self.I.load(a.c)
        if type(v) is MapV: return VecV([(g, StructV('std::pair', {'first': k, 'second': x})) for g, k, x in v.e[a.i:b.i]])
        if type(v) is T: 
            u = unitlist(v)
            if u is None: raise Unsupported('slice of symbolic string')
            return VecV([(TRUE, x) for x in u[a.i:b.i]])
        if a.rev: return VecV([v.e[k] for k in range(a.i - 1, b.i - 1, -1)])
        return VecV(v.e[a.i:b.i])
    def mkset(self, v):
        r = VecV(())
        for g, x in v.e: r = self.set_insert(r, x, g)
        return r
    def set_insert(self, v, x, g=TRUE):
        e = list(v.e)
        dup = FALSE
        for h, y in e:
            if type(x) is T and x.sort == 'I' or type(x) is T: dup = Or(dup, And(h, Eq(x, y)))
            elif type(x) is PtrV: dup = Or(dup, And(h, ptreq(x, y)))
            else: raise Unsupported('set of %r' % (x,))
        g = And(g, Not(dup))
        if g is FALSE: return v
        if type(x) is T and isc(x) and all(type(y) is T and isc(y) for _, y in e):
            i = 0
            while i < len(e) and e[i][1].val < x.val: i += 1
            if i < len(e) and e[i][1] is x: e[i] = (Or(e[i][0], g), x); return VecV(e)
            e.insert(i, (g, x)); return VecV(e)
        if not e: return VecV([(g, x)])
        if all(type(y) is T for _, y in e) and len(e) < 12:
            # symbolic sorted insert: keep as unordered; order-sensitive uses are rejected by 'order' flag
            return VecV(e + [(g, x)])
        raise Unsupported('symbolic set insert')
    def map_insert(self, m, k, v, g, overwrite):
        e = list(m.e)
        for i, (h, k2, v2) in enumerate(e):
            r = keyeq(k, k2)
            if r is TRUE:
                c = g if overwrite else And(g, Not(h))
                e[i] = (Or(h, g), k2, mergev(c, v, v2) if c is not TRUE else v)
                return MapV(e)
        if type(k) is T and isc(k) and all(type(x[1]) is T and isc(x[1]) for x in e):
            i = 0
            while i < len(e) and e[i][1].val < k.val: i += 1
            e.insert(i, (g, k, v)); return MapV(e)
        cs = [And(h, keyeq(k, k2)) for h, k2, _ in e]
        if all(c is FALSE or self.I.implied(Not(c)) for c in cs):
            return MapV(e + [(g, k, v)])
        out = []
        for (h, k2, v2), c in zip(e, cs):
            w = And(g, c)
            out.append((h, k2, mergev(w, v, v2) if overwrite and w is not FALSE else v2))
        out.append((And(g, Not(Or(*cs))), k, v))
        return MapV(out)
    # iterators ------------------------------------------------------
    def settle(self, it, n=None):
        """resolve an iterator that may rest on an absent element: returns IterV on a present element or at end"""
        I_ = self.I
        if it.lag: it = self.unlag(it)
        v = I_.load(it.c)
        if type(v) is SeqV: return it
        gs = self.guards(v)
        i = it.i
        if i < 0: return it
        if it.rev:
            while i > 0:
                g = gs[i - 1]
                if self.known(g): return IterV(it.c, i, True)
                if self.absent(g): i -= 1; continue
                r = I_.branch(g, lambda: I(1), lambda: I(0)) if False else None
                from .interp import Out
                b = I_.choose([Out('normal', I_.st.fork(g), True), Out('normal', I_.st.fork(Not(g)), False)])
                if b: return IterV(it.c, i, True)
                i -= 1
            return IterV(it.c, 0, True)
        neg = []; cases = []; last = False
        while i < len(gs):
            g = gs[i]
            if not self.absent(g):
                if self.known(g): cases.append((neg, i)); last = True; break
                cases.append((neg + [g], i)); neg = neg + [Not(g)]
            i += 1
        if not last: cases.append((neg, len(gs)))
        if len(cases) == 1: return IterV(it.c, cases[0][1])
        return IterV(it.c, I_.choose_pos(cases))
    def unlag(self, it):
        """the position of the present element in front of it.i"""
        I_ = self.I; gs = self.guards(I_.load(it.c)); i = it.i
        from .interp import Out
        while True:
            i -= 1
            if i < 0: raise Infeasible()
            g = gs[i]
            if self.known(g): break
            if self.absent(g): continue
            if I_.choose([Out('normal', I_.st.fork(g), True), Out('normal', I_.st.fork(Not(g)), False)]): break
        return IterV(it.c, i)
    def it_eq(self, a, b):
        I_ = self.I
        if type(a) is PtrV: a = I_.read(a)
        if type(b) is PtrV: b = I_.read(b)
        if type(a) is not IterV or type(b) is not IterV: raise Unsupported('iterator compare %r %r' % (a, b))
        if a.c != b.c: raise Unsupported('comparison of iterators into different containers %r %r' % (a, b))
        if a.lag or b.lag:
            if a.lag and b.lag: return TRUE if a.i == b.i else self.it_eq(self.unlag(a), self.unlag(b))
            x, y = (a, b) if a.lag else (b, a)
            if y.i >= x.i: return FALSE
            return self.it_eq(self.unlag(x), y)
        if type(a.i) is int and type(b.i) is int and a.i == b.i: return TRUE
        v = I_.load(a.c)
        if type(v) is SeqV: return Eq(a.i, b.i)
        if type(v) is T and (type(a.i) is T or type(b.i) is T):
            nx = lambda i: i if type(i) is T else I(i) if i >= 0 or unitlist(v) is not None else Add(Len(v), I(i + 1))
            return Eq(nx(a.i), nx(b.i))
        lo, hi = min(a.i, b.i), max(a.i, b.i)
        if type(v) is T and unitlist(v) is None:
            if (a.i < 0) != (b.i < 0):
                # begin+i vs end-j : equal iff len == i + j
                p = a.i if a.i >= 0 else b.i; e = a.i if a.i < 0 else b.i
                return Eq(Len(v), I(p - (e + 1)))
            return FALSE
        gs = self.guards(v)
        return And(*[Not(g) if not self.known(g) else FALSE for g in gs[lo:hi]])
    def deref(self, it, n):
        I_ = self.I
        if type(it) is PtrV: it = I_.read(it)
        if type(it) is PtrV: return it
        v = I_.load(it.c)
        if type(v) is SeqV:
            if it.rev: raise Unsupported('reverse iteration of symbolic sequence')
            I_.oblige('iterator-deref', And(Ge(it.i, I(0)), Lt(it.i, v.n)), n)
            return ptr(it.c.sub(it.i))
        if type(v) is T:
            u = unitlist(v)
            if type(it.i) is T:
                I_.oblige('iterator-deref', And(Ge(it.i, I(0)), Lt(it.i, Len(v))), n)
                return I_.tmp(CodeAt(v, it.i))
            if u is None:
                if it.i < 0: raise Unsupported('deref of end iterator offset')
                I_.oblige('iterator-deref', Lt(I(it.i), Len(v)), n)
                return I_.tmp(CodeAt(v, I(it.i)))
            k = it.i - 1 if it.rev else it.i
            if not 0 <= k < len(u): I_.oblige('iterator-deref', FALSE, n)
            return I_.tmp(u[k])
        it = self.settle(it)
        k = it.i - 1 if it.rev else it.i
        gs = self.guards(v)
        if not 0 <= k < len(gs): I_.oblige('iterator-deref', FALSE, n)
        if type(v) is MapV:
            return I_.tmp_lv(it.c.sub(k)) if hasattr(I_, 'tmp_lv') else ptr(it.c.sub(k))
        return ptr(it.c.sub(k))
    def advance(self, it, k):
        I_ = self.I
        v = I_.load(it.c)
        if k == 0: return it
        if type(v) is SeqV: return IterV(it.c, Add(it.i, I(k)), it.rev)
        if type(it.i) is T: return IterV(it.c, Add(it.i, I(k)), it.rev)
        if type(v) is T and unitlist(v) is None:
            i = it.i + k
            if (it.i < 0) != (i < 0): raise Unsupported('string iterator crosses end')
            return IterV(it.c, i, it.rev)
        n = len(self.guards(v))
        d = -1 if it.rev else 1
        if it.lag:
            if k == 1: return IterV(it.c, it.i)
            it = self.unlag(it)
        i = it.i
        if k == -1 and not it.rev and 0 < i <= n:
            gs = self.guards(v)
            if not self.known(gs[i - 1]):
                I_.oblige('iterator-before-begin', Or(*gs[:i]))
                return IterV(it.c, i, False, True)
        if k > 0:
            for _ in range(k):
                it = self.settle(it)
                i = it.i
                if (i >= n and not it.rev) or (it.rev and i <= 0):
                    I_.oblige('iterator-past-end', FALSE)
                it = IterV(it.c, i + d, it.rev)
            return it
        gs = self.guards(v)
        for _ in range(-k):
            i = it.i
            while True:
                i -= d
                if not 0 <= i <= n: I_.oblige('iterator-before-begin', FALSE)
                g = gs[i] if not it.rev else gs[i - 1]
                if self.known(g): break
                if self.absent(g): continue
                from .interp import Out
                if I_.choose([Out('normal', I_.st.fork(g), True), Out('normal', I_.st.fork(Not(g)), False)]): break
            it = IterV(it.c, i, it.rev)
        return it

# ==================================================================== the tables
TABLE = {}
CLSMAP = {}
for c in ('std::__cxx11::list', 'std::list', 'std::deque', 'std::set', 'std::initializer_list', 'std::array', 'std::vector', 'std::_Vector_base', 'std::basic_string', 'std::map', 'std::unordered_map', 'std::basic_string_view', 'std::__cxx11::basic_string', 'std::multimap', 'std::__array_traits'): CLSMAP[c] = 'C'
for c in ('__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::reverse_iterator', 'std::_Deque_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base'): CLSMAP[c] = 'IT'
for c in ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::weak_ptr', 'std::__uniq_ptr_impl'): CLSMAP[c] = 'P'
for c in ('std::optional', 'std::_Optional_base', 'std::_Optional_base_impl'): CLSMAP[c] = 'O'
for c in ('std::basic_ostream', 'std::basic_istream', 'std::basic_ios', 'std::ios_base', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_iostream'): CLSMAP[c] = 'OS'

def reg(*names):
    def deco(f):
        for n in names: TABLE[n] = f
        return f
    return deco

# ---- containers
@reg(('C', 'size'), ('C', 'length'))
def c_size(L, d, o, a, n): return L.length(L.objv(o, n))
@reg(('C', 'empty'))
def c_empty(L, d, o, a, n):
    v = L.objv(o, n)
    if type(v) is T: return Eq(v, S(''))
    if type(v) is SeqV: return Eq(v.n, I(0))
    return And(*[Not(x[0]) for x in v.e])
@reg(('C', 'clear'))
def c_clear(L, d, o, a, n):
    L.wr(o, lambda v: S('') if type(v) is T else type(v)(())); return VOID
@reg(('C', 'reserve'), ('C', 'shrink_to_fit'))
def c_nop(L, d, o, a, n): return VOID
def emplaced(L, d, a, vs):
    """the element built from the arguments of emplace_back, when it is of a class of the library and not a plain copy"""
    m = re.match(r'std::(?:vector|list|deque)<(.*)>::emplace_back$', d.get('q', ''))
    cls = m.group(1) if m else None
    P = L.I.P
    if cls is None or cls not in P.recs: return None
    if len(vs) == 1 and type(vs[0]) is StructV and vs[0].cls == cls: return None
    ts = [L.I.frames[-1].types[p].deref() for p in d.get('pt', [])]
    if len(ts) == 1 and ts[0].k == 'rec' and ts[0].name == cls: return None
    cs = [f for f in P.byq.get(cls + '::' + cls.split('::')[-1], []) if f.body is not None and len(f.params) == len(vs)]
    def fits(f, strict):
        for p, t in zip(f.params, ts):
            q = f.types[p['t']].deref()
            if q.k == t.k and (q.k != 'rec' or q.name == t.name or tn(q) == tn(t)) and (q.k != 'enum' or q.d['n'] == t.d['n']): continue
            if not strict and q.is_int and t.is_int: continue
            return False
        return True
    c = [f for f in cs if fits(f, True)] or [f for f in cs if fits(f, False)]
    if len(c) != 1: raise Unsupported('emplace_back of %s: %d constructors' % (cls, len(c)))
    return L.I.construct(cls, c[0], list(a))
@reg(('C', 'push_back'), ('C', 'emplace_back'))
def c_push(L, d, o, a, n):
    vs = L.vals(d, a)
    if len(vs) == 0 or d['n'] == 'emplace_back':
        x = emplaced(L, d, a, vs)
        if x is not None: vs = [x]
        if len(vs) != 1: raise Unsupported('emplace_back with %d args' % len(vs))
    x = vs[0]
    def f(v):
        if type(v) is T: return Concat(v, Unit(x))
        return VecV(v.e + ((TRUE, x),))
    L.wr(o, f, n)
    return VOID
@reg(('C', 'push_front'))
def c_pushf(L, d, o, a, n):
    x = L.vals(d, a)[0]
    L.wr(o, lambda v: VecV(((TRUE, x),) + v.e), n); return VOID
@reg(('C', 'pop_back'))
def c_pop(L, d, o, a, n):
    def f(v):
        if type(v) is T:
            u = unitlist(v)
            if not u: raise Unsupported('string pop_back')
            return Concat(*[Unit(x) for x in u[:-1]])
        if not v.e or v.e[-1][0] is not TRUE: raise Unsupported('pop_back')
        return VecV(v.e[:-1])
    L.wr(o, f, n); return VOID
@reg(('C', 'begin'), ('C', 'cbegin'))
def c_begin(L, d, o, a, n):
    lv = L.lv1(o, n)
    return IterV(lv, I(0)) if type(L.I.load(lv)) is SeqV else IterV(lv, 0)
@reg(('C', 'end'), ('C', 'cend'))
def c_end(L, d, o, a, n):
    lv = L.lv1(o, n); v = L.I.load(lv)
    if type(v) is T:
        u = unitlist(v)
        return IterV(lv, -1) if u is None else IterV(lv, len(u))
    if type(v) is SeqV: return IterV(lv, v.n)
    return IterV(lv, len(v.e))
@reg(('C', 'rbegin'), ('C', 'crbegin'))
def c_rbegin(L, d, o, a, n):
    it = c_end(L, d, o, a, n); return IterV(it.c, it.i, True)
@reg(('C', 'rend'), ('C', 'crend'))
def c_rend(L, d, o, a, n): return IterV(L.lv1(o, n), 0, True)
@reg(('C', 'operator='), ('C', 'assign'))
def c_assign(L, d, o, a, n):
    x = L.vals(d, a)[0]
    if type(x) is T and x.sort == 'I': x = Unit(x)
    L.I.write(o, x, n); return o
@reg(('C', 'swap'))
def c_swap(L, d, o, a, n):
    x = L.I.read(o); y = L.I.read(a[0]); L.I.write(o, y); L.I.write(a[0], x); return VOID
@reg(('C', 'at'), ('C', 'operator[]'))
def c_at(L, d, o, a, n):
    I_ = L.I
    v = I_.read(o, n); i = L.vals(d, a)[0]
    if type(v) is T:
        I_.oblige('bounds', And(Ge(i, I(0)), Lt(i, Len(v)) if d['n'] == 'at' else Le(i, Len(v))), n)
        if knownlen(v) is not None and isc(i) and i.val == knownlen(v): return I_.tmp(I(0))
        return StrCell(L, o, v, i)
    if type(v) is MapV: return map_index(L, d, o, i, n)
    return I_.index(o, i, n)
def StrCell(L, o, v, i):
    # reads only; writes to string characters go through string_store
    return L.I.tmp(CodeAt(v, i))
@reg(('C', 'front'))
def c_front(L, d, o, a, n):
    v = L.I.read(o, n)
    if type(v) is T:
        L.I.oblige('bounds', Gt(Len(v), I(0)), n); return L.I.tmp(CodeAt(v, I(0)))
    if type(v) is VecV:
        if not v.e: L.I.oblige('front-of-empty', FALSE, n)
        return L.I.index(o, I(0), n)
    raise Unsupported('front')
@reg(('C', 'back'))
def c_back(L, d, o, a, n):
    v = L.I.read(o, n)
    if type(v) is T:
        L.I.oblige('bounds', Gt(Len(v), I(0)), n); return L.I.tmp(CodeAt(v, Sub(Len(v), I(1))))
    if not v.e: L.I.oblige('back-of-empty', FALSE, n)
    return L.I.index(o, Sub(L.length(v), I(1)), n)
@reg(('C', 'data'), ('C', 'c_str'))
def c_data(L, d, o, a, n): return L.I.read(o, n)
@reg(('C', 'insert'))
def c_insert(L, d, o, a, n):
    vs = L.vals(d, a)
    v = L.I.read(o, n)
    if type(v) is MapV:
        x = vs[-1]
        old = v
        dup = Or(*[And(h, keyeq(x.f['first'], k2)) for h, k2, _ in v.e])
        L.wr(o, lambda m: L.map_insert(m, x.f['first'], x.f['second'], TRUE, False), n)
        return StructV('std::pair', {'first': Opaque('insert-iter'), 'second': Not(dup)})
    if 'set' in d.get('q', ''):
        x = vs[0]
        dup = Or(*[And(h, veq(x, y)) for h, y in v.e])
        L.wr(o, lambda m: L.set_insert(m, x), n)
        return StructV('std::pair', {'first': Opaque('insert-iter'), 'second': Not(dup)})
    it = vs[0]
    if type(it) is IterV and len(vs) == 3 and type(vs[1]) is IterV:
        sl = L.slice(vs[1], vs[2])
        L.wr(o, lambda m: VecV(m.e[:it.i] + sl.e + m.e[it.i:]), n)
        return it
    if type(it) is IterV and len(vs) == 2:
        L.wr(o, lambda m: VecV(m.e[:it.i] + ((TRUE, vs[1]),) + m.e[it.i:]), n)
        return it
    raise Unsupported('insert')
@reg(('C', 'emplace'), ('C', 'try_emplace'), ('C', 'insert_or_assign'))
def c_emplace(L, d, o, a, n):
    vs = L.vals(d, a)
    v = L.I.read(o, n)
    if type(v) is not MapV: raise Unsupported('%s on %s' % (d['n'], type(v).__name__))
    if len(vs) == 1 and type(vs[0]) is StructV and vs[0].cls.startswith('std::pair'): vs = [vs[0].f['first'], vs[0].f['second']]
    if len(vs) != 2: raise Unsupported('%s with %d args' % (d['n'], len(vs)))
    dup = Or(*[And(h, keyeq(vs[0], k2)) for h, k2, _ in v.e])
    L.wr(o, lambda m: L.map_insert(m, vs[0], vs[1], TRUE, d['n'] == 'insert_or_assign'), n)
    return StructV('std::pair', {'first': Opaque('insert-iter'), 'second': Not(dup)})
@reg(('C', 'erase'))
def c_erase(L, d, o, a, n):
    vs = L.vals(d, a)
    v = L.I.read(o, n)
    it = vs[0]
    if type(it) is IterV:
        it = L.settle(it)
        lv = it.c; v = L.I.load(lv)
        if len(vs) == 2:
            e = v.e[:it.i] + v.e[vs[1].i:]
        else:
            if it.i >= len(v.e): L.I.oblige('erase-end', FALSE, n)
            e = v.e[:it.i] + v.e[it.i + 1:]
        L.I.store(lv, type(v)(e))
        return IterV(lv, it.i)
    if type(v) is MapV:
        hit = Or(*[And(g, keyeq(k, it)) for g, k, _ in v.e])
        L.wr(o, lambda m: MapV([(And(g, Not(keyeq(k, it))), k, x) for g, k, x in m.e if And(g, Not(keyeq(k, it))) is not FALSE]), n)
        return Ite(hit, I(1), I(0))
    raise Unsupported('erase')
@reg(('C', 'find'))
def c_find(L, d, o, a, n):
    I_ = L.I
    v = I_.read(o, n)
    vs = L.vals(d, a)
    if type(v) is T: return str_find(L, v, vs, n)
    lv = L.lv1(o, n); v = I_.load(lv)
    key = vs[0]
    from .interp import Out
    outs = []; none = []
    items = [(g, k) for g, k, _ in v.e] if type(v) is MapV else list(v.e)
    for i, (g, k) in enumerate(items):
        c = And(g, keyeq(key, k), *none)
        if c is not FALSE: outs.append(Out('normal', I_.st.fork(c), IterV(lv, i)))
        none.append(Not(And(g, keyeq(key, k))))
        if And(*none) is FALSE: break
    c = And(*none)
    if c is not FALSE: outs.append(Out('normal', I_.st.fork(c), IterV(lv, len(items))))
    outs = [x for x in outs if And(*x.st.pc) is not FALSE]
    return I_.choose(outs)
@reg(('C', 'count'))
def c_count(L, d, o, a, n):
    v = L.I.read(o, n); key = L.vals(d, a)[0]
    if type(v) is MapV: return Ite(Or(*[And(g, keyeq(key, k)) for g, k, _ in v.e]), I(1), I(0))
    return Ite(Or(*[And(g, keyeq(key, k)) for g, k in v.e]), I(1), I(0))
@reg(('C', 'contains'))
def c_contains(L, d, o, a, n): return Ne(c_count(L, d, o, a, n), I(0))
def map_index(L, d, o, key, n):
    I_ = L.I
    lv = L.lv1(o, n); v = I_.load(lv)
    at = d['n'] == 'at'
    mt = I_.frames[-1].types[d['rt']].deref()
    hit = Or(*[And(g, keyeq(key, k)) for g, k, _ in v.e])
    if at:
        I_.oblige('map-at', hit, n)
    elif hit is not TRUE:
        dv = I_.default(mt)
        v2 = L.map_insert(v, key, dv, TRUE, False)
        I_.store(lv, v2); v = v2
    alts = []
    for i, (g, k, _) in enumerate(v.e):
        c = And(g, keyeq(key, k))
        if c is not FALSE: alts.append((c, lv.sub(i).sub('second')))
    return normalts(alts)
@reg(('C', 'substr'))
def s_substr(L, d, o, a, n):
    v = L.I.read(o, n); vs = L.vals(d, a)
    pos = vs[0]; cnt = vs[1] if len(vs) > 1 else I((1 << 64) - 1)
    L.I.oblige('substr-range', Le(pos, Len(v)), n)
    rest = Sub(Len(v), pos)
    if isc(cnt) and cnt.val == (1 << 64) - 1: return Substr(v, pos, rest)
    return Substr(v, pos, Ite(Lt(cnt, rest), cnt, rest))
def npos(): return I((1 << 64) - 1)
def str_find(L, v, vs, n, start=None):
    pat = vs[0]
    if type(pat) is T and pat.sort == 'I': pat = Unit(pat)
    st = vs[1] if len(vs) > 1 else I(0)
    if isc(v) and isc(pat) and isc(st):
        r = v.val.find(pat.val, st.val); return I(r) if r >= 0 else npos()
    u = unitlist(v); p = unitlist(pat)
    if u is not None and p is not None and isc(st):
        r = npos()
        for k in range(len(u) - len(p), st.val - 1, -1):
            r = Ite(And(*[Eq(u[k + j], p[j]) for j in range(len(p))]), I(k), r)
        return r
    if isc(st) and st.val == 0 and isc(pat): return Ite(Contains(v, pat), App('strfind', 'I', v, pat), npos())
    raise Unsupported('string find')
def _cls(L, v, vs, inc):
    u = unitlist(v)
    pat = vs[0]
    if type(pat) is T and pat.sort == 'I': pat = Unit(pat)
    p = unitlist(pat)
    if u is None or p is None: raise Unsupported('find_first/last_of on symbolic string')
    m = [Or(*[Eq(x, y) for y in p]) for x in u]
    return m if inc else [Not(x) for x in m]
def ffo(inc, last):
    def f(L, d, o, a, n):
        v = L.I.read(o, n); vs = L.vals(d, a)
        if type(v) is T and v.op == 'app' and v.val == 'itoa' and type(vs[0]) is T and vs[0].sort == 'S' and isc(vs[0]) and (len(vs) == 1 or isc(vs[1])):
            # the decimal text of an integer holds digits and '-' only
            if not inc and set('0123456789-') <= set(vs[0].val) or inc and not set('0123456789-') & set(vs[0].val): return npos()
        pat = vs[0]
        if (len(vs) == 1 or isc(vs[1])) and type(pat) is T and isc(pat) and unitlist(v) is None:
            # an unknown text: some position in it, or none (nothing else is known)
            r = App('strfindof:%d%d' % (inc, last), 'I', v, pat if pat.sort == 'S' else Unit(pat))
            L.I.st.assume(Or(Eq(r, npos()), And(Ge(r, I(0)), Lt(r, Len(v))))); return r
        m = _cls(L, v, vs, inc)
        r = npos()
        rng = range(len(m)) if last else range(len(m) - 1, -1, -1)
        if len(vs) > 1 and isc(vs[1]) and not last: rng = range(len(m) - 1, vs[1].val - 1, -1)
        for k in rng: r = Ite(m[k], I(k), r)
        return r
    return f
TABLE[('C', 'find_first_of')] = ffo(True, False); TABLE[('C', 'find_first_not_of')] = ffo(False, False)
TABLE[('C', 'find_last_of')] = ffo(True, True); TABLE[('C', 'find_last_not_of')] = ffo(False, True)
@reg(('C', 'append'), ('C', 'operator+='))
def s_append(L, d, o, a, n):
    x = L.vals(d, a)[0]
    if type(x) is T and x.sort == 'I': x = Unit(x)
    L.wr(o, lambda v: Concat(v, x), n); return o
@reg(('C', 'compare'))
def s_compare(L, d, o, a, n):
    v = L.I.read(o, n); x = L.vals(d, a)[0]
    return Ite(Eq(v, x), I(0), Ite(Lex(v, x), I(-1), I(1)))
@reg(('C', 'replace'))
def s_replace(L, d, o, a, n):
    v = L.I.read(o, n); vs = L.vals(d, a)
    u = unitlist(v)
    if u is None or not isc(vs[0]) or not isc(vs[1]): raise Unsupported('string replace')
    r = Concat(*[Unit(x) for x in u[:vs[0].val]], vs[2], *[Unit(x) for x in u[vs[0].val + vs[1].val:]])
    L.I.write(o, r); return o

# ---- free string functions
@reg('std::operator+')
def s_plus(L, d, o, a, n):
    vs = L.vals(d, a)
    if type(vs[0]) is IterV: return L.advance(vs[0], vs[1].val)
    return Concat(*[Unit(x) if x.sort == 'I' else x for x in vs])
def cmpop(op):
    def f(L, d, o, a, n):
        x, y = L.vals(d, a)
        if type(x) is OptV or type(y) is OptV:
            if type(x) is Opaque: x = OptV(FALSE, None)
            if type(y) is Opaque: y = OptV(FALSE, None)
            if type(x) is not OptV: x = OptV(TRUE, x)
            if type(y) is not OptV: y = OptV(TRUE, y)
            if x.v is None or y.v is None: e = And(Not(x.has), Not(y.has))
            else: e = And(Eq(x.has, y.has), Implies(x.has, L.cppeq(x.v, y.v, n)))
            if op == '==': return e
            if op == '!=': return Not(e)
            raise Unsupported('optional compare ' + op)
        if type(x) is IterV or type(y) is IterV:
            e = L.it_eq(x, y); return e if op == '==' else Not(e)
        if type(x) is PtrV or type(y) is PtrV:
            if type(x) is PtrV and type(y) is PtrV:
                e = ptreq(x, y)
            elif type(x) is PtrV: e = isnull(x)
            else: e = isnull(y)
            return e if op == '==' else Not(e)
        if type(x) is VecV and type(y) is VecV and op in ('==', '!='):
            e = L.seq_cppeq(x, y, n); return e if op == '==' else Not(e)
        if type(x) is T and type(y) is T and x.sort == 'S':
            if op == '==': return Eq(x, y)
            if op == '!=': return Ne(x, y)
            if op == '<': return Lex(x, y)
            if op == '>': return Lex(y, x)
            if op == '<=': return Not(Lex(y, x))
            if op == '>=': return Not(Lex(x, y))
        if type(x) is FnV or type(y) is FnV: return B(op == '!=')
        if type(x) is StructV and type(y) is StructV and x.cls == 'std::pair':
            e = And(L.cppeq(x.f['first'], y.f['first'], n), L.cppeq(x.f['second'], y.f['second'], n)); return e if op == '==' else Not(e)
        if type(x) is T and x.sort.startswith('U:') and op in ('==', '!='):
            e = sameU(x, y); return e if op == '==' else Not(e)
        if type(x) is T and type(y) is T: return L.I.binop(op, x, y, None, n)
        raise Unsupported('std::operator%s on %r %r' % (op, x, y))
    return f
for op in ('==', '!=', '<', '>', '<=', '>='):
    TABLE['std::operator' + op] = cmpop(op); TABLE['__gnu_cxx::operator' + op] = cmpop(op)
def sameU(x, y):
    """equality of opaque values as decided by their own operator== (contract: reflexive, symmetric)"""
    if not x.sort.startswith('U:'): return Eq(x, y)
    if x is y: return TRUE
    a, b = (x, y) if x.id < y.id else (y, x)
    return App('same', 'B', a, b)
def _cppeq(L, a, b, n):
    """element equality as the element type's operator== computes it"""
    I_ = L.I
    if type(a) is T and type(b) is T:
        return sameU(a, b)
    if type(a) is StructV:
        if a.cls == 'std::pair': return And(L.cppeq(a.f['first'], b.f['first'], n), L.cppeq(a.f['second'], b.f['second'], n))
        short = a.cls.rsplit('::', 1)[0]
        cands = []
        for q, fs in I_.P.byq.items():
            if q.endswith('::operator=='):
                for f in fs:
                    ps = [f.types[p['t']].deref() for p in f.params]
                    if len(ps) == 2 and all(p.name.replace('const ', '') == a.cls for p in ps): cands.append((f, False))
                    if len(ps) == 1 and f.d.get('cls') == a.cls: cands.append((f, True))
        if not cands: raise Unsupported('no operator== for ' + a.cls)
        f, mem = cands[0]
        pa, pb = I_.tmp(a), I_.tmp(b)
        c = I_.contracts.get(f.f)
        if c: return c(I_, f.d, pa if mem else None, [pb] if mem else [pa, pb], n)
        return I_.call_fn(f, pa, [pb]) if mem else I_.call_fn(f, None, [pa, pb])
    if type(a) is VecV: return L.seq_cppeq(a, b, n)
    if type(a) is OptV:
        if a.v is None or b.v is None: return And(Not(a.has), Not(b.has))
        return And(Eq(a.has, b.has), Implies(a.has, L.cppeq(a.v, b.v, n)))
    if type(a) is PtrV and type(b) is PtrV: return ptreq(a, b)
    return veq(a, b)
Lib.cppeq = _cppeq
def _seq_cppeq(L, x, y, n):
    ea, eb = list(x.e), list(y.e)
    memo = {}
    def r(i, j):
        if (i, j) in memo: return memo[i, j]
        if i == len(ea) and j == len(eb): v = TRUE
        elif i == len(ea): v = And(*[Not(g) for g, _ in eb[j:]])
        elif j == len(eb): v = And(*[Not(g) for g, _ in ea[i:]])
        else:
            (g, a), (h, b) = ea[i], eb[j]
            both = And(L.cppeq(a, b, n), r(i + 1, j + 1))
            v = Ite(g, Ite(h, both, r(i, j + 1) if h is not TRUE else FALSE), r(i + 1, j) if g is not TRUE else FALSE)
        memo[i, j] = v
        return v
    return r(0, 0)
Lib.seq_cppeq = _seq_cppeq

# ---- iterators
@reg(('IT', 'operator*'))
def it_deref(L, d, o, a, n): return L.deref(o, n)
@reg(('IT', 'operator->'))
def it_arrow(L, d, o, a, n): return L.deref(o, n)
@reg(('IT', 'operator++'))
def it_inc(L, d, o, a, n):
    it = L.I.read(o); r = L.advance(it, 1); L.I.write(o, r)
    return it if a else o
@reg(('IT', 'operator--'))
def it_dec(L, d, o, a, n):
    it = L.I.read(o); r = L.advance(it, -1); L.I.write(o, r)
    return it if a else o
@reg(('IT', 'operator+'))
def it_add(L, d, o, a, n):
    k = L.vals(d, a)[0]
    if not isc(k): raise Unsupported('symbolic iterator offset')
    return L.advance(L.I.read(o), k.val)
@reg(('IT', 'operator-'))
def it_sub(L, d, o, a, n):
    k = L.vals(d, a)[0]
    if not isc(k): raise Unsupported('symbolic iterator offset')
    it = L.I.read(o)
    v = L.I.load(it.c)
    if type(v) is T and unitlist(v) is None: return IterV(it.c, it.i - k.val, it.rev)
    return L.advance(it, -k.val)
@reg(('IT', 'operator+='))
def it_addeq(L, d, o, a, n):
    L.I.write(o, it_add(L, d, o, a, n)); return o
@reg(('IT', 'operator='))
def it_asg(L, d, o, a, n):
    L.I.write(o, L.vals(d, a)[0]); return o
@reg(('IT', 'operator=='))
def it_e(L, d, o, a, n): return L.it_eq(o, a[0])
@reg(('IT', 'operator!='))
def it_ne(L, d, o, a, n): return Not(L.it_eq(o, a[0]))
@reg(('IT', 'base'))
def it_base(L, d, o, a, n):
    it = L.I.read(o); return IterV(it.c, it.i)
@reg('__gnu_cxx::operator-')
def it_diff(L, d, o, a, n):
    x, y = L.vals(d, a)
    v = L.I.load(x.c); gs = L.guards(v)
    lo, hi = min(x.i, y.i), max(x.i, y.i)
    r = Add(I(0), *[Ite(g, I(1), I(0)) for g in gs[lo:hi]])
    return r if x.i >= y.i else Neg(r)

# ---- smart pointers
@reg(('P', 'operator*'), ('P', 'operator->'), ('P', 'get'), ('P', 'lock'))
def p_deref(L, d, o, a, n):
    p = L.I.read(o, n)
    if d['n'] in ('operator*', 'operator->'): L.I.live(p, n)
    return p
@reg(('P', 'convert'))
def p_bool(L, d, o, a, n): return Not(isnull(L.I.read(o, n)))
@reg(('P', 'operator='), ('P', 'reset'))
def p_asg(L, d, o, a, n):
    x = L.vals(d, a)[0] if a else NULL
    if type(x) is not PtrV: x = NULL
    L.I.write(o, x, n)
    pt = L.pt(d, 0) if a else None
    if pt is not None and pt.k == 'rref' and type(a[0]) is PtrV and n.get('a') and n['a'][-1].get('lv') and n['a'][-1]['k'] not in ('mat',):
        L.I.write(a[0], NULL)
    return o
@reg(('P', 'release'))
def p_rel(L, d, o, a, n):
    p = L.I.read(o); L.I.write(o, NULL); return p
@reg(('P', 'use_count'))
def p_uc(L, d, o, a, n): return L.I.fresh('use_count', 'I')
def _mk(L, d, o, a, n):
    I_ = L.I
    t = I_.ty(n)           # shared_ptr<X>
    x = t.targ(0)
    return L.make(x, d, a, n)
def _make(L, x, d, a, n):
    I_ = L.I
    if x.k == 'rec' and x.name in I_.P.recs:
        lv = I_.alloc(x.name, StructV(x.name, {}))
        if len(a) == 1:
            v = a[0]
            pv = I_.read(v) if type(v) is PtrV and (L.pt(d, 0) is None or L.pt(d, 0).k in ('lref', 'rref')) else v
            if type(pv) is StructV and pv.cls == x.name: I_.store(lv, pv); return ptr(lv)
        fn = pick_ctor(L, x.name, d, a)
        if fn is None and not a:
            I_.run_ctor(None, ptr(lv), [], x.name)
            return ptr(lv)
        if fn is None: raise Unsupported('constructor for make of %s' % x)
        I_.run_ctor(fn, ptr(lv), conv_args(L, fn, d, a), x.name)
        return ptr(lv)
    vs = L.vals(d, a)
    v = vs[0] if vs else I_.default(x)
    return ptr(I_.alloc(x.s, v))
Lib.make = _make
TABLE['std::make_shared'] = _mk; TABLE['std::make_unique'] = _mk
def simple(t):
    t = t.deref(); s = t.nq
    return s
def pick_ctor(L, cls, d, a):
    """constructor of cls applicable to the argument list (by arity, then by type closeness)"""
    P = L.I.P
    c = []
    for m in P.recs[cls].methods:
        fn = P.funcs.get(m['f'])
        if fn is None or not fn.f.startswith('C:') and ':C:' not in fn.f: continue
        if len(fn.params) == len(a) and fn.d.get('cc') not in ('copy', 'move') : c.append(fn)
    if len(c) <= 1: return c[0] if c else None
    def score(fn):
        s = 0
        for i, p in enumerate(fn.params):
            pt = fn.types[p['t']].deref(); at = L.pt(d, i).deref() if L.pt(d, i) is not None else None
            if at is None: continue
            if pt.nq == at.nq: s += 3
            elif pt.k == at.k: s += 1
            v = a[i]; v = L.I.read(v) if type(v) is PtrV and L.pt(d, i).k in ('lref', 'rref') else v
            if type(v) is T and v.sort == 'S' and pt.tn.endswith('basic_string'): s += 2
        return s
    return max(c, key=score)
def conv_args(L, fn, d, a):
    out = []
    for i, (p, x) in enumerate(zip(fn.params, a)):
        t = fn.types[p['t']]
        if t.k not in ('lref', 'rref') and type(x) is PtrV and L.pt(d, i) is not None and L.pt(d, i).k in ('lref', 'rref'): x = L.I.read(x)
        if type(x) is T: x = L.I.conv(x, t.deref()) if x.sort != 'S' else x
        td = t.deref()
        if type(x) is T and x.sort == 'S' and td.k == 'rec' and not td.tn.endswith('basic_string') and td.name in L.I.P.recs:
            fn2 = pick_ctor(L, td.name, {'pt': []}, [x])
            x = L.I.construct(td.name, fn2, [x])
        out.append(x)
    return out
@reg('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const')
def f_move(L, d, o, a, n): return a[0]
@reg('std::make_pair')
def f_pair(L, d, o, a, n):
    x, y = L.vals(d, a)
    t = L.I.ty(n)
    return StructV('std::pair', {'first': x, 'second': y})
@reg('std::dynamic_pointer_cast', 'std::static_pointer_cast')
def f_dpc(L, d, o, a, n):
    p = L.I.read(a[0]) if L.pt(d, 0).k in ('lref', 'rref') else a[0]
    tgt = L.I.ty(n).targ(0).name
    out = []
    for g, lv in p.alts:
        if lv is None: out.append((g, None)); continue
        v = L.I.load(lv)
        out.append((g, lv if type(v) is StructV and L.I.derives(v.cls, tgt) else None))
    return normalts(out)
@reg('std::begin', 'std::cbegin')
def f_begin(L, d, o, a, n): return c_begin(L, d, a[0], [], n)
@reg('std::end', 'std::cend')
def f_end(L, d, o, a, n): return c_end(L, d, a[0], [], n)
@reg('std::swap')
def f_swap(L, d, o, a, n):
    x, y = L.I.read(a[0]), L.I.read(a[1]); L.I.write(a[0], y); L.I.write(a[1], x); return VOID
@reg('std::distance')
def f_dist(L, d, o, a, n):
    x, y = L.vals(d, a); v = L.I.load(x.c); gs = L.guards(v)
    return Add(I(0), *[Ite(g, I(1), I(0)) for g in gs[x.i:y.i]])
@reg('std::next', 'std::prev')
def f_next(L, d, o, a, n):
    it = L.vals(d, a)[0]; k = a[1].val if len(a) > 1 else 1
    return L.advance(it, k if d['n'] == 'next' else -k)
@reg('std::advance')
def f_adv(L, d, o, a, n):
    it = L.I.read(a[0]); L.I.write(a[0], L.advance(it, a[1].val)); return VOID

# ---- optional / variant / function
@reg(('O', 'has_value'), ('O', 'convert'))
def o_has(L, d, o, a, n): return L.I.read(o, n).has
@reg(('O', 'operator*'), ('O', 'operator->'), ('O', 'value'))
def o_val(L, d, o, a, n):
    v = L.I.read(o, n)
    L.I.oblige('optional-access', v.has, n)
    if v.v is None: raise Infeasible()
    lv = L.lv1(o, n)
    return ptr(lv.sub('*'))
@reg(('O', 'value_or'))
def o_or(L, d, o, a, n):
    v = L.I.read(o, n); x = L.vals(d, a)[0]
    return x if v.v is None else mergev(v.has, v.v, x)
@reg(('O', 'operator='), ('O', 'emplace'))
def o_asg(L, d, o, a, n):
    x = L.vals(d, a)[0]
    if type(x) is Opaque: x = OptV(FALSE, None)
    if type(x) is not OptV: x = OptV(TRUE, x)
    L.I.write(o, x, n); return o
@reg('std::make_optional')
def f_mkopt(L, d, o, a, n):
    x = L.vals(d, a)
    if len(x) != 1: raise Unsupported('make_optional with %d args' % len(x))
    return OptV(TRUE, x[0])
@reg(('O', 'reset'))
def o_reset(L, d, o, a, n): L.I.write(o, OptV(FALSE, None), n); return VOID
@reg(('std::variant', 'index'))
def v_index(L, d, o, a, n): return L.I.read(o, n).idx
@reg(('std::variant', 'operator='))
def v_asg(L, d, o, a, n):
    x = L.vals(d, a)[0]
    if type(x) is VarV: L.I.write(o, x); return o
    I_ = L.I
    st = L.pt(d, 0).deref()
    vt = I_.ty(n).deref()
    for i in range(len(vt.d.get('ta', []))):
        if vt.targ(i).nq == st.nq: I_.write(o, VarV(I(i), {i: x})); return o
    raise Unsupported('variant assign from %s' % st)
@reg(('std::variant', 'emplace'))
def v_emplace(L, d, o, a, n):
    t = L.I.frames[-1].types[d['fta'][0]['t']] if isinstance(d['fta'][0], dict) else L.I.frames[-1].types[d['fta'][0]]
    vt = L.I.ty(n['o']).deref() if 'o' in n else None
    if vt is not None and vt.k == 'ptr': vt = vt.pointee()
    ta = [vt.targ(i).nq for i in range(len(vt.d.get('ta', [])))]
    i = ta.index(t.nq); vs = L.vals(d, a)
    x = vs[0] if len(vs) == 1 else L.I.default(t) if not vs else None
    if x is None: raise Unsupported('variant emplace')
    L.I.write(o, VarV(I(i), {i: x}), n); return ptr(LV(o.alts[0][1].root, o.alts[0][1].path)) if False else VOID
@reg('std::visit')
def std_visit(L, d, o, a, n):
    I_ = L.I
    if len(a) != 2: raise Unsupported('std::visit of several variants')
    f, v = a; v = I_.read(v) if type(v) is PtrV else v
    vt = I_.ty(n['a'][1]).deref(); ta = [vt.targ(i).nq for i in range(len(vt.d.get('ta', [])))]
    ks = sorted(v.alts)
    def go(j):
        k = ks[j]
        one = lambda: I_.call_value(f, [v.alts[k]], {'argtypes': [ta[k]]})
        return one() if j == len(ks) - 1 else I_.branch(Eq(v.idx, I(k)), one, lambda: go(j + 1))
    return go(0)
@reg('std::function::operator=')
def fn_asg(L, d, o, a, n):
    L.I.write(o, L.vals(d, a)[0]); return o
TABLE[('std::function', 'operator=')] = fn_asg
@reg(('std::function', 'convert'))
def fn_bool(L, d, o, a, n):
    v = L.I.read(o); return TRUE if type(v) is FnV else FALSE

# ---- algorithms
def _items(L, a, b):
    """element references between two iterators: (guard, PtrV)"""
    v = L.I.load(a.c)
    if type(v) is T: 
        u = unitlist(v)
        if u is None: raise Unsupported('algorithm on symbolic string')
        if a.rev: return [(TRUE, u[k]) for k in range(a.i - 1, b.i - 1, -1)]
        return [(TRUE, x) for x in u[a.i:b.i]]
    if a.rev: return [(v.e[k][0], ptr(a.c.sub(k))) for k in range(a.i - 1, b.i - 1, -1)]
    return [(v.e[k][0], ptr(a.c.sub(k))) for k in range(a.i, b.i)]
@reg('std::find_if', 'std::find')
def al_find_if(L, d, o, a, n):
    I_ = L.I; vs = L.vals(d, a)
    x, y, f = vs
    from .interp import Out
    def pred(p):
        if d['n'] == 'find':
            pv = I_.read(p) if type(p) is PtrV else p
            return L.cppeq(pv, f, n)
        r = I_.call_value(f, [p], n)
        return I_.tobool(I_.read(r) if type(r) is PtrV else r)
    its = _items(L, x, y)
    outs = []
    none = []
    for j, (g, p) in enumerate(its):
        c = pred(p)
        hit = And(g, c)
        outs.append((And(hit, *none), IterV(x.c, x.i - j if x.rev else x.i + j, x.rev)))
        none.append(Not(hit))
    outs.append((And(*none), y))
    res = []
    for c, v in outs:
        if c is FALSE: continue
        s = I_.st.fork(c)
        if And(*s.pc) is FALSE: continue
        res.append(Out('normal', s, v))
    return I_.choose(res)
@reg('std::any_of', 'std::all_of', 'std::none_of')
def al_any(L, d, o, a, n):
    I_ = L.I; x, y, f = L.vals(d, a)
    rs = []
    for g, p in _items(L, x, y):
        c = I_.tobool(I_.call_value(f, [p], n)); rs.append(And(g, c) if d['n'] != 'all_of' else Implies(g, c))
    return Or(*rs) if d['n'] == 'any_of' else And(*rs) if d['n'] == 'all_of' else Not(Or(*rs))
@reg('std::for_each')
def al_each(L, d, o, a, n):
    I_ = L.I; x, y, f = L.vals(d, a)
    for g, p in _items(L, x, y):
        I_.branch(g, lambda: (I_.call_value(f, [p], n), VOID)[1], lambda: VOID)
    return f
@reg('std::sort', 'std::stable_sort')
def al_sort(L, d, o, a, n):
    """insertion sort, which is what both do for few members"""
    I_ = L.I; vs = L.vals(d, a); x, y = vs[:2]
    if y.i - x.i <= 1: return VOID
    if any(g is not TRUE for g, _ in I_.load(x.c).e[x.i:y.i]) or len(vs) < 3 or y.i - x.i > 16: raise Unsupported('sort')
    def swap(j):
        e = list(I_.load(x.c).e); e[j], e[j - 1] = e[j - 1], e[j]; I_.store(x.c, VecV(tuple(e)))
    def ins(j):
        if j <= x.i: return VOID
        c = I_.tobool(I_.call_value(vs[2], [ptr(x.c.sub(j)), ptr(x.c.sub(j - 1))], n))
        return I_.branch(c, lambda: (swap(j), ins(j - 1), VOID)[-1], lambda: VOID)
    for j in range(x.i + 1, y.i): ins(j)
    return VOID
@reg('std::copy_if', 'std::copy')
def al_copy(L, d, o, a, n):
    I_ = L.I; vs = L.vals(d, a)
    x, y, out = vs[:3]
    for g, p in _items(L, x, y):
        c = g
        if d['n'] == 'copy_if': c = And(g, I_.tobool(I_.call_value(vs[3], [p], n)))
        if c is FALSE: continue
        out = emit(L, out, c, I_.read(p) if type(p) is PtrV else p)
    return out
def emit(L, out, c, v):
    I_ = L.I
    if type(out) is Opaque and out.tag == 'inserter':
        lv = out.d; cur = I_.load(lv)
        if type(cur) is VecV: I_.store(lv, VecV(cur.e + ((c, v),)))
        else: raise Unsupported('inserter target')
        return out
    if type(out) is IterV:
        if c is not TRUE: raise Unsupported('conditional output to iterator')
        cur = I_.load(out.c)
        if type(cur) is T:
            u = list(unitlist(cur)); u[out.i] = v; I_.store(out.c, Concat(*[Unit(x) for x in u]))
        else: I_.store(out.c.sub(out.i), v)
        return IterV(out.c, out.i + 1)
    raise Unsupported('output iterator')
@reg('std::inserter', 'std::back_inserter')
def al_ins(L, d, o, a, n):
    return Opaque('inserter', L.lv1(a[0], n))
@reg('std::transform')
def al_transform(L, d, o, a, n):
    I_ = L.I; vs = L.vals(d, a)
    x, y, out, f = vs
    for g, p in _items(L, x, y):
        r = I_.call_value(f, [p], n)
        if type(r) is PtrV and r.alts[0][1] is not None and type(I_.load(r.alts[0][1])) is not StructV: r = I_.read(r)
        if type(out) is IterV and type(I_.load(out.c)) is T:
            r = EMod(r, I(256)) if not isc(r) else r
        out = emit(L, out, g, r)
    return out
@reg('std::equal')
def al_equal(L, d, o, a, n):
    I_ = L.I; vs = L.vals(d, a)
    x, y, z = vs[:3]
    ia = _items(L, x, y)
    v = I_.load(z.c); ib = _items(L, z, IterV(z.c, len(v.e)))
    if len(vs) > 3 and type(vs[3]) is IterV: ib = _items(L, z, vs[3])
    f = vs[-1] if len(vs) > 3 and type(vs[-1]) is not IterV else None
    if any(g is not TRUE for g, _ in ia + ib): raise Unsupported('std::equal on guarded spine')
    if len(ib) < len(ia): I_.oblige('equal-range', FALSE, n)
    r = []
    for (_, p), (_, q_) in zip(ia, ib):
        if f is not None: r.append(I_.tobool(I_.call_value(f, [p, q_], n)))
        else: r.append(L.cppeq(I_.read(p), I_.read(q_), n))
    return And(*r)
@reg('std::max', 'std::min')
def al_max(L, d, o, a, n):
    x, y = L.vals(d, a)[:2]
    c = Lt(x, y) if d['n'] == 'max' else Lt(y, x)
    return L.I.tmp(Ite(c, y, x))
@reg('std::abs', 'abs', 'fabs', 'std::fabs')
def m_abs(L, d, o, a, n):
    x = L.vals(d, a)[0]; return Abs(x)
@reg('std::ceil', 'ceil')
def m_ceil(L, d, o, a, n): return ToReal(Neg(Floor(Neg(ToReal(L.vals(d, a)[0])))))
@reg('std::floor', 'floor')
def m_floor(L, d, o, a, n): return ToReal(Floor(ToReal(L.vals(d, a)[0])))
@reg('std::round', 'round')
def m_round(L, d, o, a, n):
    x = ToReal(L.vals(d, a)[0])
    h = R(Fraction(1, 2))
    return ToReal(Ite(Ge(x, R(0)), Floor(Add(x, h)), Neg(Floor(Add(Neg(x), h)))))
@reg('std::pow', 'pow')
def m_pow(L, d, o, a, n):
    x, y = L.vals(d, a)
    if isc(x) and isc(y) and y.val == int(y.val): return R(Fraction(x.val) ** int(y.val))
    return App('pow', 'R', ToReal(x), ToReal(y))
@reg('isdigit', 'std::isdigit')
def m_isdigit(L, d, o, a, n):
    c = L.vals(d, a)[0]; return Ite(And(Ge(c, I(48)), Le(c, I(57))), I(1), I(0))
@reg('toupper', 'std::toupper')
def m_upper(L, d, o, a, n):
    c = L.vals(d, a)[0]; return Ite(And(Ge(c, I(97)), Le(c, I(122))), Sub(c, I(32)), c)
@reg('tolower', 'std::tolower')
def m_lower(L, d, o, a, n):
    c = L.vals(d, a)[0]; return Ite(And(Ge(c, I(65)), Le(c, I(90))), Add(c, I(32)), c)
@reg('isspace', 'std::isspace')
def m_space(L, d, o, a, n):
    c = L.vals(d, a)[0]; return Ite(Or(Eq(c, I(32)), And(Ge(c, I(9)), Le(c, I(13)))), I(1), I(0))
@reg('strcmp', 'std::strcmp')
def m_strcmp(L, d, o, a, n):
    x, y = L.vals(d, a); return Ite(Eq(x, y), I(0), I(1))
@reg('std::to_string')
def m_tostr(L, d, o, a, n):
    x = L.vals(d, a)[0]
    if x.sort == 'I': return itoa(x)
    return App('dfix6', 'S', x)
def itoa(x):
    if isc(x): return S(str(x.val))
    return App('itoa', 'S', x)
def dtoa(x, mode='g'):
    return App('dtoa_' + mode, 'S', x)
@reg('atoi', 'std::atoi')
def m_atoi(L, d, o, a, n): return L.atoi(L.vals(d, a)[0])
@reg('std::stoi', 'std::stol', 'std::stoll')
def m_stoi(L, d, o, a, n): return L.atoi(L.vals(d, a)[0])
def _atoi(L, s):
    """value of the leading integer of s"""
    if s.op == 'app' and s.val == 'itoa': return s.args[0]
    if s.op == 'ite': return Ite(s.args[0], L.atoi(s.args[1]), L.atoi(s.args[2]))
    if isc(s):
        import re as _re
        m = _re.match(r'\s*([+-]?\d+)', s.val)
        return I(int(m.group(1))) if m else I(0)
    u = unitlist(s)
    if u is not None and len(u) < 12:
        # [sign] digits*
        def dig(c): return And(Ge(c, I(48)), Le(c, I(57)))
        def rest(k, acc):
            if k == len(u): return acc
            return Ite(dig(u[k]), rest(k + 1, Add(Mul(I(10), acc), Sub(u[k], I(48)))), acc)
        if not u: return I(0)
        pos = rest(0, I(0))
        sg = rest(1, I(0))
        return Ite(Eq(u[0], I(45)), Neg(sg), Ite(Eq(u[0], I(43)), sg, pos))
    return App('atoi', 'I', s)
Lib.atoi = _atoi

# ---- streams
def put(L, o, tok, n=None):
    def f(v):
        if type(v) is not StructV or 'toks' not in v.f: raise Unsupported('stream write to %r' % (v,))
        w = v.f.get('width')
        t = tok
        if w is not None and not (isc(w) and w.val == 0):
            t = pad(tok, w, v.f['fill']); v = v.set('width', I(0))
        e = v.f['toks'].e
        if isc(t) and t.val == '': return v
        if e and e[-1][0] is TRUE and type(e[-1][1]) is T and t.op != 'app':
            return v.set('toks', TokV(e[:-1] + ((TRUE, Concat(e[-1][1], t)),)))
        return v.set('toks', TokV(e + ((TRUE, t),)))
    L.wr(o, f, n)
    return o
def pad(t, w, fill):
    k = knownlen(t)
    if k is not None and isc(w): return Concat(*[Unit(fill)] * max(0, w.val - k), t)
    if t.op == 'app' and t.val == 'itoa' and isc(w) and isc(fill): return App('itoapad', 'S', t.args[0], w, fill)
    if t.op == 'ite': return Ite(t.args[0], pad(t.args[1], w, fill), pad(t.args[2], w, fill))
    raise Unsupported('setw on symbolic text')
def fmt(L, o, x, t):
    if type(x) is PtrV:
        raise Unsupported('stream output of pointer')
    if x.sort == 'S': return x
    if t is not None and t.is_char: return Unit(x)
    if x.sort == 'B': return Ite(x, S('1'), S('0'))
    if x.sort == 'I':
        return itoa(x) if not (x.op == 'ite') else mapleaves(x, itoa)
    if x.sort == 'R': return L.fmt_real(o, x)
    raise Unsupported('stream output %r' % (x,))
def _fmt_real(L, o, x):
    v = L.I.read(o)
    fl = v.f['flags']; pr = v.f['prec']
    if x.op == 'toreal' and isc(fl) and fl.val == 0 and False: return itoa(x.args[0])
    if not isc(fl) or not isc(pr): raise Unsupported('symbolic stream flags')
    return App('dtoa', 'S', x, pr, fl)
Lib.fmt_real = _fmt_real
@reg(('OS', 'operator<<'))
def os_ins(L, d, o, a, n):
    x = a[0]
    pt = L.pt(d, 0)
    if type(x) is FnV: return manip(L, o, x, n)
    x = L.vals(d, a)[0]
    return put(L, o, fmt(L, o, x, pt.deref() if pt else None), n)
def manip(L, o, x, n):
    q = x.d['n'] if x.kind == 'fn' else ''
    if q == 'endl': return put(L, o, S('\n'), n)
    if q in ('flush',): return o
    if q == 'fixed': L.wr(o, lambda v: v.set('flags', I(4))); return o
    if q == 'hex': L.wr(o, lambda v: v.set('flags', I(8))); return o
    if q == 'dec': L.wr(o, lambda v: v.set('flags', I(0))); return o
    if q == 'uppercase': return o
    if x.kind == 'py': return x.d(L.I, [o], n)
    raise Unsupported('manipulator ' + q)
@reg('std::operator<<')
def f_ins(L, d, o, a, n):
    os, x = a[0], L.vals(d, a)[1]
    if type(os) is not PtrV: os = L.I.tmp(os)
    if type(x) is Opaque and x.tag == 'setw': L.wr(os, lambda v: v.set('width', x.d)); return os
    if type(x) is Opaque and x.tag == 'setfill': L.wr(os, lambda v: v.set('fill', x.d)); return os
    if type(x) is Opaque and x.tag == 'setprec': L.wr(os, lambda v: v.set('prec', x.d)); return os
    pt = L.pt(d, 1).deref()
    if type(x) is T and x.sort == 'I': return put(L, os, Unit(x), n)
    return put(L, os, fmt(L, os, x, None), n)
@reg('std::endl')
def f_endl(L, d, o, a, n): return put(L, a[0], S('\n'), n)
@reg('std::setw')
def f_setw(L, d, o, a, n): return Opaque('setw', L.vals(d, a)[0])
@reg('std::setfill')
def f_setfill(L, d, o, a, n): return Opaque('setfill', L.vals(d, a)[0])
@reg('std::setprecision')
def f_setprec(L, d, o, a, n): return Opaque('setprec', L.vals(d, a)[0])
@reg(('OS', 'fill'))
def os_fill(L, d, o, a, n):
    old = L.I.read(o).f['fill']
    if a:
        x = L.vals(d, a)[0]; L.wr(o, lambda v: v.set('fill', x))
    return old
@reg(('OS', 'width'))
def os_width(L, d, o, a, n):
    old = L.I.read(o).f['width']
    if a:
        x = L.vals(d, a)[0]; L.wr(o, lambda v: v.set('width', x))
    return old
@reg(('OS', 'precision'))
def os_prec(L, d, o, a, n):
    old = L.I.read(o).f['prec']
    if a:
        x = L.vals(d, a)[0]; L.wr(o, lambda v: v.set('prec', x))
    return old
@reg(('OS', 'flags'), ('OS', 'setf'))
def os_flags(L, d, o, a, n):
    old = L.I.read(o).f['flags']
    if a:
        x = L.vals(d, a)[0]; L.wr(o, lambda v: v.set('flags', x))
    return old
@reg('std::operator|')
def f_or(L, d, o, a, n):
    x, y = L.vals(d, a)
    return I(x.val | y.val)
@reg(('OS', 'str'))
def os_str(L, d, o, a, n):
    v = L.I.read(o, n)
    if a:
        x = L.vals(d, a)[0]; L.wr(o, lambda w: w.set('in', x).set('toks', TokV(((TRUE, x),)))); return VOID
    return tok_string(v.f['toks'])
def tok_string(tk):
    r = S('')
    for g, t in tk.e: r = Concat(r, t) if g is TRUE else Concat(r, Ite(g, t, S('')))
    return r
@reg(('OS', 'eof'))
def os_eof(L, d, o, a, n): return L.I.read(o).f['eof']
@reg(('OS', 'fail'))
def os_fail(L, d, o, a, n): return L.I.read(o).f['fail']
@reg(('OS', 'good'))
def os_good(L, d, o, a, n):
    v = L.I.read(o); return And(Not(v.f['fail']), Not(v.f['eof']))
@reg(('OS', 'convert'))
def os_bool(L, d, o, a, n): return Not(L.I.read(o).f['fail'])
@reg(('OS', 'operator>>'), 'std::operator>>')
def os_ext(L, d, o, a, n):
    I_ = L.I
    if o is None: o, tgt = a[0], a[1]
    else: tgt = a[0]
    v = I_.read(o)
    s = v.f.get('in')
    if s is None or type(s) is not T: s = tok_string(v.f['toks'])
    pt = (L.pt(d, len(d['pt']) - 1)).deref()
    tv = tgt if type(tgt) is FnV else (I_.read(tgt) if type(tgt) is PtrV else None)
    if type(tv) is FnV and tv.kind == 'fn' and tv.d.get('q', '').replace('::__cxx11', '') == 'std::ws':
        rest = ws_rest(s)
        L.wr(o, lambda w: w.set('in', Ite(w.f['eof'], s, rest)).set('fail', Or(w.f['fail'], w.f['eof'])).set('eof', Or(w.f['eof'], Eq(Len(rest), I(0)))))
        return o
    h = L.extract(s, pt)
    if h is None: raise Unsupported('stream extraction of %s from %r' % (pt, s))
    val, ok, rest, eof = h
    cur = I_.read(tgt)
    I_.write(tgt, mergev(ok, val, cur) if val.sort == 'S' or True else val)
    L.wr(o, lambda w: w.set('in', rest).set('fail', Or(w.f['fail'], Not(ok))).set('eof', eof))
    return o
@reg('std::getline')
def m_getline(L, d, o, a, n):
    I_ = L.I; src, tgt = a[0], a[1]
    v = I_.read(src); s = v.f.get('in')
    if type(s) is T and s.op == 'app' and s.val == 'itoa' and v.f['eof'] is FALSE and v.f['fail'] is FALSE:
        dl = I_.read(a[2]) if len(a) > 2 and type(a[2]) is PtrV else (a[2] if len(a) > 2 else I(10))
        if type(dl) is T and isc(dl) and chr(dl.val) not in '0123456789-':
            I_.write(tgt, s); L.wr(src, lambda w: w.set('in', S('')).set('eof', TRUE)); return src
    if type(s) is not T or not isc(s) or v.f['eof'] not in (TRUE, FALSE): raise Unsupported('getline from a text that is not known')
    dl = I_.read(a[2]) if len(a) > 2 and type(a[2]) is PtrV else (a[2] if len(a) > 2 else I(10))
    if type(dl) is not T or not isc(dl): raise Unsupported('getline delimiter')
    if v.f['eof'] is TRUE or v.f['fail'] is TRUE: L.wr(src, lambda w: w.set('fail', TRUE)); return src
    t, sep, rest = s.val.partition(chr(dl.val))
    I_.write(tgt, S(t))
    L.wr(src, lambda w: w.set('in', S(rest)).set('fail', B(s.val == '')).set('eof', B(not sep)))
    return src
def ws_rest(s):
    """text after leading white space"""
    if s.op == 'ite': return Ite(s.args[0], ws_rest(s.args[1]), ws_rest(s.args[2]))
    if isc(s): return S(s.val.lstrip(' \t\n\v\f\r'))
    return App('lstrip', 'S', s)
def _extract(L, s, pt):
    """(value, ok, rest, eof) of formatted extraction from text s"""
    if s.op == 'ite':
        a = L.extract(s.args[1], pt); b = L.extract(s.args[2], pt)
        if a is None or b is None: return None
        c = s.args[0]
        return Ite(c, a[0], b[0]), Ite(c, a[1], b[1]), Ite(c, a[2], b[2]), Ite(c, a[3], b[3])
    if pt.is_int and not pt.is_char and not pt.is_bool:
        if s.op == 'app' and s.val == 'itoa': return s.args[0], TRUE, S(''), TRUE
        if isc(s):
            import re as _re
            m = _re.match(r'\s*([+-]?\d+)', s.val)
            if not m: return I(0), FALSE, s, B(s.val.strip() == '')
            return I(int(m.group(1))), TRUE, S(s.val[m.end():]), B(m.end() == len(s.val))
        u = unitlist(s)
        if u and len(u) <= 9:
            dg = And(*[And(Ge(c, I(48)), Le(c, I(57))) for c in u]); v = Add(*[Mul(I(10 ** (len(u) - 1 - i)), Sub(c, I(48))) for i, c in enumerate(u)])
            return (Ite(dg, v, App('strtol', 'I', s)), Or(dg, App('strtol_ok', 'B', s)), Ite(dg, S(''), App('strtol_rest', 'S', s)), Or(dg, App('strtol_eof', 'B', s)))
        return App('strtol', 'I', s), App('strtol_ok', 'B', s), App('strtol_rest', 'S', s), App('strtol_eof', 'B', s)
    if pt.is_float:
        if s.op == 'app' and s.val == 'dec2s': return s.args[0], TRUE, S(''), TRUE
        if s.op == 'app' and s.val == 'dfix6':
            from .datatypes import q6
            return q6(s.args[0]), TRUE, S(''), TRUE      # std::to_string keeps six digits
        if s.op == 'app' and s.val == 'dtoa': return App('drnd', 'R', s.args[0], s.args[1]), TRUE, S(''), TRUE
        if s.op == 'app' and s.val == 'itoa': return ToReal(s.args[0]), TRUE, S(''), TRUE
        if isc(s):
            import re as _re
            m = _re.match(r'\s*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)', s.val)
            if not m: return R(0), FALSE, s, B(s.val.strip() == '')
            return R(Fraction(m.group(1))), TRUE, S(s.val[m.end():]), B(m.end() == len(s.val))
        return App('strtod', 'R', s), App('strtod_ok', 'B', s), App('strtod_rest', 'S', s), App('strtod_eof', 'B', s)
    return None
Lib.extract = _extract
@reg(('std::exception', 'what'), ('std::runtime_error', 'what'))
def ex_what(L, d, o, a, n):
    v = L.I.read(o); return v.f.get('msg', S('?')) if type(v) is StructV else S('?')
@reg('std::numeric_limits::max', 'std::numeric_limits::min')
def nl_max(L, d, o, a, n):
    t = L.rt(d) if hasattr(L, 'rt') else None
    mx = d['n'] == 'max'
    if t is None: t = L.I.ty(n)
    if t.is_int:
        w, sg = t.d['w'], t.d['sg']
        return I(((1 << (w - 1 if sg else w)) - 1) if mx else (-(1 << (w - 1)) if sg else 0))
    if t.is_float: return Var('FLT_MAX' if mx else 'FLT_MIN', 'R')
    raise Unsupported('numeric_limits')
@reg('time', 'std::time')
def m_time(L, d, o, a, n): return L.I.fresh('time', 'I')
