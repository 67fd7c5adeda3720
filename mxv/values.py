from .terms import *

class Unsupported(Exception): pass
class MergeFail(Exception): pass
class Infeasible(Exception): pass

class StructV:
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls = cls; self.f = f
    def set(self, k, v): d = dict(self.f); d[k] = v; return StructV(self.cls, d)
    def __repr__(self): return '%s{%s}' % (self.cls.split('::')[-1], ', '.join('%s=%r' % kv for kv in self.f.items()))
class VecV:
    """guarded spine: tuple of (guard, value)"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = tuple(e)
    def __repr__(self): return '[%s]' % ', '.join(repr(v) if g is TRUE else '%r?%r' % (g, v) for g, v in self.e)
class SeqV:
    """sequence of symbolic length n >= 0; elem(index term) -> value.  Immutable; key identifies it."""
    __slots__ = ('key', 'n', 'elem')
    def __init__(self, key, n, elem): self.key = key; self.n = n; self.elem = elem
    def __eq__(self, o): return isinstance(o, SeqV) and self.key == o.key
    def __hash__(self): return hash(self.key)
    def __repr__(self): return 'Seq(%s)' % (self.key,)
class TokV:
    """output stream contents: tuple of (guard, S-term)"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = tuple(e)
    def __repr__(self): return 'TOK[%s]' % ', '.join(repr(v) if g is TRUE else '%r?%r' % (g, v) for g, v in self.e)
class MapV:
    """tuple of (guard, key, value)"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = tuple(e)
    def __repr__(self): return 'MAP{%s}' % ', '.join('%r%r: %r' % (g, k, v) for g, k, v in self.e[:10])
class PtrV:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = tuple(alts)
    def __repr__(self): return 'Ptr(%s)' % ' | '.join('%r->%r' % (g, t) if g is not TRUE else repr(t) for g, t in self.alts)
class LV:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = path
    def __eq__(self, o): return isinstance(o, LV) and self.root == o.root and self.path == o.path
    def __hash__(self): return hash((self.root, self.path))
    def sub(self, k): return LV(self.root, self.path + (k,))
    def __repr__(self): return '%s%s' % (self.root, ''.join('.%s' % (p,) for p in self.path))
class FnV:
    __slots__ = ('kind', 'd')   # kind: 'fn' fref dict | 'mfn' fref | 'lam' (node, types, captures, this) | 'mfield' | 'py' callable
    def __init__(self, kind, d): self.kind = kind; self.d = d
    def __eq__(self, o): return isinstance(o, FnV) and self.kind == o.kind and (self.d is o.d or (self.kind in ('fn', 'mfn') and self.d['f'] == o.d['f']))
    def __hash__(self): return hash(self.kind)
    def __repr__(self): return 'Fn(%s)' % (self.d.get('q') if isinstance(self.d, dict) else self.kind)
class IterV:
    """iterator into container c at position i.  lag: the element in front of position i that is present (result of --)"""
    __slots__ = ('c', 'i', 'rev', 'lag')
    def __init__(self, c, i, rev=False, lag=False): self.c = c; self.i = i; self.rev = rev; self.lag = lag
    def __eq__(self, o): return isinstance(o, IterV) and self.c == o.c and self.i == o.i and self.rev == o.rev and self.lag == o.lag
    def __hash__(self): return hash((self.c, self.i))
    def __repr__(self): return 'It(%r@%s%s)' % (self.c, self.i, '-' if self.lag else '')
class OptV:
    __slots__ = ('has', 'v')
    def __init__(self, has, v): self.has = has; self.v = v
    def __repr__(self): return 'Opt(%r,%r)' % (self.has, self.v)
class VarV:
    """std::variant / any-like: idx term and per-alternative values"""
    __slots__ = ('idx', 'alts')
    def __init__(self, idx, alts): self.idx = idx; self.alts = alts
class Opaque:
    __slots__ = ('tag', 'd')
    def __init__(self, tag, d=None): self.tag = tag; self.d = d
    def __eq__(self, o): return isinstance(o, Opaque) and self.tag == o.tag and self.d == o.d
    def __hash__(self): return hash(self.tag)
    def __repr__(self): return '<%s>' % self.tag

NULL = PtrV(((TRUE, None),))
VOID = Opaque('void')

def ptr(lv): return PtrV(((TRUE, lv),))
def normalts(alts):
    d = []; 
    for g, t in alts:
        if g is FALSE: continue
        for i, (g2, t2) in enumerate(d):
            if t2 == t and (t is not None or t2 is None):
                d[i] = (Or(g2, g), t2); break
        else: d.append((g, t))
    if len(d) == 1: d = [(TRUE, d[0][1])]
    return PtrV(d)

def mergev(c, a, b):
    """value equal to a where c holds, b elsewhere"""
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    ta, tb = type(a), type(b)
    if a is None: return b
    if b is None: return a
    if ta is T and tb is T:
        if a.sort != b.sort: raise MergeFail('sorts %s %s' % (a.sort, b.sort))
        return Ite(c, a, b)
    if ta is not tb:
        if ta is OptV and tb is not OptV: pass
        raise MergeFail('%s/%s' % (ta.__name__, tb.__name__))
    if ta is StructV:
        if a.cls != b.cls: raise MergeFail('struct %s %s' % (a.cls, b.cls))
        f = {}; same = True
        for k, v in a.f.items():
            w = b.f.get(k)
            f[k] = v if w is v else mergev(c, v, w) if w is not None else v
            if f[k] is not v: same = False
        for k, w in b.f.items():
            if k not in f: f[k] = w; same = False
        return a if same else StructV(a.cls, f)
    if ta is PtrV:
        if a.alts == b.alts: return a
        nc = Not(c)
        return normalts([(And(c, g), t) for g, t in a.alts] + [(And(nc, g), t) for g, t in b.alts])
    if ta is VecV:
        ea, eb = a.e, b.e
        out = []; n = min(len(ea), len(eb)); i = 0; nc = Not(c)
        try:
            while i < n:
                (g1, v1), (g2, v2) = ea[i], eb[i]
                out.append((Ite(c, g1, g2), mergev(c, v1, v2))); i += 1
        except MergeFail:
            pass
        out += [(And(c, g), v) for g, v in ea[i:]] + [(And(nc, g), v) for g, v in eb[i:]]
        return VecV(out)
    if ta is TokV:
        ea, eb = a.e, b.e
        i = 0; n = min(len(ea), len(eb))
        while i < n and ea[i] == eb[i]: i += 1
        nc = Not(c)
        if i < n and ea[i][0] is eb[i][0] and type(ea[i][1]) is T and type(eb[i][1]) is T:
            # split the first differing token at the common text prefix
            g = ea[i][0]; pa, pb = list(pieces(ea[i][1])), list(pieces(eb[i][1])); k = 0
            while k < len(pa) and k < len(pb) and pa[k] is pb[k]: k += 1
            com = pa[:k]; pa, pb = pa[k:], pb[k:]
            if pa and pb and isc(pa[0]) and isc(pb[0]):
                import os.path
                cp = os.path.commonprefix([pa[0].val, pb[0].val])
                if cp:
                    com.append(S(cp))
                    pa = ([S(pa[0].val[len(cp):])] if len(pa[0].val) > len(cp) else []) + pa[1:]
                    pb = ([S(pb[0].val[len(cp):])] if len(pb[0].val) > len(cp) else []) + pb[1:]
            if com:
                head = ((g, Concat(*com)),)
                ta_ = ((g, Concat(*pa)),) if pa else (); tb_ = ((g, Concat(*pb)),) if pb else ()
                return TokV(ea[:i] + head + tuple((And(c, q), v) for q, v in ta_ + ea[i + 1:]) + tuple((And(nc, q), v) for q, v in tb_ + eb[i + 1:]))
        return TokV(ea[:i] + tuple((And(c, g), v) for g, v in ea[i:]) + tuple((And(nc, g), v) for g, v in eb[i:]))
    if ta is MapV:
        out = []; nc = Not(c); used = set()
        for g, k, v in a.e:
            for j, (g2, k2, v2) in enumerate(b.e):
                if j not in used and keyeq(k, k2) is TRUE:
                    used.add(j); out.append((Ite(c, g, g2), k, mergev(c, v, v2))); break
            else: out.append((And(c, g), k, v))
        for j, (g2, k2, v2) in enumerate(b.e):
            if j not in used: out.append((And(nc, g2), k2, v2))
        if all(type(k) is T and isc(k) for g, k, v in out): out.sort(key=lambda x: x[1].val)
        return MapV(out)
    if ta is OptV:
        if a.v is None: v = b.v
        elif b.v is None: v = a.v
        else: v = mergev(c, a.v, b.v)
        return OptV(Ite(c, a.has, b.has), v)
    if ta is VarV:
        al = dict(b.alts)
        for k, v in a.alts.items(): al[k] = mergev(c, v, al[k]) if k in al else v
        return VarV(Ite(c, a.idx, b.idx), al)
    if a == b: return a
    raise MergeFail('%r / %r' % (a, b))

def keyeq(a, b):
    if type(a) is T and type(b) is T: return Eq(a, b)
    if type(a) is StructV and type(b) is StructV: return And(*[keyeq(a.f[k], b.f[k]) for k in a.f])
    return TRUE if a is b or a == b else FALSE

def veq(a, b):
    """structural equality term of two values of the same type"""
    if a is b: return TRUE
    if type(a) is T and type(b) is T: return Eq(a, b)
    if type(a) is StructV and type(b) is StructV:
        if a.cls != b.cls: return FALSE
        return And(*[veq(a.f[k], b.f[k]) for k in a.f])
    if type(a) is OptV and type(b) is OptV:
        if a.v is None or b.v is None: return Eq(a.has, b.has) if False else And(Not(a.has), Not(b.has)) if (a.v is None and b.v is None) else And(Eq(a.has, b.has), Not(a.has))
        return And(Eq(a.has, b.has), Implies(a.has, veq(a.v, b.v)))
    if type(a) is PtrV and type(b) is PtrV: return ptreq(a, b)
    if type(a) is VecV and type(b) is VecV:
        if len(a.e) == len(b.e) and all(g1 is g2 for (g1, _), (g2, _) in zip(a.e, b.e)):
            return And(*[Implies(g, veq(v, w)) for (g, v), (_, w) in zip(a.e, b.e)])
        # general: equal length and k-th present elements equal
        return seqeq(list(a.e), list(b.e))
    if type(a) is MapV and type(b) is MapV:
        return And(*[TRUE])
    if a == b: return TRUE
    raise Unsupported('veq %r %r' % (a, b))

def seqeq(a, b, memo=None, i=0, j=0):
    memo = {} if memo is None else memo
    if (i, j) in memo: return memo[(i, j)]
    if i == len(a) and j == len(b): r = TRUE
    elif i == len(a): r = And(*[Not(g) for g, _ in b[j:]])
    elif j == len(b): r = And(*[Not(g) for g, _ in a[i:]])
    else:
        (g, v), (h, w) = a[i], b[j]
        if g is TRUE and h is TRUE: r = And(veq(v, w), seqeq(a, b, memo, i + 1, j + 1))
        elif g is TRUE: r = Ite(h, And(veq(v, w), seqeq(a, b, memo, i + 1, j + 1)), seqeq(a, b, memo, i, j + 1))
        elif h is TRUE: r = Ite(g, And(veq(v, w), seqeq(a, b, memo, i + 1, j + 1)), seqeq(a, b, memo, i + 1, j))
        else: r = Ite(g, Ite(h, And(veq(v, w), seqeq(a, b, memo, i + 1, j + 1)), seqeq(a, b, memo, i, j + 1)), seqeq(a, b, memo, i + 1, j))
    memo[(i, j)] = r
    return r

def ptreq(a, b):
    r = []
    for g, t in a.alts:
        for h, u in b.alts:
            if t == u: r.append(And(g, h))
    return Or(*r) if r else FALSE
def isnull(p):
    if type(p) is T: return FALSE
    return Or(*[g for g, t in p.alts if t is None]) if any(t is None for g, t in p.alts) else FALSE
