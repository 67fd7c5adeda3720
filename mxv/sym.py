"""Symbolic inputs: arbitrary values of C++ types."""
from .terms import *
from .values import *
from .stdlib import tn, SEQ, MAPS

class Sym:
    def __init__(self, I_, opaque=None):
        self.I = I_; self.opaque = opaque   # predicate(type) -> True: represent as an uninterpreted value
        self.facts = []
    def rng(self, v, lo, hi):
        self.I.ranges[v.val] = (lo, hi)
        self.facts.append(And(Ge(v, I(lo)), Le(v, I(hi))))
    def make(self, t, name):
        t = t.deref()
        if self.opaque is not None and self.opaque(t): return Var(name, 'U:' + t.nq)
        if t.is_bool: return Var(name, 'B')
        if t.is_int:
            w, sg = t.d['w'], t.d['sg']
            v = Var(name, 'I')
            self.rng(v, -(1 << (w - 1)) if sg else 0, (1 << (w - 1)) - 1 if sg else (1 << w) - 1)
            return v
        if t.k == 'enum':
            v = Var(name, 'I')
            vals = sorted(x for _, x in self.I.P.enums[t.d['n']])
            self.rng(v, vals[0], vals[-1])
            if vals[-1] - vals[0] + 1 != len(set(vals)): self.facts.append(Or(*[Eq(v, I(x)) for x in set(vals)]))
            return v
        if t.is_float: return Var(name, 'R')
        if t.k == 'array': return VecV([(TRUE, self.make(t.elem, '%s[%d]' % (name, i))) for i in range(t.d['n'])])
        if t.k == 'rec':
            k = tn(t)
            if k == 'std::basic_string': return Var(name, 'S')
            if k == 'std::optional': return OptV(Var(name + '.has', 'B'), self.make(t.targ(0), name + '.val'))
            if k == 'std::pair': return StructV('std::pair', {'first': self.make(t.targ(0), name + '.first'), 'second': self.make(t.targ(1), name + '.second')})
            if k == 'std::array': return VecV([(TRUE, self.make(t.targ(0), '%s[%d]' % (name, i))) for i in range(t.targ(1)['v'])])
            if k in ('std::vector', 'std::list', 'std::map'):
                n = Var(name + '.size', 'I'); self.rng(n, 0, 1 << 31)
                if k == 'std::map':
                    ks = self.esort(t.targ(0)); vs = self.esort(t.targ(1))
                    return SeqV(name, n, lambda i: StructV('std::pair', {'first': App(name + '.key', ks, self.ix(i)), 'second': App(name + '.mapped', vs, self.ix(i))}))
                es = self.esort(t.targ(0))
                return SeqV(name, n, lambda i: App(name + '.elem', es, self.ix(i)))
            rec = self.I.P.recs.get(t.name)
            if rec is not None: return self.struct(t.name, name)
        raise Unsupported('symbolic value of %s' % t)
    def struct(self, cls, name):
        f = {}
        def add(c):
            r = self.I.P.recs[c]
            for b in r.bases:
                if b.name in self.I.P.recs: add(b.name)
            for fn, ft, _ in r.fields: f[fn] = self.make(ft, name + '.' + fn)
        add(cls)
        return StructV(cls, f)

    def ix(self, i): return i if type(i) is T else I(i)
    def esort(self, t):
        if t.is_bool: return 'B'
        if t.is_int or t.k == 'enum': return 'I'
        if t.is_float: return 'R'
        if t.k == 'rec' and tn(t) == 'std::basic_string': return 'S'
        return 'U:' + t.nq
