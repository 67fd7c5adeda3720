"""Symbolic evaluator / verification-condition generator over the exported C++ AST.

Executes the *real* function bodies on symbolic inputs with state merging at joins.  Path conditions and
values are terms; every check (property postcondition, null dereference, bounds, ...) becomes an obligation
(pc => goal) for the solver."""
from .terms import *
from .values import *
from . import fe
import re, time

class State:
    __slots__ = ('pc', 'mem', 'ctr', 'has')
    def __init__(self, pc=(), mem=None, ctr=0, has=None): self.pc = pc; self.mem = {} if mem is None else mem; self.ctr = ctr; self.has = frozenset(pc) if has is None else has
    def copy(self): return State(self.pc, dict(self.mem), self.ctr, self.has)
    def assume(self, c):
        if c is TRUE or c in self.has: return self
        new = [x for x in c.args if x not in self.has] if c.op == 'and' else [c]
        self.pc = self.pc + tuple(new); self.has = self.has.union(new)
        return self
    def fork(self, c): s = self.copy(); return s.assume(c)
    @property
    def dead(self): return FALSE in self.has
    @property
    def pct(self): return And(*self.pc)

class NeedInline(Exception):
    """the code under evaluation looks inside an object that is represented by its contract only"""
    def __init__(self, cls, field): self.cls = cls; self.field = field; Exception.__init__(self, cls, field)
class CxxThrow(Exception):
    def __init__(self, val): self.val = val
class Thrown:
    __slots__ = ('t', 'v', 'where')
    def __init__(self, t, v=None, where=None): self.t = t; self.v = v; self.where = where
    def __repr__(self): return 'Thrown(%s,%r @%s)' % (self.t, self.v, self.where)
class Out:
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind = kind; self.st = st; self.val = val
    def __repr__(self): return 'Out(%s,%r)' % (self.kind, self.val)

class Frame:
    __slots__ = ('func', 'types', 'id', 'this', 'refs', 'env', 'cells', 'tmp', 'name', 'rt')
    def __init__(self, func, types, fid, this, name):
        self.func = func; self.types = types; self.id = fid; self.this = this; self.refs = set(); self.env = {}; self.cells = []; self.tmp = 0; self.name = name; self.rt = None

class Obl:
    def __init__(self, kind, name, pc, goal, where): self.kind = kind; self.name = name; self.pc = pc; self.goal = goal; self.where = where

def merge_states(outs):
    """outs: list of (State, val). Merge what can be merged."""
    res = []
    for st, val in outs:
        if st.dead: continue
        if len(outs) == 1: return [(st, val)]
        it = {k: v for k, v in st.mem.items() if type(v) is IterV}
        for i, (s2, v2, it2) in enumerate(res):
            if s2 is not st:
                for k, a in it.items():
                    b = it2.get(k)
                    if b is not None and b is not a and not (a == b): break
                else: b = TRUE
                if b is not TRUE: continue
            m = try_merge(s2, v2, st, val)
            if m is not None: res[i] = m + (it if len(it) > len(it2) else it2,); break
        else: res.append((st, val, it))
    return [(s, v) for s, v, _ in res]

def try_merge(s1, v1, s2, v2):
    if s1 is s2: return (s1, v1) if v1 is v2 else None
    p1, p2 = s1.pc, s2.pc
    k = 0; n = min(len(p1), len(p2))
    while k < n and p1[k] is p2[k]: k += 1
    r1, r2 = p1[k:], p2[k:]
    c1, c2 = And(*r1), And(*r2)
    sel = c1
    for x in r1:
        if Not(x) in r2: sel = x; break
    try:
        m1, m2 = s1.mem, s2.mem
        mem = dict(m1)
        for key, b in m2.items():
            a = m1.get(key)
            if a is None: mem[key] = b
            elif a is not b:
                try: mem[key] = mergev(sel, a, b)
                except MergeFail:
                    # temporaries of finished expressions need not agree (reading one later is an error)
                    if key[0] == 'L' and type(key[2]) is str and key[2][0] == 't' and key[2][1:].isdigit(): del mem[key]
                    else: raise
        val = v1 if v1 is v2 else mergev(sel, v1, v2) if (v1 is not None and v2 is not None) else (v1 if v2 is None else v2)
    except MergeFail:
        return None
    d = Or(c1, c2)
    st = State(p1[:k], mem, max(s1.ctr, s2.ctr))
    st.assume(d)
    return (st, val)

_nq = {}
def norm_q(q):
    r = _nq.get(q)
    if r is None:
        r = q.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')
        out = []; i = 0; depth = 0
        while i < len(r):
            if depth == 0 and r.startswith('operator', i) and (i == 0 or not (r[i-1].isalnum() or r[i-1] == '_')):
                j = i + 8
                while j < len(r) and r[j] in '<>=!-+*/%&|^~()[]': j += 1
                out.append(r[i:j]); i = j; continue
            c = r[i]
            if c == '<': depth += 1
            elif c == '>': depth -= 1
            elif depth == 0: out.append(c)
            i += 1
        r = ''.join(out)
        _nq[q] = r
    return r

class Interp:
    def __init__(self, P, solver=None, max_unroll=80):
        self.P = P
        self.solver = solver
        self.st = State()
        self.frames = []
        self.obls = []
        self.script = []; self.pos = 0; self.pending = []
        self.max_unroll = max_unroll
        self.contracts = {}       # qualified name -> callable(I, func/dict, this, args, node)
        self.loop_hook = None
        self.ranges = {}          # var name -> (lo, hi)
        self.check_overflow = False
        self.globals_cache = {}
        self.vt = {}
        self.calls = 0
        self.called = {}          # function q -> count  (functions executed from source)
        self.trusted = {}         # library models used
        self.depth = 0
        self.assumes = []
        from . import stdlib
        self.lib = stdlib.Lib(self)
        self.unsupported_calls = {}

    # ------------------------------------------------------------------ misc
    def ty(self, n): return self.frames[-1].types[n['t']]
    def tyi(self, i): return self.frames[-1].types[i]
    def fresh(self, name, sort):
        self.st.ctr += 1
        return Var('%s!%d' % (name, self.st.ctr), sort)
    def where(self, n=None):
        f = self.frames[-1] if self.frames else None
        file = f.func.d.get('file', '?') if f and f.func else '?'
        return '%s:%s' % (file.replace(fe.REPO + '/', ''), n.get('l') if n else '?')
    def oblige(self, kind, goal, node=None, name=''):
        """obligation under the current path; afterwards the goal is assumed"""
        if goal is TRUE: return
        self.obls.append(Obl(kind, name or kind, self.st.pc, goal, self.where(node)))
        if goal is FALSE: raise Infeasible()
        self.st.assume(goal)
    def feasible(self, pc):
        t = And(*pc)
        if t is FALSE: return False
        if t is TRUE: return True
        if self.solver is None: return True
        return self.solver.check(list(pc)) != 'unsat'
    def implied(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c in self.st.has: return True
        if Not(c) in self.st.has: return False
        if self.solver is None: return False
        return self.solver.check(list(self.st.pc) + [Not(c)]) == 'unsat'
    def interval(self, t):
        """(lo, hi) with None for unbounded"""
        return interval(t, self.ranges)

    # ------------------------------------------------------------------ memory
    def lowest(self, a):
        lo = self.interval(a)[0]
        return -1 if lo is None else lo
    def alloc(self, cls, val, tag='H'):
        self.st.ctr += 1
        root = (tag, self.st.ctr, cls)
        self.st.mem[root] = val
        return LV(root)
    def tmp(self, val):
        f = self.frames[-1]; self.st.ctr += 1
        root = ('L', f.id, 't%d' % self.st.ctr)
        f.cells.append(root)
        self.st.mem[root] = val
        return ptr(LV(root))
    def step(self, v, k):
        tv = type(v)
        if tv is StructV:
            if k not in v.f:
                if '#v' in v.f: raise NeedInline(v.cls, k)
                raise Unsupported('no field %s in %s' % (k, v.cls))
            return v.f[k]
        if tv is VecV: return v.e[k][1]
        if tv is SeqV: return v.elem(k)
        if tv is MapV: g, a, b = v.e[k]; return StructV('std::pair', {'first': a, 'second': b})
        if tv is OptV:
            if v.v is None: raise Unsupported('value of empty optional')
            return v.v
        if tv is VarV: return v.alts[k]
        raise Unsupported('step %r . %r' % (v, k))
    def load(self, lv):
        v = self.st.mem.get(lv.root)
        if v is None: raise Unsupported('unbound location %r' % (lv,))
        for k in lv.path: v = self.step(v, k)
        return v
    def _upd(self, v, path, i, new):
        if i == len(path): return new
        k = path[i]; tv = type(v)
        if tv is StructV:
            return v.set(k, self._upd(v.f.get(k), path, i + 1, new))
        if tv is VecV:
            e = list(v.e); e[k] = (e[k][0], self._upd(e[k][1], path, i + 1, new)); return VecV(e)
        if tv is MapV:
            e = list(v.e); g, a, b = e[k]
            if i + 1 < len(path) and path[i + 1] == 'second': e[k] = (g, a, self._upd(b, path, i + 2, new))
            else: raise Unsupported('map key store')
            return MapV(e)
        if tv is OptV: return OptV(v.has, self._upd(v.v, path, i + 1, new))
        if tv is VarV: al = dict(v.alts); al[k] = self._upd(al[k], path, i + 1, new); return VarV(v.idx, al)
        raise Unsupported('store into %r path %r' % (v, path))
    def store(self, lv, new):
        self.st.mem[lv.root] = self._upd(self.st.mem.get(lv.root), lv.path, 0, new) if lv.path else new
    def live(self, p, node=None):
        """alternatives of pointer p that are live under pc, obliging non-null"""
        if type(p) is not PtrV: raise Unsupported('not a pointer: %r' % (p,))
        alts = [(g, t) for g, t in p.alts if Not(g) not in self.st.has and And(g, *self.st.pc) is not FALSE] if len(p.alts) > 1 else p.alts
        nz = [(g, t) for g, t in alts if t is not None]
        if len(nz) != len(alts):
            gn = Or(*[g for g, t in alts if t is None])
            self.oblige('null-deref', Not(gn), node)
        if not nz: raise Infeasible()
        return nz
    def read(self, p, node=None):
        if type(p) is T or type(p) is FnV: return p
        if type(p) is PtrV and len(p.alts) == 1 and p.alts[0][1] is not None: return self.load(p.alts[0][1])
        al = self.live(p, node)
        v = self.load(al[-1][1])
        for g, t in reversed(al[:-1]): v = mergev(g, self.load(t), v)
        return v
    def write(self, p, val, node=None):
        if len(p.alts) == 1 and p.alts[0][1] is not None: self.store(p.alts[0][1], val); return
        for g, t in self.live(p, node):
            self.store(t, mergev(g, val, self.load(t)))
    def sub(self, p, k, node=None):
        if len(p.alts) == 1 and p.alts[0][1] is not None: return ptr(p.alts[0][1].sub(k))
        return PtrV([(g, t.sub(k)) for g, t in self.live(p, node)])

    # ------------------------------------------------------------------ nondeterministic choice by re-execution
    def multi(self, st, fn):
        sv = (self.script, self.pos, self.pending, self.st)
        nf = len(self.frames)
        res = []; work = [[]]
        while work:
            self.script = work.pop(); self.pos = 0; self.pending = work
            self.st = st.copy()
            try:
                v = fn()
                res.append(Out('normal', self.st, v))
            except CxxThrow as e:
                res.append(Out('throw', self.st, e.val))
            except Infeasible: pass
            del self.frames[nf:]
        self.script, self.pos, self.pending, self.st = sv
        if len(res) > 1:
            nor = merge_states([(o.st, o.val) for o in res if o.kind == 'normal'])
            thr = [o for o in res if o.kind != 'normal']
            res = [Out('normal', s, v) for s, v in nor] + thr
        return res
    def choose(self, outs):
        outs = [o for o in outs if FALSE not in o.st.has]
        if not outs: raise Infeasible()
        if len(outs) == 1: o = outs[0]
        elif self.pos < len(self.script):
            o = self.script[self.pos]; self.pos += 1
        else:
            for a in reversed(outs[1:]): self.pending.append(self.script[:self.pos] + [a])
            o = outs[0]; self.script = self.script[:self.pos] + [o]; self.pos += 1
        self.st = o.st.copy() if len(outs) > 1 else o.st
        if o.kind == 'throw': raise CxxThrow(o.val)
        return o.val
    def choose_pos(self, cases):
        """one of several (condition list, value): like choose, the states are made when they are needed"""
        if self.pos < len(self.script): o = self.script[self.pos]; self.pos += 1
        else:
            outs = []
            for cs, v in cases:
                s = self.st.copy()
                for c in cs: s.assume(c)
                if FALSE not in s.has: outs.append(Out('normal', s, v))
            if not outs: raise Infeasible()
            for a in reversed(outs[1:]): self.pending.append(self.script[:self.pos] + [a])
            o = outs[0]; self.script = self.script[:self.pos] + [o]; self.pos += 1
        self.st = o.st.copy()
        return o.val
    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under not c, merge; returns value"""
        if c is TRUE or c in self.st.has: return fa()
        if c is FALSE or Not(c) in self.st.has: return fb()
        base = self.st
        o1 = self.multi(base.fork(c), fa)
        o2 = self.multi(base.fork(Not(c)), fb)
        nor = merge_states([(o.st, o.val) for o in o1 + o2 if o.kind == 'normal'])
        outs = [Out('normal', s, v) for s, v in nor] + [o for o in o1 + o2 if o.kind != 'normal']
        return self.choose(outs)

    # ------------------------------------------------------------------ expressions
    def E(self, n):
        return getattr(self, 'e_' + n['k'], self.e_unknown)(n)
    def e_unknown(self, n): raise Unsupported('expression kind %s at %s' % (n['k'], self.where(n)))
    def rv(self, n):
        """evaluate to an rvalue whatever the value category"""
        v = self.E(n)
        if n.get('lv') and type(v) is PtrV: return self.read(v, n)
        return v
    def e_int(self, n):
        t = self.ty(n)
        v = int(n['v'])
        if t.is_float: return R(v)
        if t.is_bool: return B(v)
        return I(v)
    def e_flt(self, n): return R(Fraction(n['v']) if 'e' not in n['v'].lower() and 'E' not in n['v'] else Fraction(n['v']))
    def e_bool(self, n): return B(n['v'])
    def e_str(self, n): return S(n['v']) if 'v' in n else S(''.join(map(chr, n['vb'])))
    def e_nullp(self, n): return NULL
    def e_this(self, n): return self.frames[-1].this
    def e_nop(self, n): return VOID
    def e_zero(self, n): return self.default(self.ty(n))
    def e_fn(self, n): return FnV('fn', n['d'])
    def e_mfn(self, n): return FnV('mfn', n['d'])
    def e_mfield(self, n): return FnV('mfield', n['f'])
    def e_mat(self, n):
        v = self.E(n['e'])
        if n['e'].get('lv'): return v
        return self.tmp(v)
    def e_silist(self, n):
        v = self.E(n['e'])
        return self.read(v) if type(v) is PtrV else v
    def e_ailoop(self, n): return self.rv(n['src'])
    def e_var(self, n):
        if 'g' in n: return self.global_ref(n)
        return self.local(n['id'])
    def local(self, i):
        f = self.frames[-1]
        if i in f.env: return f.env[i]
        key = ('L', f.id, i)
        if i in f.refs: return self.st.mem[key]
        return ptr(LV(key))
    def global_ref(self, n):
        g = n['g']
        root = ('G', g)
        if root not in self.st.mem:
            if g in self.globals_cache: self.st.mem[root] = self.globals_cache[g]
            else:
                d = self.P.globals.get(g)
                if d is None:
                    q = n.get('q', '')
                    if norm_q(q) in ('std::cout', 'std::cerr', 'std::clog'):
                        self.st.mem[root] = StructV('std::ostream', {'toks': TokV(())})
                        return ptr(LV(root))
                    v = self.lib.global_value(n)
                    self.st.mem[root] = v
                    return ptr(LV(root))
                gd, tab = d
                fr = Frame(None, tab, -len(self.globals_cache) - 1, None, 'init ' + gd['q'])
                def run():
                    self.frames.append(fr)
                    t = tab[gd['t']]
                    v = self.E(gd['init']) if 'init' in gd else self.default(t)
                    if t.k not in ('lref', 'rref') and type(v) is PtrV and gd.get('init', {}).get('lv'): v = self.read(v)
                    self.frames.pop()
                    return v
                sv = self.st
                outs = self.multi(State(), run)
                if len(outs) != 1 or outs[0].kind != 'normal': raise Unsupported('global initialiser ' + gd['q'])
                # keep heap objects created by the initialiser
                for k, v in outs[0].st.mem.items():
                    if k[0] in ('H', 'G'): sv.mem[k] = v
                v = outs[0].val
                self.st = sv
                if all(k[0] != 'H' for k in outs[0].st.mem): self.globals_cache[g] = v
                self.st.mem[root] = v
        return ptr(LV(root))
    def e_mem(self, n):
        b = self.E(n['b'])
        if type(b) is StructV: return b.f[n['f']] if not n.get('lv') else self.sub(self.tmp(b), n['f'])
        p = self.sub(b, n['f'], n)
        # reference member
        if len(p.alts) == 1:
            rec = self.P.recs.get(n['cls'])
            if rec is not None:
                for fn, ft, _ in rec.fields:
                    if fn == n['f'] and ft.k in ('lref', 'rref'): return self.load(p.alts[0][1])
        return p
    def e_idx(self, n):
        a = self.E(n['a']); i = self.E(n['b'])
        if type(a) is T: return self.tmp(CodeAt(a, i))
        return self.index(a, i, n)
    def index(self, p, i, n=None, check=True):
        """lvalue of element i of the vector/array at p"""
        out = []
        for g, t in self.live(p, n):
            v = self.load(t)
            if type(v) is T: raise Unsupported('string index lvalue')
            if type(v) is SeqV:
                if check: self.oblige('bounds', Implies(g, And(Ge(i, I(0)), Lt(i, v.n))), n)
                out.append((g, t.sub(i))); continue
            e = v.e
            if isc(i) and all(x[0] is TRUE for x in e[:i.val + 1]) and 0 <= i.val < len(e):
                out.append((g, t.sub(i.val))); continue
            cnt = I(0); cov = []
            for k, (gk, _) in enumerate(e):
                c = And(gk, Eq(cnt, i))
                if c is not FALSE: out.append((And(g, c), t.sub(k))); cov.append(c)
                cnt = Add(cnt, Ite(gk, I(1), I(0)))
            if check: self.oblige('bounds', Implies(g, Or(*cov)), n)
        if not out: raise Infeasible()
        return normalts(out)
    def e_un(self, n):
        op = n['op']
        if op == '!': return Not(self.tobool(self.rv(n['e'])))
        if op == '&':
            return self.E(n['e'])
        if op == '*':
            v = self.E(n['e'])
            if type(v) is T and v.sort == 'S': return self.tmp(CodeAt(v, I(0)))
            return v
        if op in ('++', '--'):
            p = self.E(n['e']); old = self.read(p)
            if type(old) is not T: raise Unsupported('++ on %r' % (old,))
            one = I(1) if old.sort == 'I' else R(1)
            new = Add(old, one) if op == '++' else Sub(old, one)
            t = self.ty(n['e'])
            new = self.arith_fit(new, t, n)
            self.write(p, new)
            return old if n.get('post') else p
        v = self.rv(n['e'])
        if op == '-': return self.arith_fit(Neg(v), self.ty(n), n)
        if op == '+': return v
        if op == '~': return self.arith_fit(Sub(Neg(v), I(1)), self.ty(n), n)
        raise Unsupported('unary ' + op)
    def tobool(self, v):
        if type(v) is PtrV: return Not(isnull(v))
        if type(v) is FnV: return TRUE
        if type(v) is T:
            if v.sort == 'B': return v
            if v.sort == 'I': return Ne(v, I(0))
            if v.sort == 'R': return Ne(v, R(0))
            if v.sort == 'S': return TRUE
        raise Unsupported('tobool %r' % (v,))
    def arith_fit(self, v, t, n):
        if not t.is_int or v.sort != 'I': return v
        w, sg = t.d['w'], t.d['sg']
        if w == 1: return v
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        a, b = self.interval(v)
        if a is not None and b is not None and a >= lo and b <= hi: return v
        if sg:
            if isc(v):
                if lo <= v.val <= hi: return v
                if self.check_overflow: self.oblige('overflow', FALSE, n)
                return v
            if self.check_overflow: self.oblige('overflow', And(Ge(v, I(lo)), Le(v, I(hi))), n)
            return v
        if isc(v): return I(v.val % (1 << w))
        if self.solver is not None and self.implied(And(Ge(v, I(lo)), Le(v, I(hi)))): return v
        return EMod(v, I(1 << w))
    def e_bin(self, n):
        op = n['op']
        if op == '=':
            # C++17: right operand first
            rv = self.E(n['b'])
            if n['b'].get('lv') and type(rv) is PtrV and not self.ty(n['b']).k in ('ptr',): rv = self.read(rv)
            p = self.E(n['a'])
            self.write(p, rv, n); return p
        if op == ',': self.E(n['a']); return self.E(n['b'])
        if op == '&&':
            a = self.tobool(self.rv(n['a']))
            if a is FALSE: return FALSE
            if a is TRUE: return self.tobool(self.rv(n['b']))
            return self.branch(a, lambda: self.tobool(self.rv(n['b'])), lambda: FALSE)
        if op == '||':
            a = self.tobool(self.rv(n['a']))
            if a is TRUE: return TRUE
            if a is FALSE: return self.tobool(self.rv(n['b']))
            return self.branch(a, lambda: TRUE, lambda: self.tobool(self.rv(n['b'])))
        if op in ('.*', '->*'):
            f = self.rv(n['b'])
            o = self.E(n['a']) if op == '.*' else self.rv(n['a'])
            if type(o) is not PtrV: o = self.tmp(o)
            if type(f) is FnV and f.kind == 'mfn': return FnV('bound', (f.d, o))
            if type(f) is FnV and f.kind == 'mfield': return self.sub(o, f.d, n)
            raise Unsupported('member pointer %r' % (f,))
        a = self.rv(n['a']); b = self.rv(n['b'])
        return self.binop(op, a, b, self.ty(n), n)
    def binop(self, op, a, b, t, n):
        if op in ('==', '!='):
            if type(a) is PtrV or type(b) is PtrV:
                if type(a) is T or type(b) is T: r = FALSE
                else: r = ptreq(a, b)
            elif type(a) is FnV or type(b) is FnV: r = B(a == b)
            else:
                if a.sort != b.sort:
                    a, b = self._unify(a, b)
                r = Eq(a, b)
            return r if op == '==' else Not(r)
        if type(a) is not T or type(b) is not T: raise Unsupported('binop %s on %r, %r at %s' % (op, a, b, self.where(n)))
        if a.sort != b.sort: a, b = self._unify(a, b)
        if op == '<': return Lt(a, b)
        if op == '>': return Gt(a, b)
        if op == '<=': return Le(a, b)
        if op == '>=': return Ge(a, b)
        if a.sort == 'B': a, b = self.b2i(a), self.b2i(b)
        if op == '+': return self.arith_fit(Add(a, b), t, n)
        if op == '-': return self.arith_fit(Sub(a, b), t, n)
        if op == '*': return self.arith_fit(Mul(a, b), t, n)
        if op == '/':
            if a.sort == 'R': return RDiv(a, b)
            self.oblige('div-by-zero', Ne(b, I(0)), n)
            if t.is_int and not t.d['sg'] or isc(b) and b.val > 0 and self.lowest(a) >= 0: return EDiv(a, b)
            return self.arith_fit(TDiv(a, b), t, n)
        if op == '%':
            self.oblige('div-by-zero', Ne(b, I(0)), n)
            if t.is_int and not t.d['sg'] or isc(b) and b.val > 0 and self.lowest(a) >= 0: return EMod(a, b)
            return TMod(a, b)
        if op in ('&', '|', '^'):
            x, y = as01(a), as01(b)
            if x is not None and y is not None:
                r = And(x, y) if op == '&' else Or(x, y) if op == '|' else Ne(x, y)
                return Ite(r, I(1), I(0))
            if isc(a) and isc(b): return I({'&': a.val & b.val, '|': a.val | b.val, '^': a.val ^ b.val}[op])
            if op == '&' and isc(b) and b.val > 0 and (b.val & (b.val + 1)) == 0 and nonneg(a): return EMod(a, I(b.val + 1))
            return App('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op], 'I', a, b)
        if op == '<<' and isc(b): return self.arith_fit(Mul(a, I(1 << b.val)), t, n)
        if op == '>>' and isc(b): return EDiv(a, I(1 << b.val))
        raise Unsupported('binop ' + op)
    def b2i(self, v): return Ite(v, I(1), I(0)) if v.sort == 'B' else v
    def _unify(self, a, b):
        if a.sort == 'B': a = self.b2i(a)
        if b.sort == 'B': b = self.b2i(b)
        if a.sort == 'I' and b.sort == 'R': a = ToReal(a)
        if b.sort == 'I' and a.sort == 'R': b = ToReal(b)
        if a.sort != b.sort: raise Unsupported('sorts %s/%s' % (a.sort, b.sort))
        return a, b
    def e_casg(self, n):
        b = self.rv(n['b']); p = self.E(n['a']); a = self.read(p, n)
        ct = self.tyi(n['clt']); lt = self.ty(n['a'])
        a2 = self.conv(a, ct)
        if n['op'] not in ('<<=', '>>='): b = self.conv(b, ct) if type(b) is T else b
        r = self.binop(n['op'][:-1], a2, b, self.tyi(n['ct']), n)
        r = self.conv(r, lt, n)
        self.write(p, r, n)
        return p
    def conv(self, v, t, n=None):
        """convert scalar term v to type t"""
        if type(v) is not T: return v
        if t.is_bool: return self.tobool(v)
        if t.is_float:
            if v.sort == 'B': v = self.b2i(v)
            return ToReal(v)
        if t.is_int or t.k == 'enum':
            if v.sort == 'B': v = self.b2i(v)
            if v.sort == 'R': v = TruncToInt(v)
            if t.k == 'enum': return v
            return self.int_fit(v, t)
        return v
    def int_fit(self, v, t):
        w, sg = t.d['w'], t.d['sg']
        if w == 1: return self.tobool(v)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        a, b = self.interval(v)
        if a is not None and b is not None and a >= lo and b <= hi: return v
        if isc(v):
            x = v.val % (1 << w)
            if sg and x > hi: x -= 1 << w
            return I(x)
        if self.solver is not None and self.implied(And(Ge(v, I(lo)), Le(v, I(hi)))): return v
        if sg:
            m = EMod(Sub(v, I(lo)), I(1 << w)); return Add(m, I(lo))
        return EMod(v, I(1 << w))
    def e_cond(self, n):
        c = self.tobool(self.rv(n['c']))
        lv = n.get('lv')
        def one(x):
            v = self.E(x)
            if not lv and x.get('lv') and type(v) is PtrV and self.ty(n).k != 'ptr': v = self.read(v)
            return v
        return self.branch(c, lambda: one(n['a']), lambda: one(n['b']))
    def e_cast(self, n):
        ck = n['ck']; e = n['e']
        if ck == 'LValueToRValue':
            return self.read(self.E(e), n)
        v = self.E(e)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            t = self.ty(n)
            if ck == 'FloatingToIntegral':
                r = TruncToInt(v)
                if t.is_int and self.check_overflow:
                    w, sg = t.d['w'], t.d['sg']
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                    self.oblige('float-to-int', And(Ge(r, I(lo)), Le(r, I(hi))), n)
                return r
            return self.conv(v, t, n)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'): return self.tobool(v)
        if ck == 'ArrayToPointerDecay':
            if type(v) is T: return v
            if type(v) is PtrV and self.ty(n).elem.is_char and False: return v
            return v     # pointer to array: index() handles it
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'NoOp', 'DerivedToBaseMemberPointer', 'BaseToDerivedMemberPointer'): return v
        if ck in ('NullToPointer', 'NullToMemberPointer'): return NULL
        if ck == 'ToVoid': return VOID
        if ck == 'Dynamic': return self.dyncast(v, self.ty(n), n)
        if ck in ('LValueBitCast',): return v
        raise Unsupported('cast ' + ck)
    def dyncast(self, v, t, n):
        tgt = t.elem.name if t.k == 'ptr' else t.deref().name
        out = []
        for g, lv in v.alts:
            if lv is None: out.append((g, None)); continue
            o = self.load(lv)
            out.append((g, lv if self.derives(o.cls, tgt.replace('const ', '')) else None))
        return normalts(out)
    def derives(self, cls, base):
        if cls == base: return True
        r = self.P.recs.get(cls)
        return bool(r) and any(self.derives(b.name, base) for b in r.bases)
    def e_ilist(self, n):
        t = self.ty(n)
        a = n['a']
        if t.k == 'array':
            el = [self.val(x) for x in a]
            if 'n' in t.d and len(el) < t.d['n']:
                el += [self.default(t.elem) for _ in range(t.d['n'] - len(el))]
            return VecV([(TRUE, x) for x in el])
        if t.k == 'rec':
            rec = self.P.recs.get(t.name)
            if rec is None: return self.lib.ilist(t, [self.val(x) for x in a], n)
            f = {}
            vals = [self.val(x) for x in a]
            i = 0
            for b in rec.bases:
                if i < len(vals) and type(vals[i]) is StructV: f.update(vals[i].f); i += 1
            for (fn, ft, _), v in zip(rec.fields, vals[i:]): f[fn] = v
            return StructV(t.name, f)
        if len(a) == 1: return self.val(a[0])
        if not a: return self.default(t)
        raise Unsupported('init list for %s' % t)
    def val(self, x):
        v = self.E(x)
        if x.get('lv') and type(v) is PtrV and self.ty(x).k != 'ptr':
            return self.read(v)
        return v
    def e_lambda(self, n):
        f = self.frames[-1]
        caps = {}
        this = None
        for c in n['caps']:
            if c.get('this'): this = f.this; continue
            v = self.E(c['e'])
            if c['ref']: caps[c['id']] = ('ref', v)
            else: caps[c['id']] = ('val', self.read(v) if type(v) is PtrV and c['e'].get('lv') else v)
        return FnV('lam', (n, f.types, caps, this, f.func))
    def e_throw(self, n):
        t = 'rethrow'; v = None
        if 'e' in n:
            t = self.ty(n['e']).s
            try: v = self.val(n['e'])
            except Unsupported: v = None
        raise CxxThrow(Thrown(t, v, self.where(n)))
    def e_new(self, n):
        t = self.tyi(n['at'])
        if 'arr' in n: raise Unsupported('array new')
        if 'i' in n and n['i']['k'] == 'ctor' and t.k == 'rec' and t.name in self.P.recs:
            return ptr(self.construct_heap(t, n['i']))
        v = self.val(n['i']) if 'i' in n else self.default(t)
        return ptr(self.alloc(t.name, v))
    def e_delete(self, n): self.E(n['e']); return VOID
    def e_typeid(self, n): return Opaque('typeid')

    # ------------------------------------------------------------------ construction
    def base_struct(self, cls):
        return StructV(cls, {})
    def default(self, t):
        """zero/default-initialised value of a type"""
        t = t.deref()
        if t.is_bool: return FALSE
        if t.is_int or t.k == 'enum': return I(0)
        if t.is_float: return R(0)
        if t.k in ('ptr', 'mptr'): return NULL
        if t.k == 'array': return VecV([(TRUE, self.default(t.elem)) for _ in range(t.d['n'])])
        if t.k == 'rec':
            rec = self.P.recs.get(t.name)
            if rec is None: return self.lib.default(t)
            ctor = self.default_ctor(t.name)
            return self.construct(t.name, ctor, [])
        raise Unsupported('default of %s' % t)
    def default_ctor(self, cls):
        rec = self.P.recs[cls]
        for m in rec.methods:
            fn = self.P.funcs.get(m['f'])
            if fn is not None and fn.d.get('cc') == 'default': return fn
        return None
    def fill(self, cls, f):
        """give every missing field of cls an arbitrary (uninitialised) or default value"""
        rec = self.P.recs.get(cls)
        if rec is None: return
        for b in rec.bases: self.fill(b.name, f)
        for fn, ft, init in rec.fields:
            if fn not in f: f[fn] = self.uninit(ft, fn)
    def uninit(self, t, name):
        if t.is_bool: return self.fresh('uninit_' + name, 'B')
        if t.is_int or t.k == 'enum': return self.fresh('uninit_' + name, 'I')
        if t.is_float: return self.fresh('uninit_' + name, 'R')
        if t.k == 'ptr': return NULL
        if t.k == 'rec':
            if t.name in self.P.recs:
                f = {}; self.fill(t.name, f); return StructV(t.name, f)
            return self.lib.default(t)
        if t.k == 'array' and 'n' in t.d: return VecV([(TRUE, self.uninit(t.elem, name)) for _ in range(t.d['n'])])
        return Opaque('uninit')
    def construct(self, cls, ctor, args, node=None):
        """value of class cls built with constructor function ctor (Func or None for trivial default)"""
        self.st.ctr += 1
        root = ('T', self.st.ctr, cls)
        self.st.mem[root] = StructV(cls, {})
        self.run_ctor(ctor, ptr(LV(root)), args, cls)
        v = self.st.mem.pop(root)
        return v
    def construct_heap(self, t, ctornode):
        lv = self.alloc(t.name, StructV(t.name, {}))
        self.ctor_into(ptr(lv), ctornode, t.name)
        return lv
    def ctor_into(self, p, n, cls):
        """run constructor expression n on the object at p (of dynamic class whatever is stored there)"""
        if n['k'] == 'ilist' or n['k'] != 'ctor':
            v = self.val(n)
            if type(v) is StructV:
                o = self.read(p); f = dict(o.f); f.update(v.f); self.write(p, StructV(o.cls, f))
            return
        d = n['d']
        if n.get('cc') in ('copy', 'move') and d.get('impl'):
            v = self.val(n['a'][0])
            o = self.read(p); f = dict(o.f); f.update(v.f); self.write(p, StructV(o.cls, f))
            return
        fn = self.P.funcs.get(d['f'])
        args = [self.E(a) for a in n['a']]
        if fn is None and not (n.get('cc') == 'default'):
            raise Unsupported('no constructor body for %s (%s)' % (d['q'], d['f']))
        self.run_ctor(fn, p, args, cls)
    def run_ctor(self, fn, this, args, cls):
        if fn is None:
            # trivial default constructor: default member initialisers, then uninitialised
            o = self.read(this); f = dict(o.f)
            self.trivial_fields(cls, f)
            o = self.read(this); g = dict(o.f); g.update(f)
            self.write(this, StructV(o.cls, g))
            return
        key = fn.q
        c = self.contracts.get(key) or self.contracts.get(fn.f)
        if c is not None:
            r = c(self, fn, this, args)
            return r
        self.called[fn.q] = self.called.get(fn.q, 0) + 1
        fr = self.enter(fn, this, args)
        try:
            for i in fn.d.get('inits', []):
                if 'd' in i: self.ctor_into(this, i['e'], cls)
                elif 'b' in i:
                    bt = fn.types[i['b']]
                    if bt.name in self.P.recs: self.ctor_into(this, i['e'], bt.name)
                else:
                    m = i['m']; e = i.get('e')
                    if e is None: continue
                    rec = self.P.recs.get(fn.d['cls'])
                    ft = next((t for nme, t, _ in rec.fields if nme == m), None)
                    if ft is not None and ft.k in ('lref', 'rref'):
                        while e['k'] == 'ilist' and len(e['a']) == 1 and e['a'][0].get('lv', True) : e = e['a'][0]
                        v = self.E(e)
                    else: v = self.val(e)
                    self.write(self.sub(this, m), v)
            o = self.read(this)
            rec = self.P.recs.get(fn.d['cls'])
            if rec:
                f = dict(o.f); n0 = len(f)
                self.fill(rec.n, f)
                if len(f) != n0: self.write(this, StructV(o.cls, f))
            body = fn.body
            if body.get('b'):
                outs = self.exec_block(body, self.st)
                outs2 = []
                for o in outs:
                    if o.kind in ('normal', 'return'): outs2.append((o.st, VOID))
                thr = [o for o in outs if o.kind == 'throw']
                self.choose([Out('normal', s, v) for s, v in merge_states(outs2)] + thr)
        finally:
            self.leave(fr)
    def trivial_fields(self, cls, f):
        rec = self.P.recs.get(cls)
        if rec is None: return
        for b in rec.bases:
            if b.name in self.P.recs:
                dc = self.default_ctor(b.name)
                if dc is None: self.trivial_fields(b.name, f)
                else: f.update(self.construct(b.name, dc, []).f)
        fr = Frame(None, rec.types, 0, None, 'field-init')
        for fn, ft, init in rec.fields:
            if init is not None:
                self.frames.append(fr)
                try: f[fn] = self.val(init)
                finally: self.frames.pop()
            elif ft.k == 'rec': f[fn] = self.default(ft)
            else: f[fn] = self.uninit(ft, fn)
    def e_ctor(self, n):
        t = self.ty(n); d = n['d']
        if t.k == 'array':
            el = t.elem
            out = []
            for _ in range(t.d['n']): out.append((TRUE, self.default(el)))
            return VecV(out)
        if t.name not in self.P.recs:
            return self.lib.ctor(t, n, d)
        if n.get('cc') in ('copy', 'move') and (d.get('impl') or n.get('el')) :
            return self.val(n['a'][0])
        fn = self.P.funcs.get(d['f'])
        if fn is None and n.get('cc') in ('copy', 'move'): return self.val(n['a'][0])
        self.st.ctr += 1
        root = ('T', self.st.ctr, t.name)
        self.st.mem[root] = StructV(t.name, {})
        self.ctor_into(ptr(LV(root)), n, t.name)
        v = self.st.mem.pop(root)
        return v
    def e_ictor(self, n): raise Unsupported('inherited constructor')

    # ------------------------------------------------------------------ calls
    def e_call(self, n):
        self.calls += 1
        d = n.get('d')
        if d is None:
            fv = self.rv(n['ce']) if not n['ce']['k'] in ('fn',) else self.E(n['ce'])
            if n['ce']['k'] == 'bin' and n['ce']['op'] in ('.*', '->*'): pass
            args = [self.E(a) for a in n['a']]
            return self.call_value(fv, args, n)
        q = norm_q(d['q'])
        member = d.get('m')
        if 'o' in n:
            obj = self.E(n['o'])
            if type(obj) is not PtrV and not (type(obj) is T and False): 
                if type(obj) is StructV or type(obj) is T or type(obj) in (VecV, MapV, OptV, IterV): obj = self.tmp(obj)
            args = [self.E(a) for a in n['a']]
        elif 'oc' in n and member:
            if n['oc'] == '=' or (n['oc'].endswith('=') and n['oc'] not in ('==', '!=', '<=', '>=')):
                args = [self.E(a) for a in n['a'][1:]]; obj = self.E(n['a'][0])
            else:
                obj = self.E(n['a'][0]); args = [self.E(a) for a in n['a'][1:]]
            if type(obj) is not PtrV: obj = self.tmp(obj) if type(obj) is not FnV else obj
        else:
            obj = None
            args = [self.E(a) for a in n['a']]
        if type(obj) is PtrV and d['n'] == 'operator()' and len(obj.alts) == 1 and obj.alts[0][1] is not None:
            f = self.load(obj.alts[0][1])
            if type(f) is FnV: obj = f
        if type(obj) is FnV: return self.call_value(obj, args, n)
        if 'ce' in n and 'o' not in n and member:
            raise Unsupported('member pointer call form')
        if d.get('asg') and d.get('impl'):
            v = args[0]; v = self.read(v) if type(v) is PtrV else v
            self.write(obj, v, n); return obj
        return self.invoke(d, q, obj, args, n)
    def e_method(self, n): raise Unsupported('method value')
    def invoke(self, d, q, obj, args, n):
        c = self.contracts.get(d['f']) or self.contracts.get(q)
        if c is not None:
            r = c(self, d, obj, args, n)
            if r is not NotImplemented: return r
        if not d.get('my'):
            if d['n'] in ('operator()',) and q.startswith('std::function'):
                return self.call_value(self.read(obj), args, n)
            return self.lib.call(d, q, obj, args, n)
        if d.get('v') and not n.get('nv'):
            return self.vcall(d, q, obj, args, n)
        fn = self.P.funcs.get(d['f'])
        if fn is None:
            if d['n'].startswith('operator=') and d.get('impl'):
                v = args[0]; self.write(obj, self.read(v) if type(v) is PtrV else v); return obj
            if d['n'].startswith('~'): return VOID
            r = self.lib.external(d, q, obj, args, n)
            if r is not None: return r
            raise Unsupported('no body for %s (%s) at %s' % (q, d['f'], self.where(n)))
        return self.call_fn(fn, obj, args, n)
    def resolve(self, cls, f):
        """final overrider of virtual function f in dynamic class cls (mangled name)"""
        key = (cls, f)
        if key in self.vt: return self.vt[key]
        r = self._resolve(cls, f)
        self.vt[key] = r
        return r
    def _ovset(self, f):
        if not hasattr(self, '_ovs'): 
            self._ovs = {}
            for r in self.P.recs.values():
                for m in r.methods:
                    if m.get('ov'): self._ovs[m['f']] = set(m['ov'])
        out = set(); st = [f]
        while st:
            x = st.pop()
            for y in self._ovs.get(x, ()):
                if y not in out: out.add(y); st.append(y)
        return out
    def _resolve(self, cls, f):
        r = self.P.recs.get(cls)
        if r is None: return None
        for m in r.methods:
            if m['f'] == f or f in self._ovset(m['f']): return m
        for b in r.bases:
            x = self._resolve(b.name, f)
            if x is not None: return x
        return None
    def vcall(self, d, q, obj, args, n):
        alts = self.live(obj, n)
        groups = {}
        for g, t in alts:
            o = self.load(t)
            if type(o) is not StructV: raise Unsupported('virtual call %s on %r' % (q, o))
            groups.setdefault(o.cls, []).append((g, t))
        def one(cls, al):
            c = self.contracts.get(('cls', cls, d['n']))
            p = normalts(al) if len(al) > 1 else ptr(al[0][1])
            if c is not None:
                r = c(self, d, p, args, n)
                if r is not NotImplemented: return r
            m = self.resolve(cls, d['f'])
            if m is None: raise Unsupported('cannot resolve %s in %s' % (q, cls))
            if m.get('pure'):
                r = self.lib.external(m, norm_q(m['q']), p, args, n)
                if r is not None: return r
                raise Unsupported('pure virtual %s on %s' % (q, cls))
            c = self.contracts.get(m['f']) or self.contracts.get(norm_q(m['q']))
            if c is not None:
                r = c(self, m, p, args, n)
                if r is not NotImplemented: return r
            fn = self.P.funcs.get(m['f'])
            if fn is None:
                r = self.lib.external(m, norm_q(m['q']), p, args, n)
                if r is not None: return r
                raise Unsupported('no body for %s' % m['q'])
            return self.call_fn(fn, p, args, n)
        gl = list(groups.items())
        def go(i):
            if i == len(gl) - 1: return one(*gl[i])
            return self.branch(Or(*[g for g, _ in gl[i][1]]), lambda: one(*gl[i]), lambda: go(i + 1))
        return go(0)
    def call_value(self, fv, args, n):
        """call a function value (pointer, std::function, lambda, member pointer)"""
        if type(fv) is PtrV and len(fv.alts) >= 1:
            tg = [(g, t) for g, t in fv.alts if t is not None]
            if len(tg) == 1 and type(tg[0][1]) is FnV: return self.call_value(tg[0][1], args, n)
            if len(tg) == 1: return self.call_value(self.load(tg[0][1]), args, n)
        if type(fv) is not FnV: raise Unsupported('call of %r' % (fv,))
        if fv.kind == 'py': return fv.d(self, args, n)
        if fv.kind == 'fn': return self.invoke(fv.d, norm_q(fv.d['q']), None, args, n or {})
        if fv.kind == 'bound': return self.invoke(fv.d[0], norm_q(fv.d[0]['q']), fv.d[1], args, n or {})
        if fv.kind == 'mfn': return self.invoke(fv.d, norm_q(fv.d['q']), args[0], args[1:], {})
        if fv.kind == 'lam':
            node, types, caps, this, func = fv.d
            if node.get('generic'):
                # instances made by the compiler: pick the one whose parameters have the types of the arguments
                ts = (n or {}).get('argtypes')
                if ts is None: raise Unsupported('generic lambda')
                c = [x for x in node.get('spec', []) if [types[p['t']].deref().nq for p in x['p']] == ts]
                if len(c) != 1: raise Unsupported('generic lambda: %d instances for %s' % (len(c), ts))
                node = c[0]
            self.st.ctr += 1
            fr = Frame(func, types, self.st.ctr, this, 'lambda')
            for i, (k, v) in caps.items():
                if k == 'ref': fr.env[i] = v
                else:
                    root = ('L', fr.id, i); self.st.mem[root] = v; fr.cells.append(root)
            self.bind(fr, node['p'], args)
            fr.rt = types[node['rt']]
            self.frames.append(fr); self.depth += 1
            return self.run_body(fr, node['b'])
        raise Unsupported('call kind ' + fv.kind)
    def bind(self, fr, params, args):
        if len(args) < len(params): raise Unsupported('missing arguments for %s' % fr.name)
        for p, a in zip(params, args):
            t = fr.types[p['t']]
            root = ('L', fr.id, p['id']); fr.cells.append(root)
            if t.k in ('lref', 'rref'):
                if type(a) is not PtrV and not (type(a) is T and a.sort == 'S' and False):
                    self.st.ctr += 1
                    r2 = ('L', fr.id, 'a%d' % self.st.ctr); fr.cells.append(r2)
                    self.st.mem[r2] = a; a = ptr(LV(r2))
                fr.refs.add(p['id'])
            elif type(a) is PtrV and t.k not in ('ptr', 'mptr') and not (t.k == 'rec' and t.tn in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr')):
                # an lvalue passed where a value is expected (library callbacks)
                a = self.read(a)
            self.st.mem[root] = a
    def enter(self, fn, this, args):
        self.st.ctr += 1
        fr = Frame(fn, fn.types, self.st.ctr, this, fn.q)
        self.bind(fr, fn.params, args)
        self.frames.append(fr)
        self.depth += 1
        if self.depth > 300: raise Unsupported('recursion depth in ' + fn.q)
        return fr
    def leave(self, fr):
        if self.frames and self.frames[-1] is fr: self.frames.pop()
        self.depth -= 1
        m = self.st.mem
        for c in fr.cells: m.pop(c, None)
    def call_fn(self, fn, this, args, n=None):
        self.called[fn.q] = self.called.get(fn.q, 0) + 1
        fr = self.enter(fn, this, args)
        fr.rt = fn.types[fn.d['rt']]
        return self.run_body(fr, fn.body)
    def ret_value(self, fr, e):
        v = self.E(e)
        if fr.rt is not None and fr.rt.k not in ('lref', 'rref') and e.get('lv') and type(v) is PtrV and not (fr.rt.k == 'ptr'):
            v = self.read(v)
        elif fr.rt is not None and fr.rt.k == 'b' and fr.rt.s == 'void': return VOID
        return v
    def run_body(self, fr, body):
        ok = False
        try:
            b = body.get('b') if body['k'] == 'block' else None
            if b is not None and len(b) == 1 and b[0]['k'] == 'return' and 'e' in b[0]:
                v = self.ret_value(fr, b[0]['e'])
                ok = True
                return v
            outs = self.exec_block(body, self.st) if body['k'] == 'block' else self.exec(body, self.st)
            ret = []
            for o in outs:
                if o.kind == 'normal': ret.append((o.st, VOID))
                elif o.kind == 'return': ret.append((o.st, o.val if o.val is not None else VOID))
            thr = [o for o in outs if o.kind == 'throw']
            for s, _ in ret:
                for c in fr.cells: s.mem.pop(c, None)
            for o in thr:
                for c in fr.cells: o.st.mem.pop(c, None)
            rs = merge_states(ret)
            ok = True
            return self.choose([Out('normal', s, v) for s, v in rs] + thr)
        finally:
            if self.frames and fr in self.frames:
                while self.frames and self.frames[-1] is not fr: self.frames.pop()
                self.frames.pop()
            self.depth -= 1
            m = self.st.mem
            for c in fr.cells: m.pop(c, None)

    # ------------------------------------------------------------------ statements
    def exec(self, n, st):
        """returns list of Out; st is consumed"""
        k = n['k']
        h = getattr(self, 's_' + k, None)
        if h is not None: return h(n, st)
        # expression statement
        return [Out(o.kind, o.st, None if o.kind == 'normal' else o.val) for o in self.multi(st, lambda: self.E(n))]
    def exec_seq(self, stmts, st):
        cur = [st]; outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.exec(s, c):
                    if o.kind == 'normal': nxt.append((o.st, None))
                    else: outs.append(o)
            cur = [x for x, _ in (merge_states(nxt) if len(nxt) > 1 else nxt)]
            if not cur: break
        return self.compact([Out('normal', c) for c in cur] + outs)
    def compact(self, outs):
        if len(outs) < 2: return outs
        res = []
        for kind in ('normal', 'return', 'break', 'continue'):
            g = [(o.st, o.val) for o in outs if o.kind == kind]
            if len(g) > 1: g = merge_states(g)
            res += [Out(kind, s, v) for s, v in g]
        res += [o for o in outs if o.kind == 'throw']
        return res
    def exec_block(self, n, st): return self.exec_seq(n['b'], st)
    def s_block(self, n, st): return self.exec_seq(n['b'], st)
    def s_null(self, n, st): return [Out('normal', st)]
    def declare(self, v):
        f = self.frames[-1]
        t = self.tyi(v['t'])
        if v.get('static'):
            root = ('SL', f.func.f if f.func else f.name, v['id'])
            f.env[v['id']] = ptr(LV(root))
            if root not in self.st.mem:
                self.st.mem[root] = self.val(v['init']) if 'init' in v else self.default(t)
            return
        root = ('L', f.id, v['id'])
        if root not in f.cells: f.cells.append(root)
        if t.k in ('lref', 'rref'):
            f.refs.add(v['id'])
            x = self.E(v['init'])
            if type(x) is not PtrV: x = self.tmp(x)
            self.st.mem[root] = x
            return
        if 'init' in v:
            i = v['init']
            x = self.E(i)
            if i.get('lv') and type(x) is PtrV and t.k != 'ptr': x = self.read(x)
            self.st.mem[root] = x
        else: self.st.mem[root] = self.uninit(t, v['n'])
    def s_decl(self, n, st):
        def run():
            for v in n['v']: self.declare(v)
        return [Out(o.kind, o.st, o.val) for o in self.multi(st, run)]
    def s_return(self, n, st):
        fr = self.frames[-1]
        if 'e' not in n: return [Out('return', st, VOID)]
        return [Out('return' if o.kind == 'normal' else o.kind, o.st, o.val) for o in self.multi(st, lambda: self.ret_value(fr, n['e']))]
    def s_break(self, n, st): return [Out('break', st)]
    def s_continue(self, n, st): return [Out('continue', st)]
    def split(self, st, c):
        """(then state or None, else state or None)"""
        if c is TRUE or c in st.has: return st, None
        if c is FALSE or Not(c) in st.has: return None, st
        a = st.fork(c); b = st.fork(Not(c))
        if any(x is FALSE for x in a.pc) or And(*a.pc) is FALSE: a = None
        if any(x is FALSE for x in b.pc) or And(*b.pc) is FALSE: b = None
        return a, b
    def s_if(self, n, st):
        def cond():
            if 'init' in n:
                i = n['init']
                if i['k'] == 'decl':
                    for v in i['v']: self.declare(v)
                else: self.E(i)
            if 'cv' in n: self.declare(n['cv'])
            return self.tobool(self.rv(n['c']))
        outs = []
        for o in self.multi(st, cond):
            if o.kind == 'throw': outs.append(o); continue
            a, b = self.split(o.st, o.val)
            if a is not None: outs += self.exec(n['a'], a)
            if b is not None:
                if 'b' in n: outs += self.exec(n['b'], b)
                else: outs.append(Out('normal', b))
        return self.compact(outs)
    # loops
    def progress(self, st):
        r = []
        for k, v in st.mem.items():
            if type(v) is IterV and type(v.i) is int: r.append((str(k), -v.i if v.rev else v.i))
        r.sort()
        return [x for _, x in r]
    def loop(self, n, st, condf, incf, bodyf, after_first=False):
        if self.loop_hook is not None:
            r = self.loop_hook(self, n, st)
            if r is not None: return r
        heads = [(st, 0)]; exits = []; others = []
        pops = 0
        skip_cond = after_first
        while heads:
            if len(heads) > 1: heads.sort(key=lambda h: (h[1] if not any(type(v) is IterV for v in h[0].mem.values()) else 0, self.progress(h[0])))
            s, cnt = heads.pop(0)
            pops += 1
            if cnt > self.max_unroll or pops > 4 * self.max_unroll: raise Unsupported('loop bound exceeded at %s' % self.where(n))
            sk = self.skip_absent(s)
            if sk is not None:
                s, s2 = sk
                if s2 is not None:
                    for i, (h, hc) in enumerate(heads):
                        m = try_merge(h, None, s2, None)
                        if m is not None: heads[i] = (m[0], max(hc, cnt)); break
                    else: heads.append((s2, cnt))
                if s is None: continue
            cs = [Out('normal', s, TRUE)] if skip_cond else self.multi(s, condf)
            skip_cond = False
            for o in cs:
                if o.kind == 'throw': others.append(o); continue
                c = o.val
                a, b = self.split(o.st, c)
                if a is not None and b is not None and cnt > 0:
                    if not self.feasible(a.pc): a = None
                    elif not self.feasible(b.pc): b = None
                if b is not None: exits.append((b, None))
                if a is not None:
                    nxt = []
                    for r in bodyf(a):
                        if r.kind in ('normal', 'continue'):
                            if incf is None: nxt.append((r.st, None))
                            else:
                                for q in self.multi(r.st, incf):
                                    if q.kind == 'throw': others.append(q)
                                    else: nxt.append((q.st, None))
                        elif r.kind == 'break': exits.append((r.st, None))
                        else: others.append(r)
                    nxt = merge_states(nxt)
                    for s2, _ in nxt:
                        for i, (h, hc) in enumerate(heads):
                            m = try_merge(h, None, s2, None)
                            if m is not None: heads[i] = (m[0], max(hc, cnt + 1)); break
                        else: heads.append((s2, cnt + 1))
        return self.compact([Out('normal', s, None) for s, _ in merge_states(exits)] + others)
    skip_refs = False
    def skip_absent(self, st):
        """an iterator resting on an element that may be absent: split into (present, absent and moved on)"""
        cells = self.frames[-1].cells
        for c in cells:
            it = st.mem.get(c)
            if self.skip_refs and type(it) is PtrV and len(it.alts) == 1 and it.alts[0][1] is not None and not it.alts[0][1].path:
                c = it.alts[0][1].root; it = st.mem.get(c)       # iterator passed by reference
            if type(it) is not IterV or it.rev or it.lag or type(it.i) is not int or it.i < 0: continue
            v = st.mem.get(it.c.root)
            try:
                for k in it.c.path: v = self.step(v, k)
            except Unsupported: continue
            if type(v) is not VecV or it.i >= len(v.e): continue
            g = v.e[it.i][0]
            if g is TRUE or g in st.has: continue
            ng = Not(g)
            b = st.copy()
            b.mem[c] = IterV(it.c, it.i + 1)
            if ng in st.has: return None, b
            b.assume(ng)
            a = st.fork(g)
            if any(x is FALSE for x in a.pc) or And(*a.pc) is FALSE: a = None
            if any(x is FALSE for x in b.pc) or And(*b.pc) is FALSE: b = None
            return a, b
        return None
    def s_while(self, n, st):
        def cond():
            if 'cv' in n: self.declare(n['cv'])
            return self.tobool(self.rv(n['c']))
        return self.loop(n, st, cond, None, lambda s: self.exec(n['b'], s))
    def s_do(self, n, st):
        return self.loop(n, st, lambda: self.tobool(self.rv(n['c'])), None, lambda s: self.exec(n['b'], s), after_first=True)
    def s_for(self, n, st):
        outs = []
        starts = [st]
        if 'init' in n:
            starts = []
            for o in self.exec(n['init'], st):
                if o.kind == 'normal': starts.append(o.st)
                else: outs.append(o)
        condf = (lambda: self.tobool(self.rv(n['c']))) if 'c' in n else (lambda: TRUE)
        incf = (lambda: self.E(n['inc'])) if 'inc' in n else None
        heads = starts
        if len(starts) > 1:
            # several iterator start positions: feed the loop as merged heads in order
            return self.compact(outs + self.loop_multi(n, starts, condf, incf))
        for s in starts: outs += self.loop(n, s, condf, incf, lambda s2: self.exec(n['b'], s2))
        return self.compact(outs)
    def loop_multi(self, n, starts, condf, incf):
        outs = []
        for s in starts: outs += self.loop(n, s, condf, incf, lambda s2: self.exec(n['b'], s2))
        return outs
    def s_forr(self, n, st):
        f = self.frames[-1]
        v = n['v']; t = self.tyi(v['t'])
        if self.loop_hook is not None:
            r = self.loop_hook(self, n, st)
            if r is not None: return r
        outs = []; exits = []
        for o in self.multi(st, lambda: self.range_of(n)):
            if o.kind == 'throw': outs.append(o); continue
            cont, items = o.val
            cur = [(o.st, None)]
            for g, item in items:
                nxt = []
                for s, _ in cur:
                    a, b = self.split(s, g)
                    if b is not None: nxt.append((b, None))
                    if a is None: continue
                    root = ('L', f.id, v['id'])
                    if root not in f.cells: f.cells.append(root)
                    self.st = a
                    if t.k in ('lref', 'rref'):
                        f.refs.add(v['id'])
                        x = item(self)
                        a.mem[root] = x if type(x) is PtrV else self.tmp(x)
                    else:
                        x = item(self)
                        a.mem[root] = self.read(x) if type(x) is PtrV else x
                    a = self.st
                    for r in self.exec(n['b'], a):
                        if r.kind in ('normal', 'continue'): nxt.append((r.st, None))
                        elif r.kind == 'break': exits.append((r.st, None))
                        else: outs.append(r)
                cur = merge_states(nxt)
            exits += cur
        return self.compact([Out('normal', s, None) for s, _ in merge_states(exits)] + outs)
    def range_of(self, n):
        p = self.E(n['r'])
        if type(p) is not PtrV: p = self.tmp(p)
        al = self.live(p, n)
        if len(al) > 1:
            p = self.tmp(self.read(p)); al = p.alts
        lv = al[0][1]; v = self.load(lv)
        if type(v) is VecV: return lv, [(g, (lambda I, k=k: ptr(lv.sub(k)))) for k, (g, _) in enumerate(v.e)]
        if type(v) is MapV: return lv, [(g, (lambda I, k=k: ptr(lv.sub(k)))) for k, (g, _, _) in enumerate(v.e)]
        if type(v) is T and v.sort == 'S':
            u = unitlist(v)
            if u is None: raise Unsupported('loop over symbolic string at %s' % self.where(n))
            return lv, [(TRUE, (lambda I, c=c: c)) for c in u]
        r = self.lib.range_of(lv, v, n)
        if r is None: raise Unsupported('range over %r' % (v,))
        return lv, r
    def s_switch(self, n, st):
        outs = []
        for o in self.multi(st, lambda: self.rv(n['c'])):
            if o.kind == 'throw': outs.append(o); continue
            c = o.val
            if c.sort == 'B': c = self.b2i(c)
            # flatten
            items = []; vals = []
            body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
            for s in body:
                while s['k'] in ('case', 'default'):
                    if s['k'] == 'case':
                        if 'v2' in s: cond = And(Ge(c, I(s['v'])), Le(c, I(s['v2'])))
                        else: cond = Eq(c, I(s['v']))
                        items.append(('label', cond)); vals.append(cond)
                    else: items.append(('label', None))
                    s = s['b']
                items.append(('stmt', s))
            dflt = And(*[Not(x) for x in vals])
            hasdef = any(k == 'label' and x is None for k, x in items)
            cur = []
            for k, x in items:
                if k == 'label':
                    cond = dflt if x is None else x
                    a, _ = self.split(o.st, cond)
                    if a is o.st: a = a.copy()
                    if a is not None: cur = [s for s, _ in merge_states([(s, None) for s in cur] + [(a, None)])]
                else:
                    nxt = []
                    for s in cur:
                        for r in self.exec(x, s):
                            if r.kind == 'normal': nxt.append((r.st, None))
                            elif r.kind == 'break': outs.append(Out('normal', r.st))
                            else: outs.append(r)
                    cur = [s for s, _ in merge_states(nxt)]
            outs += [Out('normal', s) for s in cur]
            if not hasdef:
                a, _ = self.split(o.st, dflt)
                if a is not None: outs.append(Out('normal', a))
        return self.compact(outs)
    def s_case(self, n, st): return self.exec(n['b'], st)
    def s_default(self, n, st): return self.exec(n['b'], st)
    def s_try(self, n, st):
        outs = []
        f = self.frames[-1]
        for o in self.exec(n['b'], st):
            if o.kind != 'throw': outs.append(o); continue
            done = False
            for h in n['h']:
                if 'v' not in h: done = True
                else:
                    ht = self.tyi(h['v']['t']).deref()
                    done = self.catches(ht, o.val)
                    if done:
                        root = ('L', f.id, h['v']['id'])
                        val = o.val.v if o.val.v is not None else StructV('exc', {})
                        if self.tyi(h['v']['t']).k in ('lref', 'rref'):
                            f.refs.add(h['v']['id']); r2 = ('L', f.id, 'ex%d' % h['v']['id']); o.st.mem[r2] = val; o.st.mem[root] = ptr(LV(r2))
                        else: o.st.mem[root] = val
                if done:
                    for r in self.exec(h['b'], o.st):
                        if r.kind == 'throw' and r.val.t == 'rethrow': r.val = o.val
                        outs.append(r)
                    break
            if not done: outs.append(o)
        return self.compact(outs)
    def catches(self, ht, thrown):
        hn = ht.nq.replace('const ', ''); tn = thrown.t.replace('const ', '').replace('class ', '')
        if hn == tn: return True
        std = {'std::exception': None, 'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::out_of_range': 'std::logic_error',
               'std::invalid_argument': 'std::logic_error', 'std::bad_cast': 'std::exception', 'std::bad_variant_access': 'std::exception'}
        x = tn
        while x in std and std[x]:
            x = std[x]
            if x == hn: return True
        rec = self.P.recs.get(tn)
        if rec: return any(b.name == hn for b in rec.bases) or (hn == 'std::exception')
        return False

    # ------------------------------------------------------------------ entry
    def run(self, fn, this, args, st):
        """all outcomes of calling Func fn"""
        return self.multi(st, lambda: self.call_fn(fn, this, args))

def as01(t):
    if isc(t) and t.val in (0, 1): return B(t.val)
    if t.op == 'ite':
        a, b = as01(t.args[1]), as01(t.args[2])
        if a is not None and b is not None: return Ite(t.args[0], a, b)
    return None

def interval(t, ranges, memo=None):
    if memo is None: memo = {}
    if t.id in memo: return memo[t.id]
    op = t.op
    r = (None, None)
    if op == 'const': r = (t.val, t.val)
    elif op == 'var': r = ranges.get(t.val, (None, None))
    elif op == 'app': r = ranges.get('app:' + t.val, (None, None))
    elif op == 'ite':
        a = interval(t.args[1], ranges, memo); b = interval(t.args[2], ranges, memo)
        r = (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    elif op == 'add':
        lo = hi = 0
        for x in t.args:
            a = interval(x, ranges, memo)
            lo = None if lo is None or a[0] is None else lo + a[0]
            hi = None if hi is None or a[1] is None else hi + a[1]
        r = (lo, hi)
    elif op == 'mul':
        k = t.args[0].val; a = interval(t.args[1], ranges, memo)
        x = None if a[0] is None else a[0] * k; y = None if a[1] is None else a[1] * k
        r = (x, y) if k > 0 else (y, x)
    elif op == 'nlmul':
        a = interval(t.args[0], ranges, memo); b = interval(t.args[1], ranges, memo)
        if None not in a and None not in b:
            c = [p * q for p in a for q in b]; r = (min(c), max(c))
    elif op == 'emod':
        if isc(t.args[1]): r = (0, abs(t.args[1].val) - 1)
        else:
            b = interval(t.args[1], ranges, memo)
            if None not in b: r = (0, max(abs(b[0]), abs(b[1])))
    elif op == 'ediv':
        a = interval(t.args[0], ranges, memo)
        if isc(t.args[1]) and t.args[1].val > 0:
            k = t.args[1].val
            r = (None if a[0] is None else a[0] // k, None if a[1] is None else a[1] // k)
        elif None not in a:
            m = max(abs(a[0]), abs(a[1])); r = (-m, m)
    elif op == 'len': r = (0, 1 << 31)
    elif op == 'codeat': r = (-1, 255)
    elif op == 'toreal': r = interval(t.args[0], ranges, memo)
    elif op == 'floor':
        a = interval(t.args[0], ranges, memo)
        import math
        r = (None if a[0] is None else math.floor(a[0]), None if a[1] is None else math.floor(a[1]))
    memo[t.id] = r
    return r
