"""Hash-consed first-order terms with light simplification.  Sorts: 'B' bool, 'I' int, 'R' real,
'S' string, 'U:<name>' uninterpreted."""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', 'z', 'ng', '__weakref__')
    def __repr__(self): return show(self)
    def __bool__(self): raise TypeError("symbolic term used as python bool: " + show(self))

_tab = {}
_n = [0]

def _mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = tuple(args); t.sort = sort; t.val = val; t.z = None; t.ng = None
        _n[0] += 1; t.id = _n[0]
        _tab[key] = t
    return t

TRUE = _mk('const', (), 'B', True)
FALSE = _mk('const', (), 'B', False)
def B(b): return TRUE if b else FALSE
def I(n): return _mk('const', (), 'I', int(n))
def R(x): return _mk('const', (), 'R', Fraction(x))
def S(s): return _mk('const', (), 'S', s)
def Var(name, sort): return _mk('var', (), sort, name)
def App(name, sort, *args): return _mk('app', args, sort, name)
_fresh = [0]
def Fresh(name, sort):
    _fresh[0] += 1
    return Var('%s!%d' % (name, _fresh[0]), sort)

def isc(t): return t.op == 'const'

def Not(a):
    r = a.ng
    if r is None: r = a.ng = _not(a)
    return r
def _not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
        return Ite(a.args[0], Not(a.args[1]), Not(a.args[2]))
    return _mk('not', (a,), 'B')

def And(*xs):
    out = []; seen = set()
    def add(x):
        if x is TRUE: return True
        if x is FALSE: return False
        if x.op == 'and':
            for y in x.args:
                if not add(y): return False
            return True
        if x.id in seen: return True
        n = Not(x)
        if n.id in seen: return False
        seen.add(x.id); out.append(x); return True
    for x in xs:
        if not add(x): return FALSE
    # const equality conflicts:  (x == 1) and (x == 2)
    eqs = {}
    for x in out:
        if x.op == 'eq' and isc(x.args[1]):
            k = x.args[0].id
            if k in eqs and eqs[k] is not x.args[1]: return FALSE
            eqs[k] = x.args[1]
    if eqs:
        o2 = []
        for x in out:
            if x.op == 'not' and x.args[0].op == 'eq' and isc(x.args[0].args[1]):
                k = x.args[0].args[0].id
                if k in eqs and eqs[k] is not x.args[0].args[1]: continue
            o2.append(x)
        out = o2
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('and', out, 'B')

def Or(*xs):
    out = []; seen = set()
    def add(x):
        if x is FALSE: return True
        if x is TRUE: return False
        if x.op == 'or':
            for y in x.args:
                if not add(y): return False
            return True
        if x.id in seen: return True
        if Not(x).id in seen: return False
        seen.add(x.id); out.append(x); return True
    for x in xs:
        if not add(x): return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    # absorption of complementary tails: (a and r) or (not a and r) -> r
    if len(out) == 2:
        a, b = out
        sa = set(a.args) if a.op == 'and' else {a}
        sb = set(b.args) if b.op == 'and' else {b}
        com = sa & sb
        ra, rb = sa - com, sb - com
        if not ra or not rb: return And(*com) if com else TRUE
        if len(ra) == 1 and len(rb) == 1:
            x = next(iter(ra)); y = next(iter(rb))
            if Not(x) is y: return And(*com)
        if len(ra) == 1:
            x = next(iter(ra))
            if Not(x) in rb: return Or(a, And(*(sb - {Not(x)})))
        if len(rb) == 1:
            y = next(iter(rb))
            if Not(y) in ra: return Or(b, And(*(sa - {Not(y)})))
    out.sort(key=lambda t: t.id)
    return _mk('or', out, 'B')

def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return Eq(a, b)

def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    assert a.sort == b.sort, (a.sort, b.sort, show(a), show(b))
    if c.op == 'not': return Ite(c.args[0], b, a)
    if a.sort == 'B':
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
        if Not(a) is b: return Eq(c, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if b.op == 'ite' and b.args[1] is a: return Ite(Or(c, b.args[0]), a, b.args[2])
    return _mk('ite', (c, a, b), a.sort)

def _itedepth(t, lim=600):
    # number of constant leaves if t is an ite tree with constant leaves only, else None
    n = 0; st = [t]; seen = 0
    while st:
        x = st.pop(); seen += 1
        if seen > lim: return None
        if x.op == 'ite': st.append(x.args[1]); st.append(x.args[2])
        elif isc(x): n += 1
        else: return None
    return n

def mapleaves(t, f, memo=None):
    if memo is None: memo = {}
    if t.id in memo: return memo[t.id]
    if t.op == 'ite': r = Ite(t.args[0], mapleaves(t.args[1], f, memo), mapleaves(t.args[2], f, memo))
    else: r = f(t)
    memo[t.id] = r
    return r

import re as _re
_NUM = _re.compile(r'-?[0-9]+(\.[0-9]+)?')
def Eq(a, b):
    if a is b: return TRUE
    assert a.sort == b.sort, ('Eq sorts', a.sort, b.sort, show(a), show(b))
    if isc(a) and isc(b): return FALSE
    if isc(a): a, b = b, a
    if a.sort == 'B':
        if b is TRUE: return a
        if b is FALSE: return Not(a)
        if Not(a) is b: return FALSE
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return Ite(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
    if isc(b) and a.op == 'ite':
        if a.args[1].op == 'const' or a.args[2].op == 'const' or _itedepth(a) is not None:
            return mapleaves(a, lambda x: Eq(x, b))
    if isc(a) is False and b.op == 'ite' and a.op != 'ite' and (b.args[1] is a or b.args[2] is a):
        return mapleaves(b, lambda x: Eq(a, x))
    if a.op == 'ite' and b.op != 'ite' and (a.args[1] is b or a.args[2] is b):
        return mapleaves(a, lambda x: Eq(x, b))
    if a.op == 'ite' and b.op == 'ite' and _itedepth(b) is not None and _itedepth(a) is not None and _itedepth(a) * _itedepth(b) < 2000:
        return mapleaves(a, lambda x: Eq(b, x))
    if a.sort == 'S':
        if isc(b) and a.op == 'app' and a.val in ('itoa', 'dec2s') and not _NUM.fullmatch(b.val): return FALSE
        r = _eqstr(a, b)
        if r is not None: return r
    if a.sort in 'IR' and a.op == 'add' and isc(b):
        c = [x for x in a.args if isc(x)]
        if c:
            k = c[0].val
            rest = [x for x in a.args if not isc(x)]
            return Eq(Add(*rest), (I if a.sort == 'I' else R)(b.val - k))
    if a.sort == 'R' and a.op == 'toreal' and b.op == 'toreal': return Eq(a.args[0], b.args[0])
    if a.sort == 'R' and a.op == 'toreal' and isc(b):
        if b.val.denominator != 1: return FALSE
        return Eq(a.args[0], I(b.val))
    if not isc(b) and a.id > b.id: a, b = b, a
    return _mk('eq', (a, b), 'B')
def Ne(a, b): return Not(Eq(a, b))

# ---------- arithmetic
def _num(sort): return I if sort == 'I' else R
def Add(*xs):
    sort = xs[0].sort
    c = 0; out = []
    for x in xs:
        assert x.sort == sort, (x.sort, sort)
        if x.op == 'add':
            for y in x.args:
                if isc(y): c += y.val
                else: out.append(y)
        elif isc(x): c += x.val
        else: out.append(x)
    # cancel x and -x
    coeff = {}
    order = []
    for x in out:
        if x.op == 'mul' and isc(x.args[0]) and len(x.args) == 2: k, y = x.args[0].val, x.args[1]
        else: k, y = 1, x
        if y.id not in coeff: coeff[y.id] = [y, 0]; order.append(y.id)
        coeff[y.id][1] += k
    out = []
    for i in order:
        y, k = coeff[i]
        if k == 0: continue
        out.append(y if k == 1 else _mk('mul', (_num(sort)(k), y), sort))
    if c != 0 or not out: out.append(_num(sort)(c))
    if len(out) == 1: return out[0]
    if len(out) == 2 and isc(out[1]) and out[0].op == 'ite' and _itedepth(out[0], 200):
        k = out[1]
        return mapleaves(out[0], lambda x: Add(x, k))
    return _mk('add', out, sort)
def Neg(a): return Mul(_num(a.sort)(-1), a)
def Sub(a, b): return Add(a, Neg(b))
def Mul(a, b):
    sort = a.sort
    assert a.sort == b.sort, (a.sort, b.sort)
    if isc(a) and isc(b): return _num(sort)(a.val * b.val)
    if isc(b): a, b = b, a
    if isc(a):
        if a.val == 0: return a
        if a.val == 1: return b
        if b.op == 'add': return Add(*[Mul(a, x) for x in b.args])
        if b.op == 'mul' and isc(b.args[0]): return Mul(_num(sort)(a.val * b.args[0].val), b.args[1])
        if b.op == 'ite' and _itedepth(b, 200): return mapleaves(b, lambda x: Mul(a, x))
        return _mk('mul', (a, b), sort)
    if a.id > b.id: a, b = b, a
    return _mk('nlmul', (a, b), sort)
def RDiv(a, b):
    if isc(b) and b.val != 0:
        return Mul(R(Fraction(1) / b.val), a)
    return _mk('rdiv', (a, b), 'R')
def EDiv(a, b):   # SMT-LIB (Euclidean) integer division
    if isc(a) and isc(b) and b.val != 0:
        q = a.val // b.val if b.val > 0 else -(a.val // -b.val)
        return I(q)
    if isc(b) and b.val == 1: return a
    if isc(b) and b.val > 0:
        q, r = divide(a, b.val)
        if q is not None: return Add(q, EDiv(r, b))
    return _mk('ediv', (a, b), 'I')
def EMod(a, b):
    if isc(a) and isc(b) and b.val != 0: return I(a.val % abs(b.val))
    if isc(b) and b.val == 1: return I(0)
    if isc(b) and b.val > 0:
        q, r = divide(a, b.val)
        if q is not None: return EMod(r, b)
    return _mk('emod', (a, b), 'I')
def divide(a, k):
    """a = k*q + r with every part of the sum that k divides in q; (None, a) when there is none"""
    q = []; r = []
    for x in (a.args if a.op == 'add' else (a,)):
        if isc(x):
            if x.val // k: q.append(I(x.val // k))
            if x.val % k: r.append(I(x.val % k))
        elif x.op == 'mul' and isc(x.args[0]) and x.args[0].val // k:
            c = x.args[0].val
            if c % k == 0: q.append(Mul(I(c // k), x.args[1]))
            else: r.append(x)
        else: r.append(x)
    if not q: return None, a
    return Add(*q), Add(*r) if r else I(0)
def TDiv(a, b):   # C++ truncated division
    if isc(a) and isc(b) and b.val != 0:
        q = abs(a.val) // abs(b.val)
        return I(q if (a.val >= 0) == (b.val > 0) else -q)
    if a.op == 'ite' and isc(b) and _itedepth(a, 200): return mapleaves(a, lambda x: TDiv(x, b))
    if isc(b) and b.val > 0:
        if nonneg(a): return EDiv(a, b)
        return Ite(Ge(a, I(0)), EDiv(a, b), Neg(EDiv(Neg(a), b)))
    return Ite(Ge(a, I(0)), EDiv(a, b), Neg(EDiv(Neg(a), b)))
def TMod(a, b):
    if isc(a) and isc(b) and b.val != 0:
        r = abs(a.val) % abs(b.val)
        return I(r if a.val >= 0 else -r)
    if a.op == 'ite' and isc(b) and _itedepth(a, 200): return mapleaves(a, lambda x: TMod(x, b))
    if isc(b) and b.val > 0 and nonneg(a): return EMod(a, b)
    return Ite(Ge(a, I(0)), EMod(a, b), Neg(EMod(Neg(a), b)))
def nonneg(a):
    if isc(a): return a.val >= 0
    if a.op in ('emod', 'len'): return True
    if a.op == 'add': return all(nonneg(x) for x in a.args)
    if a.op == 'mul': return a.args[0].val > 0 and nonneg(a.args[1])
    if a.op == 'ite': return nonneg(a.args[1]) and nonneg(a.args[2])
    if a.op == 'ediv': return nonneg(a.args[0]) and isc(a.args[1]) and a.args[1].val > 0
    return False
def Lt(a, b):
    assert a.sort == b.sort, (a.sort, b.sort)
    if isc(a) and isc(b): return B(a.val < b.val)
    if a is b: return FALSE
    if a.op == 'ite' and isc(b) and _itedepth(a, 200): return mapleaves(a, lambda x: Lt(x, b))
    if b.op == 'ite' and isc(a) and _itedepth(b, 200): return mapleaves(b, lambda x: Lt(a, x))
    if isc(b) and a.op == 'add' and isc(a.args[-1]):
        return Lt(Add(*a.args[:-1]), _num(a.sort)(b.val - a.args[-1].val))
    if isc(a) and b.op == 'add' and isc(b.args[-1]):
        return Lt(_num(a.sort)(a.val - b.args[-1].val), Add(*b.args[:-1]))
    if isc(b) and b.sort == 'I' and b.val <= 0 and nonneg(a): return FALSE
    if isc(a) and a.sort == 'I' and a.val < 0 and nonneg(b): return TRUE
    return _mk('lt', (a, b), 'B')
def Gt(a, b): return Lt(b, a)
def Le(a, b): return Not(Lt(b, a))
def Ge(a, b): return Not(Lt(a, b))
def ToReal(a):
    if a.sort == 'R': return a
    if isc(a): return R(a.val)
    if a.op == 'ite': return mapleaves(a, ToReal)
    return _mk('toreal', (a,), 'R')
def Floor(a):     # real -> int
    if isc(a): return I(a.val.__floor__())
    if a.op == 'toreal': return a.args[0]
    if a.op == 'ite' and _itedepth(a, 200): return mapleaves(a, Floor)
    return _mk('floor', (a,), 'I')
def TruncToInt(a):
    if isc(a): return I(int(a.val))
    if a.op == 'toreal': return a.args[0]
    return Ite(Ge(a, R(0)), Floor(a), Neg(Floor(Neg(a))))
def Abs(a): return Ite(Lt(a, _num(a.sort)(0)), Neg(a), a)

def ForAll(bv, body):
    if isc(body): return body
    return _mk('forall', (bv, body), 'B')

# ---------- strings (sequences of bytes/codes)
def Unit(code):
    if isc(code): return S(chr(code.val))
    if code.op == 'code0': return code.args[0] if False else _mk('unit', (code,), 'S')
    if code.op == 'ite' and _itedepth(code, 300): return mapleaves(code, Unit)
    return _mk('unit', (code,), 'S')
def Concat(*xs):
    out = []
    for x in xs:
        assert x.sort == 'S', show(x)
        if x.op == 'concat': its = x.args
        else: its = (x,)
        for y in its:
            if isc(y) and y.val == '': continue
            if out and isc(out[-1]) and isc(y): out[-1] = S(out[-1].val + y.val)
            else: out.append(y)
    if not out: return S('')
    if len(out) == 1: return out[0]
    return _mk('concat', out, 'S')
def pieces(a): return a.args if a.op == 'concat' else (a,)
def knownlen(a):
    if isc(a): return len(a.val)
    if a.op == 'unit': return 1
    if a.op == 'concat':
        n = 0
        for x in a.args:
            k = knownlen(x)
            if k is None: return None
            n += k
        return n
    if a.op == 'ite':
        x, y = knownlen(a.args[1]), knownlen(a.args[2])
        return x if x == y else None
    return None
def Len(a):
    k = knownlen(a)
    if k is not None: return I(k)
    if a.op == 'concat': return Add(*[Len(x) for x in a.args])
    if a.op == 'ite': return Ite(a.args[0], Len(a.args[1]), Len(a.args[2]))
    return _mk('len', (a,), 'I')
def unitlist(a):
    """list of code terms if the string has a syntactically fixed shape, else None"""
    out = []
    for p in pieces(a):
        if isc(p): out += [I(ord(c)) for c in p.val]
        elif p.op == 'unit': out.append(p.args[0])
        elif p.op == 'ite':
            x, y = unitlist(p.args[1]), unitlist(p.args[2])
            if x is None or y is None or len(x) != len(y): return None
            out += [Ite(p.args[0], u, v) for u, v in zip(x, y)]
        else: return None
    return out
def CodeAt(a, i):
    """character code at index i (index must be in range)"""
    if isc(i):
        n = i.val
        off = 0
        for p in pieces(a):
            k = knownlen(p)
            if k is None: break
            if n < off + k:
                u = unitlist(p)
                if u is not None: return u[n - off]
                break
            off += k
    u = unitlist(a)
    if u:
        r = u[-1]
        for k in range(len(u) - 2, -1, -1): r = Ite(Eq(i, I(k)), u[k], r)
        return r
    if a.op == 'ite': return Ite(a.args[0], CodeAt(a.args[1], i), CodeAt(a.args[2], i))
    return _mk('codeat', (a, i), 'I')
def Substr(a, i, n):
    if isc(i) and isc(n) and i.val == 0 and knownlen(a) is not None and n.val >= knownlen(a): return a
    if isc(i) and isc(n):
        u = unitlist(a)
        if u is not None: return Concat(*[Unit(c) for c in u[i.val:i.val + n.val]])
    if isc(i) and i.val == 0 and n is Len(a): return a
    if a.op == 'ite': return Ite(a.args[0], Substr(a.args[1], i, n), Substr(a.args[2], i, n))
    if n.op == 'ite': return Ite(n.args[0], Substr(a, i, n.args[1]), Substr(a, i, n.args[2]))
    if i.op == 'ite': return Ite(i.args[0], Substr(a, i.args[1], n), Substr(a, i.args[2], n))
    return _mk('substr', (a, i, n), 'S')
def Contains(a, b):
    if isc(a) and isc(b): return B(b.val in a.val)
    return _mk('contains', (a, b), 'B')
def Lex(a, b):
    if isc(a) and isc(b): return B(a.val < b.val)
    if a is b: return FALSE
    return _mk('strlt', (a, b), 'B')
def _eqstr(a, b):
    ua, ub = unitlist(a), unitlist(b)
    if ua is not None and ub is not None:
        if len(ua) != len(ub): return FALSE
        return And(*[Eq(x, y) for x, y in zip(ua, ub)])
    ka, kb = knownlen(a), knownlen(b)
    if ka is not None and kb is not None and ka != kb: return FALSE
    if a.op == 'ite' and (isc(b) or ub is not None):
        return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
    if b.op == 'ite' and (isc(a) or ua is not None):
        return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
    pa, pb = list(pieces(a)), list(pieces(b))
    ch = False
    while pa and pb and pa[0] is pb[0]: pa.pop(0); pb.pop(0); ch = True
    while pa and pb and pa[-1] is pb[-1]: pa.pop(); pb.pop(); ch = True
    # strip common literal prefix characters
    while pa and pb and isc(pa[0]) and isc(pb[0]):
        x, y = pa[0].val, pb[0].val
        n = min(len(x), len(y))
        if x[:n] != y[:n]: return FALSE
        pa[0] = S(x[n:]); pb[0] = S(y[n:]); ch = True
        if not pa[0].val: pa.pop(0)
        if not pb[0].val: pb.pop(0)
    while pa and pb and isc(pa[-1]) and isc(pb[-1]):
        x, y = pa[-1].val, pb[-1].val
        n = min(len(x), len(y))
        if x[len(x) - n:] != y[len(y) - n:]: return FALSE
        pa[-1] = S(x[:len(x) - n]); pb[-1] = S(y[:len(y) - n]); ch = True
        if not pa[-1].val: pa.pop()
        if not pb[-1].val: pb.pop()
    if ch: return Eq(Concat(*pa) if pa else S(''), Concat(*pb) if pb else S(''))
    return None

# ---------- printing / traversal
def show(t, depth=6):
    if t.op == 'const':
        if t.sort == 'S': return repr(t.val)
        return str(t.val)
    if t.op == 'var': return t.val
    if depth == 0: return '...'
    n = t.val if t.op == 'app' else t.op
    return '(%s %s)' % (n, ' '.join(show(a, depth - 1) for a in t.args))

def freevars(t, acc=None, seen=None):
    if acc is None: acc = {}; 
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'var': acc[x.val] = x
        st.extend(x.args)
    return acc

def subst(t, m, memo=None):
    """m: dict var-term-id -> term"""
    if memo is None: memo = {}
    if t.id in m: return m[t.id]
    if t.id in memo: return memo[t.id]
    if not t.args: r = t
    else:
        a = [subst(x, m, memo) for x in t.args]
        r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
    memo[t.id] = r
    return r

def rebuild(t, a):
    op = t.op
    if op == 'not': return Not(a[0])
    if op == 'and': return And(*a)
    if op == 'or': return Or(*a)
    if op == 'ite': return Ite(*a)
    if op == 'eq': return Eq(*a)
    if op == 'add': return Add(*a)
    if op in ('mul', 'nlmul'): return Mul(*a)
    if op == 'rdiv': return RDiv(*a)
    if op == 'ediv': return EDiv(*a)
    if op == 'emod': return EMod(*a)
    if op == 'lt': return Lt(*a)
    if op == 'toreal': return ToReal(*a)
    if op == 'floor': return Floor(*a)
    if op == 'unit': return Unit(*a)
    if op == 'concat': return Concat(*a)
    if op == 'len': return Len(*a)
    if op == 'codeat': return CodeAt(*a)
    if op == 'substr': return Substr(*a)
    if op == 'contains': return Contains(*a)
    if op == 'strlt': return Lex(*a)
    if op == 'app': return App(t.val, t.sort, *a)
    if op == 'forall': return ForAll(*a)
    raise Exception(op)

# ---------- z3
import z3
_ctx = {}
_usorts = {}
def zsort(s):
    if s == 'B': return z3.BoolSort()
    if s == 'I': return z3.IntSort()
    if s == 'R': return z3.RealSort()
    if s == 'S': return z3.StringSort()
    if s not in _usorts: _usorts[s] = z3.DeclareSort(s[2:].replace(':', '_'))
    return _usorts[s]
def to_z3(t):
    if t.z is not None: return t.z
    st = [t]
    while st:
        x = st[-1]
        if x.z is not None: st.pop(); continue
        p = [y for y in x.args if y.z is None]
        if p: st.extend(p); continue
        st.pop(); x.z = _conv(x)
    return t.z
def zstr(s): return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))
def _conv(t, a=None, zsort=None):
    if a is None: a = [x.z for x in t.args]
    zsort = zsort or globals()['zsort']
    op = t.op
    if op == 'const':
        if t.sort == 'B': return z3.BoolVal(t.val)
        if t.sort == 'I': return z3.IntVal(t.val)
        if t.sort == 'R': return z3.RealVal(t.val)
        if t.sort == 'S': return z3.IntVal(strid(t.val)) if zsort is zsort_a else zstr(t.val)
        return z3.Const('k!%s' % t.val, zsort(t.sort))
    if op == 'var': return z3.Const(t.val, zsort(t.sort))
    if op == 'app':
        f = z3.Function(t.val, *([zsort(x.sort) for x in t.args] + [zsort(t.sort)]))
        return f(*a)
    if op == 'not': return z3.Not(a[0])
    if op == 'forall': return z3.ForAll([a[0]], a[1])
    if op == 'and': return z3.And(*a)
    if op == 'or': return z3.Or(*a)
    if op == 'ite': return z3.If(*a)
    if op == 'eq': return a[0] == a[1]
    if op == 'add': return z3.Sum(*a) if len(a) > 2 else a[0] + a[1]
    if op in ('mul', 'nlmul'): return a[0] * a[1]
    if op == 'rdiv': return a[0] / a[1]
    if op == 'ediv': return a[0] / a[1]
    if op == 'emod': return a[0] % a[1]
    if op == 'lt': return a[0] < a[1]
    if op == 'toreal': return z3.ToReal(a[0])
    if op == 'floor': return z3.ToInt(a[0])
    if op == 'unit': return z3.StrFromCode(a[0])
    if op == 'concat': return z3.Concat(*a)
    if op == 'len': return z3.Length(a[0])
    if op == 'codeat': return z3.StrToCode(z3.SubString(a[0], a[1], 1))
    if op == 'substr': return z3.SubString(*a)
    if op == 'contains': return z3.Contains(*a)
    if op == 'strlt': return a[0] < a[1]
    raise Exception(op)

# strings used only through equality: an exact abstraction to integers
STRID = {}; STRS = []
def strid(s):
    i = STRID.get(s)
    if i is None: i = STRID[s] = len(STRS); STRS.append(s)
    return i
def zsort_a(s): return z3.IntSort() if s == 'S' else zsort(s)
SIMPLE = {}; ZA = {}
_SOPS = {'var', 'const', 'app', 'eq', 'ite'}
def simple_strings(t):
    """no string operation other than equality occurs in t"""
    r = SIMPLE.get(t.id)
    if r is not None: return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in SIMPLE: st.pop(); continue
        p = [y for y in x.args if y.id not in SIMPLE]
        if p: st.extend(p); continue
        st.pop()
        ok = all(SIMPLE[y.id] for y in x.args)
        if ok and x.op not in _SOPS and (x.sort == 'S' or any(y.sort == 'S' for y in x.args)): ok = False
        SIMPLE[x.id] = ok
    return SIMPLE[t.id]
def to_z3a(t):
    if t.id in ZA: return ZA[t.id]
    st = [t]
    while st:
        x = st[-1]
        if x.id in ZA: st.pop(); continue
        p = [y for y in x.args if y.id not in ZA]
        if p: st.extend(p); continue
        st.pop(); ZA[x.id] = _conv(x, [ZA[y.id] for y in x.args], zsort_a)
    return ZA[t.id]
