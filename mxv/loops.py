"""Loop rule for loops over symbolic-length sequences ("search loops"): a loop whose body either leaves the loop
or changes nothing but loop counters/iterators, each by a fixed step.  Invariant, generated and checked:
after k iterations every counter is start + k*step and for every j < k the body at j completed normally."""
from .terms import *
from .values import *
from .interp import State, Out, merge_states
from . import interp as _i

def seq_loop_active(I_, st):
    f = I_.frames[-1]
    for k, v in st.mem.items():
        if k[0] == 'L' and k[1] == f.id:
            if type(v) is IterV and type(v.i) is T: return True
            if type(v) is PtrV and len(v.alts) == 1 and v.alts[0][1] is not None:
                try:
                    if type(I_load(st, v.alts[0][1])) is SeqV: return True
                except Exception: pass
            if type(v) is SeqV: return True
    return False
def I_load(st, lv):
    v = st.mem.get(lv.root)
    for k in lv.path:
        if type(v) is StructV: v = v.f[k]
        else: return None
    return v

def modified(n, acc=None):
    """ids of locals syntactically changed in the loop"""
    if acc is None: acc = set()
    def base(x):
        while x.get('k') in ('mat', 'cast', 'mem') and 'lv' in x: x = x.get('e') or x.get('b')
        return x
    def walk(x):
        if isinstance(x, list):
            for y in x: walk(y)
            return
        if not isinstance(x, dict): return
        k = x.get('k')
        t = None
        if k == 'un' and x['op'] in ('++', '--'): t = x['e']
        elif k == 'bin' and x['op'] == '=': t = x['a']
        elif k == 'casg': t = x['a']
        elif k == 'call' and x.get('oc') in ('++', '--', '+=', '-=', '='): t = x['a'][0]
        elif k == 'call' and 'o' in x and not x.get('d', {}).get('cm'): t = x['o']
        if t is not None:
            b = base(t)
            if b.get('k') == 'var' and 'id' in b: acc.add(b['id'])
            elif b.get('k') == 'var': acc.add(('g', b['g']))
        for v in x.values():
            if isinstance(v, (dict, list)): walk(v)
    walk(n)
    return acc

def declared(n, acc=None):
    if acc is None: acc = set()
    def walk(x):
        if isinstance(x, list):
            for y in x: walk(y)
        elif isinstance(x, dict):
            if x.get('k') == 'decl':
                for v in x['v']: acc.add(v['id'])
            for v in x.values():
                if isinstance(v, (dict, list)): walk(v)
    walk(n)
    return acc

def hook(I_, n, st):
    if n['k'] not in ('for', 'while', 'forr'): return None
    r = string_loop(I_, n, st)
    if r is not None: return r
    if n['k'] == 'forr':
        return range_loop(I_, n, st)
    if not seq_loop_active(I_, st): return None
    f = I_.frames[-1]
    body = n['b']; inc = n.get('inc'); cond = n.get('c')
    mods = [i for i in modified([body, inc or {}, cond or {}]) if not isinstance(i, tuple)]
    loc = declared(body)
    counters = {}
    for i in mods:
        if i in loc: continue
        key = ('L', f.id, i)
        v = st.mem.get(key)
        if type(v) is IterV and type(v.i) is T: counters[key] = v
        elif type(v) is T and v.sort == 'I': counters[key] = v
        elif v is None: continue
        else: raise Unsupported('loop contract: local %r changes in loop' % (v,))
    if not counters: raise Unsupported('loop contract: no counters')
    kv = Fresh('k', 'I')
    def at(s, k, steps):
        s = s.copy()
        for key, v in counters.items():
            d = Mul(I(steps[key]), k)
            s.mem[key] = IterV(v.c, Add(v.i, d), v.rev) if type(v) is IterV else Add(v, d)
        return s
    def ix(v): return v.i if type(v) is IterV else v
    # first guess of the steps: run the body once from symbolic counters
    steps = {k: 1 for k in counters}
    bounds = {}                       # Houdini candidates: counter <= length of its container
    for key, v in counters.items():
        if type(v) is IterV and not v.rev:
            c = I_load(st, v.c)
            if type(c) is SeqV and I_.solver.prove(st.pc, Le(v.i, c.n))[0] == 'proved': bounds[key] = c.n
    for attempt in range(4):
        nob = len(I_.obls)
        h = at(st, kv, steps)
        h.assume(Ge(kv, I(0)))
        for key, m in bounds.items(): h.assume(Le(ix(h.mem[key]), m))
        # invariant-derived bounds: every iterator counter stays within its container (it is what the loop condition keeps; proved inductive below)
        outs = one_iter(I_, n, h)
        bad = False
        for o in outs:
            if o.kind != 'next': continue
            for key in counters:
                d = Sub(ix(o.st.mem[key]), ix(h.mem[key]))
                if not isc(d): raise Unsupported('loop contract: non-constant step')
                if d.val != steps[key]: steps[key] = d.val; bad = True
        for key in list(bounds):
            if any(o.kind == 'next' and I_.solver.prove(o.st.pc, Le(ix(o.st.mem[key]), bounds[key]))[0] != 'proved' for o in outs):
                del bounds[key]; bad = True
        if not bad: break
        del I_.obls[nob:]
    else: raise Unsupported('loop contract: steps not stable')
    base = st.pc
    nb = len(base)
    def local(pc):
        """conjuncts added during the iteration"""
        s = set(base)
        return [c for c in pc if c not in s and c is not Ge(kv, I(0))]
    for o in outs:
        if o.kind == 'next':
            for key, v in h.mem.items():
                w = o.st.mem.get(key)
                if key in counters: continue
                if w is not v and key[0] in ('L', 'H', 'A', 'G') and w is not None:
                    if type(v) is T and v is w: continue
                    if v == w: continue
                    raise Unsupported('loop contract: loop body changes %r' % (key,))
    nexts = [And(*local(o.st.pc)) for o in outs if o.kind == 'next']
    stay = Or(*nexts)                       # iteration kv runs to completion
    res = []
    j = Fresh('j', 'I')
    allprev = ForAll(j, Implies(And(Ge(j, I(0)), Lt(j, kv)), subst(stay, {kv.id: j})))
    for o in outs:
        if o.kind == 'next': continue
        s = o.st.copy()
        s.assume(Ge(kv, I(0))); s.assume(allprev)
        res.append(Out('normal' if o.kind in ('break', 'exit') else o.kind, s, o.val))
    # obligations raised inside the iteration are stated with the path condition at kv; strengthen them
    for ob in I_.obls:
        if any(kv.val in freevars(c) for c in [ob.goal] + list(ob.pc)) and allprev not in ob.pc:
            ob.pc = tuple(ob.pc) + (allprev,)
    return res

def one_iter(I_, n, h):
    """outcomes of testing the condition and executing one iteration from state h"""
    outs = []
    def cond():
        if 'cv' in n: I_.declare(n['cv'])
        return I_.tobool(I_.rv(n['c'])) if 'c' in n else TRUE
    for o in I_.multi(h.copy(), cond):
        if o.kind == 'throw': outs.append(o); continue
        a, b = I_.split(o.st, o.val)
        if b is not None: outs.append(Out('exit', b))
        if a is not None:
            for r in I_.exec(n['b'], a):
                if r.kind in ('normal', 'continue'):
                    if 'inc' in n:
                        for q in I_.multi(r.st, lambda: I_.E(n['inc'])):
                            outs.append(Out('next' if q.kind == 'normal' else q.kind, q.st, q.val))
                    else: outs.append(Out('next', r.st))
                else: outs.append(r)
    return outs

def range_loop(I_, n, st):
    """range-for over a symbolic sequence whose body only searches"""
    f = I_.frames[-1]
    outs0 = I_.multi(st.copy(), lambda: I_.E(n['r']))
    if len(outs0) != 1 or outs0[0].kind != 'normal': return None
    p = outs0[0].val
    if type(p) is not PtrV or len(p.alts) != 1 or p.alts[0][1] is None: return None
    s0 = outs0[0].st
    sv = I_.st; I_.st = s0
    try: c = I_.load(p.alts[0][1])
    finally: I_.st = sv
    if type(c) is not SeqV: return None
    lv = p.alts[0][1]
    mods = modified(n['b']); loc = declared(n['b'])
    for i in mods:
        if isinstance(i, tuple) or i not in loc: raise Unsupported('loop contract: range loop with effects')
    kv = Fresh('k', 'I')
    v = n['v']; t = I_.tyi(v['t'])
    root = ('L', f.id, v['id'])
    h = s0.copy(); h.assume(Ge(kv, I(0)))
    e = h.fork(Ge(kv, c.n)); b = h.fork(Lt(kv, c.n))
    if root not in f.cells: f.cells.append(root)
    if t.k in ('lref', 'rref'): f.refs.add(v['id']); b.mem[root] = ptr(lv.sub(kv))
    else: b.mem[root] = c.elem(kv)
    outs = [Out('exit', e)]
    for r in I_.exec(n['b'], b): outs.append(Out('next', r.st) if r.kind in ('normal', 'continue') else r)
    base = set(s0.pc); g0 = Ge(kv, I(0))
    stay = Or(*[And(*[x for x in o.st.pc if x not in base and x is not g0]) for o in outs if o.kind == 'next'])
    j = Fresh('j', 'I')
    allprev = ForAll(j, Implies(And(Ge(j, I(0)), Lt(j, kv)), subst(stay, {kv.id: j})))
    res = []
    for o in outs:
        if o.kind == 'next': continue
        s = o.st.copy(); s.assume(g0); s.assume(allprev)
        if o.kind == 'exit': s.assume(Or(Eq(kv, c.n)) if False else Eq(kv, c.n))
        res.append(Out('normal' if o.kind in ('break', 'exit') else o.kind, s, o.val))
    return res

# ---------------------------------------------------------------- loops over the characters of a string
SMAPS = {}
def string_loop(I_, n, st):
    """A loop that walks one string of unknown length from its first to its last character and appends, for each
    character, a text that depends on that character only.  Invariant (generated, checked by running one iteration from an
    arbitrary accumulator): after k characters the accumulator is its old contents followed by the texts of the first k.
    The result is smap(string); SMAPS[name] = (character variable, [(condition, text)])."""
    f = I_.frames[-1]
    c = Var('ch', 'I'); I_.ranges['ch'] = (-128, 255)
    if n['k'] == 'forr':
        outs0 = I_.multi(st.copy(), lambda: I_.E(n['r']))
        if len(outs0) != 1 or outs0[0].kind != 'normal': return None
        p = outs0[0].val; s0 = outs0[0].st
        if type(p) is PtrV:
            if len(p.alts) != 1 or p.alts[0][1] is None: return None
            sv = I_.st; I_.st = s0
            try: src = I_.load(p.alts[0][1])
            finally: I_.st = sv
        else: src = p
        if type(src) is not T or src.sort != 'S' or unitlist_(src) is not None: return None
        v = n['v']; t = I_.tyi(v['t']); root = ('L', f.id, v['id'])
        if root not in f.cells: f.cells.append(root)
        def iterate(h):
            h = h.copy(); sv = I_.st; I_.st = h
            if t.k in ('lref', 'rref'): f.refs.add(v['id']); h.mem[root] = I_.tmp(c)
            else: h.mem[root] = c
            h = I_.st; I_.st = sv
            return [Out('next' if r.kind in ('normal', 'continue') else r.kind, r.st, r.val) for r in I_.exec(n['b'], h)]
        skip = {root}
    else:
        # an index or iterator that starts at the first character
        body = n['b']; inc = n.get('inc'); cond = n.get('c')
        loc = declared(body)
        mods = [i for i in modified([body, inc or {}, cond or {}]) if not isinstance(i, tuple) and i not in loc]
        cnt = [i for i in mods if (lambda v: (type(v) is IterV and not v.rev and v.i == 0 and type(I_load(st, v.c)) is T and unitlist_(I_load(st, v.c)) is None) or (type(v) is T and v.sort == 'I' and isc(v) and v.val == 0))(st.mem.get(('L', f.id, i)))]
        if len(cnt) != 1: return None
        key = ('L', f.id, cnt[0]); v0 = st.mem[key]
        kv = Fresh('k', 'I'); I_.ranges[kv.val] = (0, 1 << 31)
        h = st.copy(); h.mem[key] = IterV(v0.c, kv) if type(v0) is IterV else kv
        sv = I_.st; nob = len(I_.obls)
        def cnd():
            if 'cv' in n: I_.declare(n['cv'])
            return I_.tobool(I_.rv(n['c'])) if 'c' in n else TRUE
        try: co = I_.multi(h.copy(), cnd)
        except Unsupported: return None
        finally: I_.st = sv
        del I_.obls[nob:]
        if len(co) != 1 or co[0].kind != 'normal': return None
        if type(v0) is IterV: src = I_load(st, v0.c)
        else:
            ls = [x for x in subterms_(co[0].val) if x.op == 'len']
            if len(ls) != 1: return None
            src = ls[0].args[0]
        if src.sort != 'S' or unitlist_(src) is not None: return None
        g = co[0].val; nn = Len(src)
        pre = And(Ge(kv, I(0)), Le(kv, nn))
        if I_.solver.prove([pre], Eq(g, Lt(kv, nn)))[0] != 'proved': return None
        s0 = st.copy(); skip = {key}
        def iterate(h):
            h = h.copy(); h.mem[key] = IterV(v0.c, kv) if type(v0) is IterV else kv
            h.assume(Ge(kv, I(0))); h.assume(Lt(kv, nn))
            outs = one_iter(I_, n, h)
            r = []
            for o in outs:
                if o.kind == 'exit':
                    if I_.solver.check(list(o.st.pc)) != 'unsat': raise Unsupported('string loop: early exit')
                    continue
                if o.kind == 'next':
                    w = o.st.mem[key]; w = w.i if type(w) is IterV else w
                    if I_.solver.prove(list(o.st.pc), Eq(w, Add(kv, I(1))))[0] != 'proved': raise Unsupported('string loop: step is not one character')
                r.append(o)
            return r
    # which cells does an iteration change
    nob = len(I_.obls)
    first = iterate(s0)
    if any(o.kind != 'next' for o in first): raise Unsupported('string loop: iteration leaves the loop')
    acc = set()
    for o in first:
        for k, w in o.st.mem.items():
            if k in skip or k not in s0.mem: continue
            a = s0.mem[k]
            if a is w or k[0] in ('T', 'tmp'): continue
            try:
                if type(a) is not T and a == w: continue
            except Exception: pass
            acc.add(k)
    del I_.obls[nob:]
    pv = Var('already written', 'S'); h = s0.copy()
    def havoc(v):
        if type(v) is T and v.sort == 'S': return pv
        if type(v) is StructV and 'toks' in v.f: return v.set('toks', TokV(((TRUE, pv),)))
        raise Unsupported('string loop: accumulator %s' % type(v).__name__)
    if len(acc) != 1: raise Unsupported('string loop: %d accumulators' % len(acc))
    k = acc.pop(); h.mem[k] = havoc(s0.mem[k])
    outs = iterate(h)
    ch = CodeAt(src, kv) if n['k'] != 'forr' else c
    case = []; base = set(h.pc)
    for o in outs:
        if o.kind != 'next': raise Unsupported('string loop: iteration leaves the loop')
        w = o.st.mem[k]
        if type(w) is StructV:
            rest = w.f['toks'].e
            if not rest: raise Unsupported('string loop: accumulator replaced')
            if rest[0][0] is not TRUE: raise Unsupported('string loop: accumulator')
            txt = Concat(rest[0][1], *[Ite(g, x, S('')) for g, x in rest[1:]])
        else: txt = w
        ps = pieces(txt)
        if not ps or ps[0] is not pv: raise Unsupported('string loop: accumulator replaced')
        txt = Concat(*ps[1:]) if len(ps) > 1 else S('')
        cnd_ = And(*[x for x in o.st.pc if x not in base and not (n['k'] != 'forr' and x in (Ge(kv, I(0)), Lt(kv, nn)))])
        if n['k'] != 'forr': txt = subst(txt, {ch.id: c}); cnd_ = subst(cnd_, {ch.id: c})
        fv = set(freevars(txt)) | set(freevars(cnd_))
        if fv - {'ch'}: raise Unsupported('string loop: text depends on %s' % sorted(fv - {'ch'}))
        case.append((cnd_, txt))
    name = 'smap:%s' % abs(hash(tuple((a.id, b.id) for a, b in case)))
    SMAPS[name] = (c, case)
    I_.smaps = getattr(I_, 'smaps', []) + [name]
    res = App(name, 'S', src); s = s0.copy(); old = s0.mem[k]
    s.mem[k] = Concat(old, res) if type(old) is T else old.set('toks', TokV(old.f['toks'].e + ((TRUE, res),)))
    if n['k'] != 'forr': s.mem[key] = IterV(v0.c, Len(src)) if type(v0) is IterV else Len(src)
    return [Out('normal', s, None)]
def unitlist_(s):
    from .terms import unitlist
    return unitlist(s)
def subterms_(t):
    out = []; st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); out.append(x); st.extend(x.args)
    return out
