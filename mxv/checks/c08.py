"""C08: document handles."""
from ..apirt import *
from .. import fe
from ..interp import CxxThrow, Thrown, State

DM = 'mx::api::DocumentManager'
class Locks:
    """the mutexes held by the statements being evaluated: every access to the handle table must come under one"""
    def __init__(self, I_):
        self.held = []; self.I = I_; self.bad = []; self.objs = set()
        I_.lock_event = lambda m: self.held.append(m)
        blk, fn, seq = I_.exec_block, I_.call_fn, I_.s_block
        def scoped(f):
            def g(*a, **k):
                n = len(self.held)
                try: return f(*a, **k)
                finally: del self.held[n:]
            return g
        I_.s_block = scoped(seq); I_.call_fn = scoped(fn)
        ld, stf = I_.load, I_.store
        def load(lv):
            self.touch(lv); return ld(lv)
        def store(lv, v):
            self.touch(lv); return stf(lv, v)
        I_.load = load; I_.store = store
    def touch(self, lv):
        if lv.root in self.objs and lv.path and self.shared(lv) and not self.held: self.bad.append(lv)
    def shared(self, lv):
        v = self.I.st.mem.get(lv.root)
        for k in lv.path:
            if type(v) is StructV and v.cls == 'std::mutex': return False
            try: v = self.I.step(v, k)
            except Exception: return True
        return not (type(v) is StructV and v.cls == 'std::mutex') and type(v) is not PtrV

class Setting:
    """a document manager in an arbitrary state that satisfies the invariant: the handles in its table are positive, different and below the next one"""
    def __init__(self, chk, P, key):
        self.chk = chk; self.P = P; self.key = key
        self.I = I_ = engine(chk, P, opaque=False)
        g = meth(P, 'getInstance')
        outs = normal(chk, key, I_.run(g, None, [], start([])), g.where, None, 'the manager can be made')
        if len(outs) != 1: raise Unsupported('manager state depends on something')
        x = outs[0]; self.mem0 = dict(x.st.mem); self.this = x.val
        # the object(s) that hold the state
        self.roots = []
        def visit(lv):
            v = I_load(x.st, lv)
            if type(v) is not StructV: return
            self.roots.append(lv)
            for k, w in v.f.items():
                if type(w) is PtrV and len(w.alts) == 1 and w.alts[0][1] is not None: visit(w.alts[0][1])
                elif type(w) is StructV and w.cls.startswith('mx::api::'): visit(lv.sub(k))
        visit(x.val.alts[0][1])
        ms = [(lv.sub(k), w) for lv in self.roots for k, w in I_load(x.st, lv).f.items() if type(w) is MapV]
        if len(ms) != 1 or ms[0][1].e: raise Unsupported('the manager holds %d tables' % len(ms))
        self.table = ms[0][0]
        self.ints = [lv.sub(k) for lv in self.roots for k, w in I_load(x.st, lv).f.items() if type(w) is T and w.sort == 'I']
        self.first = {lv: I_load(x.st, lv) for lv in self.ints}
        self.known = [Var('h1', 'I'), Var('h2', 'I')]; self.there = [Var('p1', 'B'), Var('p2', 'B')]; self.cur = {}
    def state(self, nxt=None):
        """(state, facts): two arbitrary documents in the table"""
        st = State(()); st.mem.update(self.mem0); I_ = self.I; facts = []
        def put(lv, v): st.mem[lv.root] = I_._upd(st.mem.get(lv.root), lv.path, 0, v)
        for k, lv in enumerate(self.ints):
            v = Var('n%d' % k, 'I'); self.cur[lv] = v; I_.ranges[v.val] = (1, (1 << 31) - 2); facts += [Ge(v, I(1)), Lt(v, I((1 << 31) - 1))]; put(lv, v)
        for h in self.known: I_.ranges[h.val] = (1, (1 << 31) - 2); facts.append(Ge(h, I(1)))
        facts.append(Ne(*self.known))
        if nxt is not None: facts += [Lt(h, self.cur[nxt]) for h in self.known]
        for k in ('SAVED', 'SAVEDDOC', 'CHANGED', 'CHANGEDDOC'): st.mem[(k,)] = I(0)
        for k in (0, 1): st.mem[('DOC%d' % k,)] = StructV('mx::core::Document', {'tag': I(k)})
        put(self.table, MapV([(p, h, ptr(LV(('DOC%d' % k,)))) for k, (p, h) in enumerate(zip(self.there, self.known))]))
        for f in facts: st.assume(f)
        return st
    def lookup(self, st, q):
        """[(guard, document root)] the table gives for handle q"""
        out = []; none = []
        for g, k, v in I_load(st, self.table).e:
            c = And(g, Eq(k, q), *none); none.append(Not(And(g, Eq(k, q))))
            if c is FALSE: continue
            if type(v) is not PtrV: raise Unsupported('table of something else')
            for h, t in v.alts: out.append((And(c, h), t))
        return out
    def gives(self, st, q, root): return Or(*[g for g, t in self.lookup(st, q) if (t is None) == (root is None) and (root is None or t.root == (root,))], *([Not(Or(*[g for g, _ in self.lookup(st, q)]))] if root is None else []))
    def before(self, q): return [And(p, Eq(h, q)) for p, h in zip(self.there, self.known)]

def I_load(st, lv):
    v = st.mem[lv.root]
    for k in lv.path: v = v.f[k] if type(v) is StructV else v
    return v
def meth(P, name):
    c = [f for f in P.byq.get(DM + '::' + name, []) if f.body is not None]
    if len(c) != 1: raise Unsupported('%s: %d candidates' % (name, len(c)))
    return c[0]

MAXI = (1 << 31) - 1
def contracts(I_, P, s, load=None, read=None):
    """what the manager asks of its callees: documents and scores are opaque, every use of them is recorded in the state"""
    C = I_.contracts
    def fresh(root, cls, **f): I_.st.mem[(root,)] = StructV(cls, f); return ptr(LV((root,)))
    def fail(what): raise CxxThrow(Thrown('std::runtime_error', StructV('std::runtime_error', {'msg': what}), 'callee'))
    C['ezxml::XFactory::makeXDoc'] = lambda I, d, o, a, n: fresh('XDOC', 'ezxml::XDoc', tag=Int(0))
    def loading(I, d, o, a, n):
        if load == 'throws': fail(Var('why', 'S'))
        return VOID
    def count(k, v): m = I_.st.mem; m[(k,)] = Add(m.get((k,), Int(0)), Int(1)); m[(k + 'DOC',)] = v; return VOID
    for m in ('loadFile', 'loadStream'): C[('cls', 'ezxml::XDoc', m)] = loading
    for m in ('saveFile', 'saveStream'): C[('cls', 'ezxml::XDoc', m)] = lambda I, d, o, a, n: count('SAVED', I.read(o).f['tag'])
    C['mx::core::makeDocument'] = lambda I, d, o, a, n: fresh('NEW', 'mx::core::Document', tag=Int(2))
    def reading(I, d, o, a, n):
        if read == 'throws': fail(Var('why', 'S'))
        return B(read is None)
    C['mx::core::Document::fromXDoc'] = reading
    def toX(I, d, o, a, n):
        x = a[0]; v = I.read(o).f['tag']; I.write(x, I.read(x).set('tag', Add(v, Int(1000)))); return VOID
    C['mx::core::Document::toXDoc'] = toX
    for m in ('setChoice', 'setScorePartwise', 'setScoreTimewise', 'convertContents'):
        C['mx::core::Document::' + m] = lambda I, d, o, a, n: count('CHANGED', I.read(o).f['tag'])
    C['mx::impl::ScoreWriter::ScoreWriter'] = lambda I, fn, this, a: I.write(this, StructV('mx::impl::ScoreWriter', {}))
    def sp(I, d, o, a, n):
        if load == 'throws': fail(Var('why', 'S'))
        return fresh('SP', 'mx::core::ScorePartwise', tag=Int(9))
    C['mx::impl::ScoreWriter::getScorePartwise'] = sp
    ch = Var('form', 'I'); C['mx::core::Document::getChoice'] = lambda I, d, o, a, n: ch
    C['mx::core::Document::getScorePartwise'] = lambda I, d, o, a, n: fresh('PW', 'mx::core::ScorePartwise', tag=I.read(o).f['tag'])
    C['mx::core::Document::getScoreTimewise'] = lambda I, d, o, a, n: fresh('TW', 'mx::core::ScoreTimewise', tag=Add(I.read(o).f['tag'], Int(100)))
    def conv(I, d, o, a, n):
        x = I.read(a[0]) if type(a[0]) is PtrV else a[0]
        x = I.read(x) if type(x) is PtrV else x
        return fresh('CV', 'mx::core::ScorePartwise', tag=Add(x.f['tag'], Int(100)))
    C['mx::core::timewisePartwise'] = conv
    C['mx::impl::ScoreReader::ScoreReader'] = lambda I, fn, this, a: I.write(this, StructV('mx::impl::ScoreReader', {'tag': I.read(a[0]).f['tag']}))
    none = I_.default(P.type('mx::api::ScoreData')) if I_.frames else None
    C['mx::impl::ScoreReader::getScoreData'] = lambda I, d, o, a, n: I.default(P.type('mx::api::ScoreData')).set('ticksPerQuarter', Add(I.read(o).f['tag'], Int(50)))
    return ch
Int = I

def native_campaign(chk, secs=20):
    """bounded: random histories of the real manager, alone and from several threads"""
    rc, txt, cpp = replay.run(open('%s/cpp/handles.cpp' % os.path.dirname(os.path.dirname(__file__))).read(), 'handles', args=[str(secs * (4 if chk.tier == 'thorough' else 1)), str(chk.seed)], timeout=secs * 8 + 120, extra='-O1')
    fails = [l for l in txt.splitlines() if l.startswith('FAIL')]
    chk.bounded.append('random histories of documents by the real manager: %s' % ' '.join(l for l in txt.splitlines() if l.startswith('RUNS')))
    if fails or rc != 0: return [{'key': 'bounded:histories', 'text': 'program %s\nexit %d\n%s' % (cpp, rc, '\n'.join(fails[:20]) or txt[-1500:])}]
    return []

def operation(chk, P, name, args, post, label, load=None, read=None, throws=False):
    key = '%s/%s' % (name, label)
    s = Setting(chk, P, key); I_ = s.I
    form = contracts(I_, P, s, load, read)
    f = meth(P, name); doc = counter(chk, P, s) if name != 'createFromScore!' else None
    st = s.state(doc)
    q = Var('q', 'I'); I_.ranges['q'] = (-(1 << 31), MAXI)
    a = args(s, st, q)
    L = Locks(I_); L.objs = {lv.root for lv in s.roots}
    outs = I_.run(f, s.this, a, st)
    for o in outs:
        if (o.kind == 'throw') != throws:
            chk.prove(key + ('/it fails with an error' if throws else '/it does not fail'), list(o.st.pc), FALSE, f.where, None, kind='panic'); continue
        for nm, g in post(s, o, q, doc, form):
            chk.prove(key + '/' + nm, list(o.st.pc), g, f.where)
    chk.prove(key + '/the table is only used under its lock', [], B(not L.bad), f.where)
    chk.prove_obls(I_, key)
    chk.absorb(I_, f.q)

def counter(chk, P, s):
    """the number of the next document: the one that creating a document changes"""
    if getattr(s, 'doc', None) is not None: return s.doc
    t = Setting(chk, P, s.key); contracts(t.I, P, t); st = t.state(None)
    st.mem[('SCORE',)] = score(t.I, P)
    o = [x for x in t.I.run(meth(P, 'createFromScore'), t.this, [P_('SCORE')], st) if x.kind in ('normal', 'return')]
    ch = [lv for lv in t.ints if any(I_load(x.st, lv) is not t.cur[lv] for x in o)]
    if len(ch) != 1: raise Unsupported('no unique number of the next document')
    s.doc = next(lv for lv in s.ints if lv == ch[0]); return s.doc
def score(I_, P):
    from ..apirt import _frame
    I_.frames.append(_frame())
    try: d = I_.default(P.type('mx::api::ScoreData'))
    finally: I_.frames.pop()
    return d.set('musicXmlType', Var('musicXmlType', 'S'))

def kept(s, st, z, but=()):
    """handle z gives what it gave, unless it is one of `but`"""
    c = And(*[Ne(z, b) for b in but]); b = s.before(z)
    return [('a document stays under its handle', Implies(c, And(*[Implies(b[k], s.gives(st, z, 'DOC%d' % k)) for k in (0, 1)]))),
            ('other handles give nothing', Implies(And(c, Not(Or(*b))), s.gives(st, z, None)))]
def inv(s, st, doc):
    e = I_load(st, s.table).e; n = I_load(st, doc)
    return [('handles stay below the next one', And(*[Implies(g, Lt(k, n)) for g, k, _ in e])), ('the next handle does not go back', Ge(n, s.cur[doc]))]
def same_docs(o): return [('no document is changed', Eq(o.st.mem.get(('CHANGED',), Int(0)), Int(0)))]

def create_post(s, o, q, doc, form):
    r = o.val
    return [('the handle was never given before', Ge(r, s.cur[doc])), ('the handle is positive', Ge(r, Int(1))), ('the handle gives the new document', s.gives(o.st, r, 'NEW'))] + kept(s, o.st, q, (r,)) + inv(s, o.st, doc)
def failed_post(s, o, q, doc, form): return [('the error says what failed', B(str(getattr(o.val.t, 'nq', None) or getattr(o.val.t, 'name', None) or o.val.t).replace('const ', '').strip() != 'std::exception'))] + kept(s, o.st, q) + inv(s, o.st, doc)

def operations(chk, P):
    def stream_arg(s, st, q): st.mem[('IN',)] = Opaque('istream'); return [P_('IN')]
    def path_arg(s, st, q): st.mem[('PATH',)] = Var('path', 'S'); return [P_('PATH')]
    def score_arg(s, st, q): st.mem[('SCORE',)] = score(s.I, P); return [P_('SCORE')]
    h = lambda s, st, q: [q]
    items = []
    def add(*a, **k): items.append((a[0] + ' ' + a[3], a, k))
    for nm, arg in (('createFromFile', path_arg), ('createFromStream', stream_arg)):
        add(nm, arg, create_post, 'a readable score')
        add(nm, arg, failed_post, 'something that is no XML', load='throws', throws=True)
        add(nm, arg, failed_post, 'XML that is no score', read='fails', throws=True)
        add(nm, arg, failed_post, 'XML that cannot be read', read='throws', throws=True)
    add('createFromScore', score_arg, create_post, 'a score')
    add('createFromScore', score_arg, failed_post, 'a score that cannot be written', load='throws', throws=True)
    def destroyed(s, o, q, doc, form):
        z = Var('z', 'I')
        return [('the handle gives nothing afterwards', s.gives(o.st, q, None))] + kept(s, o.st, z, (q,)) + inv(s, o.st, doc)
    add('destroyDocument', h, destroyed, 'any handle')
    def document(s, o, q, doc, form):
        b = s.before(q); v = o.val; g = lambda root: Or(*[c for c, t in v.alts if (t is None) == (root is None) and (root is None or t.root == (root,))])
        z = Var('z', 'I')
        return [('it gives the document of the handle', And(*[Implies(b[k], g('DOC%d' % k)) for k in (0, 1)])), ('an unknown handle gives none', Implies(Not(Or(*b)), g(None)))] + kept(s, o.st, z) + inv(s, o.st, doc)
    add('getDocument', h, document, 'any handle')
    def data(s, o, q, doc, form):
        b = s.before(q); v = deref(s.I, o.st, o.val); z = Var('z', 'I'); none = score(s.I, P).set('musicXmlType', v.f['musicXmlType'])
        tw = enum_value(P, 'mx::core::DocumentChoice', 'timewise'); d0 = plain(s.I, P)
        out = [('an unknown handle gives empty data', Implies(Not(Or(*b)), veq(v, d0)))]
        for k in (0, 1):
            out += [('data of a partwise document are those of its score', Implies(And(b[k], Ne(form, tw)), veq(v, d0.set('ticksPerQuarter', Int(50 + k))))),
                    ('data of a timewise document are those of its partwise form', Implies(And(b[k], Eq(form, tw)), veq(v, d0.set('ticksPerQuarter', Int(250 + k)).set('musicXmlType', S('timewise')))))]
        return out + kept(s, o.st, z) + inv(s, o.st, doc) + same_docs(o)
    add('getData', h, data, 'any handle')
    def written(s, o, q, doc, form):
        b = s.before(q); n = o.st.mem.get(('SAVED',), Int(0)); w = o.st.mem.get(('SAVEDDOC',), Int(0)); z = Var('z', 'I')
        return [('an unknown handle writes nothing', Implies(Not(Or(*b)), Eq(n, Int(0)))), ('the document of the handle is written once', And(*[Implies(b[k], And(Eq(n, Int(1)), Eq(w, Int(1000 + k)))) for k in (0, 1)]))] + kept(s, o.st, z) + inv(s, o.st, doc) + same_docs(o)
    def two(second):
        def f(s, st, q): second(s, st, q); return [q, P_('IN' if second is stream_arg else 'PATH')]
        return f
    add('writeToFile', two(path_arg), written, 'any handle'); add('writeToStream', two(stream_arg), written, 'any handle')
    def unique(s, o, q, doc, form):
        ids = [lv for lv in s.ints if lv != doc]
        ch = [lv for lv in s.ints if I_load(o.st, lv) is not s.cur[lv]]
        return [('no number is given twice', And(B(len(ch) == 1), *[And(Ge(o.val, s.cur[lv]), Lt(o.val, I_load(o.st, lv))) for lv in ch[:1]]))] + kept(s, o.st, q) + inv(s, o.st, doc)
    add('getUniqueId', lambda s, st, q: [], unique, 'any time')
    return [(k, lambda a=a, kw=kw: operation(chk, P, *a, **kw)) for k, a, kw in items]

def run(chk, P):
    def begin():
        s = Setting(chk, P, 'construction'); doc = counter(chk, P, s)
        chk.prove('construction/no document, first handle positive', [], And(Ge(s.first[doc], Int(1))), meth(P, 'getInstance').where); chk.absorb(s.I, DM)
    only = os.environ.get('MXV_ONLY'); work = [('construction', begin)] + operations(chk, P)
    if only: work = [w for w in work if re.search(only, w[0])]
    chk.parallel(work, lambda it: chk.guard(it[0], it[1]), limit=200)
    return chk.finish(lambda keys: [] if os.environ.get('MXV_DEBUG') == '2' else native_campaign(chk), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3', 'documents, scores and the XML layer are opaque to the manager (contracts above)'], bounded_always=True)
def plain(I_, P):
    from ..apirt import _frame
    I_.frames.append(_frame())
    try: return I_.default(P.type('mx::api::ScoreData'))
    finally: I_.frames.pop()
def enum_value(P, cls, name):
    return Int(dict(P.enums[cls])[name])

def main():
    chk = Check('C08'); P = fe.load(fe.dir_groups('api') + fe.dir_groups('impl') + fe.dir_groups('core')); chk.log('loaded')
    return run(chk, P)
