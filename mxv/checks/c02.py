"""C02: the contents of every MusicXML element survive writing and reading."""
from ..run import *
from ..interp import NeedInline
from .. import elem, replay, datatypes
from ..elem import World, EI, AI, Malformed, derives
from .c01 import start, OS, P_, same, method, spec
from . import elemtab
import re, json

MDG = ('o.myMusicDataGroup.myMusicDataChoiceSet', 'mx::core::MusicDataChoice::Choice')
SPLIT = {'mx::core::Direction': ('o.myDirectionTypeSet', 'mx::core::DirectionType::Choice'), 'mx::core::PartwiseMeasure': MDG, 'mx::core::TimewisePart': MDG}
SPLIT1 = {'mx::core::Note': ('o.myNoteChoice.myChoice', 'mx::core::NoteChoice::Choice'), 'mx::core::Lyric': ('o.myLyricTextChoice.myChoice', 'mx::core::LyricTextChoice::Choice')}
def load(): return fe.load(fe.dir_groups('core') + fe.elements_groups(16))
def has_cell(st): return st
def one_class(chk, P, cls, names, nitems=1, big=None, inline=(), fix=None):
    inline = set(inline) | ({'mx::core::DirectionType'} if cls == 'mx::core::Direction' else set())      # read by Direction itself
    for _ in range(40):
        try: return attempt(chk, P, cls, names, inline, nitems, big, fix)
        except SymbolicTag as e:
            # the value of an enumeration is the name of a tag: one evaluation for each enumerator
            fl = [(n, t.name) for n, t, _ in World(chk, P, names, cls).fields(cls) if datatypes.is_cenum(P, t)]
            if len(fl) != 1: return attempt(chk, P, cls, names, inline, nitems, big, {})
            en = [ty.d['n'] for n, ty, _ in P.recs[fl[0][1]].fields if n == 'myEnum'][0]
            for k, x in P.enums[en]: r = attempt(chk, P, cls, names, inline, nitems, big, {'o.' + fl[0][0]: (k, x)})
            return r
        except NeedInline as e:
            if e.cls in inline: raise Unsupported('contract of %s is not enough (%s)' % (e.cls, e.field))
            inline.add(e.cls)
    raise Unsupported('too many classes evaluated inline')
class SymbolicTag(Exception): pass
ETEXT = {}
def enum_facts(chk, P, I_, W, tk):
    """the texts of the enumerators that occur in the tokens, from the real toString"""
    out = []; seen = set()
    for g, t in tk.e:
        if type(t) is not T: continue
        for x in datatypes._subs(t):
            if x.op == 'app' and x.val.startswith('txt:') and x.val[4:] in P.enums and x.id not in seen and x.args[0].op == 'var':
                seen.add(x.id); en = x.val[4:]
                if len(P.enums[en]) > 60: continue
                if en not in ETEXT: ETEXT[en] = datatypes.enum_texts(W.plain(), P, en)
                out.append(Or(*[And(Eq(x.args[0], I(v)), Eq(x, S(s))) for (_, v), s in zip(P.enums[en], ETEXT[en])]))
    return out
def attempt(chk, P, cls, names, inline, nitems, big, fix=None):
    W = World(chk, P, names, cls, inline, nitems, big); W.listed = False; W.fix = fix or {}
    I_ = W.engine()
    short = cls.split('::')[-1]; key = 'contents<%s>' % short
    wit = lambda m: witness(P, cls)
    st, root = W.new(I_, State(), cls)
    fresh = st.copy()
    st = W.arbitrary(I_, st, root)
    o_st = st
    if cls == 'mx::core::ScorePart':
        # a group is a device, an instrument or both; an instrument after a group without one belongs to that group
        has = lambda i, w: Var('o.myMidiDeviceInstrumentGroupSet[%d].myHasMidi%s' % (i, w), 'B')
        for i in range(2): W.facts += [Or(has(i, 'Device'), has(i, 'Instrument')), Or(has(i, 'Instrument'), has(i + 1, 'Device'))]
    for f in W.facts: st = st.assume(f) or st
    st.mem[('OS',)] = OS(); st.mem[('AT',)] = OS(); st.mem[('ONE',)] = FALSE
    obls = []
    # write
    ha = W.method(cls, 'hasAttributes'); sa = W.method(cls, 'streamAttributes'); sc = W.method(cls, 'streamContents'); hc = W.method(cls, 'hasContents')
    fx = W.method(cls, 'fromXElementImpl')
    this = ptr(LV(root))
    def write():
        h = I_.call_fn(ha, this, [])
        I_.call_fn(sa, this, [P_('AT')])
        c = I_.call_fn(hc, this, [])
        I_.call_fn(sc, this, [P_('OS'), I(0), P_('ONE')])
        from ..values import VecV
        return VecV([(TRUE, h), (TRUE, c)])
    outs = I_.multi(st, write)
    outs = [o for o in outs if not any(c is FALSE for c in o.st.pc)]
    outs = [o for o in outs if o.kind == 'normal' or chk.solver.check(list(o.st.pc)) != 'unsat']
    if not outs or any(o.kind != 'normal' for o in outs): raise Unsupported('writer outcomes: %r' % outs)
    res = []; toks_seen = []
    for w in outs:
        at = w.st.mem[('AT',)].f['toks']; tk = w.st.mem[('OS',)].f['toks']
        h, c = (x for _, x in w.val.e)
        at2 = TokV([(And(h, g), t) for g, t in at.e])
        tk2 = TokV([(And(c, g), t) for g, t in tk.e])
        try: x = W.xml(names[cls], at2, tk2)
        except Malformed as e:
            if os.environ.get('MXV_DEBUG'): chk.log('malformed', str(e)[:200])
            if fix is None: raise SymbolicTag()
            res.append((key + '/well-formed', w.st.pc, FALSE, sc.where)); continue
        toks = W.tokvars(at2) + W.tokvars(tk2); toks_seen += toks
        if not any(type(a) is T and a is not TRUE for a in [h]): pass
        for g, t in at.e: res.append((key + '/attributes are announced when there are any', w.st.pc, Implies(And(g, App('hasvals', 'B', t.args[0]) if t.op == 'app' and t.val.startswith('attrs:') else TRUE), h), ha.where))
        has_tok = Or(*[g for g, t in tk.e if not (isc(t) and not t.val.strip())])
        res.append((key + '/contents are announced when there are any', w.st.pc, Implies(has_tok, c), hc.where))
        # read back into a new object
        st2, r2 = W.new(I_, w.st, cls)
        for f in enum_facts(chk, P, I_, W, tk2): st2 = st2.assume(f) or st2
        st2 = st2.copy(); st2.mem[('X',)] = x; st2.mem[('M',)] = OS()
        for r in I_.run(fx, ptr(LV(r2)), [P_('M'), P_('X')], st2):
            if any(q is FALSE for q in r.st.pc): continue
            if r.kind != 'normal':
                res.append((key + '/reading back does not throw', r.st.pc, FALSE, fx.where)); continue
            res.append((key + '/reading back succeeds', r.st.pc, r.val, fx.where))
            out = []
            W.compare(w.st, w.st.mem[root], r.st, r.st.mem[r2], toks, TRUE, short, out)
            for p, g in out: res.append((key + '/' + p, r.st.pc, g, fx.where))
    bypc = {}
    for k, pc, g, wh in res: bypc.setdefault((tuple(id(q) for q in pc), wh), (pc, []))[1].append((k, g))
    for (_, wh), (pc, items) in bypc.items(): chk.prove_all(pc, items, wh, wit)
    chk.prove_obls(I_, key, wit)
    chk.absorb(I_)
    for f in (ha, sa, hc, sc, fx): chk.contracts.add(f.q)
    for c in inline: chk.contracts.add(c + ' (read and written as part of %s)' % short)
    return (cls, W.sets, inline, len(W.facts) + len(toks_seen))
def wrapper(chk, P):
    """the frame every element shares: <name attributes>contents</name>, and reading hands the element to the class"""
    from ..stdlib import put
    cls = 'mx::core::Chord'       # any class: its own parts are replaced by arbitrary ones
    f = [f for f in P.byq[EI + '::toStream'] if f.body is not None][0]
    for level in (0, 1, 2, 5):
        W = World(chk, P, {}, cls); I_ = chk.interp(P); A, C, one = Var('has attributes', 'B'), Var('has contents', 'B'), Var('one line', 'B')
        def stream(nm): return lambda I, d, o, a, n: (put(I.lib, a[0], Var(nm, 'S'), n), a[0])[1]
        def contents(I, d, o, a, n):
            put(I.lib, a[0], Var('CONTENTS', 'S'), n); I.write(a[2], one); return a[0]
        for k, fn in (('streamName', stream('NAME')), ('streamAttributes', stream('ATTRIBUTES')), ('streamContents', contents), ('hasContents', lambda *x: C), ('hasAttributes', lambda *x: A)): I_.contracts[('cls', cls, k)] = fn
        st, root = W.new(I_, State(), cls); st = st.copy(); st.mem[('OS',)] = OS()
        for r in I_.run(f, ptr(LV(root)), [P_('OS'), I(level)], st):
            if r.kind != 'normal': chk.prove('frame/writing does not throw', r.st.pc, FALSE, f.where); continue
            tk = r.st.mem[('OS',)].f['toks']
            for a in (0, 1):
                for c in (0, 1):
                    for o in (0, 1):
                        pc = tuple(r.st.pc) + (A if a else Not(A), C if c else Not(C), one if o else Not(one))
                        parts = []
                        for g, t in tk.e:
                            q = chk.solver.prove(pc, g)[0] == 'proved'
                            if q: parts += list(pieces(t))
                            elif chk.solver.prove(pc, Not(g))[0] != 'proved': raise Unsupported('guard of an output token')
                        s = ''.join('{%s}' % x.val if x.op == 'var' else x.val for x in parts if type(x) is T)
                        if any(type(x) is T and x.op not in ('var', 'const') for x in parts): raise Unsupported('output of an element')
                        at = '{ATTRIBUTES}' if a else ''
                        want = '<{NAME}%s/>' % at if not c else '<{NAME}%s>{CONTENTS}</{NAME}>' % at
                        got = s.strip() if not (c and not o) else re.sub(r'\s+(</)', r'\1', s.strip())
                        chk.prove('frame/an element with%s attributes, with%s contents%s' % ('' if a else 'out', '' if c else 'out', ' on one line' if o else ''), pc, TRUE if got == want else FALSE, f.where, lambda m: {'confirmed': None, 'text': 'written: %r, expected: %r' % (s, want)})
        chk.prove_obls(I_, 'frame'); chk.absorb(I_)
    chk.contracts |= {EI + '::' + x for x in ('toStream', 'streamWithoutProcessingInstructions', 'streamOpenTag', 'streamCloseTag', 'streamSelfCloseTag')} | {'mx::core::indent'}
    # reading
    f = [f for f in P.byq[EI + '::fromXElement'] if f.body is not None][0]
    W = World(chk, P, {}, cls); I_ = chk.interp(P); from .. import xmlmodel; xmlmodel.install(I_)
    ok = Var('reading the element succeeds', 'B')
    def impl(I, d, o, a, n):
        x = I.read(a[1]); I.st.mem[('READ',)] = Add(I.st.mem[('READ',)], I_0(1)); I.st.mem[('WHAT',)] = x; return ok
    I_0 = lambda k: I(k)
    I_.contracts[('cls', cls, 'fromXElementImpl')] = impl
    XE_ = 'ezxml::XElement'; ext = I_.lib.ext
    ext[XE_ + '::getNextSibling'] = lambda I, d, o, a, n: NULL
    ext[XE_ + '::getType'] = lambda I, d, o, a, n: I.fresh('type', 'I')
    ext[XE_ + '::beginWithProcessingInstructions'] = ext[XE_ + '::begin']
    kid = xmlmodel.xelement(Var('child', 'S'), value=Var('text', 'S'))
    x = xmlmodel.xelement(Var('name', 'S'), [], [(Var('has child', 'B'), kid)])
    st, root = W.new(I_, State(), cls); st = st.copy(); st.mem[('X',)] = x; st.mem[('M',)] = OS(); st.mem[('READ',)] = I(0); st.mem[('WHAT',)] = x
    before = st.mem[root]
    for r in I_.run(f, ptr(LV(root)), [P_('M'), P_('X')], st):
        if r.kind != 'normal': chk.prove('frame/reading does not throw', r.st.pc, FALSE, f.where); continue
        chk.prove('frame/reading hands the element to its class once', r.st.pc, Eq(r.st.mem[('READ',)], I(1)), f.where)
        chk.prove('frame/reading reports what its class reports', r.st.pc, Eq(r.val, ok), f.where)
        chk.prove('frame/reading adds nothing', r.st.pc, TRUE if r.st.mem[root] == before or r.st.mem[root] is before else same(before, r.st.mem[root]), f.where)
    chk.prove_obls(I_, 'frame'); chk.absorb(I_); chk.contracts.add(EI + '::fromXElement')
def witness(P, cls): return None
HEAD = None
def bounded(chk, P, names, rs, keys):
    """schema-generated instances of every element, through the compiled reader and writer"""
    from .. import xmlgen
    sp = spec()['3.0']; g = xmlgen.Gen(sp); gt = xmlgen.Gen(sp, {'measure': 1, 'part': 1})
    have = {os.path.basename(f)[:-2] for f in os.listdir(fe.MX + '/core/elements') if f.endswith('.h')}
    pairs = []; cl = [c.split('::')[-1] for c in rs]; cl = [c for c in cl if c in have]
    for c in rs:
        n = names[c]; c = c.split('::')[-1]
        if c not in have or n not in sp['elements']: continue
        for x in (gt if 'Timewise' in c else g).instances(n): pairs.append((c, x))
    out, cpp = xmlgen.run(pairs, cl, cl)
    bad = {}
    for c, x, d, y in out:
        if not d: continue
        m = re.match(r"(\S*/)?([\w-]+) (attribute|child|children|text|became)(.*)", d)
        k = 'roundtrip/' + (m.group(2) + ' ' + m.group(3) + m.group(4).split(' from ')[0] if m else '%s %s' % (names['mx::core::' + c], d))
        if k not in bad or len(x) < len(bad[k][1]): bad[k] = (c, x, d, y)
    chk.bounded.append({'kind': 'bounded', 'what': 'round trip of schema-generated instances through the compiled reader and writer', 'bound': '%d instances of %d elements: every particle present, absent, repeated up to 3 times, pairs of alternatives' % (len(pairs), len(cl)), 'differences': len(bad)})
    return [dict(key=k, text='class: %s\nread: %s\nproblem: %s\nwritten: %s\ndriver: %s' % (c, x, d, y, cpp)) for k, (c, x, d, y) in sorted(bad.items())]
def roots(P, names, sp):
    els = set(sp['3.0']['elements']) | set(sp['3.1']['elements'])
    pt = elem.parts(P)
    return [c for c in sorted(names) if names[c] and names[c] in els and c not in pt]
def main():
    chk = Check('C02')
    P = load()
    chk.log('loaded')
    names = elemtab.tables(P, chk.interp(P))['name']
    sp = spec()
    rs = roots(P, names, sp)
    only = os.environ.get('MXV_ONLY')
    if only: rs = [c for c in rs if re.search(only, c)]
    chk.log('%d element classes' % len(rs))
    # one element in every list first, then a second one in each list in turn (all lists together where that is cheap)
    if not only or re.search(only, 'frame'): chk.guard('frame', lambda: wrapper(chk, P))
    def one(job):
        c, nitems, big, inline = job[:4]; fix = job[4] if len(job) > 4 else None
        t0 = time.time()
        r = chk.guard('contents<%s>' % c.split('::')[-1], lambda: one_class(chk, P, c, names, nitems, big, inline, fix))
        if time.time() - t0 > 8: chk.log(c, big, '%.1fs' % (time.time() - t0))
        return (r, time.time() - t0)
    heavy = ['Properties', 'Note', 'Credit', 'Print']
    first = sorted([(c, 1, None, ()) for c in rs if c not in SPLIT and c not in SPLIT1], key=lambda j: j[0].split('::')[-1] not in heavy)
    for c in rs:        # one evaluation for each kind of content
        if c in SPLIT: first = [(c, 1, None, (), {SPLIT[c][0] + '[0].myChoice': (k, x)}) for k, x in P.enums[SPLIT[c][1]]] + first
    for c in rs:
        if c in SPLIT1: first = [(c, 1, None, (), {SPLIT1[c][0]: (k, x)}) for k, x in P.enums[SPLIT1[c][1]]] + first
    LIMIT = 240 if chk.tier == 'quick' else 900
    r = chk.parallel(first, one, limit=LIMIT)
    jobs = []
    for x, j in zip(r, first):
        if not x or not x[0] or not x[0][1]: continue
        fx = j[4] if len(j) > 4 else None
        (c, sets, inline, size), took = x
        if took > 30 and chk.tier == 'quick' and sets: chk.notes.append('%s: a second element in %s is evaluated in the thorough tier only' % (c, ', '.join(s.split('.')[-1] for s in dict.fromkeys(sets)))); continue
        if c in SPLIT:
            ls, en = SPLIT[c]; ks = P.enums[en]; i = ks.index(fx[ls + '[0].myChoice']); k = ks[i][0]
            for n in dict.fromkeys(sets):
                if n == ls:
                    for d in (0, 1, 7): jobs.append((1000 + size, (c, 1, {n: 2}, inline, {**fx, ls + '[1].myChoice': ks[(i + d) % len(ks)]})))
                elif n.split('.my')[-1].lower() == k.lower() + 'set': jobs.append((1000 + size, (c, 1, {n: 2}, inline, fx)))
        elif size <= 12: jobs.append((size, (c, 2, None, inline, fx)))
        else: jobs += [(size, (c, 1, {n: 2}, inline, fx)) for n in dict.fromkeys(sets)]
    jobs.sort(key=lambda j: -j[0])
    chk.log('%d evaluations with a second list element' % len(jobs))
    chk.parallel([j for _, j in jobs], one, limit=LIMIT)
    return chk.finish(lambda keys: bounded(chk, P, names, rs, keys), bounded_always=True)
