"""C18: parts, their instruments and part groups survive writing and reading."""
from ..apirt import *
from .. import fe
from .c13 import en, get
A = 'mx::api::'
def field(P, cls, n): return next(t for k, t, _ in P.recs[A + cls].fields if k == n)

def run(chk, P, key, I_, R_, w, args, bind, d, pre, rules, extra, body, where):
    facts = R_.all_facts() + pre
    wit = lambda m: native(P, 'lem_head', body(m), 'c18')
    chk.cover(key, facts)
    for x in normal(chk, key, I_.run(w, None, args, start(facts, **bind)), where, wit, 'it can be written and read'):
        v = deref(I_, x.st, x.val); out = []
        pointwise(d, v, 'd', rules, out, None)
        out += [(n, g(v)) for n, g in extra]
        chk.prove_all(list(x.st.pc), [('%s/%s' % (key, n[2:] if n[:2] == 'd.' else n), subst_q6(g) if type(g) is T else B(g)) for n, g in out], where, wit, timeout=40000)
    chk.absorb(I_, w.q); chk.contracts |= {q for q in I_.called if q.startswith('mx::impl::')}

def part(chk, P, key, sound, midi):
    I_ = engine(chk, P, opaque=False); R_ = Rec(I_, P); pre = []; U = 'unspecified'
    def num(p, hi):
        def f(q):
            v = Var(q, 'I'); I_.ranges[q] = (-1, hi); pre.extend([Ge(v, I(-1)), Le(v, I(hi)), Ne(v, I(0))]); R_.leaves.append((q, field(P, 'MidiData', p), v)); return v
        return f
    over = {'*.transposition': None, '*.measures': None, '*.displayNamePrintData': None, '*.uniqueId': R_.token, '*.virtualLibrary': None if not midi else R_.leaf(R_.strt(), 'd.instrumentData.midiData.virtualLibrary')}
    if not midi: over['*.midiData'] = None
    else: over.update({'*.' + k: num(k, hi) for k, hi in (('bank', 16384), ('channel', 16), ('program', 128), ('unpitched', 128))})
    if sound is not None: over['*.soundID'] = sound
    for n, t, _ in P.recs[A + 'PartData'].fields:
        if n not in ('uniqueId', 'name', 'abbreviation', 'displayName', 'displayAbbreviation', 'instrumentData'): over['*.' + n] = None
    d = R_.make(A + 'PartData', 'd', over); rules = {}; m = d.f['instrumentData'].f['midiData']
    ids = lambda v: And(*[Eq(App('norm:mx::core::XsID', 'S', v), v)])
    pre += [ids(d.f['uniqueId']), ids(d.f['instrumentData'].f['uniqueId'])]
    if sound is None: pre.append(Ne(d.f['instrumentData'].f['soundID'], en(P, 'SoundID', 'errorBadString')))
    # an instrument that needs an id and has none gets one
    if midi: rules['d.instrumentData.uniqueId'] = lambda a, b: Implies(Ne(a, S('')), Eq(a, b))
    if midi:
        for k, lo, hi in (('volume', 0, 100), ('pan', -180, 180), ('elevation', -180, 180)):
            on = m.f['is%sSpecified' % k.title()]; rules['d.instrumentData.midiData.' + k] = lambda a, b, on=on: Implies(on, Eq(a, b)); pre += [Ge(m.f[k], R(lo)), Le(m.f[k], R(hi))]
    if sound is None: sounds(I_, P)
    def body(mm):
        return 'PartData d; %s\n auto v=lem::throughPart(d);\n' % assigns(P, R_.leaves, mm) + diffs('d', 'v')
    where = P.byq['mx::impl::PartWriter::getScorePart'][0].where
    run(chk, P, key, I_, R_, lem(P, 'throughPart'), [P_('D')], {'D': d}, d, pre, rules, (), body, where)

def sounds(I_, P):
    """instrument sounds by their contract, which C04 proves: each public one converts to a MusicXML one that converts back"""
    for f in P.byq['mx::impl::Converter::convert']:
        t = f.types[f.params[0]['t']].deref()
        if t.nq == 'mx::api::SoundID': I_.contracts[f.f] = lambda I, d, o, a, n: App('sound', 'I', I.read(a[0]) if type(a[0]) is PtrV else a[0])
        elif t.nq == 'mx::core::PlaybackSound':
            def back(I, d, o, a, n):
                x = I.read(a[0]) if type(a[0]) is PtrV else a[0]
                inv = lambda x: Ite(x.args[0], inv(x.args[1]), inv(x.args[2])) if x.op == 'ite' else x.args[0] if x.op == 'app' and x.val == 'sound' else App('sound_back', 'I', x)
                return inv(x)
            I_.contracts[f.f] = back

def groups(chk, P, key, np, spans, numbers):
    """part groups over np parts; spans: (first, last) of each"""
    I_ = engine(chk, P, opaque=False); R_ = Rec(I_, P); pre = []
    none = lambda cls: R_.make(A + cls, 'z', {'*.' + n: None for n, _, _ in P.recs[A + cls].fields})
    gs = []
    for i, ((a, b), k) in enumerate(zip(spans, numbers)):
        p = 'd.partGroups[%d]' % i; over = {'*.firstPartIndex': I(a), '*.lastPartIndex': I(b)}
        if k is not None: over['*.number'] = I(k)
        else: v = Var(p + '.number', 'I'); I_.ranges[p + '.number'] = (-1, 10**8); pre += [Ge(v, I(-1)), Le(v, I(10**8))]; R_.leaves.append((p + '.number', field(P, 'PartGroupData', 'number'), v)); over['*.number'] = v
        gs.append(R_.make(A + 'PartGroupData', p, over))
    d = none('ScoreData').set('ticksPerQuarter', I(1)).set('parts', VecV([(TRUE, none('PartData').set('uniqueId', S('P%d' % (i + 1)))) for i in range(np)])).set('partGroups', VecV([(TRUE, g) for g in gs]))
    order = sorted(range(len(gs)), key=lambda i: (spans[i][0], numbers[i] or 0))
    extra = [('number of groups', lambda v: B(len(v.f['partGroups'].e) == len(gs) and all(g is TRUE for g, _ in v.f['partGroups'].e)))]
    for j, i in enumerate(order):
        for k, _, _ in P.recs[A + 'PartGroupData'].fields: extra.append(('group %d/%s' % (i + 1, k), lambda v, i=i, j=j, k=k: Eq(gs[i].f[k], v.f['partGroups'].e[j][1].f[k])))
    extra.append(('number of parts', lambda v: B(len(v.f['parts'].e) == np)))
    for i in range(np): extra.append(('part %d' % (i + 1), lambda v, i=i: Eq(v.f['parts'].e[i][1].f['uniqueId'], S('P%d' % (i + 1)))))
    def body(mm):
        dec = 'ScoreData d; d.ticksPerQuarter=1; d.parts.resize(%d); for(int i=0;i<%d;++i) d.parts[i].uniqueId="P"+std::to_string(i+1); d.partGroups.resize(%d);' % (np, np, len(gs)) + ''.join(' d.partGroups[%d].firstPartIndex=%d; d.partGroups[%d].lastPartIndex=%d;' % (i, a, i, b) + ('' if numbers[i] is None else ' d.partGroups[%d].number=%d;' % (i, numbers[i])) for i, (a, b) in enumerate(spans))
        return dec + assigns(P, R_.leaves, mm) + '\n std::sort(d.partGroups.begin(),d.partGroups.end(),[](const PartGroupData& a,const PartGroupData& b){ return a.firstPartIndex!=b.firstPartIndex?a.firstPartIndex<b.firstPartIndex:a.number<b.number; });\n auto v=lem::throughScore(d); for(auto& p:v.parts) p.measures.clear();\n' + diffs('d.partGroups', 'v.partGroups') + ' if(v.parts.size()!=d.parts.size()) printf("FAIL number of parts\\n"); else for(size_t i=0;i<v.parts.size();++i) if(v.parts[i].uniqueId!=d.parts[i].uniqueId) printf("FAIL part\\n");\n'
    where = P.byq['mx::impl::ScoreWriter::addScorePart'][0].where
    run(chk, P, key, I_, R_, lem(P, 'throughScore'), [P_('D')], {'D': d}, d, pre, {'d': None}, extra, body, where)

def pieces(chk, P, key):
    """displayed names that a document gives in pieces"""
    I_ = engine(chk, P, opaque=False); R_ = Rec(I_, P)
    d = R_.make(A + 'PartGroupData', 'd', {'*.' + n: None for n, _, _ in P.recs[A + 'PartGroupData'].fields if n not in ('name', 'abbreviation')})
    sharp = Var('sharp', 'B')
    want = Concat(d.f['name'], Ite(sharp, S('#'), S('b')), d.f['abbreviation'])
    one = lambda k: (lambda v: v.f[k].e[0][1] if len(v.f[k].e) == 1 else None)
    extra = [(k + '/' + n, lambda v, k=k, n=n: Eq(want, one(k)(v).f[n]) if one(k)(v) is not None else FALSE) for k in ('parts', 'partGroups') for n in ('displayName', 'displayAbbreviation')]
    def body(mm):
        sh = bool(mm.get('sharp')) if hasattr(mm, 'get') else False
        return 'PartGroupData d; %s\n' % assigns(P, R_.leaves, mm) + ''.join('{ bool sharp=%s; std::string want=d.name+(sharp?"#":"b")+d.abbreviation; auto v=lem::displayedInPieces(d,sharp); ' % b +
            ''.join('if(v.%s.size()!=1||v.%s[0].%s!=want) printf("FAIL %s/%s\\n"); ' % (k, k, n, k, n) for k in ('parts', 'partGroups') for n in ('displayName', 'displayAbbreviation')) + '}' for b in ('true', 'false'))
    where = P.byq['mx::impl::PartReader::extractDisplayText'][0].where if P.byq.get('mx::impl::PartReader::extractDisplayText') else P.byq['mx::impl::PartReader::parseScorePart'][0].where
    run(chk, P, key, I_, R_, lem(P, 'displayedInPieces'), [P_('D'), sharp], {'D': d}, d, [], {'d': None}, extra, body, where)

def main():
    chk = Check('C18'); P = fe.load(fe.dir_groups('api') + fe.dir_groups('impl') + fe.dir_groups('core') + fe.elements_groups(16) + [lem_tu('lem_head')]); chk.log('loaded')
    items = [('part/no sound', lambda: part(chk, P, 'part/no sound', en(P, 'SoundID', 'unspecified'), False)), ('part/midi', lambda: part(chk, P, 'part/midi', en(P, 'SoundID', 'unspecified'), True)), ('part/sound', lambda: part(chk, P, 'part/sound', None, False))]
    items.append(('pieces', lambda: pieces(chk, P, 'names in pieces')))
    iv = [(a, b) for a in range(3) for b in range(a, 3)]
    for s in iv: items.append(('groups/%d-%d' % s, lambda s=s: groups(chk, P, 'groups/parts %d to %d' % (s[0] + 1, s[1] + 1), 3, [s], [None])))
    for i, s in enumerate(iv):
        for t in iv[i:]:
            for nn in ((1, 2), (2, 1)):
                k = 'groups/parts %d to %d as %d and %d to %d as %d' % (s[0] + 1, s[1] + 1, nn[0], t[0] + 1, t[1] + 1, nn[1])
                items.append((k, lambda s=s, t=t, nn=nn, k=k: groups(chk, P, k, 3, [s, t], list(nn))))
    only = os.environ.get('MXV_ONLY')
    if only: items = [i for i in items if re.search(only, i[0])]
    chk.parallel(items, lambda it: chk.guard(it[0], it[1]), limit=300)
    return chk.finish(lambda keys: campaign(chk, P, 'part', 12), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'], bounded_always=True)
