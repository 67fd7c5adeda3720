"""C14: titles, credits, encoding, layout and appearance of a score survive writing and reading."""
from ..apirt import *
from .. import fe
from .c13 import en, get
from .c15 import font_pre, font_rules, pos_rules, blank
A = 'mx::api::'
TEXTS = ('workTitle', 'workNumber', 'movementTitle', 'movementNumber', 'composer', 'lyricist', 'arranger', 'publisher', 'copyright')

def score_case(chk, P, key, build):
    I_ = engine(chk, P, opaque=False); R_ = Rec(I_, P); pre = []; rules = {}; extra = []
    none = lambda cls, p='z': R_.make(A + cls, p, {'*.' + n: None for n, _, _ in P.recs[A + cls].fields})
    part = none('PartData').set('uniqueId', S('P1'))
    d = none('ScoreData').set('parts', VecV([(TRUE, part)])).set('ticksPerQuarter', I(1))
    d, decl = build(R_, P, none, d, pre, rules, extra)
    facts = R_.all_facts() + pre; where = P.byq['mx::impl::ScoreWriter::getScorePartwise'][0].where
    def wit(m):
        return native(P, 'lem_head', 'ScoreData d; d.ticksPerQuarter=1; d.parts.resize(1); d.parts[0].uniqueId="P1"; %s\n %s\n auto v=lem::throughScore(d); v.parts=d.parts; v.ticksPerQuarter=1;\n' % (decl, assigns(P, R_.leaves, m)) + diffs('d', 'v'), 'c14')
    chk.cover(key, facts)
    w = lem(P, 'throughScore')
    for x in normal(chk, key, I_.run(w, None, [P_('D')], start(facts, D=d)), where, wit, 'it can be written and read'):
        v = deref(I_, x.st, x.val); out = []
        pointwise(d, v, 'd', {'d.parts': None, 'd.ticksPerQuarter': None, **rules}, out, None)
        out += [(n, g(v)) for n, g in extra]
        chk.prove_all(list(x.st.pc), [('%s/%s' % (key, n[2:] if n[:2] == 'd.' else n), subst_q6(g) if type(g) is T else B(g)) for n, g in out], where, wit, timeout=40000)
    chk.absorb(I_, w.q); chk.contracts |= {q for q in I_.called if q.startswith('mx::impl::')}

def titles(R_, P, none, d, pre, rules, extra):
    st = R_.strt()
    for k in TEXTS: d = d.set(k, R_.leaf(st, 'd.' + k))
    v = R_.leaf(P.type(A + 'MusicXmlVersion') if False else next(t for n, t, _ in P.recs[A + 'ScoreData'].fields if n == 'musicXmlVersion'), 'd.musicXmlVersion')
    return d.set('musicXmlVersion', v), ''

LINES = ('beam', 'bracket', 'dashes', 'enclosure', 'ending', 'extend', 'heavy barline', 'leger', 'light barline', 'octave shift', 'pedal', 'slur middle', 'slur tip', 'staff', 'stem', 'tie middle', 'tie tip', 'tuplet bracket', 'wedge')
def field(P, cls, n): return next(t for k, t, _ in P.recs[A + cls].fields if k == n)
def number(R_, pre, p, lo, hi): v = Var(p, 'I'); pre += [Ge(v, I(lo)), Le(v, I(hi))]; R_.I.ranges[p] = (lo, hi); return v

def date(R_, P, none, d, pre, rules, extra):
    """a real day, or none"""
    e = none('EncodingData'); t = R_.make(A + 'EncodingDate', 'd.encoding.encodingDate') if A + 'EncodingDate' in P.recs else None
    dt = e.f['encodingDate']; cls = dt.cls; t = R_.make(cls, 'd.encoding.encodingDate')
    y, m, dd = (t.f[k] for k in ('year', 'month', 'day'))
    from .c10 import dim
    pre += [Or(And(Ge(y, I(1)), Le(y, I(9999)), Ge(m, I(1)), Le(m, I(12)), Ge(dd, I(1)), Le(dd, dim(y, m))), And(Eq(y, dt.f['year']), Eq(m, dt.f['month']), Eq(dd, dt.f['day'])))]
    return d.set('encoding', e.set('encodingDate', t)), ''

def encoding(n):
    def build(R_, P, none, d, pre, rules, extra):
        st = R_.strt(); e = none('EncodingData')
        for k in ('encoder', 'encodingDescription'): e = e.set(k, R_.leaf(st, 'd.encoding.' + k))
        tok = {k: R_.token for k in ()}
        e = e.set('software', VecV([(TRUE, R_.leaf(st, 'd.encoding.software[%d]' % i)) for i in range(n)]))
        sup = []
        for i in range(n):
            p = 'd.encoding.supportedItems[%d]' % i
            sup.append((TRUE, R_.make(A + 'SupportedItem', p, {'*.elementName': R_.token, '*.attributeName': R_.token, '*.specificValue': R_.token})))
        e = e.set('supportedItems', VecV(sup))
        mis = []
        for i in range(n):
            p = 'd.encoding.miscelaneousFields[%d]' % i
            mis.append((TRUE, blank(R_.I, R_, P, A + 'MiscellaneousField', p, {'key': R_.token(p + '.key')})))
        e = e.set('miscelaneousFields', VecV(mis))
        return d.set('encoding', e), 'd.encoding.software.resize(%d); d.encoding.supportedItems.resize(%d); for(int i=0;i<%d;++i) d.encoding.miscelaneousFields.push_back(MiscellaneousField("",""));' % (n, n, n)
    return build

def scaling(R_, P, none, d, pre, rules, extra):
    f = d.f['defaults']; mm, t = Var('d.defaults.scalingMillimeters', 'R'), Var('d.defaults.scalingTenths', 'R'); ty = field(P, 'DefaultsData', 'scalingTenths')
    R_.leaves += [(mm.val, ty, mm), (t.val, ty, t)]; q = lambda x: q6(x); from fractions import Fraction as F
    pre += [Or(And(Gt(q6(mm), R(0)), Gt(q6(t), R(0))), And(Eq(q6(mm), R(-1)), Eq(q6(t), R(-1))))]
    return d.set('defaults', f.set('scalingMillimeters', q6(mm)).set('scalingTenths', q6(t))), ''

def page_layout(R_, P, path, pre, over={}):
    l = R_.make(A + 'PageLayoutData', path)
    for k in ('odd', 'even'):
        for s in ('left', 'right', 'top', 'bottom'): pre.append(Ge(q6(Var('%s.margins.%s.val.%s' % (path, k, s), 'R')), R(0)))
    return l
def page_pre(l):
    """margins need a page size; the same margins are given once for both kinds of pages"""
    m = l.f['margins']; return [Implies(Or(m.f['odd'].has, m.f['even'].has), l.f['size'].has)]
def page(R_, P, none, d, pre, rules, extra):
    l = page_layout(R_, P, 'd.defaults.pageLayout', pre); pre += page_pre(l)
    return d.set('defaults', d.f['defaults'].set('pageLayout', l)), ''
def system(R_, P, none, d, pre, rules, extra):
    return d.set('defaults', d.f['defaults'].set('systemLayout', blank(R_.I, R_, P, A + 'SystemLayoutData', 'd.defaults.systemLayout', {}))), ''

def appearance(kind, sub):
    def build(R_, P, none, d, pre, rules, extra):
        p = 'd.defaults.appearance[0]'; ty = field(P, 'AppearanceData', 'value'); v = R_.leaf(ty, p + '.value')
        if kind == 'NoteSize': pre.append(Ge(q6(Var(p + '.value', 'R')), R(0)))
        x = none('AppearanceData').set('appearanceType', en(P, 'AppearanceType', kind)).set('value', v)
        if not sub and kind == 'LineWidth': pre += [Ne(Var(p + '.appearanceSubType', 'S'), S(w)) for w in LINES + ('other',)]     # any other word; 'other' is the word for an unnamed kind
        x = x.set('appearanceSubType', S(sub) if sub else R_.leaf(R_.strt(), p + '.appearanceSubType') if kind != 'OtherAppearance' else R_.token(p + '.appearanceSubType'))
        return d.set('defaults', d.f['defaults'].set('appearance', VecV([(TRUE, x)]))), 'd.defaults.appearance.resize(1); d.defaults.appearance[0].appearanceType=AppearanceType::%s;' % kind + (' d.defaults.appearance[0].appearanceSubType=%s;' % cstr(sub) if sub else '')
    return build

def credits(n):
    def build(R_, P, none, d, pre, rules, extra):
        out = []
        for i in range(n):
            p = 'd.pageTextItems[%d]' % i
            fonts = lambda q: R_.choice(q, [R_.token(q + '[%d]' % j) for j in range(2)])
            x = R_.make(A + 'PageTextData', p, {'*.fontFamily': fonts}); number(R_, pre, p + '.pageNumber', 0, 10**8); [number(R_, pre, '%s.fontData.%s' % (p, k), 0, 3) for k in ('underline', 'overline', 'lineThrough')]; pre += font_pre(P, x.f['fontData']); out.append((TRUE, x))
        r2 = {}
        def same_(a, b, x, what):
            rr = {}; font_rules(P, rr, x.f['fontData'], 'x.fontData', True); pos_rules(rr, x.f['positionData'], 'x.positionData', False)
            rr['x.positionData.verticalAlignment'] = rr['x.positionData.horizontalAlignmnet'] = None
            goals = []; pointwise(a, b, 'x', rr, goals, None); return goals
        rules['d.pageTextItems'] = None
        extra.append(('number of credits', lambda v: B(len(v.f['pageTextItems'].e) == n and all(g is TRUE for g, _ in v.f['pageTextItems'].e))))
        for i in range(n):
            names = [k for k, _ in same_(out[i][1], out[i][1], out[i][1], None)]
            for k in names:
                extra.append(('credit %d/%s' % (i + 1, k[2:]), lambda v, i=i, k=k: subst_q6(next((g for kk, g in same_(out[i][1], v.f['pageTextItems'].e[i][1], out[i][1], None) if kk == k), TRUE))))
        return d.set('pageTextItems', VecV(out)), 'd.pageTextItems.resize(%d);' % n
    return build

def none_of(R_, P, cls, n):
    R2 = Rec(R_.I, P); return OptV(FALSE, R2.leaf(field(P, cls, n), 'z.' + n).v)
def layout(what):
    """a system or page break with its layout, at the first measure"""
    def build(R_, P, none, d, pre, rules, extra):
        part = d.f['parts'].e[0][1].set('measures', VecV([(TRUE, none('MeasureData').set('staves', VecV([(TRUE, none('StaffData'))])))]))
        no = OptV(FALSE, R(0)); p = 'd.layout[0]'; wide = what == 'system'; un = en(P, 'Bool', 'unspecified')
        sl = blank(R_.I, R_, P, A + 'SystemLayoutData', p + '.system.layout', {'staffDistance': none_of(R_, P, 'SystemLayoutData', 'staffDistance')}) if wide else StructV(A + 'SystemLayoutData', {n: none_of(R_, P, 'SystemLayoutData', n) for n, _, _ in P.recs[A + 'SystemLayoutData'].fields})
        pl = none('PageLayoutData') if wide else page_layout(R_, P, p + '.page.pageLayoutData', pre)
        sy = StructV(A + 'SystemData', {'newSystem': R_.leaf(field(P, 'SystemData', 'newSystem'), p + '.system.newSystem') if wide else un, 'layout': sl})
        pg = StructV(A + 'PageData', {'newPage': un if wide else R_.leaf(field(P, 'PageData', 'newPage'), p + '.page.newPage'), 'pageLayoutData': pl, 'pageNumber': none_of(R_, P, 'PageData', 'pageNumber') if wide else OptV(R_.named(p + '.page.pageNumber.has', Var(p + '.page.pageNumber.has', 'B')), R_.token(p + '.page.pageNumber.val'))})
        if wide: u = Or(Ne(sy.f['newSystem'], un), *[sl.f[k].has for k in ('margins', 'systemDistance', 'topSystemDistance')])
        else: pre += page_pre(pl); u = Or(Ne(pg.f['newPage'], un), pg.f['pageNumber'].has, pl.f['size'].has)
        l = StructV(A + 'LayoutData', {'system': sy, 'page': pg})
        pre.append(u)
        return d.set('parts', VecV([(TRUE, part)])).set('layout', MapV([(TRUE, I(0), l)])), 'd.parts[0].measures.resize(1); d.parts[0].measures[0].staves.resize(1); d.layout[0]=LayoutData{};'
    return build

def main():
    chk = Check('C14'); P = fe.load(fe.dir_groups('api') + fe.dir_groups('impl') + fe.dir_groups('core') + fe.elements_groups(16) + [lem_tu('lem_head')]); chk.log('loaded')
    items = [('titles', titles), ('encoding/date', date)] + [('encoding/%d of each' % n, encoding(n)) for n in range(3)] + [('scaling', scaling), ('page layout', page), ('system layout', system)]
    items += [('appearance/%s%s' % (k, ' ' + t if t else ''), appearance(k, t)) for k, t in [('LineWidth', '')] + [('LineWidth', w) for w in LINES] + [ ('NoteSize', 'cue'), ('NoteSize', 'grace'), ('NoteSize', 'large'), ('Distance', 'hyphen'), ('Distance', 'beam'), ('OtherAppearance', '')]]
    items += [('credits/%d' % n, credits(n)) for n in range(1, 3)] + [('break/' + w, layout(w)) for w in ('system', 'page')]
    only = os.environ.get('MXV_ONLY')
    if only: items = [i for i in items if re.search(only, i[0])]
    chk.parallel(items, lambda it: chk.guard(it[0], lambda: score_case(chk, P, it[0], it[1])), limit=300)
    return chk.finish(lambda keys: campaign(chk, P, 'head', 12), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'], bounded_always=True)
