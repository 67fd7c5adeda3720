"""C15: marks, curves and tuplets on notes survive writing and reading."""
from ..apirt import *
from .. import fe
from .c13 import en, get
from fractions import Fraction as F
A = 'mx::api::'
POS = ('defaultX', 'defaultY', 'relativeX', 'relativeY')

def when(r, path, flags):
    """fields that only mean something under a flag of the same record"""
    for f, cond in flags.items(): r['%s.%s' % (path, f)] = (lambda a, b, c=cond: Implies(c, same(a, b)))
def pos_rules(r, d, path, placement=True):
    when(r, path, {k: d.f['is%sSpecified' % (k[0].upper() + k[1:])] for k in POS})
    for k in ('verticalAlignment', 'horizontalAlignmnet') + (() if placement else ('placement',)): r['%s.%s' % (path, k)] = None
def color_rule(r, path, on):
    r[path] = lambda a, b: Implies(on, And(*[Eq(a.f[k], b.f[k]) for k in ('red', 'green', 'blue', 'isAlphaSpecified')], Implies(a.f['isAlphaSpecified'], Eq(a.f['alpha'], b.f['alpha']))))
def font_rules(P, r, d, path, deco=False):
    t = d.f['sizeType']
    r[path + '.sizePoint'] = lambda a, b: Implies(Eq(t, en(P, 'FontSizeType', 'point')), Eq(a, b))
    r[path + '.sizeCss'] = lambda a, b: Implies(Eq(t, en(P, 'FontSizeType', 'css')), Eq(a, b))
    if not deco:
        for k in ('underline', 'overline', 'lineThrough'): r['%s.%s' % (path, k)] = None
def line_rules(r, d, path, hook=False):
    when(r, path, {'dashLength': d.f['isDashLengthSpecified'], 'spaceLength': d.f['isSpaceLengthSpecified']})
    if hook: when(r, path, {'endLength': d.f['isStopLengthSpecified']})
    else:
        for k in ('lineHook', 'isStopLengthSpecified', 'endLength'): r['%s.%s' % (path, k)] = None
def font_pre(P, d):
    return [Implies(Eq(d.f['sizeType'], en(P, 'FontSizeType', 'css')), Ne(d.f['sizeCss'], en(P, 'CssSize', 'unspecified')))]
def nonneg(d, *ks): return [Ge(get(d, *k.split('.')), R(0)) for k in ks]
def blank(I_, R_, P, cls, path, over):
    """a record whose fields are arbitrary, for a class without a default constructor"""
    f = {}
    for n, t, _ in P.recs[cls].fields:
        p = path + '.' + n
        f[n] = over[n] if n in over else R_.leaf(t, p, None, over)
    return StructV(cls, f)

class Case:
    """one kind of attachment on a plain note"""
    def __init__(self, chk, P):
        self.I = engine(chk, P, opaque=False); self.R = Rec(self.I, P); self.P = P
        z = self.R.make(A + 'NoteData', 'z', {'*.' + n: None for n, _, _ in P.recs[A + 'NoteData'].fields})
        du = z.f['durationData']; du = du.set('durationTimeTicks', I(1)).set('durationName', en(P, 'DurationName', 'quarter')).set('timeModificationActualNotes', I(1)).set('timeModificationNormalNotes', I(1))
        self.note = z.set('durationData', du)
        self.cur = self.R.make('mx::impl::MeasureCursor', 'cur'); c = self.cur
        self.pre = [Eq(c.f['ticksPerQuarter'], c.f['myGlobalTicksPerQuarter']), Ge(c.f['ticksPerQuarter'], I(1)), Le(c.f['ticksPerQuarter'], I(1000000)),
                    Ge(c.f['voiceIndex'], I(0)), Le(c.f['voiceIndex'], I(1000)), Ge(c.f['staffIndex'], I(0)), Le(c.f['staffIndex'], I(1000))]
    def level(self, p):
        self.I.ranges[p] = (1, 6); v = Var(p, 'I'); self.pre += [Ge(v, I(1)), Le(v, I(6))]

def marks(P):
    out = []
    no = {'pedal', 'damp', 'nonArpeggiate', 'customErrorUnknown', 'unspecified'}
    for n, v in P.enums[A + 'MarkType']:
        if n in no or 'nknown' in n or 'nspecified' in n: continue
        out.append((n, v))
    return out
GROUPS = {}
def groups(P):
    e = dict(P.enums[A + 'MarkType'])
    return {'dyn': (e['p'], e['trillMark'] - 1), 'ferm': (e['fermata'], e['fermataSquareInverted']), 'arp': {e[k] for k in ('arpeggiate', 'arpeggiateUp', 'arpeggiateDown')}, 'wavy': {e['wavyLine']}}

def case(chk, P, kind, arg):
    c = Case(chk, P); R_ = c.R; r = {}; pre = c.pre; att = c.note.f['noteAttachmentData']; name = '%s/%s' % (kind, arg[0])
    if kind == 'mark':
        mt = arg[1]; g = groups(P); dyn = g['dyn'][0] <= mt <= g['dyn'][1]; ferm = g['ferm'][0] <= mt <= g['ferm'][1]; arp = mt in g['arp']; wavy = mt in g['wavy']
        over = {'*.name': None, '*.fontFamily': lambda p: R_.choice(p, [R_.token(p + '[%d]' % i) for i in range(2)]), '*.markType': I(mt), '*.positionData.placement': None}
        d = R_.make(A + 'MarkData', 'd', over)
        if ferm: pass
        else: d = d.set('positionData', d.f['positionData'].set('placement', R_.leaf(P.type(A + 'Placement'), 'd.positionData.placement')))
        pd = d.f['printData']
        if arp or wavy:
            blankfont = R_.make(A + 'FontData', 'zf', {'*.' + n: None for n, _, _ in P.recs[A + 'FontData'].fields}); pd = pd.set('fontData', blankfont)
        if not (dyn or ferm): pd = pd.set('isColorSpecified', FALSE)
        pd = pd.set('printObject', en(P, 'Bool', 'unspecified')); d = d.set('printData', pd)
        pre += font_pre(P, pd.f['fontData'])
        r = {'d.name': None, 'd.tickTimePosition': c.cur.f['tickTimePosition']}
        pos_rules(r, d.f['positionData'], 'd.positionData'); font_rules(P, r, pd.f['fontData'], 'd.printData.fontData'); color_rule(r, 'd.printData.color', pd.f['isColorSpecified'])
        field, vals = 'marks', [d]
    elif kind in ('start', 'continue', 'stop'):
        cls = A + {'start': 'CurveStart', 'continue': 'CurveContinue', 'stop': 'CurveStop'}[kind]; tie = arg[0] == 'tie'
        over = {'curveType': en(P, 'CurveType', arg[0])}
        if tie: over['numberLevel'] = I(-1)
        d = blank(c.I, R_, P, cls, 'd', over)
        if not tie: c.level('d.numberLevel')
        cp = d.f['curvePoints']; pos_rules(r, cp.f['positionData'], 'd.curvePoints.positionData')
        when(r, 'd.curvePoints', {'bezier' + k: cp.f['isBezier%sSpecified' % k] for k in ('X', 'Y', 'Offset')})
        pre += [Ge(cp.f['bezierOffset'], I(-1000000)), Le(cp.f['bezierOffset'], I(1000000))]
        r['d.placement'] = None
        if kind == 'start':
            line_rules(r, d.f['lineData'], 'd.lineData'); color_rule(r, 'd.colorData', d.f['isColorSpecified']); pre += nonneg(d, 'lineData.dashLength', 'lineData.spaceLength')
        if kind == 'continue': when(r, 'd', {'bezier%s2' % k: d.f['isBezier%s2Specified' % k] for k in ('X', 'Y', 'Offset')}); pre += [Eq(d.f['bezierOffset2'], ToReal(Floor(d.f['bezierOffset2']))), Ge(d.f['bezierOffset2'], R(-1000000)), Le(d.f['bezierOffset2'], R(1000000))]
        field, vals = {'start': 'curveStarts', 'continue': 'curveContinuations', 'stop': 'curveStops'}[kind], [d]
        if tie: c.note = c.note.set('isTieStart', B(kind == 'start')).set('isTieStop', B(kind == 'stop'))
    elif kind == 'tuplet' and arg[0] == 'start':
        c.I.ranges['d.actualDots'] = (0, 3); c.I.ranges['d.normalDots'] = (0, 3)
        d = R_.make(A + 'TupletStart', 'd', {'*.actualDots': None, '*.normalDots': None}); c.level('d.numberLevel')
        a = I(-1) if arg[1] == 0 else I(arg[1]); d = d.set('actualDots', a).set('normalDots', a)
        pos_rules(r, d.f['positionData'], 'd.positionData')
        un = en(P, 'DurationName', 'unspecified')
        s, n = d.f['showActualNumber'], d.f['showNormalNumber']; y, no = en(P, 'Bool', 'yes'), en(P, 'Bool', 'no')
        pre += [Ne(d.f['actualDurationName'], un), Ne(d.f['normalDurationName'], un), Ite(Eq(s, y), Or(Eq(n, y), Eq(n, no)), Eq(n, s))]
        for k in ('actualNumber', 'normalNumber'): pre += [Ge(d.f[k], I(1)), Le(d.f[k], I(1000000))]
        field, vals = 'tupletStarts', [d]; name += '/%d dots' % arg[1]
    else:
        d = R_.make(A + 'TupletStop', 'd'); c.level('d.numberLevel'); pos_rules(r, d.f['positionData'], 'd.positionData')
        field, vals = 'tupletStops', [d]
    prove(chk, P, c, name, field, d, r)

def prove(chk, P, c, key, field, d, r):
    I_, R_ = c.I, c.R
    note = c.note.set('noteAttachmentData', c.note.f['noteAttachmentData'].set(field, VecV([(TRUE, d)])))
    facts = R_.all_facts() + c.pre
    w = lem(P, 'writeNote'); rd = lem(P, 'readNote')
    wit = lambda m: witness(chk, P, c, field, note, d, r, m)
    chk.cover(key, facts)
    st = start(facts, D=note, C=c.cur, V=VecV([]), W=StructV('mx::impl::ScoreWriter', {}), C2=c.cur)
    for o in normal(chk, key, I_.run(w, None, [P_('D'), P_('C'), P_('W'), FALSE, FALSE, P_('V'), I(0)], st), w.where, wit, 'a note can be written'):
        for x in normal(chk, key, I_.run(rd, None, [o.val, P_('C2')], o.st), rd.where, wit, 'a written note can be read'):
            v = deref(I_, x.st, x.val).f['noteAttachmentData']
            out = []
            for n in ('marks', 'curveStarts', 'curveContinuations', 'curveStops', 'tupletStarts', 'tupletStops'):
                want = 1 if n == field else 0
                size = I(0)
                for g, _ in v.f[n].e: size = Add(size, Ite(g, I(1), I(0)))
                out.append(('number of ' + n, Eq(size, I(want))))
                if want and len(v.f[n].e) == 1: pointwise(d, v.f[n].e[0][1], 'd', r, out, None)
                elif want:
                    for i, (g, y) in enumerate(v.f[n].e):
                        o2 = []; pointwise(d, y, 'd', r, o2, None); out += [('%s as candidate %d' % (a, i), Implies(g, b)) for a, b in o2]
            chk.prove_all(list(x.st.pc), [('%s/%s' % (key, n.replace('d.', '', 1) if n.startswith('d.') else n), subst_q6(g) if type(g) is T else B(g)) for n, g in out], w.where, wit, timeout=40000)
    chk.absorb(I_, w.q); chk.contracts |= {q for q in I_.called if q.startswith('mx::impl::')}

def witness(chk, P, c, field, note, d, r, m):
    var = {'marks': 'MarkData d', 'curveStarts': 'CurveStart d{CurveType::%s}', 'curveContinuations': 'CurveContinue d{CurveType::%s}', 'curveStops': 'CurveStop d{CurveType::%s}', 'tupletStarts': 'TupletStart d', 'tupletStops': 'TupletStop d'}[field]
    extra = ''
    if '%s' in var:
        cv = d.f['curveType'].val; nm = next(n for n, v in P.enums[A + 'CurveType'] if v == cv); var %= nm
        if nm == 'tie': extra = 'n.isTieStart=%s; n.isTieStop=%s;' % ('true' if note.f['isTieStart'] is TRUE else 'false', 'true' if note.f['isTieStop'] is TRUE else 'false')
    if field == 'marks': extra += ' d.markType=(MarkType)%d;' % d.f['markType'].val
    if field == 'tupletStarts': extra += ' d.actualDots=%d; d.normalDots=%d;' % (d.f['actualDots'].val, d.f['normalDots'].val)
    body = 'NoteData n; n.durationData.durationTimeTicks=1; n.durationData.durationName=DurationName::quarter; n.durationData.timeModificationActualNotes=1; n.durationData.timeModificationNormalNotes=1; impl::MeasureCursor cur{1,420};\n  %s; %s\n  ' % (var, extra) + \
        assigns(P, [l for l in c.R.leaves if l[0].startswith('d.') or l[0] == 'cur.tickTimePosition'], m) + '\n  n.noteAttachmentData.%s.push_back(d);\n' % field
    if field == 'marks' and d.f['printData'].f['isColorSpecified'] is FALSE: body = body.replace('n.noteAttachmentData.marks', 'd.printData.isColorSpecified=false; d.printData.fontData%s n.noteAttachmentData.marks' % ('=FontData{};' if not any(l[0].startswith('d.printData.fontData.style') for l in c.R.leaves) else ';'))
    body += '''  impl::ScoreWriter sw{ ScoreData{} }; auto w = lem::writeNote(n,cur,sw,false,false,{},0); auto v = lem::readNote(*w,cur).noteAttachmentData.%s;
  if(v.size()!=1) printf("FAIL number of %s: %%zu\\n", v.size()); else {
  ag::Diff d_; ag::diff(d,v[0],"",d_); for(auto&e:d_){ bool skip=false; for(const char* f:{%s "~"}) if(e.first.find(f)!=std::string::npos) skip=true; if(!skip) printf("FAIL %%s: %%s\\n", e.first.c_str(), e.second.c_str()); } }
''' % (field, field, ''.join('"%s",' % k.split('.')[-1] for k in skipped(c, r, m)))
    return native(P, 'lem_note', body, 'c15')
def skipped(c, r, m):
    """fields without meaning in this model (their flag is off), so that the printed differences are the refuted ones"""
    from ..solve import model_value
    out = ['name', 'tickTimePosition']
    for k, f in r.items():
        if f is None: out.append(k); continue
        base = k.rsplit('.', 1)
        for flag in ('is%s%sSpecified' % (base[1][0].upper(), base[1][1:]), {'endLength': 'isStopLengthSpecified', 'color': 'isColorSpecified', 'colorData': 'isColorSpecified'}.get(base[1], '')):
            l = next((v for p, t, v in c.R.leaves if p == '%s.%s' % (base[0], flag)), None)
            if l is not None and model_value(m, l) is False: out.append(k)
        if base[1] in ('sizePoint', 'sizeCss'): out.append(k)
    return out

def main():
    chk = Check('C15'); P = fe.load(fe.dir_groups('api') + fe.dir_groups('impl') + fe.dir_groups('core') + fe.elements_groups(16) + [lem_tu('lem_note')]); chk.log('loaded')
    items = [('start', ('slur',)), ('start', ('tie',)), ('continue', ('slur',)), ('stop', ('slur',)), ('stop', ('tie',)), ('tuplet', ('stop', 0))] + [('tuplet', ('start', k)) for k in range(4)]
    items += [('mark', x) for x in marks(P)]
    only = os.environ.get('MXV_ONLY')
    if only: items = [i for i in items if re.search(only, '%s/%s' % (i[0], i[1][0]))]
    chk.parallel(items, lambda it: chk.guard('%s/%s' % (it[0], it[1][0]), lambda: case(chk, P, *it)), limit=300)
    chk.assumptions += ['decimals are kept to six digits by the number formatting proved in C03', 'each kind of attachment is proved for a note that carries one such attachment and is otherwise plain; combinations are covered by the bounded stand-in', 'font families up to 2 entries symbolically']
    return chk.finish(lambda keys: campaign(chk, P, 'marks', 12), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'], bounded_always=True)
