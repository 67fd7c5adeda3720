"""C16: directions survive writing and reading."""
from ..apirt import *
from .. import fe
from .c13 import en, get
from .c15 import pos_rules, color_rule, font_rules, line_rules, font_pre, nonneg, when, blank
from fractions import Fraction as F
A = 'mx::api::'
LISTS = ('tempos', 'marks', 'wedgeStarts', 'wedgeStops', 'ottavaStarts', 'ottavaStops', 'bracketStarts', 'bracketStops', 'words', 'chords', 'segnos', 'codas', 'rehearsals')

class Case:
    def __init__(self, chk, P):
        self.I = engine(chk, P, opaque=False); self.R = Rec(self.I, P); self.P = P
        D = self.R.make(A + 'DirectionData', 'D', {'*.voice': None})
        self.D = D; self.cur = self.R.make('mx::impl::Cursor', 'cur'); c = self.cur.f; lim = 10**8
        self.pre = [Ge(c['staffIndex'], I(0)), Le(c['staffIndex'], I(1000)), Ge(c['tickTimePosition'], I(0)), Le(c['tickTimePosition'], I(lim)), Ge(D.f['tickTimePosition'], I(0)), Le(D.f['tickTimePosition'], I(lim)),
                    # a direction is on the first staff or its staff counts as specified; staff 0 keeps the choice
                    Implies(Gt(c['staffIndex'], I(0)), D.f['isStaffValueSpecified'])]
    def level(self, p):
        self.I.ranges[p] = (1, 6); v = Var(p, 'I'); self.pre += [Ge(v, I(1)), Le(v, I(6))]
    def fonts(self, p): return self.R.choice(p, [self.R.token(p + '[%d]' % i) for i in range(2)])

def dynamics(P):
    from .c15 import groups
    lo, hi = groups(P)['dyn']
    return [(n, v) for n, v in P.enums[A + 'MarkType'] if lo <= v <= hi and 'nknown' not in n]

def unset(d, *ks, P=None):
    for k in ks: d = d.set(k, en(P, {'placement': 'Placement', 'verticalAlignment': 'VerticalAlignment', 'horizontalAlignmnet': 'HorizontalAlignment'}[k], 'unspecified'))
    return d
def case(chk, P, kind, arg):
    c = Case(chk, P); R_ = c.R; r = {}; pre = c.pre; ff = {'*.fontFamily': c.fonts}; T0 = c.D.f['tickTimePosition']; chord = kind == 'chords'
    dflt = lambda cls: R_.make(A + cls, 'z', {'*.' + n: None for n, _, _ in P.recs[A + cls].fields})
    key = kind + ('/' + arg[0] if arg else '')
    if kind == 'tempos':
        d = R_.make(A + 'TempoData', 'd', {**ff, '*.tickTime': I(0), '*.metricModulation': None, '*.tempoText': None, '*.dots': None, '*.tempoType': en(P, 'TempoType', 'beatsPerMinute'), '*.placement': None})
        b = d.f['beatsPerMinute'].set('dots', I(arg[1])); d = d.set('beatsPerMinute', b).set('metricModulation', StructV(A + 'MetricModulation', {})).set('tempoText', StructV(A + 'TempoText', {}))
        pre += [Ne(b.f['durationName'], en(P, 'DurationName', 'unspecified')), Ge(b.f['beatsPerMinute'], I(0)), Le(b.f['beatsPerMinute'], I(1000000))] + font_pre(P, d.f['printData'].f['fontData'])
        pd = d.f['printData'].set('printObject', en(P, 'Bool', 'unspecified')); d = d.set('printData', pd)
        font_rules(P, r, pd.f['fontData'], 'd.printData.fontData'); color_rule(r, 'd.printData.color', pd.f['isColorSpecified'])
        when(r, 'd.positionData', {}); pos_rules(r, d.f['positionData'], 'd.positionData'); r.pop('d.positionData.verticalAlignment'); r.pop('d.positionData.horizontalAlignmnet')
        r.update({'d.tickTime': None, 'd.metricModulation': None, 'd.tempoText': None})
    elif kind == 'marks':
        ped = arg[0] in ('pedal', 'damp')
        d = R_.make(A + 'MarkData', 'd', {**ff, '*.name': None, '*.markType': I(arg[1]), '*.positionData.placement': c.D.f['placement'], '*.printObject': None})
        if ped: d = d.set('printData', dflt('PrintData').set('fontData', dflt('FontData')))
        pd = d.f['printData']; pre += font_pre(P, pd.f['fontData'])
        r = {'d.name': None, 'd.tickTimePosition': T0}; pos_rules(r, d.f['positionData'], 'd.positionData')
        if ped: r['d.printData'] = None
        font_rules(P, r, pd.f['fontData'], 'd.printData.fontData'); color_rule(r, 'd.printData.color', pd.f['isColorSpecified'])
    elif kind in ('wedgeStarts', 'wedgeStops'):
        d = R_.make(A + kind[0].upper() + kind[1:-1], 'd', {'*.colorData': None}); c.level('d.numberLevel')
        pos_rules(r, d.f['positionData'], 'd.positionData', False); when(r, 'd', {'spread': d.f['isSpreadSpecified']})
        if kind == 'wedgeStarts': line_rules(r, d.f['lineData'], 'd.lineData'); r['d.colorData'] = None; pre += nonneg(d, 'lineData.dashLength', 'lineData.spaceLength') + [Ne(d.f['wedgeType'], en(P, 'WedgeType', 'unspecified'))]
    elif kind == 'ottavaStarts':
        d = R_.make(A + 'OttavaStart', 'd', {**ff, '*.ottavaType': en(P, 'OttavaType', arg[0]), '*.printObject': None, '*.color': None, '*.isColorSpecified': None}); c.level('d.spannerStart.numberLevel')
        s = d.f['spannerStart']; p = 'd.spannerStart'; r[p + '.tickTimePosition'] = T0
        pos_rules(r, s.f['positionData'], p + '.positionData', False); font_rules(P, r, s.f['printData'].f['fontData'], p + '.printData.fontData'); pre += font_pre(P, s.f['printData'].f['fontData']) + nonneg(s, 'lineData.dashLength', 'lineData.spaceLength')
        line_rules(r, s.f['lineData'], p + '.lineData'); r[p + '.lineData.lineType'] = None
    elif kind == 'bracketStarts':
        d = R_.make(A + 'SpannerStart', 'd', {**ff, '*.printObject': None, '*.fontData': None}); c.level('d.numberLevel'); r['d.tickTimePosition'] = T0
        pos_rules(r, d.f['positionData'], 'd.positionData', False); color_rule(r, 'd.printData.color', d.f['printData'].f['isColorSpecified']); line_rules(r, d.f['lineData'], 'd.lineData', True)
        pre += nonneg(d, 'lineData.dashLength', 'lineData.spaceLength') + [Ne(get(d, 'lineData', 'lineHook'), en(P, 'LineHook', 'unspecified'))]
    elif kind in ('ottavaStops', 'bracketStops'):
        d = R_.make(A + 'SpannerStop', 'd'); c.level('d.numberLevel'); pos_rules(r, d.f['positionData'], 'd.positionData', False); r['d.tickTimePosition'] = T0
    elif kind in ('words', 'rehearsals'):
        d = R_.make(A + {'words': 'WordsData', 'rehearsals': 'RehearsalData'}[kind], 'd', {**ff, '*.colorData': None, '*.isColorSpecified': None}); pos_rules(r, d.f['positionData'], 'd.positionData', False); r.pop('d.positionData.horizontalAlignmnet')
        for k in ('underline', 'overline', 'lineThrough'):
            x = Var('d.fontData.' + k, 'I'); pre += [Ge(x, I(0)), Le(x, I(3))]; c.I.ranges['d.fontData.' + k] = (0, 3)
        font_rules(P, r, d.f['fontData'], 'd.fontData', True); pre += font_pre(P, d.f['fontData'])
    elif kind in ('segnos', 'codas'):
        d = R_.make(A + {'segnos': 'SegnoData', 'codas': 'CodaData'}[kind], 'd'); pos_rules(r, d.f['positionData'], 'd.positionData', False); r.pop('d.positionData.verticalAlignment'); r.pop('d.positionData.horizontalAlignmnet')
        color_rule(r, 'd.colorData', d.f['isColorSpecified'])
    else:
        d = R_.make(A + 'ChordData', 'd', {'*.extensions': lambda p: R_.vec(p, A + 'Extension', 2), '*.miscData': lambda p: R_.choice(p, [StructV(A + 'MiscData', {'name': R_.leaf(R_.strt(), p + '[%d].name' % i), 'data': R_.leaf(R_.strt(), p + '[%d].data' % i)}) for i in range(2)]), '*.text': lambda p: R_.token(p)})
        un = en(P, 'Step', 'unspecified'); pos_rules(r, d.f['positionData'], 'd.positionData')
        pre += [Ne(x.f['name'], S('')) for _, x in d.f['miscData'].e]      # a processing instruction has a name
        pre += [Ne(d.f['root'], un), Ne(d.f['chordKind'], en(P, 'ChordKind', 'unspecified')), Implies(Eq(d.f['bass'], un), Eq(d.f['bassAlter'], I(0)))] + [x for k in ('rootAlter', 'bassAlter') for x in (Ge(d.f[k], I(-100)), Le(d.f[k], I(100)))]
        c.D = c.D.set('placement', d.f['positionData'].f['placement'])      # a chord has one placement
    prove(chk, P, c, key, kind, d, r, chord)

def prove(chk, P, c, key, field, d, r, chord):
    I_, R_ = c.I, c.R
    D = c.D.set(field, VecV([(TRUE, d)]))
    facts = R_.all_facts() + c.pre
    w = lem(P, 'throughDirection'); sf = lem(P, 'staffOf')
    wit = lambda m: witness(chk, P, c, field, d, r, chord, m)
    chk.cover(key, facts)
    st = start(facts, D=D, C=c.cur)
    for x in normal(chk, key, I_.run(w, None, [P_('D'), P_('C'), B(chord)], st), w.where, wit, 'a direction can be written and read'):
        v = deref(I_, x.st, x.val); out = []
        pointwise(D, v, 'D', {**{'D.' + k: None for k in LISTS}, 'D.voice': None, 'D.placement': (lambda a, b: same(a, b))}, out, None)
        for n in LISTS:
            size = I(0)
            for g, _ in v.f[n].e: size = Add(size, Ite(g, I(1), I(0)))
            out.append(('number of ' + n, Eq(size, I(1 if n == field else 0))))
        if len(v.f[field].e) != 1: raise Unsupported('%d candidates for %s' % (len(v.f[field].e), field))
        pointwise(d, v.f[field].e[0][1], 'd', r, out, None)
        chk.prove_all(list(x.st.pc), [('%s/%s' % (key, n[2:] if n[:2] in ('d.', 'D.') else n), subst_q6(g) if type(g) is T else B(g)) for n, g in out], w.where, wit, timeout=40000)
    for y in normal(chk, key, I_.run(sf, None, [P_('D'), P_('C'), B(chord)], start(facts, D=D, C=c.cur)), sf.where, wit, 'the staff of a written direction can be read'):
        chk.prove('%s/staff' % key, list(y.st.pc), Eq(y.val, c.cur.f['staffIndex']), sf.where, wit, timeout=40000)
    chk.absorb(I_, w.q); chk.contracts |= {q for q in I_.called if q.startswith('mx::impl::')}

def witness(chk, P, c, field, d, r, chord, m):
    from .c15 import skipped
    cls = d.cls.split('::')[-1] if hasattr(d, 'cls') else d.t.split('::')[-1]
    fixed = []
    def walk(v, p):
        if type(v) is StructV:
            for k, x in v.f.items(): walk(x, p + '.' + k)
        elif type(v) is T and v.op == 'const' and v.sort in ('I', 'B'): fixed.append((p, v.val))
    for k in ('markType', 'ottavaType', 'tempoType'):
        if k in d.f: fixed.append(('d.' + k, d.f[k].val))
    if field == 'tempos': fixed.append(('d.beatsPerMinute.dots', get(d, 'beatsPerMinute', 'dots').val))
    pre = ''.join('%s=(decltype(%s))%s; ' % (p, p, v) for p, v in fixed)
    body = 'DirectionData D; %s d{}; impl::Cursor cur{1,420}; %s\n  ' % (cls, pre) + assigns(P, [l for l in c.R.leaves if l[0][:2] in ('d.', 'D.') or l[0].startswith('cur.') and '.my' not in l[0]], m)
    if field == 'marks': body += '\n  d.positionData.placement=D.placement;'
    if chord: body += '\n  D.placement=d.positionData.placement;'
    body += '''
  D.%s.push_back(d); auto v = lem::throughDirection(D,cur,%s); if(lem::staffOf(D,cur,%s)!=cur.staffIndex) printf("FAIL staff\\n");
  if(v.tickTimePosition!=D.tickTimePosition||v.placement!=D.placement||v.isStaffValueSpecified!=D.isStaffValueSpecified) printf("FAIL time, placement or staff flag of the direction\\n");
  if(v.%s.size()!=1) printf("FAIL number of %s: %%zu\\n", v.%s.size()); else {
  ag::Diff d_; ag::diff(d,v.%s[0],"",d_); for(auto&e:d_){ bool skip=false; for(const char* f:{%s "~"}) if(e.first.find(f)!=std::string::npos) skip=true; if(!skip) printf("FAIL %%s: %%s\\n", e.first.c_str(), e.second.c_str()); } }
''' % (field, 'true' if chord else 'false', 'true' if chord else 'false', field, field, field, field, ''.join('"%s",' % k.split('.')[-1] for k in skipped(c, r, m) if k != 'D'))
    return native(P, 'lem_dir', body, 'c16')

def main():
    chk = Check('C16'); P = fe.load(fe.dir_groups('api') + fe.dir_groups('impl') + fe.dir_groups('core') + fe.elements_groups(16) + [lem_tu('lem_dir')]); chk.log('loaded')
    items = [('tempos', ('%d dots' % k, k)) for k in range(3)] + [('chords', ()), ('words', ()), ('rehearsals', ()), ('segnos', ()), ('codas', ()), ('wedgeStarts', ()), ('wedgeStops', ()), ('ottavaStops', ()), ('bracketStarts', ()), ('bracketStops', ())]
    items += [('ottavaStarts', (n,)) for n, _ in P.enums[A + 'OttavaType'] if n != 'unspecified'] + [('marks', x) for x in dynamics(P) + [(n, v) for n, v in P.enums[A + 'MarkType'] if n in ('pedal', 'damp')]]
    only = os.environ.get('MXV_ONLY')
    if only: items = [i for i in items if re.search(only, i[0] + '/' + (i[1][0] if i[1] else ''))]
    chk.parallel(items, lambda it: chk.guard('/'.join([it[0]] + [str(x) for x in it[1][:1]]), lambda: case(chk, P, *it)), limit=300)
    chk.assumptions += ['decimals are kept to six digits by the number formatting proved in C03', 'each kind of direction is proved for a direction that holds one such item; combinations and the place of directions among the notes are covered by the bounded stand-in', 'font families, extensions and processing instructions up to 2 entries symbolically']
    return chk.finish(lambda keys: campaign(chk, P, 'dir', 12), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'], bounded_always=True)
