"""C17: what is written in a measure beside its notes survives writing and reading: keys, clefs, time, barlines, attributes."""
from ..apirt import *
from .. import fe
from .c13 import en, get, decimals
A = 'mx::api::'; TINF = 'mx::api::TICK_TIME_INFINITY'

class Ctx:
    def __init__(self, chk, P):
        self.chk, self.P = chk, P; self.I = engine(chk, P, opaque=False); self.R = Rec(self.I, P); self.pre = []
        self.cur = self.R.make('mx::impl::MeasureCursor', 'cur'); c = self.cur.f; lim = 10**8
        self.pre += [Ge(c['tickTimePosition'], I(0)), Le(c['tickTimePosition'], I(lim)), Ge(c['myNumStaves'], I(1)), Le(c['myNumStaves'], I(1000)), Ge(c['measureIndex'], I(0)), Le(c['measureIndex'], I(lim))]
    def num(self, p, lo, hi): v = Var(p, 'I'); self.pre += [Ge(v, I(lo)), Le(v, I(hi))]
    def facts(self): return self.R.all_facts() + self.pre

def finish(c, key, w, args, d, rules, extra=(), body=None, **bind):
    chk = c.chk; facts = c.facts()
    wit = lambda m: native(c.P, 'lem_meas', body(m), 'c17')
    chk.cover(key, facts)
    for x in normal(chk, key, c.I.run(w, None, args, start(facts, C=c.cur, **bind)), w.where, wit, 'it can be written and read'):
        v = x.val if type(x.val) is T else deref(c.I, x.st, x.val); out = []
        if type(v) is T: out.append(('d', Eq(d, v)))
        else: pointwise(d, v, 'd', rules, out, None)
        out += [(n, g(v)) for n, g in extra]
        chk.prove_all(list(x.st.pc), [('%s/%s' % (key, n[2:] if n[:2] == 'd.' else n), subst_q6(g) if type(g) is T else B(g)) for n, g in out], w.where, wit, timeout=40000)
    chk.absorb(c.I, w.q); chk.contracts |= {q for q in c.I.called if q.startswith('mx::impl::')}

def cursor_of(c, m): return 'impl::MeasureCursor cur{%s,420}; ' % (value(c, m, 'cur.myNumStaves') or 1) + assigns(c.P, [l for l in c.R.leaves if l[0].startswith('cur.') and '.my' not in l[0] and '.timeSignature' not in l[0]], m)
def value(c, m, p):
    from ..solve import model_value
    return next((model_value(m, v) for q, t, v in c.R.leaves if q == p), None)
def mine(c, m): return assigns(c.P, [l for l in c.R.leaves if l[0] == 'd' or l[0][:2] in ('d.', 'd[')], m)

def key_case(chk, P, n):
    """n: number of altered steps; 0: a traditional key"""
    c = Ctx(chk, P); F_ = c.cur.f
    comps = []
    for i in range(n):
        k = c.R.make(A + 'KeyComponent', 'd.nonTraditional[%d]' % i); c.pre.append(Ne(k.f['step'], en(P, 'Step', 'unspecified')))
        c.num('d.nonTraditional[%d].alter' % i, -100, 100); comps.append(k)
    over = {'*.nonTraditional': VecV([(TRUE, k) for k in comps])}
    if n: over.update({'*.fifths': None, '*.cancel': None, '*.mode': None})
    d = c.R.make(A + 'KeyData', 'd', over)
    if not n: c.num('d.fifths', -7, 7); c.num('d.cancel', -7, 7); c.pre.append(Ne(d.f['mode'], en(P, 'KeyMode', 'unsupported')))
    c.num('d.staffIndex', -1, 999); c.pre.append(Lt(d.f['staffIndex'], F_['myNumStaves']))
    r = {'d.tickTimePosition': F_['tickTimePosition'], 'd.nonTraditional': None}; extra = [('number of altered steps', lambda v: B(len(v.f['nonTraditional'].e) == n and all(g is TRUE for g, _ in v.f['nonTraditional'].e)))]
    for i in range(n):
        for k in ('step', 'accidental'): extra.append(('step %d: %s' % (i + 1, k), lambda v, i=i, k=k: Eq(comps[i].f[k], v.f['nonTraditional'].e[i][1].f[k])))
        extra.append(('step %d: alteration' % (i + 1), lambda v, i=i: alteration(comps[i], v.f['nonTraditional'].e[i][1])))
    def body(m):
        return 'KeyData d; %s d.nonTraditional.resize(%d); %s\n auto v=lem::throughKey(d,cur); if(v.tickTimePosition!=cur.tickTimePosition) printf("FAIL time\\n"); v.tickTimePosition=d.tickTimePosition;\n' % (cursor_of(c, m), n, mine(c, m)) + \
            ' for(size_t i=0;i<d.nonTraditional.size()&&i<v.nonTraditional.size();++i){ auto&a=d.nonTraditional[i]; auto&b=v.nonTraditional[i]; if(fabs(a.alter*100+a.cents-b.alter*100-b.cents)<1e-4){ a.alter=b.alter; a.cents=b.cents; } }\n' + diffs('d', 'v')
    finish(c, 'key/%d altered steps' % n if n else 'key/traditional', lem(P, 'throughKey'), [P_('D'), P_('C')], d, r, extra, body, D=d)

def alteration(a, b):
    from fractions import Fraction as F
    eps = R(F(1, 1000)); near = lambda x, y: And(Le(Sub(x, y), eps), Le(Sub(y, x), eps))
    s, x = a.f['alter'], a.f['cents']; s2, x2 = b.f['alter'], b.f['cents']
    one_way = And(Or(Eq(x, R(0)), Ge(x, R(F(1, 100))), Le(x, R(F(-1, 100)))), Lt(x, R(99)), Gt(x, R(-99)), Or(And(Ge(s, I(0)), Ge(x, R(0))), And(Le(s, I(0)), Le(x, R(0)))))
    g = And(near(Add(Mul(R(100), ToReal(s2)), x2), Add(Mul(R(100), ToReal(s)), x)), Implies(one_way, And(Eq(s2, s), near(x2, x))))
    return Implies(And(Ge(x, R(-10000)), Le(x, R(10000)), *decimals(g)), g)

def clef_case(chk, P, staff):
    c = Ctx(chk, P); F_ = c.cur.f
    d = c.R.make(A + 'ClefData', 'd'); c.num('d.line', 0, 9); c.num('d.octaveChange', -100, 100)
    st = I(staff); c.pre.append(Eq(F_['myNumStaves'], I(max(staff, 0) + 2)) if staff >= 0 else Eq(F_['myNumStaves'], I(1)))
    t0 = Eq(F_['tickTimePosition'], I(0)); mid = en(P, 'ClefLocation', 'midMeasure')
    r = {'d.tickTimePosition': F_['tickTimePosition'], 'd.location': lambda a, b: And(Implies(And(t0, Ne(a, mid)), Eq(a, b)), Implies(Not(t0), Eq(b, mid)))}
    def body(m): return 'ClefData d; %s %s\n auto v=lem::throughClef(d,%d,cur); if(v.tickTimePosition!=cur.tickTimePosition) printf("FAIL time\\n"); v.tickTimePosition=d.tickTimePosition; if(cur.tickTimePosition!=0){ if(v.location!=ClefLocation::midMeasure) printf("FAIL location\\n"); d.location=v.location; }\n' % (cursor_of(c, m), mine(c, m), staff) + diffs('d', 'v')
    finish(c, 'clef/' + ('of the part' if staff < 0 else 'of staff %d' % (staff + 1)), lem(P, 'throughClef'), [P_('D'), st, P_('C')], d, r, (), body, D=d)

def time_case(chk, P, implicit):
    c = Ctx(chk, P); T_ = c.cur.f['timeSignature']
    d = c.R.make(A + 'TimeSignatureData', 'd', {'*.isImplicit': B(implicit)})
    if implicit:
        first = Eq(c.cur.f['measureIndex'], I(0)); r = {}
        c.pre.append(Gt(c.cur.f['measureIndex'], I(0)))      # the previous measure is the one the cursor carries
        for k in ('symbol', 'beats', 'beatType', 'display'): r['d.' + k] = T_.f[k]
    else: c.num('d.beats', 0, 10**8); c.num('d.beatType', 0, 10**8); r = {}
    def body(m): return 'TimeSignatureData d; %s %s d.isImplicit=%s;\n%s auto v=lem::throughTime(d,cur); %s\n' % (cursor_of(c, m), mine(c, m), 'true' if implicit else 'false', assigns(P, [l for l in c.R.leaves if l[0].startswith('cur.timeSignature')], m), 'd=cur.timeSignature; d.isImplicit=true;' if implicit else '') + diffs('d', 'v')
    finish(c, 'time/' + ('continued' if implicit else 'written'), lem(P, 'throughTime'), [P_('D'), P_('C')], d, r, (), body, D=d)

def rest_case(chk, P):
    c = Ctx(chk, P); n = Var('d', 'I'); c.I.ranges['d'] = (1, 10**8); c.pre += [Ge(n, I(1)), Le(n, I(10**8))]; c.R.leaves.append(('d', P.recs[A + 'MeasureData'].ft('multiMeasureRest') if hasattr(P.recs[A + 'MeasureData'], 'ft') else next(t for q, t, _ in P.recs[A + 'MeasureData'].fields if q == 'multiMeasureRest'), n))
    def body(m): return 'int d=0; %s %s\n if(lem::throughMultiMeasureRest(d,cur)!=d) printf("FAIL multi-measure rest\\n");\n' % (cursor_of(c, m), mine(c, m))
    finish(c, 'multi-measure rest', lem(P, 'throughMultiMeasureRest'), [n, P_('C')], n, {}, (), body)

def bar_case(chk, P, where, ending):
    c = Ctx(chk, P)
    d = c.R.make(A + 'BarlineData', 'd', {'*.location': en(P, 'HorizontalAlignment', where), '*.endingType': en(P, 'EndingType', ending)})
    inf = 2147483647; tinf = const(P, TINF)
    c.pre += [Ne(d.f['barlineType'], en(P, 'BarlineType', 'unsupported')), Ge(d.f['tickTimePosition'], I(0))]
    if where == 'right': c.pre.append(Eq(d.f['tickTimePosition'], I(tinf)))
    else: c.pre.append(Le(d.f['tickTimePosition'], I(10**8)))
    if ending == 'none': c.pre.append(Eq(d.f['endingNumber'], I(0)))
    else: c.num('d.endingNumber', 1, 10**8)
    md = c.R.make(A + 'MeasureData', 'z', {'*.' + n: None for n, _, _ in P.recs[A + 'MeasureData'].fields}).set('barlines', VecV([(TRUE, d)]))
    r = {'d.tickTimePosition': (I(tinf) if where == 'right' else c.cur.f['tickTimePosition'])}
    pre = '' 
    def body(m): return 'BarlineData d; %s %s d.location=HorizontalAlignment::%s; d.endingType=EndingType::%s; MeasureData md; md.barlines.push_back(d); impl::ScoreWriter sw{ ScoreData{} };\n auto v=lem::throughBarline(md,d.tickTimePosition,cur,sw); auto t=%s; if(v.tickTimePosition!=t) printf("FAIL time\\n"); v.tickTimePosition=d.tickTimePosition;\n' % (cursor_of(c, m), mine(c, m), where, ending, 'TICK_TIME_INFINITY' if where == 'right' else 'cur.tickTimePosition') + diffs('d', 'v')
    finish(c, 'barline/%s/ending %s' % (where, ending), lem(P, 'throughBarline'), [P_('M'), d.f['tickTimePosition'], P_('C'), P_('W')], d, r, (), body, M=md, W=StructV('mx::impl::ScoreWriter', {}))
def const(P, q):
    """the tick that stands for the end of a measure"""
    for l in open(os.environ.get('MXV_REPO', '/repo') + '/Sourcecode/include/mx/api/ApiCommon.h'):
        mm = re.search(r'TICK_TIME_INFINITY\s*[={]\s*(\d+)', l)
        if mm: return int(mm.group(1))
    return 2147483647
def measure_case(chk, P):
    c = Ctx(chk, P); chk_ = c.cur.f
    d = c.R.make(A + 'MeasureData', 'd', {'*.timeSignature': None, '*.measureNumbering': None})
    c.num('d.multiMeasureRest', -1, 10**8); c.pre += [Ne(d.f['multiMeasureRest'], I(0)), Gt(chk_['measureIndex'], I(0)), Not(chk_['isFirstMeasureInPart']), Or(Eq(d.f['width'], R(-1)), Ge(d.f['width'], R(0)))]
    num = App('itoa', 'S', Add(chk_['measureIndex'], I(1)))
    tok = Eq(App('norm:mx::core::XsToken', 'S', d.f['number']), d.f['number']); c.pre += [tok, Eq(App('norm:mx::core::XsToken', 'S', num), num)]      # the text of an integer has no white space to normalise (C03)
    r = {'d.timeSignature': None, 'd.number': lambda a, b: Implies(Ne(a, num), Eq(a, b)), 'd.width': lambda a, b: Implies(Ge(a, R(0)), Eq(a, b))}
    sd = c.R.make(A + 'ScoreData', 'z', {'*.' + n: None for n, _, _ in P.recs[A + 'ScoreData'].fields})
    def body(m): return 'MeasureData d; %s %s d.timeSignature.isImplicit=true; impl::ScoreWriter sw{ ScoreData{} };\n auto v=lem::throughMeasure(d,cur,sw); v.timeSignature=d.timeSignature; if(d.number==std::to_string(cur.measureIndex+1)) v.number=d.number; v.staves.clear();\n' % (cursor_of(c, m), mine(c, m)) + diffs('d', 'v')
    c.pre.append(Eq(chk_['myNumStaves'], I(1)))
    finish(c, 'measure', lem(P, 'throughMeasure'), [P_('D'), P_('C'), P_('W')], d, {**r, 'd.staves': None}, (), body, D=d, W=StructV('mx::impl::ScoreWriter', {'myScoreData': sd}))

def main():
    chk = Check('C17'); P = fe.load(fe.dir_groups('api') + fe.dir_groups('impl') + fe.dir_groups('core') + fe.elements_groups(16) + [lem_tu('lem_meas')]); chk.log('loaded')
    items = [('key', lambda n=n: key_case(chk, P, n)) for n in range(4)] + [('clef', lambda s=s: clef_case(chk, P, s)) for s in (-1, 0, 1)] + [('time', lambda b=b: time_case(chk, P, b)) for b in (False, True)] + [('multi-measure rest', lambda: rest_case(chk, P))]
    items += [('barline', lambda w=w, e=e: bar_case(chk, P, w, e)) for w in ('left', 'center', 'right') for e, _ in P.enums[A + 'EndingType']]
    items.append(('measure', lambda: measure_case(chk, P)))
    only = os.environ.get('MXV_ONLY')
    if only: items = [i for i in items if re.search(only, i[0])]
    chk.parallel(items, lambda it: chk.guard(it[0], it[1]), limit=300)
    chk.assumptions += ['decimals are kept to six digits by the number formatting proved in C03', 'custom keys of up to 3 altered steps symbolically', 'the place of keys, clefs and barlines among the notes, and the attributes of the measure itself, are covered by the bounded stand-in']
    return chk.finish(lambda keys: campaign(chk, P, 'meas', 12), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'], bounded_always=True)
