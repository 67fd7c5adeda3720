"""C13: notes survive writing and reading."""
from ..apirt import *
from .. import fe
from fractions import Fraction as F
WHICH = {}
A = 'mx::api::'

def en(P, e, n): return I(dict(P.enums[A + e])[n])
def setup(chk, P, beams):
    I_ = engine(chk, P, opaque=False); R_ = Rec(I_, P)
    over = {'*.noteAttachmentData': None, '*.miscData': None, '*.beams': None, '*.fontFamily': None, '*.timeModificationActualNotes': I(1), '*.timeModificationNormalNotes': I(1),
            '*.timeModificationNormalType': None, '*.timeModificationNormalTypeDots': None, '*.isTied': None}
    if beams: over['*.beams'] = lambda p: R_.vec(p, A + 'Beam', 3)
    if not beams: over['*.fontFamily'] = lambda p: R_.choice(p, [R_.token(p + '[%d]' % i) for i in range(2)])
    d = R_.make(A + 'NoteData', 'd', over)
    cur = R_.make('mx::impl::MeasureCursor', 'cur')
    v = lambda *p: get(d, *p)
    un = lambda e: en(P, e, 'unspecified')
    I_.ranges['d.durationData.durationDots'] = (0, 4)
    dots = Var('d.durationData.durationDots', 'I')
    pitched = And(Not(v('isRest')), Not(v('isUnpitched')))
    pre = [Ge(dots, I(0)), Le(dots, I(4)),
           Implies(v('isMeasureRest'), v('isRest')), Implies(v('isUnpitched'), Not(v('isRest'))), Implies(v('isDisplayStepOctaveSpecified'), Not(pitched)),
           Ge(v('pitchData', 'octave'), I(0)), Le(v('pitchData', 'octave'), I(9)),
           Implies(Eq(v('pitchData', 'accidental'), en(P, 'Accidental', 'none')), And(*[Not(v('pitchData', k)) for k in FLAGS])),
           Or(v('isMeasureRest'), Ne(v('durationData', 'durationName'), un('DurationName'))),
           Implies(v('isMeasureRest'), Eq(v('durationData', 'durationName'), un('DurationName'))),
           Ge(v('durationData', 'durationTimeTicks'), I(1)), Le(v('durationData', 'durationTimeTicks'), I(100000000)),
           Eq(cur.f['ticksPerQuarter'], cur.f['myGlobalTicksPerQuarter']), Ge(cur.f['ticksPerQuarter'], I(1)), Le(cur.f['ticksPerQuarter'], I(1000000)),
           Ge(cur.f['voiceIndex'], I(0)), Le(cur.f['voiceIndex'], I(1000)), Ge(cur.f['staffIndex'], I(0)), Le(cur.f['staffIndex'], I(1000)),
           Implies(Eq(v('noteType'), en(P, 'NoteType', 'cue')), And(Not(v('isTieStart')), Not(v('isTieStop'))))]
    for n in ('step',):
        if 'unspecified' in dict(P.enums[A + 'Step']): pre.append(Ne(v('pitchData', n), un('Step')))
    pre.append(Implies(Eq(v('printData', 'fontData', 'sizeType'), en(P, 'FontSizeType', 'css')), Ne(v('printData', 'fontData', 'sizeCss'), un('CssSize'))))
    for r in ('d.printData.fontData.' + k for k in ('underline', 'overline', 'lineThrough')):
        x = Var(r, 'I'); pre += [Ge(x, I(0)), Le(x, I(3))]; I_.ranges[r] = (0, 3)
    return I_, R_, d, cur, pre, pitched
FLAGS = ('isAccidentalParenthetical', 'isAccidentalCautionary', 'isAccidentalEditorial', 'isAccidentalBracketed')
def get(d, *p):
    for k in p: d = d.f[k]
    return d

def rules(P, d, cur, pitched, exp_voice=True):
    rest = get(d, 'isRest'); disp = get(d, 'isDisplayStepOctaveSpecified'); grace = Eq(get(d, 'noteType'), en(P, 'NoteType', 'grace'))
    where = Or(pitched, disp)
    font = ['sizeType', 'sizePoint', 'sizeCss', 'style', 'weight', 'fontFamily', 'underline', 'overline', 'lineThrough']
    r = {'d.noteAttachmentData': None, 'd.miscData': None, 'd.durationData.isTied': None, 'd.tickTimePosition': cur.f['tickTimePosition'],
         'd.durationData.timeModificationNormalType': None, 'd.durationData.timeModificationNormalTypeDots': None,
         'd.userRequestedVoiceNumber': Add(cur.f['voiceIndex'], I(1)),
         'd.pitchData.step': lambda a, b: Implies(where, Eq(a, b)), 'd.pitchData.octave': lambda a, b: Implies(where, Eq(a, b)),
         'd.pitchData.alter': None, 'd.pitchData.cents': None,
         'd.durationData.durationTimeTicks': lambda a, b: Eq(b, Ite(grace, I(0), a)),
         'd.durationData.durationName': lambda a, b: Implies(Not(get(d, 'isMeasureRest')), Eq(a, b)),
         'd.isTieStart': None, 'd.isTieStop': None,
         'd.isChord': And(cur.f['isChordActive'], Var('previousInChord', 'B'), Not(Var('startOfChord', 'B'))),
         'd.printData.color': lambda a, b: Implies(get(d, 'printData', 'isColorSpecified'), And(*[Eq(a.f[k], b.f[k]) for k in ('red', 'green', 'blue', 'isAlphaSpecified')], Implies(a.f['isAlphaSpecified'], Eq(a.f['alpha'], b.f['alpha'])))),
         'd.printData.fontData.sizePoint': lambda a, b: Implies(Eq(get(d, 'printData', 'fontData', 'sizeType'), en(P, 'FontSizeType', 'point')), Eq(a, b)),
         'd.printData.fontData.sizeCss': lambda a, b: Implies(Eq(get(d, 'printData', 'fontData', 'sizeType'), en(P, 'FontSizeType', 'css')), Eq(a, b))}
    for k in ('underline', 'overline', 'lineThrough'): r['d.printData.fontData.' + k] = None
    for k in ('defaultX', 'defaultY', 'relativeX', 'relativeY'):
        r['d.positionData.' + k] = lambda a, b, k=k: Implies(get(d, 'positionData', 'is%sSpecified' % (k[0].upper() + k[1:])), Eq(a, b))
    for k in ('placement', 'verticalAlignment', 'horizontalAlignmnet'): r['d.positionData.' + k] = None
    return r

def check_note(chk, P, kind, beams):
    """kind: one of the note types; the others are separate cases"""
    key = 'note/' + kind + ('/beams' if beams else '')
    I_, R_, d, cur, pre, pitched = setup(chk, P, beams)
    d = d.set('noteType', en(P, 'NoteType', kind)); I_.ranges['d.noteType'] = (0, 2)
    if beams:      # the other fields do not influence the beams: a plain note
        d0 = R_.make(A + 'NoteData', 'z', {'*.' + n: None for n, _, _ in P.recs[A + 'NoteData'].fields})
        for n in ('noteType', 'beams', 'durationData'): d0 = d0.set(n, d.f[n])
        d = d0; pitched = TRUE
        un = en(P, 'Beam', 'unspecified')
        for g, x in d.f['beams'].e: pre.append(Ne(x, un))
        keep = {'d.durationData', 'd.beams', 'cur'}
        pre = [p for p in pre if p is not FALSE]
    facts = [f for f in R_.all_facts() + pre]
    facts = facts + [q6fix(d)]
    wit = lambda m: witness(chk, P, R_, m)
    w = lem(P, 'writeNote'); r = lem(P, 'readNote')
    chk.cover(key, facts)
    st = start(facts, D=d, C=cur, V=VecV([]), W=StructV('mx::impl::ScoreWriter', {}), C2=cur)
    outs = normal(chk, key, I_.run(w, None, [P_('D'), P_('C'), P_('W'), Var('previousInChord', 'B'), Var('startOfChord', 'B'), P_('V'), I(0)], st), w.where, wit, 'a note can be written')
    for o in outs:
        for x in normal(chk, key, I_.run(r, None, [o.val, P_('C2')], o.st), r.where, wit, 'a written note can be read'):
            v = deref(I_, x.st, x.val)
            out = []
            pointwise(d, v, 'd', rules(P, d, cur, pitched), out, None)
            out.append(('d.ties', And(*[Eq(get(d, k), get(v, k)) for k in ('isTieStart', 'isTieStop')]) if kind != 'cue' else TRUE))
            if not beams: out.append(('d.pitch', pitch_goal(d, v, pitched)))
            if beams: out = [(n, g) for n, g in out if n == 'd.beams']
            if not beams:
                sf = lem(P, 'readStaffIndex'); chk.contracts.add('mx::impl::NoteReader::getStaffNumber')
                for y in normal(chk, key, I_.run(sf, None, [o.val], x.st), sf.where, wit, 'the staff of a written note can be read'):
                    chk.prove('%s/staff' % key, list(y.st.pc) + [Lt(cur.f['staffIndex'], cur.f['myNumStaves'])], Eq(Ite(Lt(y.val, I(0)), I(0), y.val), cur.f['staffIndex']), w.where, wit, timeout=40000)
            chk.prove_all(list(x.st.pc), [('%s/%s' % (key, n[2:]), subst_q6(g) if type(g) is T else B(g)) for n, g in out], w.where, wit, timeout=40000)
    chk.absorb(I_, w.q); chk.contracts |= {r.q} | {q for q in I_.called if q.startswith('mx::impl::Note')}
def q6fix(d): return TRUE
def pitch_goal(d, v, pitched):
    """the sounding alteration is the same to a thousandth of a cent (decimals are kept to six digits, C03); semitones and cents separately when they point the same way"""
    s, c = get(d, 'pitchData', 'alter'), get(d, 'pitchData', 'cents'); s2, c2 = get(v, 'pitchData', 'alter'), get(v, 'pitchData', 'cents')
    eps = R(F(1, 1000)); near = lambda x, y: And(Le(Sub(x, y), eps), Le(Sub(y, x), eps))
    inr = And(Ge(s, I(-1000)), Le(s, I(1000)), Ge(c, R(-10000)), Le(c, R(10000)))
    same_way = And(Or(Eq(c, R(0)), Ge(c, R(F(1, 100))), Le(c, R(F(-1, 100)))), Lt(c, R(99)), Gt(c, R(-99)), Or(And(Ge(s, I(0)), Ge(c, R(0))), And(Le(s, I(0)), Le(c, R(0)))))
    g = And(near(Add(Mul(R(100), ToReal(s2)), c2), Add(Mul(R(100), ToReal(s)), c)), Implies(same_way, And(Eq(s2, s), near(c2, c))))
    return Implies(And(pitched, inr, *decimals(g)), g)
def decimals(g):
    """decimals are kept to six digits (contract proved in C03)"""
    eps = R(F(1, 1000000)); out = []; seen = set(); st = [g]
    while st:
        x = st.pop()
        if type(x) is not T or x.id in seen: continue
        seen.add(x.id); st.extend(a for a in x.args if type(a) is T)
        if x.op == 'app' and x.val == 'q6': out.append(And(Le(Sub(x, x.args[0]), eps), Le(Sub(x.args[0], x), eps), Implies(Eq(x.args[0], ToReal(Floor(x.args[0]))), Eq(x, x.args[0]))))
    return out
def witness(chk, P, R_, m):
    body = 'NoteData d; impl::MeasureCursor cur{1,420}; bool previousInChord=false, startOfChord=false;\n  d.durationData.timeModificationActualNotes=1; d.durationData.timeModificationNormalNotes=1;\n  ' + \
        assigns(P, [l for l in R_.leaves if not l[0].startswith('cur.') and not l[0].startswith('z.')], m)
    for n in ('voiceIndex', 'staffIndex', 'tickTimePosition', 'isChordActive'):
        x = next((l for l in R_.leaves if l[0] == 'cur.' + n), None)
        if x: body += '\n  ' + assigns(P, [x], m)
    body += '''
  std::vector<api::NoteData> none; impl::ScoreWriter sw{ ScoreData{} };
  auto n = lem::writeNote(d,cur,sw,previousInChord,startOfChord,none,0); auto r = lem::readNote(*n,cur);
  auto e = d; bool pitched=!d.isRest&&!d.isUnpitched; e.isChord=r.isChord; e.tickTimePosition=cur.tickTimePosition; e.userRequestedVoiceNumber=cur.voiceIndex+1; e.noteAttachmentData=r.noteAttachmentData; e.miscData=r.miscData;
  if(!pitched&&!d.isDisplayStepOctaveSpecified){ e.pitchData.step=r.pitchData.step; e.pitchData.octave=r.pitchData.octave; } if(!pitched){ e.pitchData.alter=r.pitchData.alter; e.pitchData.cents=r.pitchData.cents; }
  if(fabs((e.pitchData.alter*100+e.pitchData.cents)-(r.pitchData.alter*100+r.pitchData.cents))<1e-4){ e.pitchData.alter=r.pitchData.alter; e.pitchData.cents=r.pitchData.cents; }
  if(d.noteType==NoteType::grace) e.durationData.durationTimeTicks=0; if(d.isMeasureRest) e.durationData.durationName=r.durationData.durationName;
  e.durationData.timeModificationNormalType=r.durationData.timeModificationNormalType; e.durationData.timeModificationNormalTypeDots=r.durationData.timeModificationNormalTypeDots; e.durationData.isTied=r.durationData.isTied;
  auto& f=e.printData.fontData; auto& g=r.printData.fontData; f.underline=g.underline; f.overline=g.overline; f.lineThrough=g.lineThrough; if(f.sizeType!=FontSizeType::point) f.sizePoint=g.sizePoint; if(f.sizeType!=FontSizeType::css) f.sizeCss=g.sizeCss;
  if(!e.printData.isColorSpecified) e.printData.color=r.printData.color; if(!e.printData.color.isAlphaSpecified) e.printData.color.alpha=r.printData.color.alpha;
  auto& p=e.positionData; auto& q=r.positionData; p.placement=q.placement; p.verticalAlignment=q.verticalAlignment; p.horizontalAlignmnet=q.horizontalAlignmnet;
  if(!p.isDefaultXSpecified) p.defaultX=q.defaultX; if(!p.isDefaultYSpecified) p.defaultY=q.defaultY; if(!p.isRelativeXSpecified) p.relativeX=q.relativeX; if(!p.isRelativeYSpecified) p.relativeY=q.relativeY;
  if(r.isChord!=(cur.isChordActive&&previousInChord&&!startOfChord)) printf("FAIL chord flag\\n");
  ''' + diffs('e', 'r')
    return native(P, 'lem_note', body, 'c13')

def main():
    chk = Check('C13'); P = fe.load(fe.dir_groups('api') + fe.dir_groups('impl') + fe.dir_groups('core') + fe.elements_groups(16) + [lem_tu('lem_note')]); chk.log('loaded')
    items = [(k, b) for k, b in (('normal', False), ('grace', False), ('cue', False), ('normal', True))]
    chk.parallel(items, lambda it: chk.guard('note/' + it[0], lambda: check_note(chk, P, *it)), limit=400)
    chk.assumptions += ['decimals are kept to six digits by the number formatting proved in C03', 'ticks up to 10^8 per note, up to 10^6 ticks per quarter', 'lists of beams up to 3 and font families up to 2 entries symbolic in the proofs']
    return chk.finish(lambda keys: campaign(chk, P, 'notes', 12), trusted=['exporter (clang AST to JSON)', 'mxv evaluator and term rewriting', 'z3'], bounded_always=True)
