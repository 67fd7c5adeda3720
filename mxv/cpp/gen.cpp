// A generator of valid scores, the documented normalisation, and the comparison of a score with what writing and reading it back gives.
#include <random>
#include <chrono>
namespace g {
static std::mt19937_64 rng; using std::string;
static int N(int n){ return n<=1?0:(int)(rng()%(unsigned)n); } static int IN(int a,int b){ return a+N(b-a+1); } static bool P(int pct){ return N(100)<pct; }
template<class E> E en(){ auto v=ag::all((E*)0); return v[N((int)v.size())]; }
template<class E> E enx(std::initializer_list<E> no){ for(;;){ E e=en<E>(); bool bad=false; for(E x:no) bad|=x==e; if(!bad) return e; } }
static long double dec(){ return IN(-4000,4000)/8.0L; } static long double nneg(){ return IN(0,4000)/8.0L; }
static string text(){ static const char* w[]={"Alpha","b","two words","a<b>&\"c\" 'd'","\xc3\xa9\xe2\x99\xaf","1","x, y","yes","Op. 5 No. 2"}; return w[N(9)]; }
static string otext(){ return P(40)?string():text(); }
static Bool tri(){ return en<Bool>(); }
static int depth=60;     // percentage of optional data present
static bool O(){ return P(depth); }
static ColorData color(){ ColorData c; c.red=N(256); c.green=N(256); c.blue=N(256); if(P(50)){ c.isAlphaSpecified=true; c.alpha=N(256); } return c; }
static PositionData pos(bool al=false,bool pl=false){ PositionData p; if(O()){ p.isDefaultXSpecified=true; p.defaultX=dec(); } if(O()){ p.isDefaultYSpecified=true; p.defaultY=dec(); } if(O()){ p.isRelativeXSpecified=true; p.relativeX=dec(); } if(O()){ p.isRelativeYSpecified=true; p.relativeY=dec(); }
  if(pl) p.placement=en<Placement>(); if(al){ p.horizontalAlignmnet=en<HorizontalAlignment>(); p.verticalAlignment=en<VerticalAlignment>(); } return p; }
static FontData font(bool deco){ FontData f; f.sizeType=en<FontSizeType>(); if(f.sizeType==FontSizeType::point) f.sizePoint=IN(1,400)/8.0L; if(f.sizeType==FontSizeType::css) f.sizeCss=enx({CssSize::unspecified}); f.style=en<FontStyle>(); f.weight=en<FontWeight>(); if(O()){ f.fontFamily.push_back("Times New Roman"); if(P(50)) f.fontFamily.push_back("serif"); }
  if(deco){ if(O()) f.underline=IN(0,3); if(O()) f.overline=IN(0,3); if(O()) f.lineThrough=IN(0,3); } return f; }
static PrintData print(bool obj,bool deco){ PrintData p; if(obj) p.printObject=tri(); p.fontData=font(deco); if(O()){ p.isColorSpecified=true; p.color=color(); } return p; }
static LineData line(bool type,bool hook,bool dash){ LineData l; if(type) l.lineType=en<LineType>(); if(hook){ l.lineHook=en<LineHook>(); if(O()){ l.isStopLengthSpecified=true; l.endLength=dec(); } } if(dash){ if(O()){ l.isDashLengthSpecified=true; l.dashLength=nneg(); } if(O()){ l.isSpaceLengthSpecified=true; l.spaceLength=nneg(); } } return l; }
static int T=12;
// ---- one voice of one staff: consecutive events, gaps, chords
struct Opt { bool rich=false, grace=false, gaps=true; };
static NoteData note(const Opt& o){ NoteData d; auto& du=d.durationData; du.durationTimeTicks=IN(1,T*2); du.durationName=enx({DurationName::unspecified}); du.timeModificationActualNotes=1; du.timeModificationNormalNotes=1; d.pitchData.step=enx({Step::unspecified}); d.pitchData.octave=IN(0,9);
  if(!o.rich) { du.durationName=DurationName::quarter; return d; }
  du.durationDots=P(70)?0:IN(1,4); if(P(25)){ du.timeModificationActualNotes=IN(1,9); du.timeModificationNormalNotes=IN(1,9); }
  int k=N(10); if(k==0){ d.isRest=true; if(P(30)){ d.isMeasureRest=true; du.durationName=DurationName::unspecified; du.durationDots=0; } } else if(k==1) d.isUnpitched=true;
  if((d.isRest||d.isUnpitched)){ if(P(50)) d.isDisplayStepOctaveSpecified=true; else d.pitchData=PitchData{}; }
  else { if(P(50)) d.pitchData.alter=IN(-2,2); if(P(20)) d.pitchData.cents=d.pitchData.alter>0?IN(1,49):d.pitchData.alter<0?-IN(1,49):IN(-49,49); }
  d.pitchData.accidental=P(50)?Accidental::none:enx({Accidental::none}); if(d.pitchData.accidental!=Accidental::none){ d.pitchData.isAccidentalParenthetical=P(30); d.pitchData.isAccidentalCautionary=P(30); d.pitchData.isAccidentalEditorial=P(30); d.pitchData.isAccidentalBracketed=P(30); }
  d.notehead=en<Notehead>(); d.stem=en<Stem>(); int t=N(12); d.noteType=t==0?NoteType::cue:t==1&&o.grace?NoteType::grace:NoteType::normal;
  if(d.noteType!=NoteType::cue&&!d.isRest){ d.isTieStart=P(20); d.isTieStop=P(20); }
  if(P(40)){ int n=IN(1,3); for(int i=0;i<n;++i) d.beams.push_back(enx({Beam::unspecified})); }
  d.positionData=pos(); d.printData=print(true,false); if(d.noteType==NoteType::grace) du.durationTimeTicks=0; return d; }
static void fill(VoiceData& v,int voice,int len,const Opt& o){ int t=0; while(t<len){ if(o.gaps&&P(15)){ t+=IN(1,T); continue; } NoteData d=note(o); d.userRequestedVoiceNumber=voice+1; d.tickTimePosition=t; int dur=d.durationData.durationTimeTicks; if(t+dur>len) break;
    int n=(o.rich&&!d.isRest&&dur>0&&P(25))?IN(2,4):1; if(n>1) d.isChord=true; v.notes.push_back(d);
    for(int i=1;i<n;++i){ NoteData c; do c=note(o); while(c.isRest||c.noteType!=d.noteType); c.userRequestedVoiceNumber=voice+1; c.tickTimePosition=t; c.durationData=d.durationData; c.isChord=true; v.notes.push_back(c); }
    t+=dur; if(o.gaps&&P(10)) break; } }
static ScoreData score(const Opt& o,int maxParts=3,int maxMeasures=3,int maxStaves=2,int maxVoices=2){ static const int TS[]={1,2,3,4,12,60,420,480,960}; T=TS[N(9)]; ScoreData s; s.ticksPerQuarter=T; int np=IN(1,maxParts), nm=IN(1,maxMeasures); std::vector<int> beats,type; for(int m=0;m<nm;++m){ beats.push_back(m?beats[0]:4); type.push_back(4); }
  for(int p=0;p<np;++p){ PartData pd; pd.uniqueId="P"+std::to_string(p+1); pd.name="Part "+std::to_string(p+1); int ns=IN(1,maxStaves);
    for(int m=0;m<nm;++m){ MeasureData md; md.timeSignature.beats=beats[m]; md.timeSignature.beatType=type[m]; md.timeSignature.isImplicit=m!=0;
      for(int st=0;st<ns;++st){ StaffData sd; int nv=IN(1,maxVoices); for(int v=0;v<nv;++v){ int vi=st*maxVoices+v; VoiceData vd; fill(vd,vi,4*T,o); int total=0; for(auto& n:vd.notes) total+=n.durationData.durationTimeTicks; if(total>0) sd.voices[vi]=vd; } md.staves.push_back(sd); }
      pd.measures.push_back(md); }
    s.parts.push_back(pd); }
  return s; }
template<class F> void eachNote(ScoreData& s,F f){ for(auto& p:s.parts) for(auto& m:p.measures) for(auto& st:m.staves) for(auto& v:st.voices) for(auto& n:v.second.notes) f(n); }
template<class F> void eachMeasure(ScoreData& s,F f){ for(auto& p:s.parts) for(auto& m:p.measures) f(p,m); }
// ---- what writing and reading is documented to change
static ScoreData expect(ScoreData s){ if(s.musicXmlType!="timewise") s.musicXmlType="partwise"; return s; }
static void ignoreNotes(ScoreData& e,ScoreData& r){ for(auto* x:{&e,&r}) eachNote(*x,[](NoteData& n){ n.noteAttachmentData=NoteAttachmentData{}; }); }
static void ignoreFrame(ScoreData& e,ScoreData& r){ for(auto* x:{&e,&r}) eachMeasure(*x,[](PartData&,MeasureData& m){ m.timeSignature.isImplicit=true; }); }
}
static int report(const char* what,unsigned long seed,const ScoreData& e,const ScoreData& r){ ag::Diff d; ag::diff(e,r,"",d); if(d.empty()) return 0; printf("FAIL %s seed=%lu",what,seed); for(size_t i=0;i<d.size()&&i<4;++i) printf("%s %s: %s",i?";":":",d[i].first.c_str(),d[i].second.c_str()); if(d.size()>4) printf("; and %zu more",d.size()-4); puts(""); return 1; }
template<class G> int campaign(const char* what,double secs,int runs,G gen){ auto t0=std::chrono::steady_clock::now(); int n=0,bad=0; unsigned long first=1,step=1; if(const char* e=getenv("MXV_PART")) sscanf(e,"%lu/%lu",&first,&step); for(unsigned long seed=first;(int)seed<=runs;seed+=step){ if(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>secs) break; g::rng.seed(seed*7919+17); g::depth=seed%5==0?10:seed%5==1?100:60; ++n;
    try { bad+=gen(seed); } catch(std::exception& x){ printf("FAIL %s seed=%lu: exception %s\n",what,seed,x.what()); ++bad; } if(bad>12) break; }
  printf("RUNS %s %d\n",what,n); return bad; }
static int rt(const char* what,unsigned long seed,ScoreData s,std::function<void(ScoreData&,ScoreData&)> mask){ std::string xml; auto r=round(s,&xml); auto e=g::expect(s); mask(e,r); int b=report(what,seed,e,r); if(b&&getenv("SHOWXML")) puts(xml.c_str()); return b; }
// ---- notes
static int genNotes(unsigned long seed){ g::Opt o; o.rich=true; o.grace=seed%3==0; auto s=g::score(o); return rt("notes",seed,s,[](ScoreData& e,ScoreData& r){ g::ignoreNotes(e,r); for(auto* x:{&e,&r}) g::eachNote(*x,[](NoteData& n){ if(n.isMeasureRest) n.durationData.durationName=DurationName::unspecified; }); }); }
// ---- marks, curves, tuplets
static bool isDyn(MarkType t){ return t>=MarkType::p&&t<MarkType::trillMark; } static bool isFerm(MarkType t){ return t>=MarkType::fermata&&t<=MarkType::fermataSquareInverted; } static bool isArp(MarkType t){ return t==MarkType::arpeggiate||t==MarkType::arpeggiateUp||t==MarkType::arpeggiateDown; }
static MarkType markType(){ for(;;){ MarkType t=g::en<MarkType>(); std::string n=ag::nm(t); if(n.find("nknown")!=std::string::npos||n.find("nspecified")!=std::string::npos||t==MarkType::pedal||t==MarkType::damp||t==MarkType::nonArpeggiate||t==MarkType::customErrorUnknown) continue; return t; } }
static int markOrder(const MarkData& m){ return isMarkTechnical(m.markType)?3:isMarkOrnament(m.markType)?2:isMarkArticulation(m.markType)||m.markType==MarkType::customAccentTenuto?1:0; }
template<class C> void points(C& p){ using namespace g; p.positionData=pos(false,true); if(O()){ p.isBezierXSpecified=true; p.bezierX=dec(); } if(O()){ p.isBezierYSpecified=true; p.bezierY=dec(); } if(O()){ p.isBezierOffsetSpecified=true; p.bezierOffset=IN(0,9); } }
static int genMarks(unsigned long seed){ g::Opt o; auto s=g::score(o); using namespace g;
  eachNote(s,[](NoteData& n){ auto& a=n.noteAttachmentData;
    for(int k=N(3);k>0;--k){ MarkType mt=markType(); auto pl=isFerm(mt)?Placement::unspecified:en<Placement>(); MarkData m(pl,mt); m.tickTimePosition=n.tickTimePosition; m.positionData=pos(); m.positionData.placement=pl; 
      if(mt!=MarkType::wavyLine&&!isArp(mt)) m.printData.fontData=font(false); if((isDyn(mt)||isFerm(mt))&&O()){ m.printData.isColorSpecified=true; m.printData.color=color(); } a.marks.push_back(m); }
    n.isTieStart=P(15); n.isTieStop=P(15);
    if(n.isTieStart&&P(50)){ CurveStart c(CurveType::tie); points(c.curvePoints); c.curveOrientation=en<CurveOrientation>(); c.lineData=line(true,false,true); if(O()){ c.isColorSpecified=true; c.colorData=color(); } a.curveStarts.push_back(c); }
    if(n.isTieStop&&P(50)){ CurveStop c(CurveType::tie); points(c.curvePoints); a.curveStops.push_back(c); }
    if(P(30)){ CurveStart c(CurveType::slur); c.numberLevel=IN(1,6); points(c.curvePoints); c.curveOrientation=en<CurveOrientation>(); c.lineData=line(true,false,true); if(O()){ c.isColorSpecified=true; c.colorData=color(); } a.curveStarts.push_back(c); }
    if(P(20)){ CurveContinue c(CurveType::slur); c.numberLevel=IN(1,6); points(c.curvePoints); if(O()){ c.isBezierX2Specified=true; c.bezierX2=dec(); } if(O()){ c.isBezierY2Specified=true; c.bezierY2=dec(); } if(O()){ c.isBezierOffset2Specified=true; c.bezierOffset2=IN(0,9); } a.curveContinuations.push_back(c); }
    if(P(30)){ CurveStop c(CurveType::slur); c.numberLevel=IN(1,6); points(c.curvePoints); a.curveStops.push_back(c); }
    if(P(25)){ TupletStart t; t.numberLevel=IN(1,6); t.positionData=pos(false,true); t.actualNumber=IN(1,9); t.normalNumber=IN(1,9); t.actualDurationName=enx({DurationName::unspecified}); t.normalDurationName=enx({DurationName::unspecified}); t.actualDots=P(50)?-1:IN(1,3); t.normalDots=P(50)?-1:IN(1,3); t.showActualNumber=tri(); t.showNormalNumber=t.showActualNumber==Bool::yes?(P(50)?Bool::yes:Bool::no):t.showActualNumber; t.bracket=tri(); a.tupletStarts.push_back(t); }
    if(P(25)){ TupletStop t; t.numberLevel=IN(1,6); t.positionData=pos(false,true); a.tupletStops.push_back(t); } });
  return rt("marks",seed,s,[](ScoreData& e,ScoreData& r){ for(auto* x:{&e,&r}) eachNote(*x,[](NoteData& n){ auto& v=n.noteAttachmentData.marks; std::stable_sort(v.begin(),v.end(),[](const MarkData&a,const MarkData&b){ return markOrder(a)<markOrder(b); }); for(auto& m:v) m.name=""; }); 
    eachNote(e,[](NoteData& n){ auto& a=n.noteAttachmentData; bool s=false,t=false; for(auto& c:a.curveStarts) s|=c.curveType==CurveType::tie; for(auto& c:a.curveStops) t|=c.curveType==CurveType::tie; if(n.isTieStart&&!s) a.curveStarts.insert(a.curveStarts.begin(),CurveStart(CurveType::tie)); if(n.isTieStop&&!t) a.curveStops.insert(a.curveStops.begin(),CurveStop(CurveType::tie)); }); }); }
// ---- directions
static void spanner(SpannerStart& x,int tick,bool pr,bool ln){ using namespace g; x.numberLevel=IN(1,6); x.tickTimePosition=tick; x.positionData=pos(); if(pr) x.printData=print(false,false); if(ln) x.lineData=line(true,true,true); }
static const PositionData& plain(PositionData& p){ p.placement=Placement::unspecified; return p; }
static int genDirections(unsigned long seed){ g::Opt o; o.gaps=true; auto s=g::score(o); using namespace g;
  eachMeasure(s,[](PartData&,MeasureData& m){ int si=-1; for(auto& st:m.staves){ ++si; std::vector<int> ticks; for(int k=N(4);k>0;--k) ticks.push_back(IN(0,4*g::T)); std::sort(ticks.begin(),ticks.end()); for(int t:ticks){ DirectionData d; d.tickTimePosition=t; d.placement=en<Placement>(); d.isStaffValueSpecified=si>0||P(50);
     int kinds=P(75)?1:IN(2,4); while(kinds-->0) switch(N(13)){
     case 0: { TempoData x{}; x.tempoType=TempoType::beatsPerMinute; x.beatsPerMinute.durationName=enx({DurationName::unspecified}); x.beatsPerMinute.dots=IN(0,3); x.beatsPerMinute.beatsPerMinute=IN(1,400); x.isParenthetical=tri(); x.printData=print(false,false); x.positionData=pos(true); d.tempos.push_back(x); break; }
     case 1: { MarkType mt; do mt=enx({MarkType::unspecified}); while(!isMarkDynamic(mt)); MarkData x(d.placement,mt); x.tickTimePosition=t; x.positionData=pos(); x.positionData.placement=d.placement; x.printData.fontData=font(false); if(O()){ x.printData.isColorSpecified=true; x.printData.color=color(); } d.marks.push_back(x); break; }
     case 2: { WedgeStart x; x.numberLevel=IN(1,6); x.wedgeType=enx({WedgeType::unspecified}); if(O()){ x.isSpreadSpecified=true; x.spread=dec(); } x.positionData=pos(); x.lineData=line(true,false,true); d.wedgeStarts.push_back(x); break; }
     case 3: { WedgeStop x; x.numberLevel=IN(1,6); if(O()){ x.isSpreadSpecified=true; x.spread=dec(); } x.positionData=pos(); d.wedgeStops.push_back(x); break; }
     case 4: { OttavaStart x; x.ottavaType=enx({OttavaType::unspecified}); spanner(x.spannerStart,t,true,false); x.spannerStart.printData.isColorSpecified=false; x.spannerStart.printData.color=ColorData{}; d.ottavaStarts.push_back(x); break; }
     case 5: { SpannerStop x; x.numberLevel=IN(1,6); x.tickTimePosition=t; x.positionData=pos(); d.ottavaStops.push_back(x); break; }
     case 6: { SpannerStart x; spanner(x,t,false,true); if(x.lineData.lineHook==LineHook::unspecified) x.lineData.lineHook=LineHook::none; if(O()){ x.printData.isColorSpecified=true; x.printData.color=color(); } d.bracketStarts.push_back(x); break; }
     case 7: { SpannerStop x; x.numberLevel=IN(1,6); x.tickTimePosition=t; x.positionData=pos(); d.bracketStops.push_back(x); break; }
     case 8: { int n=IN(1,3); for(int i=0;i<n;++i){ WordsData x; x.text=text(); x.positionData=pos(true); x.positionData.verticalAlignment=VerticalAlignment::unspecified; x.fontData=font(true); d.words.push_back(x); } break; }
     case 9: { if(P(50)) break; d=DirectionData{}; d.tickTimePosition=t; d.isStaffValueSpecified=si>0||P(50); kinds=0; int nc=P(80)?1:2; auto where=pos(false,true); d.placement=where.placement; for(int c=0;c<nc;++c){ ChordData x; x.root=enx({Step::unspecified}); x.rootAlter=IN(-2,2); x.chordKind=enx({ChordKind::unspecified}); x.text=otext(); x.useSymbols=tri(); if(O()){ x.bass=enx({Step::unspecified}); x.bassAlter=IN(-2,2); } for(int k=N(3);k>0;--k){ Extension e; e.extensionType=en<ExtensionType>(); e.extensionNumber=en<ExtensionNumber>(); e.extensionAlter=en<ExtensionAlter>(); e.printObject=tri(); x.extensions.push_back(e); } if(nc==1) for(int k=N(3);k>0;--k){ MiscData z; z.name="app"+std::to_string(k); z.data=text(); x.miscData.push_back(z); } x.positionData=where; d.chords.push_back(x); } break; }
     case 10: { int n=IN(1,2); for(int i=0;i<n;++i){ RehearsalData x; x.text=text(); x.positionData=pos(true); x.positionData.verticalAlignment=VerticalAlignment::unspecified; x.fontData=font(true); d.rehearsals.push_back(x); } break; }
     case 11: { int n=IN(1,2); for(int i=0;i<n;++i){ SegnoData x; x.positionData=pos(true); if(O()){ x.isColorSpecified=true; x.colorData=color(); } d.segnos.push_back(x); } break; }
     case 12: { int n=IN(1,2); for(int i=0;i<n;++i){ CodaData x; x.positionData=pos(true); if(O()){ x.isColorSpecified=true; x.colorData=color(); } d.codas.push_back(x); } break; }
     }
     if(!isDirectionDataEmpty(d)||!d.chords.empty()||!d.rehearsals.empty()) st.directions.push_back(d); } } });
  return rt("directions",seed,s,[](ScoreData& e,ScoreData& r){ ignoreNotes(e,r); for(auto* x:{&e,&r}) eachMeasure(*x,[](PartData&,MeasureData& m){ for(auto& st:m.staves) for(auto& d:st.directions){ for(auto& k:d.bracketStarts) plain(k.positionData); for(auto& k:d.bracketStops) plain(k.positionData); for(auto& mk:d.marks) mk.name=""; for(auto& t:d.tempos) t.tickTime=0; } }); }); }
// ---- measures
static int genMeasures(unsigned long seed){ g::Opt o; auto s=g::score(o,2,4); using namespace g; int nm=s.getNumMeasures(); 
  for(int i=0;i<nm;++i){ TimeSignatureData t=s.parts[0].measures[i].timeSignature; if(i==0||P(40)){ t.isImplicit=false; t.beats=IN(1,12); t.beatType=1<<IN(0,5); t.display=tri(); t.symbol=en<TimeSignatureSymbol>(); if(t.symbol==TimeSignatureSymbol::common) t.beats=t.beatType=4; if(t.symbol==TimeSignatureSymbol::cut) t.beats=t.beatType=2; } else { t=s.parts[0].measures[i-1].timeSignature; t.isImplicit=true; }
    for(auto& p:s.parts) p.measures[i].timeSignature=t; }
  eachMeasure(s,[](PartData&,MeasureData& m){ m.number=P(50)?string():text(); m.implicit=tri(); m.nonControlling=tri(); if(O()) m.width=nneg(); if(P(20)) m.multiMeasureRest=IN(1,9);
    // places where a note of the first voice of a staff begins
    std::vector<std::vector<int>> at; for(auto& st:m.staves){ std::set<int> t{0}; if(!st.voices.empty()) for(auto& n:st.voices.begin()->second.notes) t.insert(n.tickTimePosition); at.emplace_back(t.begin(),t.end()); }
    auto times=[](const std::vector<int>& v,int n){ std::vector<int> t; while(n-->0) t.push_back(v[N((int)v.size())]); std::sort(t.begin(),t.end()); return t; };
    for(int t:times(at[0],N(4))){ KeyData k; k.tickTimePosition=t; if(m.staves.size()>1&&P(50)) k.staffIndex=N((int)m.staves.size());
      if(P(30)) for(int n=IN(1,4);n>0;--n){ KeyComponent c; c.step=enx({Step::unspecified}); c.alter=IN(-2,2); if(P(30)) c.cents=c.alter>0?IN(1,49):c.alter<0?-IN(1,49):IN(-49,49); c.accidental=P(50)?Accidental::none:enx({Accidental::none}); k.nonTraditional.push_back(c); }
      else { k.fifths=IN(-7,7); k.mode=enx({KeyMode::unsupported}); k.cancel=IN(-7,7); } m.keys.push_back(k); }
    for(size_t i=0;i<m.staves.size();++i) for(int t:times(at[i],N(3))){ ClefData c; c.symbol=en<ClefSymbol>(); c.line=IN(0,9); c.octaveChange=IN(-2,2); c.tickTimePosition=t; c.location=t?ClefLocation::midMeasure:enx({ClefLocation::midMeasure}); m.staves[i].clefs.push_back(c); }
    auto bar=[&](HorizontalAlignment where,int t){ BarlineData b; b.barlineType=enx({BarlineType::unsupported}); b.location=where; b.repeat=P(30); b.endingType=en<EndingType>(); b.endingNumber=b.endingType==EndingType::none?0:IN(1,5); b.tickTimePosition=t; m.barlines.push_back(b); };
    if(O()) bar(HorizontalAlignment::left,0); if(at[0].size()>1&&P(20)) bar(HorizontalAlignment::center,at[0][1]); if(O()) bar(HorizontalAlignment::right,TICK_TIME_INFINITY); });
  return rt("measures",seed,s,[](ScoreData& e,ScoreData& r){ for(auto* x:{&e,&r}) for(auto& p:x->parts) for(size_t i=0;i<p.measures.size();++i) if(p.measures[i].number==std::to_string(i+1)) p.measures[i].number=""; }); }
// ---- title, credits, encoding, layout
static SystemLayoutData sysLayout(){ using namespace g; SystemLayoutData l; if(O()) l.margins=LeftRight((double)dec(),(double)dec()); if(O()) l.systemDistance=(double)dec(); if(O()) l.topSystemDistance=(double)dec(); return l; }
static PageLayoutData pageLayout(){ using namespace g; PageLayoutData p; if(O()) p.size=SizeData((double)nneg(),(double)nneg()); auto m=[]{ return MarginsData((double)nneg(),(double)nneg(),(double)nneg(),(double)nneg()); }; if(p.size){ if(O()) p.margins.odd=m(); if(O()) p.margins.even=m(); if(p.margins.odd&&P(30)) p.margins.even=p.margins.odd; } return p; }
static int genHeader(unsigned long seed){ g::Opt o; auto s=g::score(o,2,4,1,1); using namespace g; int nm=s.getNumMeasures();
  s.musicXmlVersion=MusicXmlVersion::ThreePointZero; if(P(30)) s.musicXmlType="timewise"; for(auto* t:{&s.workTitle,&s.workNumber,&s.movementTitle,&s.movementNumber,&s.composer,&s.lyricist,&s.arranger,&s.publisher,&s.copyright}) *t=otext();
  auto& e=s.encoding; if(O()){ static const int D[]={31,28,31,30,31,30,31,31,30,31,30,31}; e.encodingDate.year=IN(1,9999); e.encodingDate.month=IN(1,12); e.encodingDate.day=IN(1,D[e.encodingDate.month-1]); } e.encoder=otext(); e.encodingDescription=otext(); for(int k=N(3);k>0;--k) e.software.push_back(text());
  for(int k=N(3);k>0;--k){ SupportedItem i; i.elementName=P(50)?"print":"accidental"; i.attributeName=P(50)?"":"new-page"; i.specificValue=otext(); i.isSupported=P(50); e.supportedItems.push_back(i); } for(int k=N(3);k>0;--k) e.miscelaneousFields.push_back(MiscellaneousField("key"+std::to_string(k),otext()));
  for(int k=N(3);k>0;--k){ PageTextData t; t.text=text(); t.pageNumber=IN(0,20); t.positionData=pos(true); t.fontData=font(true); t.description=otext(); s.pageTextItems.push_back(t); }
  auto& d=s.defaults; if(O()){ d.scalingMillimeters=IN(1,400)/8.0; d.scalingTenths=IN(1,400)/8.0; } d.pageLayout=pageLayout(); d.systemLayout=sysLayout(); if(O()) d.systemLayout.staffDistance=(double)dec();
  static const char* LW[]={"beam","stem","staff","tie tip"}; static const char* NS[]={"cue","grace","large"}; static const char* DI[]={"hyphen","beam"}; for(int k=N(4);k>0;--k){ AppearanceData a; a.appearanceType=en<AppearanceType>(); a.value=IN(0,4000)/8.0L; a.appearanceSubType=a.appearanceType==AppearanceType::LineWidth?LW[N(4)]:a.appearanceType==AppearanceType::NoteSize?NS[N(3)]:a.appearanceType==AppearanceType::Distance?DI[N(2)]:"own"; d.appearance.push_back(a); }
  std::stable_sort(d.appearance.begin(),d.appearance.end(),[](const AppearanceData& a,const AppearanceData& b){ return a.appearanceType<b.appearanceType; });
  for(int i=0;i<nm;++i) if(P(50)){ LayoutData l; l.system=SystemData(tri(),sysLayout()); l.page=PageData(tri(),pageLayout()); if(O()) l.page.pageNumber=text(); if(l.isUsed()) s.layout[i]=l; }
  return rt("header",seed,s,[](ScoreData& e,ScoreData& r){ (void)e; (void)r; }); }
// ---- parts, instruments, part groups
static int genParts(unsigned long seed){ g::Opt o; auto s=g::score(o,4,1,2,1); using namespace g; if(P(30)) s.musicXmlType="timewise"; int np=(int)s.parts.size(), k=0;
  for(auto& p:s.parts){ ++k; if(P(50)) p.uniqueId="X"+std::to_string(k*7); p.name=otext(); p.abbreviation=otext(); p.displayName=otext(); p.displayAbbreviation=otext();
    auto& i=p.instrumentData; if(O()){ i.uniqueId="I"+std::to_string(k); i.name=otext(); i.abbreviation=otext(); if(O()) i.soundID=enx({SoundID::errorBadString}); i.soloOrEnsemble=en<SoloOrEnsemble>(); auto& m=i.midiData; m.virtualLibrary=otext(); m.virtualName=otext(); m.device=otext(); m.name=otext(); if(O()) m.bank=IN(1,16384); if(O()) m.channel=IN(1,16); if(O()) m.program=IN(1,128); if(O()) m.unpitched=IN(1,128); if(O()){ m.isVolumeSpecified=true; m.volume=IN(0,800)/8.0L; } if(O()){ m.isPanSpecified=true; m.pan=IN(-1440,1440)/8.0L; } if(O()){ m.isElevationSpecified=true; m.elevation=IN(-1440,1440)/8.0L; } }
    if(O()){ p.transposition=TransposeData(IN(-24,24),IN(-14,14)); if(!p.transposition->isUsed()) p.transposition->chromatic=7; } }
  for(int n=1;n<=N(4);++n){ PartGroupData q; q.firstPartIndex=N(np); q.lastPartIndex=IN(q.firstPartIndex,np-1); q.number=n; q.name=otext(); q.abbreviation=otext(); q.displayName=otext(); q.displayAbbreviation=otext(); q.bracketType=en<BracketType>(); s.partGroups.push_back(q); }
  std::stable_sort(s.partGroups.begin(),s.partGroups.end(),[](const PartGroupData& a,const PartGroupData& b){ return a.firstPartIndex!=b.firstPartIndex?a.firstPartIndex<b.firstPartIndex:a.number<b.number; });
  return rt("parts",seed,s,[](ScoreData& e,ScoreData& r){ (void)e; (void)r; }); }
static const std::map<std::string,int(*)(unsigned long)> MODES{{"notes",genNotes},{"marks",genMarks},{"dir",genDirections},{"meas",genMeasures},{"head",genHeader},{"part",genParts}};
int main(int c,char**v){ std::string w=v[1]; double secs=atof(v[2]); int runs=atoi(v[3]);
  if(c>4){ unsigned long seed=atol(v[4]); g::rng.seed(seed*7919+17); g::depth=seed%5==0?10:seed%5==1?100:60; setenv("SHOWXML","1",1); return MODES.at(w)(seed); }
  return campaign(w.c_str(),secs,runs,MODES.at(w))?1:0; }
