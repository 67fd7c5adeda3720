// ---- a score with (almost) every optional datum present, within the documented reach of the interchange format
static PositionData pos(double dx,double dy,double rx,double ry,Placement pl=Placement::unspecified){ PositionData p; p.isDefaultXSpecified=true;p.defaultX=dx;p.isDefaultYSpecified=true;p.defaultY=dy;p.isRelativeXSpecified=true;p.relativeX=rx;p.isRelativeYSpecified=true;p.relativeY=ry;p.placement=pl; return p; }
static PositionData posA(double dx,double dy,double rx,double ry){ auto p=pos(dx,dy,rx,ry); p.horizontalAlignmnet=HorizontalAlignment::right; p.verticalAlignment=VerticalAlignment::middle; return p; }
static FontData font(){ FontData f; f.sizeType=FontSizeType::point; f.sizePoint=12.5; f.style=FontStyle::italic; f.weight=FontWeight::bold; f.fontFamily={"Times New Roman","serif"}; f.underline=1; f.overline=2; f.lineThrough=3; return f; }
static ColorData color(){ ColorData c; c.red=18;c.green=52;c.blue=171;c.isAlphaSpecified=true;c.alpha=205; return c; }
static PrintData print(){ PrintData p; p.printObject=Bool::yes; p.fontData=font(); p.isColorSpecified=true; p.color=color(); return p; }
static LineData line(){ LineData l; l.lineType=LineType::dashed; l.lineHook=LineHook::up; l.isStopLengthSpecified=true; l.endLength=4.5; l.isDashLengthSpecified=true; l.dashLength=2.5; l.isSpaceLengthSpecified=true; l.spaceLength=1.5; return l; }
static SpannerStart sstart(int n){ SpannerStart s; s.numberLevel=n; s.positionData=pos(1,2,3,4); s.printData=print(); s.lineData=line(); return s; }
static SpannerStop sstop(int n){ SpannerStop s; s.numberLevel=n; s.positionData=pos(5,6,7,8); return s; }
static void richNotes(ScoreData& s){
  auto& v=voice(s,0,0,0,0); v.clear();
  auto n=note(0,T,DurationName::quarter,Step::c,4); n.pitchData.alter=1; n.pitchData.cents=25; n.pitchData.accidental=Accidental::sharp; n.pitchData.isAccidentalParenthetical=true; n.notehead=Notehead::diamond; n.stem=Stem::up; n.isTieStart=true; n.positionData=pos(11,12,13,14); n.printData=print(); n.beams={}; v.push_back(n);
  n=note(T,T/2,DurationName::eighth,Step::c,4); n.isTieStop=true; n.isTieStart=true; n.beams={Beam::begin}; v.push_back(n);
  n.isChord=true; n.pitchData.step=Step::e; n.beams={}; v.push_back(n);
  n=note(T+T/2,T/4,DurationName::dur16th,Step::c,4); n.isTieStop=true; n.beams={Beam::extend,Beam::begin}; v.push_back(n);
  n=note(T+T/2+T/4,T/4,DurationName::dur16th,Step::b,3); n.beams={Beam::end,Beam::end}; v.push_back(n);
  for(int i=0;i<3;++i){ n=note(2*T+i*T/3,T/3,DurationName::eighth,Step::g,5); n.durationData.timeModificationActualNotes=3; n.durationData.timeModificationNormalNotes=2; 
    if(i==0){ TupletStart t; t.numberLevel=1; t.actualNumber=3; t.actualDurationName=DurationName::eighth; t.normalNumber=2; t.normalDurationName=DurationName::eighth; t.bracket=Bool::yes; t.showActualNumber=Bool::yes; t.showNormalNumber=Bool::no; t.positionData=pos(1,2,3,4,Placement::above); n.noteAttachmentData.tupletStarts.push_back(t); }
    if(i==2){ TupletStop t; t.numberLevel=1; n.noteAttachmentData.tupletStops.push_back(t); } v.push_back(n); }
  n=note(3*T,T,DurationName::quarter,Step::a,3); n.isRest=true; n.pitchData=PitchData{}; v.push_back(n);
  v[1].isChord=true; for(auto& x: v) x.userRequestedVoiceNumber=1;
}
static void richMarks(ScoreData& s){ auto& v=voice(s,0,1,0,0); auto& a=v[0].noteAttachmentData; MarkData m(Placement::above,MarkType::staccato); m.positionData=posA(1,2,3,4); m.positionData.placement=Placement::above; m.positionData.horizontalAlignmnet=HorizontalAlignment::unspecified; m.positionData.verticalAlignment=VerticalAlignment::unspecified; m.printData=print(); m.printData.printObject=Bool::unspecified; a.marks.push_back(m);
  CurveStart c(CurveType::slur); c.numberLevel=1; c.curvePoints.positionData=pos(1,2,3,4); c.curvePoints.isBezierXSpecified=c.curvePoints.isBezierYSpecified=c.curvePoints.isBezierOffsetSpecified=true; c.curvePoints.bezierX=4.5; c.curvePoints.bezierY=5.5; c.curvePoints.bezierOffset=6; c.curveOrientation=CurveOrientation::overhand; c.placement=Placement::above; c.lineData.lineType=LineType::dashed; c.lineData.isDashLengthSpecified=c.lineData.isSpaceLengthSpecified=true; c.lineData.dashLength=2; c.lineData.spaceLength=3; c.isColorSpecified=true; c.colorData=color(); a.curveStarts.push_back(c);
  CurveContinue k(CurveType::slur); k.numberLevel=1; k.curvePoints=c.curvePoints; k.isBezierX2Specified=k.isBezierY2Specified=k.isBezierOffset2Specified=true; k.bezierX2=1.5; k.bezierY2=2.5; k.bezierOffset2=3; v[1].noteAttachmentData.curveContinuations.push_back(k);
  CurveStop e(CurveType::slur); e.numberLevel=1; e.curvePoints=c.curvePoints; v[2].noteAttachmentData.curveStops.push_back(e);
  CurveStart ct(CurveType::tie); ct.curvePoints=c.curvePoints; ct.curveOrientation=CurveOrientation::underhand; ct.lineData=c.lineData; ct.isColorSpecified=true; ct.colorData=color(); v[2].noteAttachmentData.curveStarts.push_back(ct);
  CurveStop es(CurveType::tie); es.curvePoints=c.curvePoints; v[3].noteAttachmentData.curveStops.push_back(es);
}
static void richDirections(ScoreData& s){ auto& d=s.parts[0].measures[0].staves[0].directions; 
  { DirectionData x; x.tickTimePosition=0; x.placement=Placement::above; TempoData t; t.tempoType=TempoType::beatsPerMinute; t.beatsPerMinute.durationName=DurationName::quarter; t.beatsPerMinute.dots=1; t.beatsPerMinute.beatsPerMinute=97; t.isParenthetical=Bool::yes; t.positionData=posA(1,2,3,4); t.printData=print(); x.tempos.push_back(t); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=T; x.placement=Placement::below; MarkData m(Placement::below,MarkType::mf); m.positionData=pos(1,2,3,4,Placement::below); m.tickTimePosition=T; x.marks.push_back(m); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=T; x.placement=Placement::below; WedgeStart w; w.numberLevel=1; w.wedgeType=WedgeType::diminuendo; w.isSpreadSpecified=true; w.spread=15; w.positionData=pos(1,2,3,4); w.colorData=color(); w.lineData.lineType=LineType::dashed; w.lineData.isDashLengthSpecified=w.lineData.isSpaceLengthSpecified=true; w.lineData.dashLength=2; w.lineData.spaceLength=3; x.wedgeStarts.push_back(w); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=2*T; x.placement=Placement::below; WedgeStop w; w.numberLevel=1; w.isSpreadSpecified=true; w.spread=3; w.positionData=pos(1,2,3,4); x.wedgeStops.push_back(w); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=T; x.placement=Placement::above; OttavaStart o; o.ottavaType=OttavaType::o8va; o.spannerStart=sstart(1); o.spannerStart.tickTimePosition=T; x.ottavaStarts.push_back(o); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=2*T; x.placement=Placement::above; SpannerStop o=sstop(1); o.tickTimePosition=2*T; x.ottavaStops.push_back(o); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=T; x.placement=Placement::above; auto b=sstart(1); b.tickTimePosition=T; x.bracketStarts.push_back(b); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=3*T; x.placement=Placement::above; SpannerStop o=sstop(1); o.tickTimePosition=3*T; x.bracketStops.push_back(o); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=3*T; x.placement=Placement::above; WordsData w; w.text="dolce"; w.positionData=posA(1,2,3,4); w.fontData=font(); w.isColorSpecified=true; w.colorData=color(); x.words.push_back(w); w.text="e cantabile"; x.words.push_back(w); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=T; x.placement=Placement::above; ChordData c; c.root=Step::d; c.rootAlter=1; c.chordKind=ChordKind::minor; c.text="m"; c.useSymbols=Bool::yes; c.bass=Step::f; c.bassAlter=-1; c.positionData=pos(1,2,3,4); Extension e; e.extensionType=ExtensionType::add; e.extensionNumber=ExtensionNumber::ninth; e.extensionAlter=ExtensionAlter::flat; c.extensions.push_back(e); x.chords.push_back(c); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=0; x.placement=Placement::above; SegnoData g; g.positionData=pos(1,2,3,4); g.isColorSpecified=true; g.colorData=color(); x.segnos.push_back(g); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=0; x.placement=Placement::above; CodaData g; g.positionData=pos(1,2,3,4); g.isColorSpecified=true; g.colorData=color(); x.codas.push_back(g); d.push_back(x); }
  { DirectionData x; x.tickTimePosition=0; x.placement=Placement::above; RehearsalData g; g.text="A1"; g.positionData=posA(1,2,3,4); g.fontData=font(); g.isColorSpecified=true; g.colorData=color(); x.rehearsals.push_back(g); d.push_back(x); }
}
static void richMeasures(ScoreData& s){ auto& m=measure(s,0,1); m.number="1a"; m.implicit=Bool::yes; m.nonControlling=Bool::no; m.width=123.5; m.measureNumbering=MeasureNumbering::system; m.multiMeasureRest=3; 
  m.timeSignature.isImplicit=false; m.timeSignature.beats=3; m.timeSignature.beatType=8; m.timeSignature.display=Bool::yes; for(auto& p:s.parts) p.measures[1].timeSignature=m.timeSignature;
  KeyData k; k.fifths=3; k.cancel=-2; k.mode=KeyMode::minor; m.keys.push_back(k); 
  ClefData c; c.setBass(); c.location=ClefLocation::unspecified; c.tickTimePosition=0; m.staves[0].clefs.push_back(c); c.setTenor(); c.tickTimePosition=2*T; c.location=ClefLocation::midMeasure; m.staves[0].clefs.push_back(c);
  BarlineData b; b.barlineType=BarlineType::heavyLight; b.location=HorizontalAlignment::left; b.repeat=true; b.endingType=EndingType::start; b.endingNumber=1; b.tickTimePosition=0; m.barlines.push_back(b);
  b.barlineType=BarlineType::lightHeavy; b.location=HorizontalAlignment::right; b.endingType=EndingType::stop; b.tickTimePosition=4*T; m.barlines.push_back(b); }
static SystemLayoutData syslay(){ return SystemLayoutData(LeftRight(11,12),13.0L,14.0L,15.0L); }
static PageLayoutData pglay(){ PageLayoutData p; p.size=SizeData(1700,1200); p.margins.odd=MarginsData(71,72,73,74); p.margins.even=MarginsData(81,82,83,84); return p; }
static void richHeader(ScoreData& s){ s.musicXmlVersion=MusicXmlVersion::ThreePointZero; s.workTitle="Work"; s.workNumber="Op. 1"; s.movementTitle="Move"; s.movementNumber="2"; s.composer="Comp"; s.lyricist="Lyr"; s.arranger="Arr"; s.publisher="Pub"; s.copyright="(c)"; 
  auto& e=s.encoding; e.encodingDate.year=2019; e.encodingDate.month=2; e.encodingDate.day=28; e.encoder="Enc"; e.encodingDescription="Desc"; e.software={"one","two"}; SupportedItem si; si.elementName="print"; si.attributeName="new-page"; si.specificValue="yes"; si.isSupported=true; e.supportedItems.push_back(si); si.elementName="accidental"; si.attributeName=si.specificValue=""; si.isSupported=false; e.supportedItems.push_back(si); e.miscelaneousFields.push_back(MiscellaneousField("k1","v1")); e.miscelaneousFields.push_back(MiscellaneousField("k2","v2"));
  PageTextData t; t.text="Page text"; t.pageNumber=1; t.positionData=posA(1,2,3,4); t.fontData=font(); t.description="title"; s.pageTextItems.push_back(t); t.text="Second"; t.pageNumber=2; t.description=""; s.pageTextItems.push_back(t);
  auto& d=s.defaults; d.scalingMillimeters=7; d.scalingTenths=40; d.pageLayout=pglay(); d.systemLayout=syslay(); AppearanceData a; a.appearanceType=AppearanceType::LineWidth; a.appearanceSubType="stem"; a.value=1.25; d.appearance.push_back(a); a.appearanceType=AppearanceType::NoteSize; a.appearanceSubType="cue"; a.value=60; d.appearance.push_back(a); a.appearanceType=AppearanceType::Distance; a.appearanceSubType="hyphen"; a.value=120; d.appearance.push_back(a); d.measureNumbering=MeasureNumbering::system;
  LayoutData l; l.system=SystemData(Bool::yes,syslay()); l.page=PageData(Bool::yes,pglay(),std::string("7")); s.layout[1]=l; }
static void richParts(ScoreData& s){ auto& p=s.parts[0]; p.abbreviation="Pt."; p.displayName="Disp"; p.displayAbbreviation="D."; p.displayNamePrintData=print(); p.displayNamePositionData=pos(1,2,3,4); p.displayAbbreviationPrintData=print(); p.displayAbbreviationPositionData=pos(1,2,3,4);
  auto& i=p.instrumentData; i.uniqueId="I1"; i.name="Ins"; i.abbreviation="In."; i.soundID=SoundID::keyboardPiano; i.soloOrEnsemble=SoloOrEnsemble::solo; auto& m=i.midiData; m.virtualLibrary="Lib"; m.virtualName="Virt"; m.device="Dev"; m.name="Mid"; m.bank=2; m.channel=3; m.program=4; m.unpitched=5; m.volume=80; m.isVolumeSpecified=true; m.pan=45; m.isPanSpecified=true; m.elevation=30; m.isElevationSpecified=true; p.transposition=TransposeData(-2,-1);
  PartGroupData g; g.firstPartIndex=0; g.lastPartIndex=1; g.name="Grp"; g.displayName="GrpD"; g.abbreviation="G."; g.displayAbbreviation="GD."; g.bracketType=BracketType::brace; g.number=1; s.partGroups.push_back(g); }
