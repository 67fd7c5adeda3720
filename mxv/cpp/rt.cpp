#include <cstdio>
#include <cstring>
#include <sstream>
#include <set>
#include "mx/api/DocumentManager.h"
using namespace mx::api;
static const int T = 420;          // ticks per quarter of the base scores
static NoteData note(int tick, int dur, DurationName n, Step s, int oct){ NoteData d; d.tickTimePosition=tick; d.durationData.durationTimeTicks=dur; d.durationData.durationName=n; d.pitchData.step=s; d.pitchData.octave=oct; d.userRequestedVoiceNumber=1; d.durationData.timeModificationActualNotes=1; d.durationData.timeModificationNormalNotes=1; return d; }
static ScoreData round(const ScoreData& s, std::string* xml=nullptr){ auto& m=DocumentManager::getInstance(); int a=m.createFromScore(s); std::stringstream ss; m.writeToStream(a,ss); m.destroyDocument(a); if(xml) *xml=ss.str(); std::stringstream in(ss.str()); int b=m.createFromStream(in); ScoreData r=m.getData(b); m.destroyDocument(b); return r; }
static MeasureData& measure(ScoreData& s, int p, int i){ return s.parts.at(p).measures.at(i); }
static std::vector<NoteData>& voice(ScoreData& s,int p,int m,int st,int v){ return s.parts.at(p).measures.at(m).staves.at(st).voices[v].notes; }
// a plain valid score: parts x measures, one staff, one quarter note voice
static ScoreData plain(int parts,int measures,int staves){
  ScoreData s; s.ticksPerQuarter=T;
  for(int p=0;p<parts;++p){ PartData pd; pd.uniqueId="P"+std::to_string(p+1); pd.name="Part "+std::to_string(p+1); 
    for(int m=0;m<measures;++m){ MeasureData md; md.timeSignature.beats=4; md.timeSignature.beatType=4; md.timeSignature.isImplicit=(m!=0);
      for(int st=0;st<staves;++st){ StaffData sd; for(int q=0;q<4;++q){ auto n=note(q*T,T,DurationName::quarter,(Step)((q+m)%7),4); n.userRequestedVoiceNumber=st+1; sd.voices[st].notes.push_back(n); } md.staves.push_back(sd); }
      pd.measures.push_back(md); }
    s.parts.push_back(pd); }
  return s; }
