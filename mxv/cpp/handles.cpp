// Random histories of the document manager against an oracle (bounded check, never counted as proved).  usage: handles SECONDS SEED
#include "mx/api/DocumentManager.h"
#include "mx/api/ScoreData.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace mx::api;
static std::mutex out; static int fails = 0; static std::set<int> all; static std::mutex allLock; static long runs = 0;
static void fail(const std::string& s) { std::lock_guard<std::mutex> l(out); if( ++fails < 20 ) std::printf("FAIL %s\n", s.c_str()); }
static ScoreData score(int n) { ScoreData s; s.ticksPerQuarter = 4; s.workTitle = "T" + std::to_string(n); PartData p; p.uniqueId = "P1"; p.name = "A"; MeasureData m; StaffData st; NoteData x;
  x.durationData.durationName = DurationName::quarter; x.durationData.durationTimeTicks = 4; st.voices[0].notes.push_back(x); m.staves.push_back(st); p.measures.push_back(m); s.parts.push_back(p);
  if( n % 3 == 0 ) s.musicXmlType = "timewise"; return s; }
static void add(int id, std::map<int,int>& mine, int n) {
  { std::lock_guard<std::mutex> l(allLock); if( !all.insert(id).second ) fail("handle given twice: " + std::to_string(id)); }
  mine[id] = n; }
static void history(int secs, unsigned seed, bool threads, const std::string& dir) {
  std::mt19937 g(seed); auto& m = DocumentManager::getInstance(); std::map<int,int> mine; std::vector<int> gone{ -1, 0, 2147483647, -2147483647 - 1 }; int n = 0; long k = 0;
  auto end = std::chrono::steady_clock::now() + std::chrono::seconds(secs);
  auto pick = [&]() { if( mine.empty() || g() % 4 == 0 ) return gone[g() % gone.size()]; auto it = mine.begin(); std::advance(it, g() % mine.size()); return it->first; };
  while( std::chrono::steady_clock::now() < end && fails < 5 ) { ++k; try {
    switch( g() % 10 ) {
      case 0: case 1: ++n; add(m.createFromScore(score((int)seed * 100000 + n)), mine, (int)seed * 100000 + n); break;
      case 2: { ++n; int v = (int)seed * 100000 + n; int t = m.createFromScore(score(v)); std::ostringstream o; m.writeToStream(t, o); m.destroyDocument(t); gone.push_back(t);
                { std::lock_guard<std::mutex> l(allLock); if( !all.insert(t).second ) fail("handle given twice"); }
                std::istringstream is(o.str()); add(m.createFromStream(is), mine, v); break; }
      case 3: { const char* bad[] = { "", "<a", "<foo/>", "no xml", "<score-partwise/>" }; std::istringstream is(bad[g() % 4]); bool ok = false; try { int t = m.createFromStream(is); ok = true; m.destroyDocument(t); } catch( std::exception& ) {}
                if( ok ) fail("a document was made from something that is no score"); break; }
      case 4: { bool ok = false; try { m.createFromFile(dir + "/no such file.xml"); ok = true; } catch( std::exception& ) {} if( ok ) fail("a document was made from a file that does not exist"); break; }
      case 5: { int id = pick(); m.destroyDocument(id); if( mine.erase(id) ) gone.push_back(id); break; }
      case 6: case 7: { int id = pick(); auto d = m.getData(id); auto it = mine.find(id); std::string want = it == mine.end() ? "" : "T" + std::to_string(it->second);
                if( d.workTitle != want ) fail("data of handle " + std::to_string(id) + ": '" + d.workTitle + "' for '" + want + "'");
                if( it == mine.end() && !( d == ScoreData{} ) ) fail("an unknown handle gives data");
                if( it != mine.end() && ( d.musicXmlType == "timewise" ) != ( it->second % 3 == 0 ) ) fail("the form of a document changed"); break; }
      case 8: { int id = pick(); std::ostringstream o; m.writeToStream(id, o); auto it = mine.find(id);
                if( it == mine.end() ? !o.str().empty() : o.str().find("T" + std::to_string(it->second) + "<") == std::string::npos ) fail("text of handle " + std::to_string(id));
                if( it != mine.end() && ( o.str().find("<score-timewise") != std::string::npos ) != ( it->second % 3 == 0 ) ) fail("the form of a document changed"); break; }
      case 9: { int id = pick(); auto it = mine.find(id); std::string f = dir + "/f" + std::to_string(seed); std::remove(f.c_str()); m.writeToFile(id, f); bool there = access(f.c_str(), F_OK) == 0; std::remove(f.c_str());
                if( there != ( it != mine.end() ) ) fail("file of handle " + std::to_string(id)); break; }
    } } catch( std::exception& e ) { fail(std::string("exception ") + e.what()); }
    if( mine.size() > 30 ) { int id = mine.begin()->first; m.destroyDocument(id); mine.erase(id); gone.push_back(id); } }
  for( auto& x : mine ) m.destroyDocument(x.first);
  std::lock_guard<std::mutex> l(out); runs += k; }
int main(int c, char** v) {
  int secs = std::atoi(v[1]); unsigned seed = (unsigned)std::atoi(v[2]); char d[] = "/tmp/mxhandlesXXXXXX"; if( !mkdtemp(d) ) return 2; std::string dir = d;
  history(secs / 2, seed % 1000, false, dir);
  std::vector<std::thread> t; for( unsigned k = 0; k < 6; ++k ) t.emplace_back(history, secs - secs / 2, seed % 1000 + 1 + k, true, dir);
  for( auto& x : t ) x.join();
  rmdir(d); std::printf("RUNS operations %ld\n", runs); return fails ? 1 : 0; }
