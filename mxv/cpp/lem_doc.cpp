// Specification-side lemma functions over the document manager and the score conversions; they only call the functions of /repo.
#include <string>
#include <vector>
#include <random>
#include "mx/api/ScoreData.h"
#include "mx/core/Document.h"
#include "mx/core/ScoreConversions.h"
#include "mx/core/elements/MeasureAttributes.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/PartGroupOrScorePart.h"
#include "mx/core/elements/PartList.h"
#include "mx/core/elements/PartwiseMeasure.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/ScoreTimewise.h"
#include "mx/core/elements/TimewiseMeasure.h"
#include "mx/core/elements/TimewisePart.h"
namespace lem {
using namespace mx;
const char* const IDS[] = { "P1", "P10", "Q", "R", "S" };
// a score of parts with the given numbers of measures; the parts stand in the order of the part list
core::ScorePartwisePtr scoreOf(const std::vector<int>& counts, bool hasVersion, const std::string& version)
{
    auto s = core::makeScorePartwise();
    s->getAttributes()->hasVersion = hasVersion; s->getAttributes()->version = core::XsToken{ version };
    auto list = s->getScoreHeaderGroup()->getPartList();
    for( int p = 0; p < (int)counts.size(); ++p )
    {
        auto sp = core::makeScorePart(); sp->getAttributes()->id = core::XsID{ IDS[p] };
        if( p == 0 ) list->setScorePart( sp );
        else { auto x = core::makePartGroupOrScorePart(); x->setChoice( core::PartGroupOrScorePart::Choice::scorePart ); x->setScorePart( sp ); list->addPartGroupOrScorePart( x ); }
        auto pp = p == 0 ? s->getPartwisePartSet().front() : core::makePartwisePart(); pp->getAttributes()->id = core::XsID{ IDS[p] };
        for( int m = 1; m < counts[p]; ++m ) pp->addPartwiseMeasure( core::makePartwiseMeasure() );
        if( p > 0 ) s->addPartwisePart( pp );
    }
    return s;
}
core::MusicDataGroupPtr musicOf(const core::ScorePartwisePtr& s, int part, int measure)
{
    auto p = s->getPartwisePartSet().begin(); for( int i = 0; i < part; ++i ) ++p;
    auto m = (*p)->getPartwiseMeasureSet().begin(); for( int i = 0; i < measure; ++i ) ++m;
    return (*m)->getMusicDataGroup();
}
// 0: the timewise form holds the music of every part and measure in its place
int timewiseForm(const core::ScorePartwisePtr& s, const core::ScoreTimewisePtr& t, const std::vector<int>& counts)
{
    if( t->getScoreHeaderGroup() != s->getScoreHeaderGroup() ) return 1;
    if( t->getAttributes()->hasVersion != s->getAttributes()->hasVersion || t->getAttributes()->version.getValue() != s->getAttributes()->version.getValue() ) return 2;
    int longest = 0; for( int n : counts ) if( n > longest ) longest = n;
    if( (int)t->getTimewiseMeasureSet().size() != longest ) return 3;
    int m = 0;
    for( const auto& tm : t->getTimewiseMeasureSet() )
    {
        auto tp = tm->getTimewisePartSet().begin();
        for( int p = 0; p < (int)counts.size(); ++p )
        {
            if( m >= counts[p] ) continue;
            if( tp == tm->getTimewisePartSet().end() ) return 4;
            if( (*tp)->getAttributes()->id.getValue() != IDS[p] ) return 5;
            if( (*tp)->getMusicDataGroup() != musicOf( s, p, m ) ) return 6;
            ++tp;
        }
        if( tp != tm->getTimewisePartSet().end() ) return 7;
        ++m;
    }
    return 0;
}
// 0: the partwise form made from it holds the same music again
int partwiseForm(const core::ScorePartwisePtr& s, const core::ScorePartwisePtr& r, const std::vector<int>& counts)
{
    if( r->getScoreHeaderGroup() != s->getScoreHeaderGroup() ) return 11;
    if( r->getAttributes()->hasVersion != s->getAttributes()->hasVersion || r->getAttributes()->version.getValue() != s->getAttributes()->version.getValue() ) return 12;
    int longest = 0; for( int n : counts ) if( n > longest ) longest = n;
    if( r->getPartwisePartSet().size() != counts.size() ) return 13;
    int p = 0;
    for( const auto& rp : r->getPartwisePartSet() )
    {
        if( rp->getAttributes()->id.getValue() != IDS[p] ) return 14;
        if( (int)rp->getPartwiseMeasureSet().size() != longest ) return 15;
        int m = 0;
        for( const auto& rm : rp->getPartwiseMeasureSet() )
        {
            if( m < counts[p] ) { if( rm->getMusicDataGroup() != musicOf( s, p, m ) ) return 16; }
            else if( rm->getMusicDataGroup()->getMusicDataChoiceSet().size() != 0 ) return 17;
            ++m;
        }
        ++p;
    }
    return 0;
}
int conversions(const std::vector<int>& counts, bool hasVersion, const std::string& version)
{
    auto s = scoreOf( counts, hasVersion, version );
    auto t = core::partwiseTimewise( s );
    int e = timewiseForm( s, t, counts ); if( e ) return e;
    return partwiseForm( s, core::timewisePartwise( t ), counts );
}
// a timewise score of `parts` parts whose measures hold the parts of the given bit sets (in any order the bits name); 0: its partwise form holds the same music
int fromTimewise(int parts, const std::vector<int>& sets, bool hasVersion, const std::string& version)
{
    auto s = core::makeScoreTimewise();
    s->getAttributes()->hasVersion = hasVersion; s->getAttributes()->version = core::XsToken{ version };
    auto list = s->getScoreHeaderGroup()->getPartList();
    for( int p = 0; p < parts; ++p )
    {
        auto sp = core::makeScorePart(); sp->getAttributes()->id = core::XsID{ IDS[p] };
        if( p == 0 ) list->setScorePart( sp );
        else { auto x = core::makePartGroupOrScorePart(); x->setChoice( core::PartGroupOrScorePart::Choice::scorePart ); x->setScorePart( sp ); list->addPartGroupOrScorePart( x ); }
    }
    std::vector<std::vector<core::MusicDataGroupPtr>> music;
    for( int m = 0; m < (int)sets.size(); ++m )
    {
        auto tm = m == 0 ? s->getTimewiseMeasureSet().front() : core::makeTimewiseMeasure();
        if( m > 0 ) s->addTimewiseMeasure( tm );
        std::vector<core::MusicDataGroupPtr> row; bool first = true;
        for( int p = 0; p < parts; ++p )
        {
            if( ( ( sets[m] >> p ) & 1 ) == 0 ) { row.push_back( nullptr ); continue; }
            auto tp = first ? tm->getTimewisePartSet().front() : core::makeTimewisePart(); if( !first ) tm->addTimewisePart( tp );
            first = false; tp->getAttributes()->id = core::XsID{ IDS[p] };
            auto g = core::makeMusicDataGroup(); tp->setMusicDataGroup( g ); row.push_back( g );
        }
        music.push_back( row );
    }
    auto r = core::timewisePartwise( s );
    if( r->getScoreHeaderGroup() != s->getScoreHeaderGroup() ) return 31;
    if( r->getAttributes()->hasVersion != hasVersion || r->getAttributes()->version.getValue() != s->getAttributes()->version.getValue() ) return 32;
    if( (int)r->getPartwisePartSet().size() != parts ) return 33;
    int p = 0;
    for( const auto& rp : r->getPartwisePartSet() )
    {
        if( rp->getAttributes()->id.getValue() != IDS[p] ) return 34;
        if( rp->getPartwiseMeasureSet().size() != sets.size() ) return 35;
        int m = 0;
        for( const auto& rm : rp->getPartwiseMeasureSet() )
        {
            if( music[m][p] ? rm->getMusicDataGroup() != music[m][p] : rm->getMusicDataGroup()->getMusicDataChoiceSet().size() != 0 ) return 36;
            ++m;
        }
        ++p;
    }
    return 0;
}
// a document converted in place; 0: it changes its form and holds the same music, there and back
int document(const std::vector<int>& counts, bool hasVersion, const std::string& version)
{
    auto s = scoreOf( counts, hasVersion, version );
    core::Document d{ core::DocumentChoice::partwise }; d.setScorePartwise( s );
    d.convertContents();
    if( d.getChoice() != core::DocumentChoice::timewise ) return 21;
    int e = timewiseForm( s, d.getScoreTimewise(), counts ); if( e ) return e;
    d.convertContents();
    if( d.getChoice() != core::DocumentChoice::partwise ) return 22;
    return partwiseForm( s, d.getScorePartwise(), counts );
}
}
