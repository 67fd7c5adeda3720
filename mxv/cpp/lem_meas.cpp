// Specification-side lemma functions: they only call the functions of /repo under contract, in the order the library does.
// Private members of the measure writer and reader are made accessible here; nothing else of their text changes.
#include <map>
#include <set>
#include <mutex>
#include <optional>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <iostream>
#include <functional>
#include <chrono>
#include <random>
#include <algorithm>
#define private public
#include "mx/impl/MeasureWriter.h"
#include "mx/impl/MeasureReader.h"
#undef private
#include "mx/core/elements/Barline.h"
#include "mx/core/elements/MeasureAttributes.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/PartwiseMeasure.h"
#include "mx/core/elements/Properties.h"
#include "mx/core/elements/Time.h"
#include "mx/impl/PropertiesWriter.h"
#include "mx/impl/ScoreWriter.h"
#include "mx/impl/TimeReader.h"
namespace lem {
using namespace mx;
// the key, clef, time and multi-measure rest of one attributes element
core::PartwiseMeasurePtr writtenKey(int staff, const api::KeyData& k) { auto m = core::makePartwiseMeasure(); impl::PropertiesWriter w{ m }; w.writeKey( staff, k ); w.flushBuffer(); return m; }
api::KeyData throughKey(const api::KeyData& k, const impl::MeasureCursor& c)
{
    auto m = writtenKey( k.staffIndex, k );
    impl::MeasureReader r{ *m, c, c };
    r.parseProperties( *m->getMusicDataGroup()->getMusicDataChoiceSet().front()->getProperties() );
    if( r.myOutMeasureData.keys.size() != 1 ) throw 1;
    return r.myOutMeasureData.keys.front();
}
api::ClefData throughClef(const api::ClefData& k, int staff, const impl::MeasureCursor& c)
{
    auto m = core::makePartwiseMeasure(); impl::PropertiesWriter w{ m }; w.writeClef( staff, k ); w.flushBuffer();
    impl::MeasureReader r{ *m, c, c };
    r.addStavesToOutMeasure();
    r.parseProperties( *m->getMusicDataGroup()->getMusicDataChoiceSet().front()->getProperties() );
    if( r.myOutMeasureData.staves.at( staff < 0 ? 0 : staff ).clefs.size() != 1 ) throw 1;
    return r.myOutMeasureData.staves.at( staff < 0 ? 0 : staff ).clefs.front();
}
api::TimeSignatureData throughTime(const api::TimeSignatureData& t, const impl::MeasureCursor& c)
{
    auto m = core::makePartwiseMeasure(); impl::PropertiesWriter w{ m }; if( !t.isImplicit ) w.writeTime( t ); w.flushBuffer();
    impl::MeasureReader r{ *m, c, c };
    r.parseTimeSignature();
    return r.myOutMeasureData.timeSignature;
}
int throughMultiMeasureRest(int n, const impl::MeasureCursor& c)
{
    auto m = core::makePartwiseMeasure(); impl::PropertiesWriter w{ m }; w.writeMultiMeasureRest( n ); w.flushBuffer();
    impl::MeasureReader r{ *m, c, c };
    r.parseProperties( *m->getMusicDataGroup()->getMusicDataChoiceSet().front()->getProperties() );
    return r.myOutMeasureData.multiMeasureRest;
}
api::BarlineData throughBarline(const api::MeasureData& d, int now, const impl::MeasureCursor& c, const impl::ScoreWriter& s)
{
    impl::MeasureWriter w{ d, c, s }; w.myOutMeasure = core::makePartwiseMeasure(); w.writeBarlines( now );
    impl::MeasureReader r{ *w.myOutMeasure, c, c };
    const auto& set = w.myOutMeasure->getMusicDataGroup()->getMusicDataChoiceSet();
    if( set.size() != 1 ) throw 1;
    r.parseBarline( *set.front()->getBarline() );
    if( r.myOutMeasureData.barlines.size() != 1 ) throw 2;
    return r.myOutMeasureData.barlines.front();
}
// a measure without notes
api::MeasureData throughMeasure(const api::MeasureData& d, const impl::MeasureCursor& c, const impl::ScoreWriter& s)
{
    impl::MeasureWriter w{ d, c, s };
    auto m = w.getPartwiseMeasure();
    impl::MeasureReader r{ *m, c, c };
    return r.getMeasureData().first;
}
}
