// Specification-side lemma functions: they only call the functions of /repo under contract, in the order the library does.
#include "mx/api/DirectionData.h"
#include "mx/core/elements/Direction.h"
#include "mx/core/elements/Harmony.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/Staff.h"
#include "mx/impl/Cursor.h"
#include "mx/impl/DirectionReader.h"
#include "mx/impl/DirectionWriter.h"
namespace lem {
using namespace mx;
// the elements of a direction that is not a chord: exactly one direction element; a chord: exactly one harmony element
api::DirectionData throughDirection(const api::DirectionData& d, const impl::Cursor& c, bool isChord)
{
    impl::DirectionWriter writer{ d, c };
    auto out = writer.getDirectionLikeThings();
    if( out.size() != 1 ) throw 1;
    if( isChord )
    {
        if( out.front()->getChoice() != core::MusicDataChoice::Choice::harmony ) throw 2;
        impl::DirectionReader reader{ out.front()->getHarmony(), c };
        return reader.getDirectionData();
    }
    if( out.front()->getChoice() != core::MusicDataChoice::Choice::direction ) throw 3;
    impl::DirectionReader reader{ out.front()->getDirection(), c };
    return reader.getDirectionData();
}
// the staff that the reader of a measure finds on the element
int staffOf(const api::DirectionData& d, const impl::Cursor& c, bool isChord)
{
    impl::DirectionWriter writer{ d, c };
    auto out = writer.getDirectionLikeThings();
    if( isChord ) { auto h = out.front()->getHarmony(); return h->getHasStaff() ? h->getStaff()->getValue().getValue() - 1 : 0; }
    auto x = out.front()->getDirection(); return x->getHasStaff() ? x->getStaff()->getValue().getValue() - 1 : 0;
}
}
