// Specification-side lemma functions: they only call the functions of /repo under contract, in the order the library does.
// Private members of the writers and readers are made accessible here; nothing else of their text changes.
#include <map>
#include <set>
#include <list>
#include <mutex>
#include <optional>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <iostream>
#include <functional>
#include <chrono>
#include <random>
#include <algorithm>
#define private public
#include "mx/impl/ScoreWriter.h"
#include "mx/impl/ScoreReader.h"
#include "mx/impl/PartWriter.h"
#include "mx/impl/PartReader.h"
#undef private
#include "mx/core/elements/PartList.h"
#include "mx/core/elements/AccidentalText.h"
#include "mx/core/elements/DisplayText.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/GroupAbbreviationDisplay.h"
#include "mx/core/elements/GroupNameDisplay.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartNameDisplay.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartGroupOrScorePart.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/ScorePartwise.h"
namespace lem {
using namespace mx;
api::ScoreData throughScore(const api::ScoreData& d)
{
    impl::ScoreWriter w{ d };
    auto p = w.getScorePartwise();
    impl::ScoreReader r{ *p };
    return r.getScoreData();
}
// what the list of parts holds about one part
api::PartData throughPart(const api::PartData& d)
{
    api::ScoreData s;
    impl::ScoreWriter sw{ s };
    impl::PartWriter w{ d, 0, 420, sw };
    auto sp = w.getScorePart();
    auto pp = core::makePartwisePart();
    pp->getAttributes()->id = sp->getAttributes()->id;
    auto score = core::makeScorePartwise();
    score->getScoreHeaderGroup()->getPartList()->setScorePart( sp );
    impl::PartReader r{ *sp, *pp, 420, *score, 420 };
    r.parseScorePart();
    return r.myOutPartData;
}
// the displayed name of a part and of a group given as a text, a sharp or a flat, and another text
api::ScoreData displayedInPieces(const api::PartGroupData& t, bool sharp)
{
    auto score = core::makeScorePartwise();
    auto list = score->getScoreHeaderGroup()->getPartList();
    auto sp = list->getScorePart();
    sp->getAttributes()->id = core::XsID{ "P1" };
    score->getPartwisePartSet().front()->getAttributes()->id = core::XsID{ "P1" };
    auto first = core::makeDisplayTextOrAccidentalText();
    first->setChoice( core::DisplayTextOrAccidentalText::Choice::displayText );
    first->getDisplayText()->setValue( core::XsString{ t.name } );
    auto sign = core::makeDisplayTextOrAccidentalText();
    sign->setChoice( core::DisplayTextOrAccidentalText::Choice::accidentalText );
    sign->getAccidentalText()->setValue( sharp ? core::AccidentalValue::sharp : core::AccidentalValue::flat );
    auto last = core::makeDisplayTextOrAccidentalText();
    last->setChoice( core::DisplayTextOrAccidentalText::Choice::displayText );
    last->getDisplayText()->setValue( core::XsString{ t.abbreviation } );
    sp->setHasPartNameDisplay( true );
    sp->setHasPartAbbreviationDisplay( true );
    auto group = core::makePartGroup();
    group->getAttributes()->type = core::StartStop::start;
    group->setHasGroupNameDisplay( true );
    group->setHasGroupAbbreviationDisplay( true );
    for( const auto& x : { first, sign, last } )
    {
        sp->getPartNameDisplay()->addDisplayTextOrAccidentalText( x );
        sp->getPartAbbreviationDisplay()->addDisplayTextOrAccidentalText( x );
        group->getGroupNameDisplay()->addDisplayTextOrAccidentalText( x );
        group->getGroupAbbreviationDisplay()->addDisplayTextOrAccidentalText( x );
    }
    list->addPartGroup( group );
    auto stop = core::makePartGroup();
    stop->getAttributes()->type = core::StartStop::stop;
    auto item = core::makePartGroupOrScorePart();
    item->setChoice( core::PartGroupOrScorePart::Choice::partGroup );
    item->setPartGroup( stop );
    list->addPartGroupOrScorePart( item );
    impl::ScoreReader r{ *score };
    return r.getScoreData();
}
}
