// Specification-side lemma functions: they only call the functions of /repo under contract, in the order the library does.
#include "mx/api/NoteData.h"
#include "mx/api/ScoreData.h"
#include "mx/core/elements/Note.h"
#include "mx/impl/MeasureCursor.h"
#include "mx/impl/NoteFunctions.h"
#include "mx/impl/NoteReader.h"
#include "mx/impl/NoteWriter.h"
#include "mx/impl/ScoreWriter.h"
namespace lem {
using namespace mx;
core::NotePtr writeNote(const api::NoteData& d, const impl::MeasureCursor& c, const impl::ScoreWriter& w, bool previousInChord, bool startOfChord, const std::vector<api::NoteData>& siblings, int index)
{
    impl::NoteWriter writer{ d, c, w, previousInChord, siblings, index };
    return writer.getNote( startOfChord );
}
api::NoteData readNote(const core::Note& n, const impl::Cursor& c)
{
    impl::NoteFunctions f{ n, c };
    return f.parseNote();
}
int readStaffIndex(const core::Note& n)
{
    impl::NoteReader r{ n };
    return r.getStaffNumber() - 1;
}
}
