H = 'Sourcecode/include/mx/api/'; I = 'Sourcecode/private/mx/impl/'; C = 'Sourcecode/private/mx/core/'; U = 'Sourcecode/private/mx/utility/'
PROPS = [
 dict(id='C07', title='Equality of public score data detects every difference',
  statement='Two values of any public score data type compare equal exactly when every field they hold compares equal (floating point fields that are compared with a tolerance may differ by at most the documented epsilon); equality is symmetric and inequality is its exact negation. This holds for every comparable public type and for the containers of them.',
  qtext='all pairs of values of every comparable public data type, all container lengths',
  why='The tests compare a few hand-made values; a field forgotten in one comparison, or a container compared by its first elements only, passes them all.',
  files=[H + x for x in ('ApiEquality.h', 'ApiCommon.h', 'NoteData.h', 'DirectionData.h', 'DefaultsData.h', 'PartGroupData.h', 'WordsData.h')],
  mech=[('equality macros', H + 'ApiEquality.h'), ('per type field lists', H + '*.h (MXAPI_EQUALS_BEGIN blocks)')],
  observe=['operator== and operator!= of the public data types'],
  note='Every operator== and operator!= of mx::api is evaluated from its real body for arbitrary values; loops over vectors and maps carry generated invariants that are checked. Floating point is treated as real arithmetic; nested equality is taken from the nested contract, itself proved.'),
 dict(id='C01', title='Attributes of every MusicXML element survive write and read',
  statement='For every element type, any set of attributes with any valid values is written as well-formed, pairwise distinct attributes which, when read back, give exactly the same attributes with the same values and report success; an attribute never changes any field but its own, and a missing required attribute is reported. Only attributes MusicXML 3.0/3.1 defines for the element are written, and required ones are always written.',
  qtext='all attribute classes, all presence combinations, all valid values, all attribute names and orders',
  why='The tests write and read a few attribute combinations of some elements; a misspelt name, a wrong field or a dropped attribute in one of 174 classes passes unless that one is sampled.',
  files=[C + 'AttributesInterface.h', C + 'FromXElement.h', C + 'FromXElement.cpp', C + 'elements/*Attributes.cpp'],
  mech=[('writer of an attribute', C + 'AttributesInterface.h (streamAttribute)'), ('reader of an attribute', C + 'FromXElement.h (parseAttribute)'), ('per class lists', C + 'elements/*Attributes.cpp')],
  observe=['toStream, hasValues and fromXElement of every attributes class'],
  note='Each writer is evaluated from its real body for arbitrary flags and values; the produced attributes are handed, through the assumed contract of the XML layer, to the real reader. Lexical forms of data types are used through their contract (C03). Schema tables come from the XSD files.'),
 dict(id='C03', title='Every lexical MusicXML value reads back from its text and stays in range',
  statement='Every value of every MusicXML lexical type (enumerations, extensible enumerations, bounded integers, decimals, number-or-keyword types, strings) has a text form that reads back as exactly that value, and unknown or malformed texts are rejected or mapped to the documented default without changing the target. Bounded integers and decimals never hold a value outside the bounds MusicXML defines, and values inside are kept (decimals to six fraction digits); enumeration texts are exactly those MusicXML defines, and every character of a string is written so that it decodes to itself.',
  qtext='all enumerators, all texts, all integers, all decimals below 1e18, all strings',
  why='The tests try a few texts of some types; a typo in one of several hundred enumeration texts, an off-by-one bound, a lost leading zero or an unescaped character passes unless that one value is sampled.',
  files=[C + x for x in ('Enums.cpp', 'EnumsBuiltin.cpp', 'Integers.cpp', 'Decimals.cpp', 'Strings.cpp', 'FontSize.cpp', 'NumberOrNormal.cpp', 'PositiveIntegerOrEmpty.cpp', 'YesNoNumber.cpp')],
  mech=[('enumeration texts', C + 'Enums.cpp'), ('range clamping', C + 'Integers.cpp, ' + C + 'Decimals.cpp'), ('decimal digits', C + 'Decimals.cpp (PreciseDecimal)'), ('escaping', C + 'Strings.cpp (toStream)')],
  observe=['toString, toStream, parse, setValue and getValue of every lexical type'],
  note='long double is treated as real arithmetic; stream extraction of numerals is assumed correct. The list types, XsToken and XsID are checked by a bounded enumeration and are not counted as proved. AccordionMiddleValue is exempt from the schema bound, as its definition documents.'),
 dict(id='C04', title='Public notation vocabulary means the same in MusicXML and back',
  statement='Every named value of the public vocabulary (steps, durations, noteheads, beams, accidentals, clefs, alignments, dynamics, articulations, ornaments, technical marks, barlines, line shapes, chord kinds, instrument sounds and so on) converts to the MusicXML value of the same meaning and that value converts back to it; MusicXML values without a public name never turn into a differently named one. Pitch alterations keep their exact pitch in both directions, and every transposition reads back with the same chromatic and diatonic steps.',
  qtext='all enumerators of every vocabulary, all alterations, all transpositions up to 1e8 steps',
  why='The tests convert a few values; one wrong or missing row among more than a thousand table entries, or a lost sign in a transposition, passes them.',
  files=[I + 'Converter.cpp', I + 'Converter.h', 'Sourcecode/private/mx/api/MarkData.cpp', 'Sourcecode/private/mx/api/SoundID.cpp'],
  mech=[('conversion tables and functions', I + 'Converter.cpp'), ('mark categories', 'Sourcecode/private/mx/api/MarkData.cpp'), ('sound texts', 'Sourcecode/private/mx/api/SoundID.cpp')],
  observe=['the conversion functions between public and MusicXML values'],
  note='Meaning is fixed by equal names, with a short reviewed list of exceptions. Floating point is treated as real arithmetic; decimals come through their contract (C03).'),
 dict(id='C02', title='Contents of every MusicXML element survive write and read',
  statement='For every element type, whatever valid contents it holds (which children, which alternatives, how many repetitions, which values) are written as well-formed XML that reads back without error as an equal element. Reading valid XML of an element and writing it again gives the same attributes, children, order and text.',
  qtext='all element classes, all presence combinations of children and alternatives, all child values, lists of up to two members (longer ones by instances)',
  why='The tests write and read a few shapes of some elements; one child handled wrongly in one of 393 classes, for one alternative or only when repeated, passes unless that shape is sampled.',
  files=[C + 'ElementInterface.cpp', C + 'FromXElement.h', C + 'elements/*.cpp'],
  mech=[('frame of an element', C + 'ElementInterface.cpp (toStream, fromXElement)'), ('per class contents', C + 'elements/*.cpp (streamContents, fromXElementImpl)'), ('lists and groups', C + 'FromXElement.h (importElement, importElementSet, importGroup)')],
  observe=['toStream and fromXElement of every element class'],
  note='Every class is evaluated from its real body for arbitrary children, each child represented by its own contract (it reads back as the value it wrote), which is what the check of its class proves; the XML layer (pugixml) is assumed. Lists are unbounded in reality and are evaluated with at most two members: that part is bounded. A labelled bounded run of about 4300 schema-generated instances through the compiled code always runs as well and is not counted as proved.'),
 dict(id='C10', title='Dates obey the calendar',
  statement='A date is always a real day of the (proleptic) Gregorian calendar between 0001-01-01 and 9999-12-31, whatever is set, read or added; setting a part moves to the nearest real day, and text or values that are no such day are rejected without changing the date. Adding days moves by exactly that many days, adding months or years moves by the calendar (staying within the month, 29 February becoming 1 March in other years), all stopping at the ends of the range. Dates compare in calendar order, know their weekday, leap year and days of the month, and read back from their yyyy-mm-dd text.',
  qtext='all dates, all amounts (every int), all texts',
  why='The tests try a few dozen dates; a wrong century, month end, or an overflow for one amount passes them.',
  files=[C + 'Date.cpp', C + 'Date.h'],
  mech=[('calendar arithmetic', C + 'Date.cpp (impl)'), ('text form', C + 'Date.cpp (parseString, toStream)')],
  observe=['public functions of the date type'],
  note='Every public operation is evaluated from its real body for arbitrary dates and amounts against an independent day-number formula; the day loop carries an explicit inductive invariant. Digit extraction and zero padding by streams are the library model; Date::today (system clock) is not covered.'),
 dict(id='C13', title='Notes survive writing and reading',
  statement='A score with valid notes (pitched, rest, unpitched, chord, grace or cue) that is written as MusicXML and read back has, in every part, measure, staff and voice, the same notes at the same times: pitch, accidental, notehead, stem, ties, beams, duration, dots, time modification, voice and staff, and the position, font, colour and visibility given for the note. A property of a note that was not given is not given afterwards.',
  qtext='all notes: every combination of the optional data with arbitrary values in their documented ranges; every arrangement of notes into parts, measures, staves, voices, chords and gaps',
  why='A note has about fifty fields, most of them optional; the tests cover a few dozen combinations, so one field lost only in combination with another passes them.',
  files=[I + 'NoteWriter.cpp', I + 'NoteReader.cpp', I + 'NoteFunctions.cpp', I + 'PrintFunctions.h', I + 'PositionFunctions.h', I + 'MeasureWriter.cpp', I + 'MeasureReader.cpp'],
  mech=[('note writing', I + 'NoteWriter.cpp (getNote)'), ('note reading', I + 'NoteFunctions.cpp (parseNote)'), ('sequence of notes', I + 'MeasureWriter.cpp (writeVoices)')],
  observe=['document manager: create from score, write, create from text, get data'],
  note='Proved: one note through the real writer and reader (fully evaluated, no opaque callee but the number formatting contract of C03) for arbitrary field values; beams and font families as lists up to 3 and 2 entries. Bounded, labelled: the arrangement of notes in whole scores, by generated scores through the real library. Underline, overline, line-through, placement and alignment of a note are outside what a note element can carry.'),
 dict(id='C15', title='Marks, curves and tuplets on notes survive writing and reading',
  statement='Every mark (articulation, dynamic, ornament, technical, fermata, accidental mark, arpeggio), slur or tie start, continuation and stop, and tuplet start and stop attached to a note of a valid score is there after writing the score as MusicXML and reading it back, once, on the same note: same kind, number level, placement, position, curve points, orientation, line, colour, tuplet numbers, note types, dots, bracket and display choices. Marks may be regrouped by category; the order within a category stays. What was not given (a position, a font, a colour) is not given afterwards.',
  qtext='all kinds of marks, curves and tuplets with arbitrary values and every presence combination of their optional data; every combination of them on notes of a score',
  why='There are over a hundred kinds of marks and each is written and read by a branch of its own; the tests give positions, fonts and colours to a handful.',
  files=[I + 'NotationsWriter.cpp', I + 'NoteFunctions.cpp', I + 'CurveFunctions.h', I + 'TupletReader.cpp', I + 'MarkDataFunctions.h', I + 'ArticulationsFunctions.cpp', I + 'OrnamentsFunctions.cpp', I + 'TechnicalFunctions.cpp', I + 'FermataFunctions.cpp', I + 'DynamicsReader.cpp', I + 'DynamicsWriter.cpp'],
  mech=[('writing attachments', I + 'NotationsWriter.cpp (getNotations)'), ('reading attachments', I + 'NoteFunctions.cpp (parseNotations)'), ('curves', I + 'CurveFunctions.h'), ('tuplets', I + 'TupletReader.cpp')],
  observe=['document manager: create from score, write, create from text, get data'],
  note='Proved: every kind of attachment on a note through the real writer and reader (fully evaluated) for arbitrary field values. Bounded, labelled: combinations on the notes of whole scores, by generated scores. Outside what the format carries, and so not claimed: colour of marks other than dynamics and fermatas, fonts of wavy lines and arpeggios, placement of fermatas; pedal marks, damp and nonarpeggiate.'),
 dict(id='C16', title='Directions and chord symbols survive writing and reading',
  statement='Every direction of a valid score (tempo in beats per minute, dynamics, pedal marks, wedges, octave shifts, brackets, words, rehearsal marks, segnos, codas and chord symbols) is there after writing the score as MusicXML and reading it back, once, in the same measure, on the same staff and at the same time, whether or not a note begins there, in the same order. Its contents are the same: placement, position, alignment, number level, texts, fonts, colour, line, spread, kinds, chord root, bass, degrees and processing instructions. What was not given is not given afterwards.',
  qtext='all kinds of directions with arbitrary values and every presence combination of their optional data; every time in a measure relative to the notes; several items in one direction',
  why='Each kind of direction has its own branch in writer and reader and carries a dozen optional fields; the tests give most of them to none.',
  files=[I + 'DirectionWriter.cpp', I + 'DirectionReader.cpp', I + 'SpannerFunctions.h', I + 'LineFunctions.h', I + 'MetronomeReader.cpp', I + 'DynamicsReader.cpp', I + 'DynamicsWriter.cpp', I + 'MeasureWriter.cpp', I + 'MeasureReader.cpp'],
  mech=[('writing directions', I + 'DirectionWriter.cpp (getDirectionLikeThings, createHarmonyElements)'), ('reading directions', I + 'DirectionReader.cpp (getDirectionData)'), ('place in the measure', I + 'MeasureWriter.cpp (writeDirections)')],
  observe=['document manager: create from score, write, create from text, get data'],
  note='Proved: every kind of direction item through the real writer and reader (fully evaluated) for arbitrary field values, time offset and staff. Bounded, labelled: directions among the notes of whole scores and several items in one direction, by generated scores. Outside what the format carries here, and so not claimed: colour of wedges, octave shifts, words and rehearsal marks, vertical alignment of words and rehearsal marks, placement of the point of a bracket, the tick of a tempo besides that of its direction, voices of directions, metric modulations. The placement of a direction with a chord symbol is that of the chord.'),
 dict(id='C17', title='Keys, clefs, times and barlines survive writing and reading',
  statement='Every measure of a valid score that is written as MusicXML and read back has the same time signature (beats, beat type, symbol, display, written or continued), key signatures (traditional with mode and cancelled key, or custom with their altered steps) on the same staff and at the same time, clefs of each staff, barlines with style, repeat and ending, number, width, multi-measure rest, and implicit and non-controlling flags. Keys, clefs and barlines within a measure are placed where a note of the first voice of the staff begins, a clef within a measure is read as such, and a measure number that equals the position of the measure counts as the unset one.',
  qtext='all key, clef, time and barline values; every presence combination of the optional data; every arrangement among the notes of the measure',
  why='Written and read by separate branches for each kind; the tests hold a few traditional keys and clefs at the start of measures.',
  files=[I + 'PropertiesWriter.cpp', I + 'TimeReader.cpp', I + 'MeasureWriter.cpp', I + 'MeasureReader.cpp'],
  mech=[('attributes', I + 'PropertiesWriter.cpp (writeKey, writeClef, writeTime)'), ('reading attributes', I + 'MeasureReader.cpp (parseProperties, importClef, parseTimeSignature)'), ('barlines', I + 'MeasureWriter.cpp (writeBarlines), MeasureReader.cpp (parseBarline)')],
  observe=['document manager: create from score, write, create from text, get data'],
  note='Proved: each key (up to three altered steps), clef, time signature, barline and the attributes of a measure through the real writer and reader (fully evaluated) for arbitrary field values. Bounded, labelled: their place among the notes, by generated scores. Outside what the format carries here, and so not claimed: keys given per staff rather than per measure (they are read back as keys of the measure), measure numbering, clefs and keys between notes.'),
 dict(id='C14', title='Titles, credits, encoding and layout survive writing and reading',
  statement='A valid score that is written as MusicXML and read back has the same work and movement titles and numbers, composer, lyricist, arranger, publisher and copyright, encoding data (date, encoder, description, software, supported features, miscellaneous fields), credits with their page, font and position, scaling, page layout, system layout, appearance entries by kind in their order, and the system and page breaks with their layouts at the same measures. What was not given is not given afterwards.',
  qtext='all texts and values, every presence combination of the optional data, any number of list entries',
  why='Every field is written and read by a branch of its own and nearly all are optional; the tests give a handful.',
  files=[I + 'ScoreWriter.cpp', I + 'ScoreReader.cpp', I + 'EncodingFunctions.cpp', I + 'LayoutFunctions.cpp', I + 'PageTextFunctions.cpp', I + 'MeasureWriter.cpp'],
  mech=[('titles and creators', I + 'ScoreWriter.cpp (getScorePartwise), ScoreReader.cpp (getScoreData)'), ('encoding', I + 'EncodingFunctions.cpp'), ('layout and appearance', I + 'LayoutFunctions.cpp'), ('credits', I + 'PageTextFunctions.cpp'), ('breaks', I + 'MeasureWriter.cpp (writeSystemInfo, writePageInfo), ScoreReader.cpp (scanForSystemInfo, scanForPageInfo)')],
  observe=['document manager: create from score, write, create from text, get data'],
  note='Proved: whole scores through the real writer and reader (fully evaluated) for arbitrary values, one group of data at a time, lists of up to two entries, breaks at the first measure. Bounded, labelled: all together in generated scores. Page margins are at least zero and go with a page size, scaling is given in both numbers; default staff distance of a single break, measure numbering, alignment of credits and the place of a credit among other lists are outside what is written.'),
 dict(id='C18', title='Parts, instruments and part groups survive writing and reading',
  statement='A valid score that is written as MusicXML and read back has the same parts in the same order: id, name, abbreviation, displayed name and abbreviation, transposition, and the instrument with its id, name, abbreviation, sound, solo or ensemble, virtual library and name and midi device, name, bank, channel, program, unpitched, volume, pan and elevation. It has the same part groups, in the order of their first part and number: range of parts, number, name, abbreviation, displayed name and abbreviation, and bracket. A displayed name that a document gives in pieces is their text in order, with sharps as # and flats as b.',
  qtext='all texts and values, every presence combination of the optional data, every nesting and overlap of part groups',
  why='About thirty optional fields with a branch each in writer and reader, and groups that must pair up by number whatever their nesting; the tests hold one group and a few instruments.',
  files=[I + 'PartWriter.cpp', I + 'PartReader.cpp', I + 'ScoreWriter.cpp', I + 'ScoreReader.cpp'],
  mech=[('parts and instruments', I + 'PartWriter.cpp (getScorePart), PartReader.cpp (parseScorePart)'), ('part groups', I + 'ScoreWriter.cpp (addScorePart), ScoreReader.cpp (reconcileParts, startPartGroup, stopPartGroup)')],
  observe=['document manager: create from score, write, create from text, get data'],
  note='Proved: a part with its instrument, and scores of three parts with one or two groups over every range of parts, through the real writer and reader (fully evaluated) for arbitrary values; instrument sounds by their conversion contract (C04). Bounded, labelled: more groups and parts in generated scores, transposition. An instrument that carries midi data without an id is given one. Print and position data of displayed names are outside what is written.'),
 dict(id='C09', title='Partwise and timewise forms of a score hold the same music', level='other',
  statement='Converting a document from partwise to timewise form puts the music of each part\'s nth measure, unchanged, into that part of the nth measure, in the order of the part list, and keeps the header and version. Converting back, or converting any timewise document, gives every part of the list as many measures as the score has, each with the music of that part in that measure, and empty where it has none. Getting the score data of a timewise document gives those of its partwise form and leaves the document as it was.',
  qtext='all scores: any music, any number of measures in each part (also different ones), parts missing from some measures',
  why='The tests convert scores whose parts have equal numbers of measures; reading past the end of a shorter part, or losing the end of a longer one, passes them.',
  files=[C + 'ScoreConversions.cpp', C + 'Document.cpp', 'Sourcecode/private/mx/api/DocumentManager.cpp'],
  mech=[('to timewise', C + 'ScoreConversions.cpp (partwiseTimewise)'), ('to partwise', C + 'ScoreConversions.cpp (timewisePartwise)'), ('in place', C + 'Document.cpp (convertContents)'), ('reading score data', 'Sourcecode/private/mx/api/DocumentManager.cpp (getData)')],
  observe=['conversion functions of the core library', 'document: convert contents', 'document manager: create from score (timewise), write, get data'],
  note='Every obligation is discharged for arbitrary music (the music objects are opaque) but for bounded shapes, so this is not counted as an unbounded proof: all shapes up to 3 parts of up to 3 measures each, and all timewise scores up to 2 parts by 3 measures or 3 parts by 2 measures with parts missing anywhere; the reading of score data is proved for all documents with documents opaque. Larger random shapes (5 parts, 6 measures) run through the compiled code, labelled bounded.'),
 dict(id='C08', title='Document handles stay unique, stable and harmless when unknown',
  statement='Every document made from a file, a stream or a score gets a handle that no document has or had before, and until it is destroyed the handle gives that document, unchanged, whatever is done with other handles. Handles that are unknown or destroyed are harmless: they give no document and empty data and write nothing; an attempt to create that fails gives an error that says why, makes no document and changes no other. All of this also holds when several threads use the manager at the same time.',
  qtext='all histories of creating, reading, writing and destroying; all handle values; every failure of reading; every interleaving of threads',
  why='The tests create one document, use it and destroy it.',
  files=['Sourcecode/private/mx/api/DocumentManager.cpp'],
  mech=[('table of documents', 'Sourcecode/private/mx/api/DocumentManager.cpp (createFromFile, createFromStream, createFromScore, destroyDocument)'), ('use of handles', 'Sourcecode/private/mx/api/DocumentManager.cpp (getData, getDocument, writeToFile, writeToStream)'), ('lock', 'Sourcecode/private/mx/api/DocumentManager.cpp (LOCK_DOCUMENT_MANAGER)')],
  observe=['document manager: all public functions'],
  note='Inductive: construction establishes the invariant (handles in the table are positive, different, below the next one) and every public function, evaluated from its real body in an arbitrary state satisfying it, keeps it and meets its contract, for arbitrary handles and for each way a callee can fail. The table is represented by two arbitrary documents, which suffices because it is only used key by key. Documents, scores, the reader and the writer are opaque (their own properties are other ones). The thread clause is proved as lock discipline: every access to the table and counters is made under the lock of the manager. Overflow of the handle counter after two thousand million documents is excluded. Random histories, alone and in six threads, run through the compiled code, labelled bounded.'),
]
NA = []
