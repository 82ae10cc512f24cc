"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


I = 'Sourcecode/private/mx/impl/'
A = 'Sourcecode/include/mx/api/'
C = 'Sourcecode/private/mx/core/'

prop('C01', 'A document id denotes one stored document from creation to destruction',
     'Every successful creation returns an id that no earlier creation ever returned, and until that id is destroyed it denotes exactly the document that was created under it, whatever happens to other documents. '
     'An operation that names an id which is not live changes nothing and yields the empty result (default score, no output, null document). '
     'A creation whose input is unreadable, malformed or inconsistent reports an error, returns no id and leaves every other document and the id sequence as they were.',
     ['histories', 'inputs'], 'every sequence of create (from stream, file, score; valid and invalid), read, write, look up and destroy calls, in any order, over any number of documents',
     'the existing tests create one document, use it and destroy it; no test interleaves documents, reuses a dead id, or checks what a failed creation leaves behind',
     ['Sourcecode/private/mx/api/DocumentManager.cpp', A + 'DocumentManager.h'],
     [('id counter incremented once per stored document, under the registry lock', 'DocumentManager.cpp createFrom*'), ('parse before insert, so that a throw stores nothing', 'DocumentManager.cpp createFromStream/createFromFile'), ('lookup by id, no-op or default when absent', 'DocumentManager.cpp writeTo*, getData, destroyDocument, getDocument')],
     ['mx::api::DocumentManager public calls'], [('myMap', 'live id -> document', 'DocumentManager.cpp Impl'), ('myCurrentId', 'next id', 'DocumentManager.cpp Impl')])

prop('C02', 'Concurrent use of the document registry is equivalent to some serial order',
     'When several threads create, read, write, look up and destroy their documents and draw unique numbers at the same time, every call returns what it would return in some sequential order consistent with real time. '
     'In particular no two creations ever get the same id, no two draws of a unique number give the same value, and no document is lost, mixed up with another thread\'s, or resurrected. '
     'Elements that make their parts when first asked for them give every thread the same part.',
     ['schedules', 'histories'], 'every interleaving of registry calls from any number of threads',
     'no existing test starts a second thread',
     ['Sourcecode/private/mx/api/DocumentManager.cpp', 'Sourcecode/private/mx/utility/Lock.h', 'Sourcecode/private/mx/utility/JitAllocate.h'],
     [('registry lock around map and counters', 'DocumentManager.cpp'), ('lock around lazy allocation in element getters', 'utility/JitAllocate.h, utility/Lock.h, core/elements/Note.cpp')],
     ['mx::api::DocumentManager public calls made from several threads'])

prop('C03', 'Reading, writing or looking at a stored document never changes it',
     'Asking for a stored document\'s data, writing it out or looking it up leaves its content and its partwise or timewise arrangement as they were, including when the request itself ends in an error, so repeating a request gives the same answer. '
     'The score handed to a creation is not modified by it, and data handed out earlier is not affected by later operations.',
     ['histories', 'inputs'], 'every document (partwise or timewise, readable as a score or not) and every sequence of read, write and look-up calls on it',
     'tests read a document once and destroy it; nothing compares a second read, a read after a failed read, or a timewise document after it was read',
     ['Sourcecode/private/mx/api/DocumentManager.cpp', C + 'Document.cpp', I + 'ScoreWriter.cpp', I + 'ScoreReader.cpp'],
     [('timewise documents are converted for reading and converted back', 'DocumentManager.cpp getData'), ('the writer works on its own copy of the score', 'impl/ScoreWriter.cpp')],
     ['DocumentManager::getData, writeToStream, getDocument'])

prop('C04', 'Partwise/timewise conversion moves every cell of the score and loses none',
     'Converting a score between the partwise and the timewise arrangement puts the content of measure m of part p, with the measure\'s attributes, at the same (part, measure) position of the other arrangement, in part-list and measure order, for scores whose parts have any number of measures, equal or not. '
     'The score header is carried over unchanged and converting back gives the original document whenever the parts have equally many measures.',
     ['inputs'], 'every score: any number of parts in any order, any number of measures per part, parts listed without music, music in any cell empty or not',
     'two fixed documents are converted by the tests, both with all parts present, in order and of equal length',
     [C + 'ScoreConversions.cpp', C + 'Document.cpp'],
     [('grid transposition by part id and measure index', 'core/ScoreConversions.cpp')],
     ['mx::core::Document::convertContents + toStream'])

prop('C05', 'Reading gives every note the onset and duration the document says',
     'When a document is read, the time of each note, rest, chord symbol, direction, clef, key and barline is the position that the document\'s notes, backups and forwards establish: a note advances time by its duration once per chord, grace notes do not advance it, backup never moves before the start of the measure, and every measure starts at zero. '
     'All notes of a chord get one onset, are marked as chord members, and notes outside chords are not.',
     ['inputs', 'programs'], 'every sequence of notes (pitched, rest, grace, cue, chord member), backups, forwards, directions, harmonies, attributes and barlines in every measure of every part',
     'the tests read a few dozen files and compare a handful of notes; a cursor error on an unsampled mix of backup, forward and chords is invisible',
     [I + 'MeasureReader.cpp', I + 'Cursor.cpp', I + 'Cursor.h', I + 'NoteReader.cpp', I + 'NoteFunctions.cpp'],
     [('cursor moved by note durations, backup and forward', 'impl/MeasureReader.cpp'), ('look-ahead deciding chord membership and when to advance', 'impl/MeasureReader.cpp parseNote')],
     ['DocumentManager::getData: tickTimePosition, durationTimeTicks, isChord'], [('tickTimePosition', 'time within the measure', 'impl/Cursor.h')])

prop('C06', 'All times of a read score are in one resolution that fits every part',
     'However many parts a document has and however often each redefines its divisions, a read score states one ticks-per-quarter value which every divisions value of the document divides, and every time and duration is the document\'s value rescaled to it, so equal musical instants have equal tick values in all parts, and a note without a written type gets the one its length stands for. '
     'A divisions value applies from the place it stands to the next one in the same part.',
     ['inputs'], 'every combination of divisions values over parts, measures and positions within a measure',
     'test files use one divisions value for all parts, nearly always',
     [I + 'ScoreReader.cpp', I + 'MeasureReader.cpp', I + 'LcmGcd.cpp', I + 'Cursor.cpp', I + 'PartReader.cpp'],
     [('least common multiple of all divisions', 'impl/LcmGcd.cpp, impl/ScoreReader.cpp'), ('per-cursor conversion factor', 'impl/Cursor.cpp convertDurationToGlobalTickScale')],
     ['ScoreData::ticksPerQuarter, NoteData::tickTimePosition, DurationData::durationTimeTicks'])

prop('C07', 'Reading keeps every note once, in its staff and voice, in document order',
     'Every note of a measure appears exactly once in the score that is read: in the staff it names (the first staff if it names none), in the voice of its run between backups, in document order, with a voice number that the document\'s voice numbers determine. '
     'Notes of different runs never share a voice of the same staff, and no voice is invented.',
     ['inputs', 'programs'], 'every measure layout: any number of staves, any order of voices and backups, voice numbers present, absent, repeated or inconsistent',
     'tests cover a few two-staff piano measures; voice consolidation rules have no test of their own',
     [I + 'MeasureReader.cpp', I + 'Cursor.cpp', I + 'PartReader.cpp'],
     [('voice index advanced on the first of consecutive backups', 'impl/MeasureReader.cpp parseBackup'), ('consolidation of voice numbers per staff', 'impl/MeasureReader.cpp')],
     ['StaffData::voices of every measure'])

prop('C08', 'Reading carries clefs, keys, meters and transposition to the right place',
     'Every clef, key signature and time signature of the document appears in the read score at the measure, staff and time where it stands, with its own content; a measure without a time signature repeats the one in force, marked implicit. '
     'Measure numbers, the staff count and the part\'s transposition are those the document states.',
     ['inputs'], 'every placement of attributes elements in a part: several per measure, at any time, with or without staff numbers',
     'the tests pin single files with attributes at the start of a measure',
     [I + 'MeasureReader.cpp', I + 'TimeReader.cpp', I + 'PartReader.cpp', I + 'StaffFunctions.cpp'],
     [('attributes parsed at the cursor position', 'impl/MeasureReader.cpp parseProperties'), ('time signature remembered from measure to measure', 'impl/MeasureReader.cpp, impl/PartReader.cpp')],
     ['MeasureData::timeSignature, keys, StaffData::clefs, keys, PartData::transposition'])

prop('C09', 'Reading keeps every direction, chord symbol, barline and break where it stands',
     'Every direction and chord symbol with content the score model can hold is read once, in the staff it names, at its time including its offset, in document order. '
     'Every barline is read at its place with its style, ending and repeat, and system and page breaks and layouts of the first part are attached to the index of the measure in which they stand.',
     ['inputs'], 'every placement of directions, harmonies, barlines and print elements between the notes of a measure, over staves and measures',
     'tests sample one direction or barline at a time in fixed positions',
     [I + 'MeasureReader.cpp', I + 'DirectionReader.cpp', I + 'ScoreReader.cpp', I + 'LayoutFunctions.cpp'],
     [('direction time = cursor + offset; invalid staff falls back to the first', 'impl/DirectionReader.cpp, impl/MeasureReader.cpp'), ('print elements of the top part scanned for breaks', 'impl/ScoreReader.cpp')],
     ['StaffData::directions, MeasureData::barlines, ScoreData::layout'])

prop('C10', 'Written measures play back exactly the notes and times of the score',
     'Following the notes, backups and forwards of a written document under MusicXML timing rules yields, for every measure, exactly the notes of the score once each, at their requested times, durations, staves and voices, with chord members sounding together. '
     'Backups never reach before the start of the measure, and the divisions written are the score\'s ticks per quarter.',
     ['inputs', 'programs'], 'every score: any number of parts, measures, staves, voices, notes, gaps, overlapping voices and chords, times given in any order',
     'expected files and round trips of a few hand-made scores; the writer\'s cursor is not tested against gaps, unordered voices, or several staves together',
     [I + 'MeasureWriter.cpp', I + 'Cursor.cpp', I + 'NoteWriter.cpp', I + 'PartWriter.cpp', I + 'ScoreWriter.cpp'],
     [('backup and forward emitted to reach each note', 'impl/MeasureWriter.cpp'), ('chord flag emitted for members after the first', 'impl/MeasureWriter.cpp, impl/NoteWriter.cpp')],
     ['XML text from DocumentManager::writeToStream'])

prop('C11', 'Written measures place every clef, key, meter, direction and barline once',
     'A written document states each clef, key signature, direction, chord symbol and barline of the score exactly once, in its measure and staff, in order and at its time; a clef, key or barline in the middle of a sounding note may be stated at the end of that note or where the next note of its voice starts, and comes before the notes that start at its time or later. '
     'A measure without notes may state everything at its start. '
     'An explicit time signature appears in its measure and an implicit one does not; system and page breaks appear in the measure whose index they are given for.',
     ['inputs'], 'every score with non-note events at any times (before, between, at and after the notes) in any staff and measure',
     'single expected files with events at note starts',
     [I + 'MeasureWriter.cpp', I + 'PropertiesWriter.cpp', I + 'DirectionWriter.cpp', I + 'LayoutFunctions.cpp'],
     [('event iterators merged with the note stream by time', 'impl/MeasureWriter.cpp')],
     ['XML text from DocumentManager::writeToStream'])

prop('C12', 'What a note is survives writing and reading back',
     'For every note of a score, writing the score and reading the text back gives the same pitch (step, alteration, octave, accidental) or rest or unpitched position, written duration with dots and time modification, grace or cue or normal kind, ties, beams, stem, notehead and printing and position hints. '
     'This holds for each note independently of its neighbours.',
     ['inputs'], 'every combination of note properties, on notes in any context',
     'about ten fixed scores are round-tripped, each using a few properties',
     [I + 'NoteWriter.cpp', I + 'NoteReader.cpp', I + 'NoteFunctions.cpp', I + 'Converter.cpp', I + 'PositionFunctions.h', I + 'PrintFunctions.h'],
     [('enumeration tables', 'impl/Converter.cpp'), ('note element filled and parsed symmetrically', 'impl/NoteWriter.cpp, impl/NoteReader.cpp')],
     ['ScoreData before createFromScore and after getData of the reparsed text'])

prop('C13', 'Marks, slurs, ties, tuplets and ornaments stay attached to their notes',
     'Every articulation, ornament, technical indication, dynamic, fermata and other mark, and every slur, tie and tuplet start, continuation and stop with its number and placement, is found on the same note after writing and reading back, in the same order per kind. '
     'No mark is added, dropped or changed into another.',
     ['inputs'], 'every multiset of attachments on every note',
     'a few fixed files per mark family',
     [I + 'NotationsWriter.cpp', I + 'NoteFunctions.cpp', I + 'ArticulationsFunctions.cpp', I + 'OrnamentsFunctions.cpp', I + 'TechnicalFunctions.cpp', I + 'DynamicsReader.cpp', I + 'CurveFunctions.h', I + 'TupletReader.cpp'],
     [('per-family reader and writer of notations', 'impl/*Functions.cpp, impl/NotationsWriter.cpp')],
     ['NoteAttachmentData before writing and after reading'])

prop('C14', 'Directions keep their content through writing and reading back',
     'Dynamics, pedal marks, words, tempo marks, wedges, octave shifts, brackets and chord symbols of a score are all present after writing and reading back, at the same time in the same staff, with the same content and attributes. ',
     ['inputs'], 'every combination of direction content at any time and staff',
     'each direction kind is exercised by one or two fixed scores',
     [I + 'DirectionWriter.cpp', I + 'DirectionReader.cpp', I + 'DynamicsWriter.cpp', I + 'MetronomeReader.cpp', I + 'SpannerFunctions.h'],
     [('direction types written one element each and parsed back', 'impl/DirectionWriter.cpp, impl/DirectionReader.cpp')],
     ['StaffData::directions before writing and after reading'])

prop('C15', 'Score-level information survives writing and reading back',
     'Titles, numbers, creators, rights, encoding data, page texts, page and system defaults, appearance values and per-measure layout of a score are the same after writing and reading back, each in its own field. '
     'Fields that were not given stay not given.',
     ['inputs'], 'every combination of given and absent score-level fields and every text',
     'two or three fixed headers',
     [I + 'ScoreWriter.cpp', I + 'ScoreReader.cpp', I + 'EncodingFunctions.cpp', I + 'LayoutFunctions.cpp', I + 'PageTextFunctions.cpp'],
     [('header fields mapped one to one to header elements', 'impl/ScoreWriter.cpp, impl/ScoreReader.cpp')],
     ['ScoreData fields before writing and after reading'])

prop('C16', 'Parts, instruments and part groups keep identity, order and nesting',
     'After writing and reading back, a score has the same parts in the same order with the same ids, names, abbreviations, instrument and playback data and transposition, each part holding its own measures. '
     'Part groups cover the same ranges of parts with the same names, bracket and number, for nested, adjacent and overlapping groups alike, and in the written part list every group start is closed by a stop with its number after its last part.',
     ['inputs'], 'every list of parts and every set of part groups with distinct numbers',
     'one fixed file with part groups and one with instruments',
     [I + 'ScoreWriter.cpp', I + 'ScoreReader.cpp', I + 'PartWriter.cpp', I + 'PartReader.cpp'],
     [('group starts and stops emitted around parts', 'impl/ScoreWriter.cpp'), ('group stack matched by number', 'impl/ScoreReader.cpp')],
     ['ScoreData::parts, partGroups; part-list of the written XML'])

prop('C17', 'Element containers respect their cardinality under every edit history',
     'A required repeated child can never be emptied, a bounded one never exceeds its bound, an optional one can; additions append, removals remove exactly the addressed child, null children are ignored, and looking up past the end gives null. '
     'What is printed is exactly the children held, in order.',
     ['histories'], 'every sequence of add, remove, clear, get and set calls on every repeated child of every element',
     'each element is tested with one or two fixed edits',
     [C + 'elements/'],
     [('addX / removeX / clearXSet guards', 'core/elements/*.cpp')],
     ['mx::core element classes: getXSet, toStream'])

prop('C18', 'A MusicXML document survives the typed element tree',
     'Every document that is valid MusicXML 3.0 is accepted and, when printed again, has the same elements in the same order with the same attributes and text, apart from equivalent spellings of numbers and white space. '
     'Printing what was printed and parsed again changes nothing.',
     ['inputs'], 'every valid document: every element, attribute, choice branch, optional part and repetition the schema allows',
     'a few hundred sample files; most elements, attributes and choice combinations occur in none of them',
     [C + 'elements/', C + 'FromXElement.h', C + 'FromXElement.cpp', C + 'Enums.cpp', 'Sourcecode/private/mx/ezxml/'],
     [('fromXElement / streamContents of each element', 'core/elements/*.cpp')],
     ['mx::core::Document::fromXDoc and toStream'])

prop('C19', 'The XML tree reflects exactly the edits made to it',
     'After any sequence of appending, prepending, inserting and removing elements and attributes and setting names, values, document type and declaration properties, iteration in either direction visits exactly the children and attributes that the edits leave, in order, skipping processing instructions unless asked for. '
     'Saving and loading gives the same tree.',
     ['histories', 'inputs'], 'every sequence of edits and every iteration over the result',
     'the XML layer has no tests of its own in this repository',
     ['Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp', 'Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp', 'Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp', 'Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp'],
     [('wrapper over the pugixml node tree', 'ezxml/src/private/private/')],
     ['ezxml::XDoc, XElement, XAttribute, iterators'])

prop('C20', 'Text of any characters comes back unchanged',
     'Any text of legal XML characters placed in a title, name, word, lyric, credit, id, attribute or font family of a score is found unchanged after the score is written and read back, and the written document is well-formed XML. '
     'Markup characters are escaped wherever they occur.',
     ['inputs'], 'every text of legal XML characters, in every place the score model or the element tree holds text',
     'tests use plain words; no test writes a quotation mark, ampersand or angle bracket in an attribute',
     [C + 'XsString.cpp', C + 'AttributesInterface.h', C + 'CommaSeparatedText.cpp', C + 'ProcessingInstruction.cpp'],
     [('escaping in string and attribute output', 'core/XsString.cpp, core/AttributesInterface.h')],
     ['XML text from writeToStream; ScoreData strings'])

prop('C21', 'A score read from a document reads the same after it is written again',
     'For every document that can be read, writing the score that was read and reading that gives the same score again; writing it a second time gives the same text.',
     ['inputs'], 'every readable document, hand-written or produced by other programs',
     'two sample files are checked this way',
     [I, 'Sourcecode/private/mx/api/DocumentManager.cpp'],
     [('reader and writer are inverse on the score model', 'impl/')],
     ['DocumentManager: getData, createFromScore, writeToStream, createFromStream, getData'])

prop('C22', 'Value types stay in their domain and print what they parse',
     'A bounded number always holds the nearest legal value to what was set, whatever the order of sets and failed parses; a decimal prints the shortest text of its value and parses it back; a date is always a calendar date and adding days or months moves it along the calendar; every name of an enumeration parses to the value that prints as that name and unknown names are refused. ',
     ['histories', 'inputs'], 'every sequence of set, parse and print operations with every value',
     'tests sample a few values per type',
     [C + 'Integers.cpp', C + 'Decimals.cpp', C + 'Date.cpp', C + 'Enums.cpp', C + 'PlaybackSound.cpp'],
     [('clamping setters', 'core/Integers.cpp, core/Decimals.cpp'), ('calendar arithmetic', 'core/Date.cpp'), ('tryParse tables', 'core/Enums.cpp')],
     ['mx::core value types'])

prop('C23', 'Two score values are equal exactly when nothing in them differs',
     'Comparing two scores, or any two parts of scores, gives equal if and only if all their fields are equal; copying gives an equal value that later changes of the original do not affect.',
     ['inputs', 'histories'], 'every pair of score values that differ in any one field at any depth, and copies under any later edits',
     'tests only compare whole values that are expected to be equal',
     [A],
     [('member-wise comparison macros', 'include/mx/api/ApiEquality.h and each data header')],
     ['operator== and operator!= of mx::api types'])

if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            p['statement'] = p['statement'].strip()
            f.write(json.dumps(p) + '\n')
