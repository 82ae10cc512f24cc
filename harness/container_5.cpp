// written by tools/gen_container.py
#include "container.h"
#include "mx/core/elements/AccidentalMark.h"
#include "mx/core/elements/AccidentalText.h"
#include "mx/core/elements/AccordionHigh.h"
#include "mx/core/elements/AccordionLow.h"
#include "mx/core/elements/AccordionMiddle.h"
#include "mx/core/elements/AccordionRegistration.h"
#include "mx/core/elements/ActualNotes.h"
#include "mx/core/elements/Appearance.h"
#include "mx/core/elements/Arpeggiate.h"
#include "mx/core/elements/Articulations.h"
#include "mx/core/elements/Backup.h"
#include "mx/core/elements/Barline.h"
#include "mx/core/elements/BeatUnitPer.h"
#include "mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/Chromatic.h"
#include "mx/core/elements/CreditWords.h"
#include "mx/core/elements/CreditWordsGroup.h"
#include "mx/core/elements/Defaults.h"
#include "mx/core/elements/Diatonic.h"
#include "mx/core/elements/Direction.h"
#include "mx/core/elements/DisplayText.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/Double.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/Dynamics.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EditorialVoiceGroup.h"
#include "mx/core/elements/ElisionSyllabicGroup.h"
#include "mx/core/elements/ElisionSyllabicTextGroup.h"
#include "mx/core/elements/EndLine.h"
#include "mx/core/elements/EndParagraph.h"
#include "mx/core/elements/Ensemble.h"
#include "mx/core/elements/Fermata.h"
#include "mx/core/elements/FiguredBass.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/Forward.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/Glissando.h"
#include "mx/core/elements/GroupAbbreviation.h"
#include "mx/core/elements/GroupAbbreviationDisplay.h"
#include "mx/core/elements/GroupBarline.h"
#include "mx/core/elements/GroupName.h"
#include "mx/core/elements/GroupNameDisplay.h"
#include "mx/core/elements/GroupSymbol.h"
#include "mx/core/elements/GroupTime.h"
#include "mx/core/elements/Grouping.h"
#include "mx/core/elements/Harmony.h"
#include "mx/core/elements/InstrumentAbbreviation.h"
#include "mx/core/elements/InstrumentName.h"
#include "mx/core/elements/InstrumentSound.h"
#include "mx/core/elements/LayoutGroup.h"
#include "mx/core/elements/Level.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/Lyric.h"
#include "mx/core/elements/LyricFont.h"
#include "mx/core/elements/LyricLanguage.h"
#include "mx/core/elements/LyricTextChoice.h"
#include "mx/core/elements/MeasureDistance.h"
#include "mx/core/elements/MeasureLayout.h"
#include "mx/core/elements/MetronomeTuplet.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/MusicFont.h"
#include "mx/core/elements/NonArpeggiate.h"
#include "mx/core/elements/NormalNoteGroup.h"
#include "mx/core/elements/NormalNotes.h"
#include "mx/core/elements/NormalTypeNormalDotGroup.h"
#include "mx/core/elements/NotationsChoice.h"
#include "mx/core/elements/Note.h"
#include "mx/core/elements/NoteRelationNote.h"
#include "mx/core/elements/NoteheadText.h"
#include "mx/core/elements/NoteheadTextChoice.h"
#include "mx/core/elements/OctaveChange.h"
#include "mx/core/elements/Ornaments.h"
#include "mx/core/elements/OtherNotation.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/Percussion.h"
#include "mx/core/elements/PercussionChoice.h"
#include "mx/core/elements/Print.h"
#include "mx/core/elements/Properties.h"
#include "mx/core/elements/Scaling.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScoreInstrument.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/Slide.h"
#include "mx/core/elements/Slur.h"
#include "mx/core/elements/Solo.h"
#include "mx/core/elements/SoloOrEnsembleChoice.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/Technical.h"
#include "mx/core/elements/Text.h"
#include "mx/core/elements/Tie.h"
#include "mx/core/elements/Tied.h"
#include "mx/core/elements/TimeModification.h"
#include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
#include "mx/core/elements/TimewiseMeasure.h"
#include "mx/core/elements/TimewisePart.h"
#include "mx/core/elements/Transpose.h"
#include "mx/core/elements/Tuplet.h"
#include "mx/core/elements/VirtualInstrument.h"
#include "mx/core/elements/Voice.h"
#include "mx/core/elements/WordFont.h"
using namespace mx::core;
namespace
{
    cont::Add aAccordionRegistration( "AccordionRegistration", [] { return cont::Build<AccordionRegistration>( false )
        .one<AccordionHigh>( "AccordionHigh", false, &AccordionRegistration::getAccordionHigh, &AccordionRegistration::setAccordionHigh )
        .one<AccordionMiddle>( "AccordionMiddle", false, &AccordionRegistration::getAccordionMiddle, &AccordionRegistration::setAccordionMiddle )
        .one<AccordionLow>( "AccordionLow", false, &AccordionRegistration::getAccordionLow, &AccordionRegistration::setAccordionLow )
        .has( "AccordionHigh", &AccordionRegistration::getHasAccordionHigh, &AccordionRegistration::setHasAccordionHigh )
        .has( "AccordionLow", &AccordionRegistration::getHasAccordionLow, &AccordionRegistration::setHasAccordionLow )
        .has( "AccordionMiddle", &AccordionRegistration::getHasAccordionMiddle, &AccordionRegistration::setHasAccordionMiddle ).done(); } );
    cont::Add aBeatUnitPerOrNoteRelationNoteChoice( "BeatUnitPerOrNoteRelationNoteChoice", [] { return cont::Build<BeatUnitPerOrNoteRelationNoteChoice>( true )
        .one<BeatUnitPer>( "BeatUnitPer", true, &BeatUnitPerOrNoteRelationNoteChoice::getBeatUnitPer, &BeatUnitPerOrNoteRelationNoteChoice::setBeatUnitPer )
        .one<NoteRelationNote>( "NoteRelationNote", true, &BeatUnitPerOrNoteRelationNoteChoice::getNoteRelationNote, &BeatUnitPerOrNoteRelationNoteChoice::setNoteRelationNote )
        .choice<BeatUnitPerOrNoteRelationNoteChoice::Choice>( &BeatUnitPerOrNoteRelationNoteChoice::getChoice, &BeatUnitPerOrNoteRelationNoteChoice::setChoice, { { "beatUnitPer", BeatUnitPerOrNoteRelationNoteChoice::Choice::beatUnitPer }, { "noteRelationNote", BeatUnitPerOrNoteRelationNoteChoice::Choice::noteRelationNote } } ).done(); } );
    cont::Add aCreditWordsGroup( "CreditWordsGroup", [] { return cont::Build<CreditWordsGroup>( true )
        .many<Link>( "Link", false, &CreditWordsGroup::addLink, &CreditWordsGroup::removeLink, &CreditWordsGroup::clearLinkSet, &CreditWordsGroup::getLinkSet, &CreditWordsGroup::getLink )
        .many<Bookmark>( "Bookmark", false, &CreditWordsGroup::addBookmark, &CreditWordsGroup::removeBookmark, &CreditWordsGroup::clearBookmarkSet, &CreditWordsGroup::getBookmarkSet, &CreditWordsGroup::getBookmark )
        .one<CreditWords>( "CreditWords", false, &CreditWordsGroup::getCreditWords, &CreditWordsGroup::setCreditWords ).done(); } );
    cont::Add aDefaults( "Defaults", [] { return cont::Build<Defaults>( false )
        .one<Scaling>( "Scaling", false, &Defaults::getScaling, &Defaults::setScaling )
        .one<LayoutGroup>( "LayoutGroup", true, &Defaults::getLayoutGroup, &Defaults::setLayoutGroup )
        .one<Appearance>( "Appearance", false, &Defaults::getAppearance, &Defaults::setAppearance )
        .one<MusicFont>( "MusicFont", false, &Defaults::getMusicFont, &Defaults::setMusicFont )
        .one<WordFont>( "WordFont", false, &Defaults::getWordFont, &Defaults::setWordFont )
        .many<LyricFont>( "LyricFont", false, &Defaults::addLyricFont, &Defaults::removeLyricFont, &Defaults::clearLyricFontSet, &Defaults::getLyricFontSet, &Defaults::getLyricFont )
        .many<LyricLanguage>( "LyricLanguage", false, &Defaults::addLyricLanguage, &Defaults::removeLyricLanguage, &Defaults::clearLyricLanguageSet, &Defaults::getLyricLanguageSet, &Defaults::getLyricLanguage )
        .has( "Appearance", &Defaults::getHasAppearance, &Defaults::setHasAppearance )
        .has( "MusicFont", &Defaults::getHasMusicFont, &Defaults::setHasMusicFont )
        .has( "Scaling", &Defaults::getHasScaling, &Defaults::setHasScaling )
        .has( "WordFont", &Defaults::getHasWordFont, &Defaults::setHasWordFont ).done(); } );
    cont::Add aEditorialVoiceGroup( "EditorialVoiceGroup", [] { return cont::Build<EditorialVoiceGroup>( true )
        .one<Footnote>( "Footnote", false, &EditorialVoiceGroup::getFootnote, &EditorialVoiceGroup::setFootnote )
        .one<Level>( "Level", false, &EditorialVoiceGroup::getLevel, &EditorialVoiceGroup::setLevel )
        .one<Voice>( "Voice", false, &EditorialVoiceGroup::getVoice, &EditorialVoiceGroup::setVoice )
        .has( "Footnote", &EditorialVoiceGroup::getHasFootnote, &EditorialVoiceGroup::setHasFootnote )
        .has( "Level", &EditorialVoiceGroup::getHasLevel, &EditorialVoiceGroup::setHasLevel )
        .has( "Voice", &EditorialVoiceGroup::getHasVoice, &EditorialVoiceGroup::setHasVoice ).done(); } );
    cont::Add aElisionSyllabicTextGroup( "ElisionSyllabicTextGroup", [] { return cont::Build<ElisionSyllabicTextGroup>( true )
        .one<ElisionSyllabicGroup>( "ElisionSyllabicGroup", true, &ElisionSyllabicTextGroup::getElisionSyllabicGroup, &ElisionSyllabicTextGroup::setElisionSyllabicGroup )
        .one<Text>( "Text", false, &ElisionSyllabicTextGroup::getText, &ElisionSyllabicTextGroup::setText )
        .has( "ElisionSyllabicGroup", &ElisionSyllabicTextGroup::getHasElisionSyllabicGroup, &ElisionSyllabicTextGroup::setHasElisionSyllabicGroup ).done(); } );
    cont::Add aGroupAbbreviationDisplay( "GroupAbbreviationDisplay", [] { return cont::Build<GroupAbbreviationDisplay>( false )
        .many<DisplayTextOrAccidentalText>( "DisplayTextOrAccidentalText", true, &GroupAbbreviationDisplay::addDisplayTextOrAccidentalText, &GroupAbbreviationDisplay::removeDisplayTextOrAccidentalText, &GroupAbbreviationDisplay::clearDisplayTextOrAccidentalTextSet, &GroupAbbreviationDisplay::getDisplayTextOrAccidentalTextSet, &GroupAbbreviationDisplay::getDisplayTextOrAccidentalText ).done(); } );
    cont::Add aLyric( "Lyric", [] { return cont::Build<Lyric>( false )
        .one<LyricTextChoice>( "LyricTextChoice", true, &Lyric::getLyricTextChoice, &Lyric::setLyricTextChoice )
        .one<EndLine>( "EndLine", false, &Lyric::getEndLine, &Lyric::setEndLine )
        .one<EndParagraph>( "EndParagraph", false, &Lyric::getEndParagraph, &Lyric::setEndParagraph )
        .one<EditorialGroup>( "EditorialGroup", true, &Lyric::getEditorialGroup, &Lyric::setEditorialGroup )
        .has( "EndLine", &Lyric::getHasEndLine, &Lyric::setHasEndLine )
        .has( "EndParagraph", &Lyric::getHasEndParagraph, &Lyric::setHasEndParagraph ).done(); } );
    cont::Add aMeasureLayout( "MeasureLayout", [] { return cont::Build<MeasureLayout>( false )
        .one<MeasureDistance>( "MeasureDistance", false, &MeasureLayout::getMeasureDistance, &MeasureLayout::setMeasureDistance )
        .has( "MeasureDistance", &MeasureLayout::getHasMeasureDistance, &MeasureLayout::setHasMeasureDistance ).done(); } );
    cont::Add aMetronomeTuplet( "MetronomeTuplet", [] { return cont::Build<MetronomeTuplet>( false )
        .one<ActualNotes>( "ActualNotes", false, &MetronomeTuplet::getActualNotes, &MetronomeTuplet::setActualNotes )
        .one<NormalNotes>( "NormalNotes", false, &MetronomeTuplet::getNormalNotes, &MetronomeTuplet::setNormalNotes )
        .one<TimeModificationNormalTypeNormalDot>( "TimeModificationNormalTypeNormalDot", true, &MetronomeTuplet::getTimeModificationNormalTypeNormalDot, &MetronomeTuplet::setTimeModificationNormalTypeNormalDot )
        .has( "TimeModificationNormalTypeNormalDot", &MetronomeTuplet::getHasTimeModificationNormalTypeNormalDot, &MetronomeTuplet::setHasTimeModificationNormalTypeNormalDot ).done(); } );
    cont::Add aMusicDataChoice( "MusicDataChoice", [] { return cont::Build<MusicDataChoice>( true )
        .one<Note>( "Note", false, &MusicDataChoice::getNote, &MusicDataChoice::setNote )
        .one<Backup>( "Backup", false, &MusicDataChoice::getBackup, &MusicDataChoice::setBackup )
        .one<Forward>( "Forward", false, &MusicDataChoice::getForward, &MusicDataChoice::setForward )
        .one<Direction>( "Direction", false, &MusicDataChoice::getDirection, &MusicDataChoice::setDirection )
        .one<Properties>( "Properties", false, &MusicDataChoice::getProperties, &MusicDataChoice::setProperties )
        .one<Harmony>( "Harmony", false, &MusicDataChoice::getHarmony, &MusicDataChoice::setHarmony )
        .one<FiguredBass>( "FiguredBass", false, &MusicDataChoice::getFiguredBass, &MusicDataChoice::setFiguredBass )
        .one<Print>( "Print", false, &MusicDataChoice::getPrint, &MusicDataChoice::setPrint )
        .one<Sound>( "Sound", false, &MusicDataChoice::getSound, &MusicDataChoice::setSound )
        .one<Barline>( "Barline", false, &MusicDataChoice::getBarline, &MusicDataChoice::setBarline )
        .one<Grouping>( "Grouping", false, &MusicDataChoice::getGrouping, &MusicDataChoice::setGrouping )
        .one<Link>( "Link", false, &MusicDataChoice::getLink, &MusicDataChoice::setLink )
        .one<Bookmark>( "Bookmark", false, &MusicDataChoice::getBookmark, &MusicDataChoice::setBookmark )
        .choice<MusicDataChoice::Choice>( &MusicDataChoice::getChoice, &MusicDataChoice::setChoice, { { "note", MusicDataChoice::Choice::note }, { "backup", MusicDataChoice::Choice::backup }, { "forward", MusicDataChoice::Choice::forward }, { "direction", MusicDataChoice::Choice::direction }, { "properties", MusicDataChoice::Choice::properties }, { "harmony", MusicDataChoice::Choice::harmony }, { "figuredBass", MusicDataChoice::Choice::figuredBass }, { "print", MusicDataChoice::Choice::print }, { "sound", MusicDataChoice::Choice::sound }, { "barline", MusicDataChoice::Choice::barline }, { "grouping", MusicDataChoice::Choice::grouping }, { "link", MusicDataChoice::Choice::link }, { "bookmark", MusicDataChoice::Choice::bookmark } } ).done(); } );
    cont::Add aNormalNoteGroup( "NormalNoteGroup", [] { return cont::Build<NormalNoteGroup>( true )
        .one<FullNoteGroup>( "FullNoteGroup", true, &NormalNoteGroup::getFullNoteGroup, &NormalNoteGroup::setFullNoteGroup )
        .one<Duration>( "Duration", false, &NormalNoteGroup::getDuration, &NormalNoteGroup::setDuration )
        .many<Tie>( "Tie", false, &NormalNoteGroup::addTie, &NormalNoteGroup::removeTie, &NormalNoteGroup::clearTieSet, &NormalNoteGroup::getTieSet, &NormalNoteGroup::getTie ).done(); } );
    cont::Add aNotationsChoice( "NotationsChoice", [] { return cont::Build<NotationsChoice>( true )
        .one<Tied>( "Tied", false, &NotationsChoice::getTied, &NotationsChoice::setTied )
        .one<Slur>( "Slur", false, &NotationsChoice::getSlur, &NotationsChoice::setSlur )
        .one<Tuplet>( "Tuplet", false, &NotationsChoice::getTuplet, &NotationsChoice::setTuplet )
        .one<Glissando>( "Glissando", false, &NotationsChoice::getGlissando, &NotationsChoice::setGlissando )
        .one<Slide>( "Slide", false, &NotationsChoice::getSlide, &NotationsChoice::setSlide )
        .one<Ornaments>( "Ornaments", false, &NotationsChoice::getOrnaments, &NotationsChoice::setOrnaments )
        .one<Technical>( "Technical", false, &NotationsChoice::getTechnical, &NotationsChoice::setTechnical )
        .one<Articulations>( "Articulations", false, &NotationsChoice::getArticulations, &NotationsChoice::setArticulations )
        .one<Dynamics>( "Dynamics", false, &NotationsChoice::getDynamics, &NotationsChoice::setDynamics )
        .one<Fermata>( "Fermata", false, &NotationsChoice::getFermata, &NotationsChoice::setFermata )
        .one<Arpeggiate>( "Arpeggiate", false, &NotationsChoice::getArpeggiate, &NotationsChoice::setArpeggiate )
        .one<NonArpeggiate>( "NonArpeggiate", false, &NotationsChoice::getNonArpeggiate, &NotationsChoice::setNonArpeggiate )
        .one<AccidentalMark>( "AccidentalMark", false, &NotationsChoice::getAccidentalMark, &NotationsChoice::setAccidentalMark )
        .one<OtherNotation>( "OtherNotation", false, &NotationsChoice::getOtherNotation, &NotationsChoice::setOtherNotation )
        .choice<NotationsChoice::Choice>( &NotationsChoice::getChoice, &NotationsChoice::setChoice, { { "tied", NotationsChoice::Choice::tied }, { "slur", NotationsChoice::Choice::slur }, { "tuplet", NotationsChoice::Choice::tuplet }, { "glissando", NotationsChoice::Choice::glissando }, { "slide", NotationsChoice::Choice::slide }, { "ornaments", NotationsChoice::Choice::ornaments }, { "technical", NotationsChoice::Choice::technical }, { "articulations", NotationsChoice::Choice::articulations }, { "dynamics", NotationsChoice::Choice::dynamics }, { "fermata", NotationsChoice::Choice::fermata }, { "arpeggiate", NotationsChoice::Choice::arpeggiate }, { "nonArpeggiate", NotationsChoice::Choice::nonArpeggiate }, { "accidentalMark", NotationsChoice::Choice::accidentalMark }, { "otherNotation", NotationsChoice::Choice::otherNotation } } ).done(); } );
    cont::Add aNoteheadText( "NoteheadText", [] { return cont::Build<NoteheadText>( false )
        .many<NoteheadTextChoice>( "NoteheadTextChoice", true, &NoteheadText::addNoteheadTextChoice, &NoteheadText::removeNoteheadTextChoice, &NoteheadText::clearNoteheadTextChoiceSet, &NoteheadText::getNoteheadTextChoiceSet, &NoteheadText::getNoteheadTextChoice ).done(); } );
    cont::Add aNoteheadTextChoice( "NoteheadTextChoice", [] { return cont::Build<NoteheadTextChoice>( true )
        .one<DisplayText>( "DisplayText", false, &NoteheadTextChoice::getDisplayText, &NoteheadTextChoice::setDisplayText )
        .one<AccidentalText>( "AccidentalText", false, &NoteheadTextChoice::getAccidentalText, &NoteheadTextChoice::setAccidentalText )
        .choice<NoteheadTextChoice::Choice>( &NoteheadTextChoice::getChoice, &NoteheadTextChoice::setChoice, { { "displayText", NoteheadTextChoice::Choice::displayText }, { "accidentalText", NoteheadTextChoice::Choice::accidentalText } } ).done(); } );
    cont::Add aPartGroup( "PartGroup", [] { return cont::Build<PartGroup>( false )
        .one<GroupName>( "GroupName", false, &PartGroup::getGroupName, &PartGroup::setGroupName )
        .one<GroupNameDisplay>( "GroupNameDisplay", false, &PartGroup::getGroupNameDisplay, &PartGroup::setGroupNameDisplay )
        .one<GroupAbbreviation>( "GroupAbbreviation", false, &PartGroup::getGroupAbbreviation, &PartGroup::setGroupAbbreviation )
        .one<GroupAbbreviationDisplay>( "GroupAbbreviationDisplay", false, &PartGroup::getGroupAbbreviationDisplay, &PartGroup::setGroupAbbreviationDisplay )
        .one<GroupSymbol>( "GroupSymbol", false, &PartGroup::getGroupSymbol, &PartGroup::setGroupSymbol )
        .one<GroupBarline>( "GroupBarline", false, &PartGroup::getGroupBarline, &PartGroup::setGroupBarline )
        .one<GroupTime>( "GroupTime", false, &PartGroup::getGroupTime, &PartGroup::setGroupTime )
        .one<EditorialGroup>( "EditorialGroup", true, &PartGroup::getEditorialGroup, &PartGroup::setEditorialGroup )
        .has( "GroupAbbreviation", &PartGroup::getHasGroupAbbreviation, &PartGroup::setHasGroupAbbreviation )
        .has( "GroupAbbreviationDisplay", &PartGroup::getHasGroupAbbreviationDisplay, &PartGroup::setHasGroupAbbreviationDisplay )
        .has( "GroupBarline", &PartGroup::getHasGroupBarline, &PartGroup::setHasGroupBarline )
        .has( "GroupName", &PartGroup::getHasGroupName, &PartGroup::setHasGroupName )
        .has( "GroupNameDisplay", &PartGroup::getHasGroupNameDisplay, &PartGroup::setHasGroupNameDisplay )
        .has( "GroupSymbol", &PartGroup::getHasGroupSymbol, &PartGroup::setHasGroupSymbol )
        .has( "GroupTime", &PartGroup::getHasGroupTime, &PartGroup::setHasGroupTime ).done(); } );
    cont::Add aPercussion( "Percussion", [] { return cont::Build<Percussion>( false )
        .one<PercussionChoice>( "Choice", true, &Percussion::getPercussionChoice, &Percussion::setPercussionChoice ).done(); } );
    cont::Add aScoreInstrument( "ScoreInstrument", [] { return cont::Build<ScoreInstrument>( false )
        .one<InstrumentName>( "InstrumentName", false, &ScoreInstrument::getInstrumentName, &ScoreInstrument::setInstrumentName )
        .one<InstrumentAbbreviation>( "InstrumentAbbreviation", false, &ScoreInstrument::getInstrumentAbbreviation, &ScoreInstrument::setInstrumentAbbreviation )
        .one<InstrumentSound>( "InstrumentSound", false, &ScoreInstrument::getInstrumentSound, &ScoreInstrument::setInstrumentSound )
        .one<SoloOrEnsembleChoice>( "SoloOrEnsembleChoice", true, &ScoreInstrument::getSoloOrEnsembleChoice, &ScoreInstrument::setSoloOrEnsembleChoice )
        .one<VirtualInstrument>( "VirtualInstrument", false, &ScoreInstrument::getVirtualInstrument, &ScoreInstrument::setVirtualInstrument )
        .has( "InstrumentAbbreviation", &ScoreInstrument::getHasInstrumentAbbreviation, &ScoreInstrument::setHasInstrumentAbbreviation )
        .has( "InstrumentSound", &ScoreInstrument::getHasInstrumentSound, &ScoreInstrument::setHasInstrumentSound )
        .has( "SoloOrEnsembleChoice", &ScoreInstrument::getHasSoloOrEnsembleChoice, &ScoreInstrument::setHasSoloOrEnsembleChoice )
        .has( "VirtualInstrument", &ScoreInstrument::getHasVirtualInstrument, &ScoreInstrument::setHasVirtualInstrument ).done(); } );
    cont::Add aScorePartwise( "ScorePartwise", [] { return cont::Build<ScorePartwise>( false )
        .one<ScoreHeaderGroup>( "ScoreHeaderGroup", true, &ScorePartwise::getScoreHeaderGroup, &ScorePartwise::setScoreHeaderGroup )
        .many<PartwisePart>( "PartwisePart", false, &ScorePartwise::addPartwisePart, &ScorePartwise::removePartwisePart, &ScorePartwise::clearPartwisePartSet, &ScorePartwise::getPartwisePartSet, &ScorePartwise::getPartwisePart ).done(); } );
    cont::Add aSoloOrEnsembleChoice( "SoloOrEnsembleChoice", [] { return cont::Build<SoloOrEnsembleChoice>( true )
        .one<Solo>( "Solo", false, &SoloOrEnsembleChoice::getSolo, &SoloOrEnsembleChoice::setSolo )
        .one<Ensemble>( "Ensemble", false, &SoloOrEnsembleChoice::getEnsemble, &SoloOrEnsembleChoice::setEnsemble )
        .choice<SoloOrEnsembleChoice::Choice>( &SoloOrEnsembleChoice::getChoice, &SoloOrEnsembleChoice::setChoice, { { "solo", SoloOrEnsembleChoice::Choice::solo }, { "ensemble", SoloOrEnsembleChoice::Choice::ensemble } } ).done(); } );
    cont::Add aTimeModification( "TimeModification", [] { return cont::Build<TimeModification>( false )
        .one<ActualNotes>( "ActualNotes", false, &TimeModification::getActualNotes, &TimeModification::setActualNotes )
        .one<NormalNotes>( "NormalNotes", false, &TimeModification::getNormalNotes, &TimeModification::setNormalNotes )
        .one<NormalTypeNormalDotGroup>( "NormalTypeNormalDotGroup", true, &TimeModification::getNormalTypeNormalDotGroup, &TimeModification::setNormalTypeNormalDotGroup )
        .has( "NormalTypeNormalDotGroup", &TimeModification::getHasNormalTypeNormalDotGroup, &TimeModification::setHasNormalTypeNormalDotGroup ).done(); } );
    cont::Add aTimewiseMeasure( "TimewiseMeasure", [] { return cont::Build<TimewiseMeasure>( false )
        .many<TimewisePart>( "TimewisePart", false, &TimewiseMeasure::addTimewisePart, &TimewiseMeasure::removeTimewisePart, &TimewiseMeasure::clearTimewisePartSet, &TimewiseMeasure::getTimewisePartSet, &TimewiseMeasure::getTimewisePart ).done(); } );
    cont::Add aTranspose( "Transpose", [] { return cont::Build<Transpose>( false )
        .one<Diatonic>( "Diatonic", false, &Transpose::getDiatonic, &Transpose::setDiatonic )
        .one<Chromatic>( "Chromatic", false, &Transpose::getChromatic, &Transpose::setChromatic )
        .one<OctaveChange>( "OctaveChange", false, &Transpose::getOctaveChange, &Transpose::setOctaveChange )
        .one<Double>( "Double", false, &Transpose::getDouble, &Transpose::setDouble )
        .has( "Diatonic", &Transpose::getHasDiatonic, &Transpose::setHasDiatonic )
        .has( "Double", &Transpose::getHasDouble, &Transpose::setHasDouble )
        .has( "OctaveChange", &Transpose::getHasOctaveChange, &Transpose::setHasOctaveChange ).done(); } );
}
