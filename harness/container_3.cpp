// written by tools/gen_container.py
#include "container.h"
#include "mx/core/elements/Accidental.h"
#include "mx/core/elements/Arrow.h"
#include "mx/core/elements/ArrowGroup.h"
#include "mx/core/elements/Beam.h"
#include "mx/core/elements/BeatType.h"
#include "mx/core/elements/Beater.h"
#include "mx/core/elements/Beats.h"
#include "mx/core/elements/Bend.h"
#include "mx/core/elements/BendAlter.h"
#include "mx/core/elements/BendChoice.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/BottomMargin.h"
#include "mx/core/elements/Chord.h"
#include "mx/core/elements/CircularArrow.h"
#include "mx/core/elements/Credit.h"
#include "mx/core/elements/CreditChoice.h"
#include "mx/core/elements/CreditType.h"
#include "mx/core/elements/Direction.h"
#include "mx/core/elements/DirectionType.h"
#include "mx/core/elements/DisplayStepOctaveGroup.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/Dot.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/EditorialVoiceDirectionGroup.h"
#include "mx/core/elements/EditorialVoiceGroup.h"
#include "mx/core/elements/Effect.h"
#include "mx/core/elements/ElisionSyllabicTextGroup.h"
#include "mx/core/elements/Extend.h"
#include "mx/core/elements/Figure.h"
#include "mx/core/elements/FigureNumber.h"
#include "mx/core/elements/Forward.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/FullNoteTypeChoice.h"
#include "mx/core/elements/Glass.h"
#include "mx/core/elements/Grace.h"
#include "mx/core/elements/GraceNoteGroup.h"
#include "mx/core/elements/GroupNameDisplay.h"
#include "mx/core/elements/Instrument.h"
#include "mx/core/elements/Interchangeable.h"
#include "mx/core/elements/Key.h"
#include "mx/core/elements/KeyAccidental.h"
#include "mx/core/elements/KeyAlter.h"
#include "mx/core/elements/KeyChoice.h"
#include "mx/core/elements/KeyOctave.h"
#include "mx/core/elements/KeyStep.h"
#include "mx/core/elements/LeftMargin.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/Lyric.h"
#include "mx/core/elements/MeasureStyle.h"
#include "mx/core/elements/MeasureStyleChoice.h"
#include "mx/core/elements/Membrane.h"
#include "mx/core/elements/Metal.h"
#include "mx/core/elements/NonTraditionalKey.h"
#include "mx/core/elements/Notations.h"
#include "mx/core/elements/Note.h"
#include "mx/core/elements/NoteChoice.h"
#include "mx/core/elements/Notehead.h"
#include "mx/core/elements/NoteheadText.h"
#include "mx/core/elements/Offset.h"
#include "mx/core/elements/OtherPercussion.h"
#include "mx/core/elements/PageMargins.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartGroupOrScorePart.h"
#include "mx/core/elements/PercussionChoice.h"
#include "mx/core/elements/Pitched.h"
#include "mx/core/elements/Play.h"
#include "mx/core/elements/PreBend.h"
#include "mx/core/elements/Prefix.h"
#include "mx/core/elements/Release.h"
#include "mx/core/elements/Rest.h"
#include "mx/core/elements/RightMargin.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/ScoreTimewise.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/Stem.h"
#include "mx/core/elements/Stick.h"
#include "mx/core/elements/StickLocation.h"
#include "mx/core/elements/StickMaterial.h"
#include "mx/core/elements/StickType.h"
#include "mx/core/elements/Suffix.h"
#include "mx/core/elements/Syllabic.h"
#include "mx/core/elements/SyllabicTextGroup.h"
#include "mx/core/elements/Text.h"
#include "mx/core/elements/Tie.h"
#include "mx/core/elements/TimeModification.h"
#include "mx/core/elements/TimeSignatureGroup.h"
#include "mx/core/elements/TimewiseMeasure.h"
#include "mx/core/elements/Timpani.h"
#include "mx/core/elements/TopMargin.h"
#include "mx/core/elements/Type.h"
#include "mx/core/elements/WithBar.h"
#include "mx/core/elements/Wood.h"
using namespace mx::core;
namespace
{
    cont::Add aArrow( "Arrow", [] { return cont::Build<Arrow>( false )
        .one<ArrowGroup>( "ArrowGroup", true, &Arrow::getArrowGroup, &Arrow::setArrowGroup )
        .one<CircularArrow>( "CircularArrow", false, &Arrow::getCircularArrow, &Arrow::setCircularArrow )
        .choice<Arrow::Choice>( &Arrow::getChoice, &Arrow::setChoice, { { "arrowGroup", Arrow::Choice::arrowGroup }, { "circularArrow", Arrow::Choice::circularArrow } } ).done(); } );
    cont::Add aBend( "Bend", [] { return cont::Build<Bend>( false )
        .one<BendAlter>( "BendAlter", false, &Bend::getBendAlter, &Bend::setBendAlter )
        .one<BendChoice>( "BendChoice", true, &Bend::getBendChoice, &Bend::setBendChoice )
        .one<WithBar>( "WithBar", false, &Bend::getWithBar, &Bend::setWithBar )
        .has( "BendChoice", &Bend::getHasBendChoice, &Bend::setHasBendChoice )
        .has( "WithBar", &Bend::getHasWithBar, &Bend::setHasWithBar ).done(); } );
    cont::Add aBendChoice( "BendChoice", [] { return cont::Build<BendChoice>( true )
        .one<PreBend>( "PreBend", false, &BendChoice::getPreBend, &BendChoice::setPreBend )
        .one<Release>( "Release", false, &BendChoice::getRelease, &BendChoice::setRelease )
        .choice<BendChoice::Choice>( &BendChoice::getChoice, &BendChoice::setChoice, { { "preBend", BendChoice::Choice::preBend }, { "release", BendChoice::Choice::release } } ).done(); } );
    cont::Add aCredit( "Credit", [] { return cont::Build<Credit>( false )
        .many<CreditType>( "CreditType", false, &Credit::addCreditType, &Credit::removeCreditType, &Credit::clearCreditTypeSet, &Credit::getCreditTypeSet, &Credit::getCreditType )
        .many<Link>( "Link", false, &Credit::addLink, &Credit::removeLink, &Credit::clearLinkSet, &Credit::getLinkSet, &Credit::getLink )
        .many<Bookmark>( "Bookmark", false, &Credit::addBookmark, &Credit::removeBookmark, &Credit::clearBookmarkSet, &Credit::getBookmarkSet, &Credit::getBookmark )
        .one<CreditChoice>( "CreditChoice", true, &Credit::getCreditChoice, &Credit::setCreditChoice ).done(); } );
    cont::Add aDirection( "Direction", [] { return cont::Build<Direction>( false )
        .many<DirectionType>( "DirectionType", false, &Direction::addDirectionType, &Direction::removeDirectionType, &Direction::clearDirectionTypeSet, &Direction::getDirectionTypeSet, &Direction::getDirectionType )
        .one<Offset>( "Offset", false, &Direction::getOffset, &Direction::setOffset )
        .one<EditorialVoiceDirectionGroup>( "EditorialVoiceDirectionGroup", true, &Direction::getEditorialVoiceDirectionGroup, &Direction::setEditorialVoiceDirectionGroup )
        .one<Staff>( "Staff", false, &Direction::getStaff, &Direction::setStaff )
        .one<Sound>( "Sound", false, &Direction::getSound, &Direction::setSound )
        .has( "Offset", &Direction::getHasOffset, &Direction::setHasOffset )
        .has( "Sound", &Direction::getHasSound, &Direction::setHasSound )
        .has( "Staff", &Direction::getHasStaff, &Direction::setHasStaff ).done(); } );
    cont::Add aFigure( "Figure", [] { return cont::Build<Figure>( false )
        .one<Prefix>( "Prefix", false, &Figure::getPrefix, &Figure::setPrefix )
        .one<FigureNumber>( "FigureNumber", false, &Figure::getFigureNumber, &Figure::setFigureNumber )
        .one<Suffix>( "Suffix", false, &Figure::getSuffix, &Figure::setSuffix )
        .one<Extend>( "Extend", false, &Figure::getExtend, &Figure::setExtend )
        .has( "Extend", &Figure::getHasExtend, &Figure::setHasExtend )
        .has( "FigureNumber", &Figure::getHasFigureNumber, &Figure::setHasFigureNumber )
        .has( "Prefix", &Figure::getHasPrefix, &Figure::setHasPrefix )
        .has( "Suffix", &Figure::getHasSuffix, &Figure::setHasSuffix ).done(); } );
    cont::Add aForward( "Forward", [] { return cont::Build<Forward>( false )
        .one<Duration>( "Duration", false, &Forward::getDuration, &Forward::setDuration )
        .one<EditorialVoiceGroup>( "EditorialVoiceGroup", true, &Forward::getEditorialVoiceGroup, &Forward::setEditorialVoiceGroup )
        .one<Staff>( "Staff", false, &Forward::getStaff, &Forward::setStaff )
        .has( "Staff", &Forward::getHasStaff, &Forward::setHasStaff ).done(); } );
    cont::Add aFullNoteGroup( "FullNoteGroup", [] { return cont::Build<FullNoteGroup>( true )
        .one<Chord>( "Chord", false, &FullNoteGroup::getChord, &FullNoteGroup::setChord )
        .one<FullNoteTypeChoice>( "FullNoteTypeChoice", true, &FullNoteGroup::getFullNoteTypeChoice, &FullNoteGroup::setFullNoteTypeChoice )
        .has( "Chord", &FullNoteGroup::getHasChord, &FullNoteGroup::setHasChord ).done(); } );
    cont::Add aGraceNoteGroup( "GraceNoteGroup", [] { return cont::Build<GraceNoteGroup>( true )
        .one<Grace>( "Grace", false, &GraceNoteGroup::getGrace, &GraceNoteGroup::setGrace )
        .one<FullNoteGroup>( "FullNoteGroup", true, &GraceNoteGroup::getFullNoteGroup, &GraceNoteGroup::setFullNoteGroup )
        .many<Tie>( "Tie", false, &GraceNoteGroup::addTie, &GraceNoteGroup::removeTie, &GraceNoteGroup::clearTieSet, &GraceNoteGroup::getTieSet, &GraceNoteGroup::getTie ).done(); } );
    cont::Add aGroupNameDisplay( "GroupNameDisplay", [] { return cont::Build<GroupNameDisplay>( false )
        .many<DisplayTextOrAccidentalText>( "DisplayTextOrAccidentalText", true, &GroupNameDisplay::addDisplayTextOrAccidentalText, &GroupNameDisplay::removeDisplayTextOrAccidentalText, &GroupNameDisplay::clearDisplayTextOrAccidentalTextSet, &GroupNameDisplay::getDisplayTextOrAccidentalTextSet, &GroupNameDisplay::getDisplayTextOrAccidentalText ).done(); } );
    cont::Add aKey( "Key", [] { return cont::Build<Key>( false )
        .one<KeyChoice>( "KeyChoice", true, &Key::getKeyChoice, &Key::setKeyChoice )
        .many<KeyOctave>( "KeyOctave", false, &Key::addKeyOctave, &Key::removeKeyOctave, &Key::clearKeyOctaveSet, &Key::getKeyOctaveSet, nullptr ).done(); } );
    cont::Add aMeasureStyle( "MeasureStyle", [] { return cont::Build<MeasureStyle>( false )
        .one<MeasureStyleChoice>( "Choice", true, &MeasureStyle::getMeasureStyleChoice, &MeasureStyle::setMeasureStyleChoice ).done(); } );
    cont::Add aNonTraditionalKey( "NonTraditionalKey", [] { return cont::Build<NonTraditionalKey>( true )
        .one<KeyStep>( "KeyStep", false, &NonTraditionalKey::getKeyStep, &NonTraditionalKey::setKeyStep )
        .one<KeyAlter>( "KeyAlter", false, &NonTraditionalKey::getKeyAlter, &NonTraditionalKey::setKeyAlter )
        .one<KeyAccidental>( "KeyAccidental", false, &NonTraditionalKey::getKeyAccidental, &NonTraditionalKey::setKeyAccidental )
        .has( "KeyAccidental", &NonTraditionalKey::getHasKeyAccidental, &NonTraditionalKey::setHasKeyAccidental ).done(); } );
    cont::Add aNote( "Note", [] { return cont::Build<Note>( false )
        .one<NoteChoice>( "NoteChoice", true, &Note::getNoteChoice, &Note::setNoteChoice )
        .one<Instrument>( "Instrument", false, &Note::getInstrument, &Note::setInstrument )
        .one<EditorialVoiceGroup>( "EditorialVoiceGroup", true, &Note::getEditorialVoiceGroup, &Note::setEditorialVoiceGroup )
        .one<Type>( "Type", false, &Note::getType, &Note::setType )
        .many<Dot>( "Dot", false, &Note::addDot, &Note::removeDot, &Note::clearDotSet, &Note::getDotSet, &Note::getDot )
        .one<Accidental>( "Accidental", false, &Note::getAccidental, &Note::setAccidental )
        .one<TimeModification>( "TimeModification", false, &Note::getTimeModification, &Note::setTimeModification )
        .one<Stem>( "Stem", false, &Note::getStem, &Note::setStem )
        .one<Notehead>( "Notehead", false, &Note::getNotehead, &Note::setNotehead )
        .one<NoteheadText>( "NoteheadText", false, &Note::getNoteheadText, &Note::setNoteheadText )
        .one<Staff>( "Staff", false, &Note::getStaff, &Note::setStaff )
        .many<Beam>( "Beam", false, &Note::addBeam, &Note::removeBeam, &Note::clearBeamSet, &Note::getBeamSet, &Note::getBeam )
        .many<Notations>( "Notations", false, &Note::addNotations, &Note::removeNotations, &Note::clearNotationsSet, &Note::getNotationsSet, &Note::getNotations )
        .many<Lyric>( "Lyric", false, &Note::addLyric, &Note::removeLyric, &Note::clearLyricSet, &Note::getLyricSet, &Note::getLyric )
        .one<Play>( "Play", false, &Note::getPlay, &Note::setPlay )
        .has( "Accidental", &Note::getHasAccidental, &Note::setHasAccidental )
        .has( "Instrument", &Note::getHasInstrument, &Note::setHasInstrument )
        .has( "Notehead", &Note::getHasNotehead, &Note::setHasNotehead )
        .has( "NoteheadText", &Note::getHasNoteheadText, &Note::setHasNoteheadText )
        .has( "Play", &Note::getHasPlay, &Note::setHasPlay )
        .has( "Staff", &Note::getHasStaff, &Note::setHasStaff )
        .has( "Stem", &Note::getHasStem, &Note::setHasStem )
        .has( "TimeModification", &Note::getHasTimeModification, &Note::setHasTimeModification )
        .has( "Type", &Note::getHasType, &Note::setHasType ).done(); } );
    cont::Add aPageMargins( "PageMargins", [] { return cont::Build<PageMargins>( false )
        .one<LeftMargin>( "LeftMargin", false, &PageMargins::getLeftMargin, &PageMargins::setLeftMargin )
        .one<RightMargin>( "RightMargin", false, &PageMargins::getRightMargin, &PageMargins::setRightMargin )
        .one<TopMargin>( "TopMargin", false, &PageMargins::getTopMargin, &PageMargins::setTopMargin )
        .one<BottomMargin>( "BottomMargin", false, &PageMargins::getBottomMargin, &PageMargins::setBottomMargin ).done(); } );
    cont::Add aPartAbbreviationDisplay( "PartAbbreviationDisplay", [] { return cont::Build<PartAbbreviationDisplay>( false )
        .many<DisplayTextOrAccidentalText>( "DisplayTextOrAccidentalText", true, &PartAbbreviationDisplay::addDisplayTextOrAccidentalText, &PartAbbreviationDisplay::removeDisplayTextOrAccidentalText, &PartAbbreviationDisplay::clearDisplayTextOrAccidentalTextSet, &PartAbbreviationDisplay::getDisplayTextOrAccidentalTextSet, &PartAbbreviationDisplay::getDisplayTextOrAccidentalText ).done(); } );
    cont::Add aPartGroupOrScorePart( "PartGroupOrScorePart", [] { return cont::Build<PartGroupOrScorePart>( true )
        .one<PartGroup>( "PartGroup", false, &PartGroupOrScorePart::getPartGroup, &PartGroupOrScorePart::setPartGroup )
        .one<ScorePart>( "ScorePart", false, &PartGroupOrScorePart::getScorePart, &PartGroupOrScorePart::setScorePart )
        .choice<PartGroupOrScorePart::Choice>( &PartGroupOrScorePart::getChoice, &PartGroupOrScorePart::setChoice, { { "partGroup", PartGroupOrScorePart::Choice::partGroup }, { "scorePart", PartGroupOrScorePart::Choice::scorePart } } ).done(); } );
    cont::Add aPercussionChoice( "PercussionChoice", [] { return cont::Build<PercussionChoice>( true )
        .one<Glass>( "Glass", false, &PercussionChoice::getGlass, &PercussionChoice::setGlass )
        .one<Metal>( "Metal", false, &PercussionChoice::getMetal, &PercussionChoice::setMetal )
        .one<Wood>( "Wood", false, &PercussionChoice::getWood, &PercussionChoice::setWood )
        .one<Pitched>( "Pitched", false, &PercussionChoice::getPitched, &PercussionChoice::setPitched )
        .one<Membrane>( "Membrane", false, &PercussionChoice::getMembrane, &PercussionChoice::setMembrane )
        .one<Effect>( "Effect", false, &PercussionChoice::getEffect, &PercussionChoice::setEffect )
        .one<Timpani>( "Timpani", false, &PercussionChoice::getTimpani, &PercussionChoice::setTimpani )
        .one<Beater>( "Beater", false, &PercussionChoice::getBeater, &PercussionChoice::setBeater )
        .one<Stick>( "Stick", false, &PercussionChoice::getStick, &PercussionChoice::setStick )
        .one<StickType>( "StickType", false, &PercussionChoice::getStickType, &PercussionChoice::setStickType )
        .one<StickMaterial>( "StickMaterial", false, &PercussionChoice::getStickMaterial, &PercussionChoice::setStickMaterial )
        .one<StickLocation>( "StickLocation", false, &PercussionChoice::getStickLocation, &PercussionChoice::setStickLocation )
        .one<OtherPercussion>( "OtherPercussion", false, &PercussionChoice::getOtherPercussion, &PercussionChoice::setOtherPercussion )
        .choice<PercussionChoice::Choice>( &PercussionChoice::getChoice, &PercussionChoice::setChoice, { { "glass", PercussionChoice::Choice::glass }, { "metal", PercussionChoice::Choice::metal }, { "wood", PercussionChoice::Choice::wood }, { "pitched", PercussionChoice::Choice::pitched }, { "membrane", PercussionChoice::Choice::membrane }, { "effect", PercussionChoice::Choice::effect }, { "timpani", PercussionChoice::Choice::timpani }, { "beater", PercussionChoice::Choice::beater }, { "stick", PercussionChoice::Choice::stick }, { "stickType", PercussionChoice::Choice::stickType }, { "stickMaterial", PercussionChoice::Choice::stickMaterial }, { "stickLocation", PercussionChoice::Choice::stickLocation }, { "otherPercussion", PercussionChoice::Choice::otherPercussion } } ).done(); } );
    cont::Add aRest( "Rest", [] { return cont::Build<Rest>( false )
        .one<DisplayStepOctaveGroup>( "DisplayStepOctaveGroup", true, &Rest::getDisplayStepOctaveGroup, &Rest::setDisplayStepOctaveGroup )
        .has( "DisplayStepOctaveGroup", &Rest::getHasDisplayStepOctaveGroup, &Rest::setHasDisplayStepOctaveGroup ).done(); } );
    cont::Add aScoreTimewise( "ScoreTimewise", [] { return cont::Build<ScoreTimewise>( false )
        .one<ScoreHeaderGroup>( "ScoreHeaderGroup", true, &ScoreTimewise::getScoreHeaderGroup, &ScoreTimewise::setScoreHeaderGroup )
        .many<TimewiseMeasure>( "TimewiseMeasure", false, &ScoreTimewise::addTimewiseMeasure, &ScoreTimewise::removeTimewiseMeasure, &ScoreTimewise::clearTimewiseMeasureSet, &ScoreTimewise::getTimewiseMeasureSet, &ScoreTimewise::getTimewiseMeasure ).done(); } );
    cont::Add aStick( "Stick", [] { return cont::Build<Stick>( false )
        .one<StickType>( "StickType", false, &Stick::getStickType, &Stick::setStickType )
        .one<StickMaterial>( "StickMaterial", false, &Stick::getStickMaterial, &Stick::setStickMaterial ).done(); } );
    cont::Add aSyllabicTextGroup( "SyllabicTextGroup", [] { return cont::Build<SyllabicTextGroup>( true )
        .one<Syllabic>( "Syllabic", false, &SyllabicTextGroup::getSyllabic, &SyllabicTextGroup::setSyllabic )
        .one<Text>( "Text", false, &SyllabicTextGroup::getText, &SyllabicTextGroup::setText )
        .many<ElisionSyllabicTextGroup>( "ElisionSyllabicTextGroup", true, &SyllabicTextGroup::addElisionSyllabicTextGroup, &SyllabicTextGroup::removeElisionSyllabicTextGroup, &SyllabicTextGroup::clearElisionSyllabicTextGroupSet, &SyllabicTextGroup::getElisionSyllabicTextGroupSet, &SyllabicTextGroup::getElisionSyllabicTextGroup )
        .one<Extend>( "Extend", false, &SyllabicTextGroup::getExtend, &SyllabicTextGroup::setExtend )
        .has( "Extend", &SyllabicTextGroup::getHasExtend, &SyllabicTextGroup::setHasExtend )
        .has( "Syllabic", &SyllabicTextGroup::getHasSyllabic, &SyllabicTextGroup::setHasSyllabic ).done(); } );
    cont::Add aTimeSignatureGroup( "TimeSignatureGroup", [] { return cont::Build<TimeSignatureGroup>( true )
        .one<Beats>( "Beats", false, &TimeSignatureGroup::getBeats, &TimeSignatureGroup::setBeats )
        .one<BeatType>( "BeatType", false, &TimeSignatureGroup::getBeatType, &TimeSignatureGroup::setBeatType )
        .one<Interchangeable>( "Interchangeable", false, &TimeSignatureGroup::getInterchangeable, &TimeSignatureGroup::setInterchangeable )
        .has( "Interchangeable", &TimeSignatureGroup::getHasInterchangeable, &TimeSignatureGroup::setHasInterchangeable ).done(); } );
}
