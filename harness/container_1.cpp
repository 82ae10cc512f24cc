// written by tools/gen_container.py
#include "container.h"
#include "mx/core/elements/Arrow.h"
#include "mx/core/elements/ArrowDirection.h"
#include "mx/core/elements/ArrowGroup.h"
#include "mx/core/elements/ArrowStyle.h"
#include "mx/core/elements/Barre.h"
#include "mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.h"
#include "mx/core/elements/Bend.h"
#include "mx/core/elements/Cancel.h"
#include "mx/core/elements/Capo.h"
#include "mx/core/elements/Clef.h"
#include "mx/core/elements/ClefOctaveChange.h"
#include "mx/core/elements/Creator.h"
#include "mx/core/elements/CueNoteGroup.h"
#include "mx/core/elements/DisplayOctave.h"
#include "mx/core/elements/DisplayStep.h"
#include "mx/core/elements/DisplayStepOctaveGroup.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/DoubleTongue.h"
#include "mx/core/elements/DownBow.h"
#include "mx/core/elements/Elevation.h"
#include "mx/core/elements/Encoding.h"
#include "mx/core/elements/Feature.h"
#include "mx/core/elements/Fifths.h"
#include "mx/core/elements/Fingering.h"
#include "mx/core/elements/Fingernails.h"
#include "mx/core/elements/FrameNote.h"
#include "mx/core/elements/Fret.h"
#include "mx/core/elements/FullNoteTypeChoice.h"
#include "mx/core/elements/GraceNoteGroup.h"
#include "mx/core/elements/Grouping.h"
#include "mx/core/elements/HammerOn.h"
#include "mx/core/elements/Handbell.h"
#include "mx/core/elements/Harmonic.h"
#include "mx/core/elements/HarmonicInfoChoice.h"
#include "mx/core/elements/HarmonicTypeChoice.h"
#include "mx/core/elements/Heel.h"
#include "mx/core/elements/Hole.h"
#include "mx/core/elements/Identification.h"
#include "mx/core/elements/Ipa.h"
#include "mx/core/elements/KeyChoice.h"
#include "mx/core/elements/LayoutGroup.h"
#include "mx/core/elements/LeftDivider.h"
#include "mx/core/elements/Line.h"
#include "mx/core/elements/MeasureLayout.h"
#include "mx/core/elements/MeasureNumbering.h"
#include "mx/core/elements/Metronome.h"
#include "mx/core/elements/MidiBank.h"
#include "mx/core/elements/MidiChannel.h"
#include "mx/core/elements/MidiInstrument.h"
#include "mx/core/elements/MidiName.h"
#include "mx/core/elements/MidiProgram.h"
#include "mx/core/elements/MidiUnpitched.h"
#include "mx/core/elements/Miscellaneous.h"
#include "mx/core/elements/Mode.h"
#include "mx/core/elements/Mute.h"
#include "mx/core/elements/NonTraditionalKey.h"
#include "mx/core/elements/NormalNoteGroup.h"
#include "mx/core/elements/NoteChoice.h"
#include "mx/core/elements/OpenString.h"
#include "mx/core/elements/OtherPlay.h"
#include "mx/core/elements/OtherTechnical.h"
#include "mx/core/elements/PageLayout.h"
#include "mx/core/elements/Pan.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartNameDisplay.h"
#include "mx/core/elements/PedalAlter.h"
#include "mx/core/elements/PedalStep.h"
#include "mx/core/elements/PedalTuning.h"
#include "mx/core/elements/Pitch.h"
#include "mx/core/elements/Play.h"
#include "mx/core/elements/Pluck.h"
#include "mx/core/elements/Print.h"
#include "mx/core/elements/PullOff.h"
#include "mx/core/elements/Relation.h"
#include "mx/core/elements/Rest.h"
#include "mx/core/elements/RightDivider.h"
#include "mx/core/elements/Rights.h"
#include "mx/core/elements/SemiPitched.h"
#include "mx/core/elements/Sign.h"
#include "mx/core/elements/Slash.h"
#include "mx/core/elements/SlashDot.h"
#include "mx/core/elements/SlashType.h"
#include "mx/core/elements/SnapPizzicato.h"
#include "mx/core/elements/Source.h"
#include "mx/core/elements/StaffDetails.h"
#include "mx/core/elements/StaffLayout.h"
#include "mx/core/elements/StaffLines.h"
#include "mx/core/elements/StaffSize.h"
#include "mx/core/elements/StaffTuning.h"
#include "mx/core/elements/StaffType.h"
#include "mx/core/elements/Stopped.h"
#include "mx/core/elements/String.h"
#include "mx/core/elements/SystemDividers.h"
#include "mx/core/elements/SystemLayout.h"
#include "mx/core/elements/Tap.h"
#include "mx/core/elements/TechnicalChoice.h"
#include "mx/core/elements/ThumbPosition.h"
#include "mx/core/elements/Time.h"
#include "mx/core/elements/TimeChoice.h"
#include "mx/core/elements/Toe.h"
#include "mx/core/elements/TraditionalKey.h"
#include "mx/core/elements/TripleTongue.h"
#include "mx/core/elements/Unpitched.h"
#include "mx/core/elements/UpBow.h"
#include "mx/core/elements/Volume.h"
using namespace mx::core;
namespace
{
    cont::Add aArrowGroup( "ArrowGroup", [] { return cont::Build<ArrowGroup>( true )
        .one<ArrowDirection>( "ArrowDirection", false, &ArrowGroup::getArrowDirection, &ArrowGroup::setArrowDirection )
        .one<ArrowStyle>( "ArrowStyle", false, &ArrowGroup::getArrowStyle, &ArrowGroup::setArrowStyle )
        .has( "ArrowStyle", &ArrowGroup::getHasArrowStyle, &ArrowGroup::setHasArrowStyle ).done(); } );
    cont::Add aClef( "Clef", [] { return cont::Build<Clef>( false )
        .one<Sign>( "Sign", false, &Clef::getSign, &Clef::setSign )
        .one<Line>( "Line", false, &Clef::getLine, &Clef::setLine )
        .one<ClefOctaveChange>( "ClefOctaveChange", false, &Clef::getClefOctaveChange, &Clef::setClefOctaveChange )
        .has( "ClefOctaveChange", &Clef::getHasClefOctaveChange, &Clef::setHasClefOctaveChange )
        .has( "Line", &Clef::getHasLine, &Clef::setHasLine ).done(); } );
    cont::Add aDisplayStepOctaveGroup( "DisplayStepOctaveGroup", [] { return cont::Build<DisplayStepOctaveGroup>( true )
        .one<DisplayStep>( "DisplayStep", false, &DisplayStepOctaveGroup::getDisplayStep, &DisplayStepOctaveGroup::setDisplayStep )
        .one<DisplayOctave>( "DisplayOctave", false, &DisplayStepOctaveGroup::getDisplayOctave, &DisplayStepOctaveGroup::setDisplayOctave ).done(); } );
    cont::Add aFrameNote( "FrameNote", [] { return cont::Build<FrameNote>( false )
        .one<String>( "String", false, &FrameNote::getString, &FrameNote::setString )
        .one<Fret>( "Fret", false, &FrameNote::getFret, &FrameNote::setFret )
        .one<Fingering>( "Fingering", false, &FrameNote::getFingering, &FrameNote::setFingering )
        .one<Barre>( "Barre", false, &FrameNote::getBarre, &FrameNote::setBarre )
        .has( "Barre", &FrameNote::getHasBarre, &FrameNote::setHasBarre )
        .has( "Fingering", &FrameNote::getHasFingering, &FrameNote::setHasFingering ).done(); } );
    cont::Add aFullNoteTypeChoice( "FullNoteTypeChoice", [] { return cont::Build<FullNoteTypeChoice>( true )
        .one<Pitch>( "Pitch", false, &FullNoteTypeChoice::getPitch, &FullNoteTypeChoice::setPitch )
        .one<Unpitched>( "Unpitched", false, &FullNoteTypeChoice::getUnpitched, &FullNoteTypeChoice::setUnpitched )
        .one<Rest>( "Rest", false, &FullNoteTypeChoice::getRest, &FullNoteTypeChoice::setRest )
        .choice<FullNoteTypeChoice::Choice>( &FullNoteTypeChoice::getChoice, &FullNoteTypeChoice::setChoice, { { "pitch", FullNoteTypeChoice::Choice::pitch }, { "unpitched", FullNoteTypeChoice::Choice::unpitched }, { "rest", FullNoteTypeChoice::Choice::rest } } ).done(); } );
    cont::Add aGrouping( "Grouping", [] { return cont::Build<Grouping>( false )
        .many<Feature>( "Feature", false, &Grouping::addFeature, &Grouping::removeFeature, &Grouping::clearFeatureSet, &Grouping::getFeatureSet, &Grouping::getFeature ).done(); } );
    cont::Add aHarmonic( "Harmonic", [] { return cont::Build<Harmonic>( false )
        .one<HarmonicTypeChoice>( "HarmonicTypeChoice", true, &Harmonic::getHarmonicTypeChoice, &Harmonic::setHarmonicTypeChoice )
        .one<HarmonicInfoChoice>( "HarmonicInfoChoice", true, &Harmonic::getHarmonicInfoChoice, &Harmonic::setHarmonicInfoChoice )
        .has( "HarmonicInfoChoice", &Harmonic::getHasHarmonicInfoChoice, &Harmonic::setHasHarmonicInfoChoice )
        .has( "HarmonicTypeChoice", &Harmonic::getHasHarmonicTypeChoice, &Harmonic::setHasHarmonicTypeChoice ).done(); } );
    cont::Add aIdentification( "Identification", [] { return cont::Build<Identification>( false )
        .many<Creator>( "Creator", false, &Identification::addCreator, &Identification::removeCreator, &Identification::clearCreatorSet, &Identification::getCreatorSet, &Identification::getCreator )
        .many<Rights>( "Rights", false, &Identification::addRights, &Identification::removeRights, &Identification::clearRightsSet, &Identification::getRightsSet, &Identification::getRights )
        .one<Encoding>( "Encoding", false, &Identification::getEncoding, &Identification::setEncoding )
        .one<Source>( "Source", false, &Identification::getSource, &Identification::setSource )
        .many<Relation>( "Relation", false, &Identification::addRelation, &Identification::removeRelation, &Identification::clearRelationSet, &Identification::getRelationSet, &Identification::getRelation )
        .one<Miscellaneous>( "Miscellaneous", false, &Identification::getMiscellaneous, &Identification::setMiscellaneous )
        .has( "Encoding", &Identification::getHasEncoding, &Identification::setHasEncoding )
        .has( "Miscellaneous", &Identification::getHasMiscellaneous, &Identification::setHasMiscellaneous )
        .has( "Source", &Identification::getHasSource, &Identification::setHasSource ).done(); } );
    cont::Add aKeyChoice( "KeyChoice", [] { return cont::Build<KeyChoice>( true )
        .one<TraditionalKey>( "TraditionalKey", true, &KeyChoice::getTraditionalKey, &KeyChoice::setTraditionalKey )
        .many<NonTraditionalKey>( "NonTraditionalKey", true, &KeyChoice::addNonTraditionalKey, &KeyChoice::removeNonTraditionalKey, &KeyChoice::clearNonTraditionalKeySet, &KeyChoice::getNonTraditionalKeySet, nullptr )
        .choice<KeyChoice::Choice>( &KeyChoice::getChoice, &KeyChoice::setChoice, { { "traditionalKey", KeyChoice::Choice::traditionalKey }, { "nonTraditionalKey", KeyChoice::Choice::nonTraditionalKey } } ).done(); } );
    cont::Add aLayoutGroup( "LayoutGroup", [] { return cont::Build<LayoutGroup>( true )
        .one<PageLayout>( "PageLayout", false, &LayoutGroup::getPageLayout, &LayoutGroup::setPageLayout )
        .one<SystemLayout>( "SystemLayout", false, &LayoutGroup::getSystemLayout, &LayoutGroup::setSystemLayout )
        .many<StaffLayout>( "StaffLayout", false, &LayoutGroup::addStaffLayout, &LayoutGroup::removeStaffLayout, &LayoutGroup::clearStaffLayoutSet, &LayoutGroup::getStaffLayoutSet, &LayoutGroup::getStaffLayout )
        .has( "PageLayout", &LayoutGroup::getHasPageLayout, &LayoutGroup::setHasPageLayout )
        .has( "SystemLayout", &LayoutGroup::getHasSystemLayout, &LayoutGroup::setHasSystemLayout ).done(); } );
    cont::Add aMetronome( "Metronome", [] { return cont::Build<Metronome>( false )
        .one<BeatUnitPerOrNoteRelationNoteChoice>( "BeatUnitPerOrNoteRelationNoteChoice", true, &Metronome::getBeatUnitPerOrNoteRelationNoteChoice, &Metronome::setBeatUnitPerOrNoteRelationNoteChoice ).done(); } );
    cont::Add aMidiInstrument( "MidiInstrument", [] { return cont::Build<MidiInstrument>( false )
        .one<MidiChannel>( "MidiChannel", false, &MidiInstrument::getMidiChannel, &MidiInstrument::setMidiChannel )
        .one<MidiName>( "MidiName", false, &MidiInstrument::getMidiName, &MidiInstrument::setMidiName )
        .one<MidiBank>( "MidiBank", false, &MidiInstrument::getMidiBank, &MidiInstrument::setMidiBank )
        .one<MidiProgram>( "MidiProgram", false, &MidiInstrument::getMidiProgram, &MidiInstrument::setMidiProgram )
        .one<MidiUnpitched>( "MidiUnpitched", false, &MidiInstrument::getMidiUnpitched, &MidiInstrument::setMidiUnpitched )
        .one<Volume>( "Volume", false, &MidiInstrument::getVolume, &MidiInstrument::setVolume )
        .one<Pan>( "Pan", false, &MidiInstrument::getPan, &MidiInstrument::setPan )
        .one<Elevation>( "Elevation", false, &MidiInstrument::getElevation, &MidiInstrument::setElevation )
        .has( "Elevation", &MidiInstrument::getHasElevation, &MidiInstrument::setHasElevation )
        .has( "MidiBank", &MidiInstrument::getHasMidiBank, &MidiInstrument::setHasMidiBank )
        .has( "MidiChannel", &MidiInstrument::getHasMidiChannel, &MidiInstrument::setHasMidiChannel )
        .has( "MidiName", &MidiInstrument::getHasMidiName, &MidiInstrument::setHasMidiName )
        .has( "MidiProgram", &MidiInstrument::getHasMidiProgram, &MidiInstrument::setHasMidiProgram )
        .has( "MidiUnpitched", &MidiInstrument::getHasMidiUnpitched, &MidiInstrument::setHasMidiUnpitched )
        .has( "Pan", &MidiInstrument::getHasPan, &MidiInstrument::setHasPan )
        .has( "Volume", &MidiInstrument::getHasVolume, &MidiInstrument::setHasVolume ).done(); } );
    cont::Add aNoteChoice( "NoteChoice", [] { return cont::Build<NoteChoice>( true )
        .one<GraceNoteGroup>( "GraceNoteGroup", true, &NoteChoice::getGraceNoteGroup, &NoteChoice::setGraceNoteGroup )
        .one<CueNoteGroup>( "CueNoteGroup", true, &NoteChoice::getCueNoteGroup, &NoteChoice::setCueNoteGroup )
        .one<NormalNoteGroup>( "NormalNoteGroup", true, &NoteChoice::getNormalNoteGroup, &NoteChoice::setNormalNoteGroup )
        .choice<NoteChoice::Choice>( &NoteChoice::getChoice, &NoteChoice::setChoice, { { "grace", NoteChoice::Choice::grace }, { "cue", NoteChoice::Choice::cue }, { "normal", NoteChoice::Choice::normal } } ).done(); } );
    cont::Add aPartNameDisplay( "PartNameDisplay", [] { return cont::Build<PartNameDisplay>( false )
        .many<DisplayTextOrAccidentalText>( "DisplayTextOrAccidentalText", true, &PartNameDisplay::addDisplayTextOrAccidentalText, &PartNameDisplay::removeDisplayTextOrAccidentalText, &PartNameDisplay::clearDisplayTextOrAccidentalTextSet, &PartNameDisplay::getDisplayTextOrAccidentalTextSet, &PartNameDisplay::getDisplayTextOrAccidentalText ).done(); } );
    cont::Add aPedalTuning( "PedalTuning", [] { return cont::Build<PedalTuning>( false )
        .one<PedalStep>( "PedalStep", false, &PedalTuning::getPedalStep, &PedalTuning::setPedalStep )
        .one<PedalAlter>( "PedalAlter", false, &PedalTuning::getPedalAlter, &PedalTuning::setPedalAlter ).done(); } );
    cont::Add aPlay( "Play", [] { return cont::Build<Play>( false )
        .one<Ipa>( "Ipa", false, &Play::getIpa, &Play::setIpa )
        .one<Mute>( "Mute", false, &Play::getMute, &Play::setMute )
        .one<SemiPitched>( "SemiPitched", false, &Play::getSemiPitched, &Play::setSemiPitched )
        .one<OtherPlay>( "OtherPlay", false, &Play::getOtherPlay, &Play::setOtherPlay )
        .choice<Play::Choice>( &Play::getChoice, &Play::setChoice, { { "ipa", Play::Choice::ipa }, { "mute", Play::Choice::mute }, { "semiPitched", Play::Choice::semiPitched }, { "otherPlay", Play::Choice::otherPlay } } ).done(); } );
    cont::Add aPrint( "Print", [] { return cont::Build<Print>( false )
        .one<LayoutGroup>( "LayoutGroup", true, &Print::getLayoutGroup, &Print::setLayoutGroup )
        .one<MeasureLayout>( "MeasureLayout", false, &Print::getMeasureLayout, &Print::setMeasureLayout )
        .one<MeasureNumbering>( "MeasureNumbering", false, &Print::getMeasureNumbering, &Print::setMeasureNumbering )
        .one<PartNameDisplay>( "PartNameDisplay", false, &Print::getPartNameDisplay, &Print::setPartNameDisplay )
        .one<PartAbbreviationDisplay>( "PartAbbreviationDisplay", false, &Print::getPartAbbreviationDisplay, &Print::setPartAbbreviationDisplay )
        .has( "MeasureLayout", &Print::getHasMeasureLayout, &Print::setHasMeasureLayout )
        .has( "MeasureNumbering", &Print::getHasMeasureNumbering, &Print::setHasMeasureNumbering )
        .has( "PartAbbreviationDisplay", &Print::getHasPartAbbreviationDisplay, &Print::setHasPartAbbreviationDisplay )
        .has( "PartNameDisplay", &Print::getHasPartNameDisplay, &Print::setHasPartNameDisplay ).done(); } );
    cont::Add aSlash( "Slash", [] { return cont::Build<Slash>( false )
        .one<SlashType>( "SlashType", false, &Slash::getSlashType, &Slash::setSlashType )
        .many<SlashDot>( "SlashDot", false, &Slash::addSlashDot, &Slash::removeSlashDot, &Slash::clearSlashDotSet, &Slash::getSlashDotSet, nullptr ).done(); } );
    cont::Add aStaffDetails( "StaffDetails", [] { return cont::Build<StaffDetails>( false )
        .one<StaffType>( "StaffType", false, &StaffDetails::getStaffType, &StaffDetails::setStaffType )
        .one<StaffLines>( "StaffLines", false, &StaffDetails::getStaffLines, &StaffDetails::setStaffLines )
        .many<StaffTuning>( "StaffTuning", false, &StaffDetails::addStaffTuning, &StaffDetails::removeStaffTuning, &StaffDetails::clearStaffTuningSet, &StaffDetails::getStaffTuningSet, nullptr )
        .one<Capo>( "Capo", false, &StaffDetails::getCapo, &StaffDetails::setCapo )
        .one<StaffSize>( "StaffSize", false, &StaffDetails::getStaffSize, &StaffDetails::setStaffSize )
        .has( "Capo", &StaffDetails::getHasCapo, &StaffDetails::setHasCapo )
        .has( "StaffLines", &StaffDetails::getHasStaffLines, &StaffDetails::setHasStaffLines )
        .has( "StaffSize", &StaffDetails::getHasStaffSize, &StaffDetails::setHasStaffSize )
        .has( "StaffType", &StaffDetails::getHasStaffType, &StaffDetails::setHasStaffType ).done(); } );
    cont::Add aSystemDividers( "SystemDividers", [] { return cont::Build<SystemDividers>( false )
        .one<LeftDivider>( "LeftDivider", false, &SystemDividers::getLeftDivider, &SystemDividers::setLeftDivider )
        .one<RightDivider>( "RightDivider", false, &SystemDividers::getRightDivider, &SystemDividers::setRightDivider ).done(); } );
    cont::Add aTechnicalChoice( "TechnicalChoice", [] { return cont::Build<TechnicalChoice>( true )
        .one<UpBow>( "UpBow", false, &TechnicalChoice::getUpBow, &TechnicalChoice::setUpBow )
        .one<DownBow>( "DownBow", false, &TechnicalChoice::getDownBow, &TechnicalChoice::setDownBow )
        .one<Harmonic>( "Harmonic", false, &TechnicalChoice::getHarmonic, &TechnicalChoice::setHarmonic )
        .one<OpenString>( "OpenString", false, &TechnicalChoice::getOpenString, &TechnicalChoice::setOpenString )
        .one<ThumbPosition>( "ThumbPosition", false, &TechnicalChoice::getThumbPosition, &TechnicalChoice::setThumbPosition )
        .one<Fingering>( "Fingering", false, &TechnicalChoice::getFingering, &TechnicalChoice::setFingering )
        .one<Pluck>( "Pluck", false, &TechnicalChoice::getPluck, &TechnicalChoice::setPluck )
        .one<DoubleTongue>( "DoubleTongue", false, &TechnicalChoice::getDoubleTongue, &TechnicalChoice::setDoubleTongue )
        .one<TripleTongue>( "TripleTongue", false, &TechnicalChoice::getTripleTongue, &TechnicalChoice::setTripleTongue )
        .one<Stopped>( "Stopped", false, &TechnicalChoice::getStopped, &TechnicalChoice::setStopped )
        .one<SnapPizzicato>( "SnapPizzicato", false, &TechnicalChoice::getSnapPizzicato, &TechnicalChoice::setSnapPizzicato )
        .one<Fret>( "Fret", false, &TechnicalChoice::getFret, &TechnicalChoice::setFret )
        .one<String>( "String", false, &TechnicalChoice::getString, &TechnicalChoice::setString )
        .one<HammerOn>( "HammerOn", false, &TechnicalChoice::getHammerOn, &TechnicalChoice::setHammerOn )
        .one<PullOff>( "PullOff", false, &TechnicalChoice::getPullOff, &TechnicalChoice::setPullOff )
        .one<Bend>( "Bend", false, &TechnicalChoice::getBend, &TechnicalChoice::setBend )
        .one<Tap>( "Tap", false, &TechnicalChoice::getTap, &TechnicalChoice::setTap )
        .one<Heel>( "Heel", false, &TechnicalChoice::getHeel, &TechnicalChoice::setHeel )
        .one<Toe>( "Toe", false, &TechnicalChoice::getToe, &TechnicalChoice::setToe )
        .one<Fingernails>( "Fingernails", false, &TechnicalChoice::getFingernails, &TechnicalChoice::setFingernails )
        .one<Hole>( "Hole", false, &TechnicalChoice::getHole, &TechnicalChoice::setHole )
        .one<Arrow>( "Arrow", false, &TechnicalChoice::getArrow, &TechnicalChoice::setArrow )
        .one<Handbell>( "Handbell", false, &TechnicalChoice::getHandbell, &TechnicalChoice::setHandbell )
        .one<OtherTechnical>( "OtherTechnical", false, &TechnicalChoice::getOtherTechnical, &TechnicalChoice::setOtherTechnical )
        .choice<TechnicalChoice::Choice>( &TechnicalChoice::getChoice, &TechnicalChoice::setChoice, { { "upBow", TechnicalChoice::Choice::upBow }, { "downBow", TechnicalChoice::Choice::downBow }, { "harmonic", TechnicalChoice::Choice::harmonic }, { "openString", TechnicalChoice::Choice::openString }, { "thumbPosition", TechnicalChoice::Choice::thumbPosition }, { "fingering", TechnicalChoice::Choice::fingering }, { "pluck", TechnicalChoice::Choice::pluck }, { "doubleTongue", TechnicalChoice::Choice::doubleTongue }, { "tripleTongue", TechnicalChoice::Choice::tripleTongue }, { "stopped", TechnicalChoice::Choice::stopped }, { "snapPizzicato", TechnicalChoice::Choice::snapPizzicato }, { "fret", TechnicalChoice::Choice::fret }, { "string_", TechnicalChoice::Choice::string_ }, { "hammerOn", TechnicalChoice::Choice::hammerOn }, { "pullOff", TechnicalChoice::Choice::pullOff }, { "bend", TechnicalChoice::Choice::bend }, { "tap", TechnicalChoice::Choice::tap }, { "heel", TechnicalChoice::Choice::heel }, { "toe", TechnicalChoice::Choice::toe }, { "fingernails", TechnicalChoice::Choice::fingernails }, { "hole", TechnicalChoice::Choice::hole }, { "arrow", TechnicalChoice::Choice::arrow }, { "handbell", TechnicalChoice::Choice::handbell }, { "otherTechnical", TechnicalChoice::Choice::otherTechnical } } ).done(); } );
    cont::Add aTime( "Time", [] { return cont::Build<Time>( false )
        .one<TimeChoice>( "Choice", true, &Time::getTimeChoice, &Time::setTimeChoice ).done(); } );
    cont::Add aTraditionalKey( "TraditionalKey", [] { return cont::Build<TraditionalKey>( true )
        .one<Cancel>( "Cancel", false, &TraditionalKey::getCancel, &TraditionalKey::setCancel )
        .one<Fifths>( "Fifths", false, &TraditionalKey::getFifths, &TraditionalKey::setFifths )
        .one<Mode>( "Mode", false, &TraditionalKey::getMode, &TraditionalKey::setMode )
        .has( "Cancel", &TraditionalKey::getHasCancel, &TraditionalKey::setHasCancel )
        .has( "Mode", &TraditionalKey::getHasMode, &TraditionalKey::setHasMode ).done(); } );
}
