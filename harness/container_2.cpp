// written by tools/gen_container.py
#include "container.h"
#include "mx/core/elements/AccidentalText.h"
#include "mx/core/elements/Alter.h"
#include "mx/core/elements/Artificial.h"
#include "mx/core/elements/Backup.h"
#include "mx/core/elements/BasePitch.h"
#include "mx/core/elements/BeatUnitGroup.h"
#include "mx/core/elements/Clef.h"
#include "mx/core/elements/Credit.h"
#include "mx/core/elements/Cue.h"
#include "mx/core/elements/CueNoteGroup.h"
#include "mx/core/elements/Defaults.h"
#include "mx/core/elements/Directive.h"
#include "mx/core/elements/DisplayText.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/Divisions.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/Encoder.h"
#include "mx/core/elements/EncodingChoice.h"
#include "mx/core/elements/EncodingDate.h"
#include "mx/core/elements/EncodingDescription.h"
#include "mx/core/elements/Figure.h"
#include "mx/core/elements/FiguredBass.h"
#include "mx/core/elements/Frame.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/Group.h"
#include "mx/core/elements/HarmonicInfoChoice.h"
#include "mx/core/elements/HarmonicTypeChoice.h"
#include "mx/core/elements/Harmony.h"
#include "mx/core/elements/HarmonyChordGroup.h"
#include "mx/core/elements/HarpPedals.h"
#include "mx/core/elements/Identification.h"
#include "mx/core/elements/Instruments.h"
#include "mx/core/elements/Key.h"
#include "mx/core/elements/LeftMargin.h"
#include "mx/core/elements/MeasureStyle.h"
#include "mx/core/elements/MidiDeviceInstrumentGroup.h"
#include "mx/core/elements/MovementNumber.h"
#include "mx/core/elements/MovementTitle.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/Natural.h"
#include "mx/core/elements/NormalDot.h"
#include "mx/core/elements/NormalType.h"
#include "mx/core/elements/NormalTypeNormalDotGroup.h"
#include "mx/core/elements/Octave.h"
#include "mx/core/elements/Offset.h"
#include "mx/core/elements/Opus.h"
#include "mx/core/elements/PartAbbreviation.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartList.h"
#include "mx/core/elements/PartName.h"
#include "mx/core/elements/PartNameDisplay.h"
#include "mx/core/elements/PartSymbol.h"
#include "mx/core/elements/PartwiseMeasure.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/PedalTuning.h"
#include "mx/core/elements/PerMinute.h"
#include "mx/core/elements/PerMinuteOrBeatUnitChoice.h"
#include "mx/core/elements/Pitch.h"
#include "mx/core/elements/Properties.h"
#include "mx/core/elements/RightMargin.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScoreInstrument.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/SenzaMisura.h"
#include "mx/core/elements/Software.h"
#include "mx/core/elements/SoundingPitch.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/StaffDetails.h"
#include "mx/core/elements/Staves.h"
#include "mx/core/elements/Step.h"
#include "mx/core/elements/Supports.h"
#include "mx/core/elements/SystemDistance.h"
#include "mx/core/elements/SystemDividers.h"
#include "mx/core/elements/SystemLayout.h"
#include "mx/core/elements/SystemMargins.h"
#include "mx/core/elements/Time.h"
#include "mx/core/elements/TimeChoice.h"
#include "mx/core/elements/TimeSignatureGroup.h"
#include "mx/core/elements/TimewisePart.h"
#include "mx/core/elements/TopSystemDistance.h"
#include "mx/core/elements/TouchingPitch.h"
#include "mx/core/elements/Transpose.h"
#include "mx/core/elements/TupletDot.h"
#include "mx/core/elements/TupletNormal.h"
#include "mx/core/elements/TupletNumber.h"
#include "mx/core/elements/TupletType.h"
#include "mx/core/elements/Work.h"
#include "mx/core/elements/WorkNumber.h"
#include "mx/core/elements/WorkTitle.h"
using namespace mx::core;
namespace
{
    cont::Add aBackup( "Backup", [] { return cont::Build<Backup>( false )
        .one<Duration>( "Duration", false, &Backup::getDuration, &Backup::setDuration )
        .one<EditorialGroup>( "EditorialGroup", true, &Backup::getEditorialGroup, &Backup::setEditorialGroup ).done(); } );
    cont::Add aCueNoteGroup( "CueNoteGroup", [] { return cont::Build<CueNoteGroup>( true )
        .one<Cue>( "Cue", false, &CueNoteGroup::getCue, &CueNoteGroup::setCue )
        .one<FullNoteGroup>( "FullNoteGroup", true, &CueNoteGroup::getFullNoteGroup, &CueNoteGroup::setFullNoteGroup )
        .one<Duration>( "Duration", false, &CueNoteGroup::getDuration, &CueNoteGroup::setDuration ).done(); } );
    cont::Add aDisplayTextOrAccidentalText( "DisplayTextOrAccidentalText", [] { return cont::Build<DisplayTextOrAccidentalText>( true )
        .one<AccidentalText>( "AccidentalText", false, &DisplayTextOrAccidentalText::getAccidentalText, &DisplayTextOrAccidentalText::setAccidentalText )
        .one<DisplayText>( "DisplayText", false, &DisplayTextOrAccidentalText::getDisplayText, &DisplayTextOrAccidentalText::setDisplayText )
        .choice<DisplayTextOrAccidentalText::Choice>( &DisplayTextOrAccidentalText::getChoice, &DisplayTextOrAccidentalText::setChoice, { { "displayText", DisplayTextOrAccidentalText::Choice::displayText }, { "accidentalText", DisplayTextOrAccidentalText::Choice::accidentalText } } ).done(); } );
    cont::Add aEncodingChoice( "EncodingChoice", [] { return cont::Build<EncodingChoice>( true )
        .one<EncodingDate>( "EncodingDate", false, &EncodingChoice::getEncodingDate, &EncodingChoice::setEncodingDate )
        .one<Encoder>( "Encoder", false, &EncodingChoice::getEncoder, &EncodingChoice::setEncoder )
        .one<Software>( "Software", false, &EncodingChoice::getSoftware, &EncodingChoice::setSoftware )
        .one<EncodingDescription>( "EncodingDescription", false, &EncodingChoice::getEncodingDescription, &EncodingChoice::setEncodingDescription )
        .one<Supports>( "Supports", false, &EncodingChoice::getSupports, &EncodingChoice::setSupports )
        .choice<EncodingChoice::Choice>( &EncodingChoice::getChoice, &EncodingChoice::setChoice, { { "encodingDate", EncodingChoice::Choice::encodingDate }, { "encoder", EncodingChoice::Choice::encoder }, { "software", EncodingChoice::Choice::software }, { "encodingDescription", EncodingChoice::Choice::encodingDescription }, { "supports", EncodingChoice::Choice::supports } } ).done(); } );
    cont::Add aFiguredBass( "FiguredBass", [] { return cont::Build<FiguredBass>( false )
        .many<Figure>( "Figure", false, &FiguredBass::addFigure, &FiguredBass::removeFigure, &FiguredBass::clearFigureSet, &FiguredBass::getFigureSet, &FiguredBass::getFigure )
        .one<Duration>( "Duration", false, &FiguredBass::getDuration, &FiguredBass::setDuration )
        .one<EditorialGroup>( "EditorialGroup", true, &FiguredBass::getEditorialGroup, &FiguredBass::setEditorialGroup )
        .has( "Duration", &FiguredBass::getHasDuration, &FiguredBass::setHasDuration ).done(); } );
    cont::Add aHarmonicInfoChoice( "HarmonicInfoChoice", [] { return cont::Build<HarmonicInfoChoice>( true )
        .one<BasePitch>( "BasePitch", false, &HarmonicInfoChoice::getBasePitch, &HarmonicInfoChoice::setBasePitch )
        .one<TouchingPitch>( "TouchingPitch", false, &HarmonicInfoChoice::getTouchingPitch, &HarmonicInfoChoice::setTouchingPitch )
        .one<SoundingPitch>( "SoundingPitch", false, &HarmonicInfoChoice::getSoundingPitch, &HarmonicInfoChoice::setSoundingPitch )
        .choice<HarmonicInfoChoice::Choice>( &HarmonicInfoChoice::getChoice, &HarmonicInfoChoice::setChoice, { { "basePitch", HarmonicInfoChoice::Choice::basePitch }, { "touchingPitch", HarmonicInfoChoice::Choice::touchingPitch }, { "soundingPitch", HarmonicInfoChoice::Choice::soundingPitch } } ).done(); } );
    cont::Add aHarmonicTypeChoice( "HarmonicTypeChoice", [] { return cont::Build<HarmonicTypeChoice>( true )
        .one<Natural>( "Natural", false, &HarmonicTypeChoice::getNatural, &HarmonicTypeChoice::setNatural )
        .one<Artificial>( "Artificial", false, &HarmonicTypeChoice::getArtificial, &HarmonicTypeChoice::setArtificial )
        .choice<HarmonicTypeChoice::Choice>( &HarmonicTypeChoice::getChoice, &HarmonicTypeChoice::setChoice, { { "natural", HarmonicTypeChoice::Choice::natural }, { "artificial", HarmonicTypeChoice::Choice::artificial } } ).done(); } );
    cont::Add aHarmony( "Harmony", [] { return cont::Build<Harmony>( false )
        .many<HarmonyChordGroup>( "HarmonyChordGroup", true, &Harmony::addHarmonyChordGroup, &Harmony::removeHarmonyChordGroup, &Harmony::clearHarmonyChordGroupSet, &Harmony::getHarmonyChordGroupSet, &Harmony::getHarmonyChordGroup )
        .one<Frame>( "Frame", false, &Harmony::getFrame, &Harmony::setFrame )
        .one<Offset>( "Offset", false, &Harmony::getOffset, &Harmony::setOffset )
        .one<EditorialGroup>( "EditorialGroup", true, &Harmony::getEditorialGroup, &Harmony::setEditorialGroup )
        .one<Staff>( "Staff", false, &Harmony::getStaff, &Harmony::setStaff )
        .has( "Frame", &Harmony::getHasFrame, &Harmony::setHasFrame )
        .has( "Offset", &Harmony::getHasOffset, &Harmony::setHasOffset )
        .has( "Staff", &Harmony::getHasStaff, &Harmony::setHasStaff ).done(); } );
    cont::Add aHarpPedals( "HarpPedals", [] { return cont::Build<HarpPedals>( false )
        .many<PedalTuning>( "PedalTuning", false, &HarpPedals::addPedalTuning, &HarpPedals::removePedalTuning, &HarpPedals::clearPedalTuningSet, &HarpPedals::getPedalTuningSet, &HarpPedals::getPedalTuning ).done(); } );
    cont::Add aNormalTypeNormalDotGroup( "NormalTypeNormalDotGroup", [] { return cont::Build<NormalTypeNormalDotGroup>( true )
        .one<NormalType>( "NormalType", false, &NormalTypeNormalDotGroup::getNormalType, &NormalTypeNormalDotGroup::setNormalType )
        .many<NormalDot>( "NormalDot", false, &NormalTypeNormalDotGroup::addNormalDot, &NormalTypeNormalDotGroup::removeNormalDot, &NormalTypeNormalDotGroup::clearNormalDotSet, &NormalTypeNormalDotGroup::getNormalDotSet, &NormalTypeNormalDotGroup::getNormalDot ).done(); } );
    cont::Add aPartwiseMeasure( "PartwiseMeasure", [] { return cont::Build<PartwiseMeasure>( false )
        .one<MusicDataGroup>( "MusicDataGroup", true, &PartwiseMeasure::getMusicDataGroup, &PartwiseMeasure::setMusicDataGroup ).done(); } );
    cont::Add aPartwisePart( "PartwisePart", [] { return cont::Build<PartwisePart>( false )
        .many<PartwiseMeasure>( "PartwiseMeasure", false, &PartwisePart::addPartwiseMeasure, &PartwisePart::removePartwiseMeasure, &PartwisePart::clearPartwiseMeasureSet, &PartwisePart::getPartwiseMeasureSet, &PartwisePart::getPartwiseMeasure ).done(); } );
    cont::Add aPerMinuteOrBeatUnitChoice( "PerMinuteOrBeatUnitChoice", [] { return cont::Build<PerMinuteOrBeatUnitChoice>( true )
        .one<PerMinute>( "PerMinute", false, &PerMinuteOrBeatUnitChoice::getPerMinute, &PerMinuteOrBeatUnitChoice::setPerMinute )
        .one<BeatUnitGroup>( "BeatUnitGroup", true, &PerMinuteOrBeatUnitChoice::getBeatUnitGroup, &PerMinuteOrBeatUnitChoice::setBeatUnitGroup )
        .choice<PerMinuteOrBeatUnitChoice::Choice>( &PerMinuteOrBeatUnitChoice::getChoice, &PerMinuteOrBeatUnitChoice::setChoice, { { "perMinute", PerMinuteOrBeatUnitChoice::Choice::perMinute }, { "beatUnitGroup", PerMinuteOrBeatUnitChoice::Choice::beatUnitGroup } } ).done(); } );
    cont::Add aPitch( "Pitch", [] { return cont::Build<Pitch>( false )
        .one<Step>( "Step", false, &Pitch::getStep, &Pitch::setStep )
        .one<Alter>( "Alter", false, &Pitch::getAlter, &Pitch::setAlter )
        .one<Octave>( "Octave", false, &Pitch::getOctave, &Pitch::setOctave )
        .has( "Alter", &Pitch::getHasAlter, &Pitch::setHasAlter ).done(); } );
    cont::Add aProperties( "Properties", [] { return cont::Build<Properties>( false )
        .one<EditorialGroup>( "EditorialGroup", true, &Properties::getEditorialGroup, &Properties::setEditorialGroup )
        .one<Divisions>( "Divisions", false, &Properties::getDivisions, &Properties::setDivisions )
        .many<Key>( "Key", false, &Properties::addKey, &Properties::removeKey, &Properties::clearKeySet, &Properties::getKeySet, &Properties::getKey )
        .many<Time>( "Time", false, &Properties::addTime, &Properties::removeTime, &Properties::clearTimeSet, &Properties::getTimeSet, &Properties::getTime )
        .one<Staves>( "Staves", false, &Properties::getStaves, &Properties::setStaves )
        .one<PartSymbol>( "PartSymbol", false, &Properties::getPartSymbol, &Properties::setPartSymbol )
        .one<Instruments>( "Instruments", false, &Properties::getInstruments, &Properties::setInstruments )
        .many<Clef>( "Clef", false, &Properties::addClef, &Properties::removeClef, &Properties::clearClefSet, &Properties::getClefSet, &Properties::getClef )
        .many<StaffDetails>( "StaffDetails", false, &Properties::addStaffDetails, &Properties::removeStaffDetails, &Properties::clearStaffDetailsSet, &Properties::getStaffDetailsSet, &Properties::getStaffDetails )
        .many<Transpose>( "Transpose", false, &Properties::addTranspose, &Properties::removeTranspose, &Properties::clearTransposeSet, &Properties::getTransposeSet, &Properties::getTranspose )
        .many<Directive>( "Directive", false, &Properties::addDirective, &Properties::removeDirective, &Properties::clearDirectiveSet, &Properties::getDirectiveSet, &Properties::getDirective )
        .many<MeasureStyle>( "MeasureStyle", false, &Properties::addMeasureStyle, &Properties::removeMeasureStyle, &Properties::clearMeasureStyleSet, &Properties::getMeasureStyleSet, &Properties::getMeasureStyle )
        .has( "Divisions", &Properties::getHasDivisions, &Properties::setHasDivisions )
        .has( "Instruments", &Properties::getHasInstruments, &Properties::setHasInstruments )
        .has( "PartSymbol", &Properties::getHasPartSymbol, &Properties::setHasPartSymbol )
        .has( "Staves", &Properties::getHasStaves, &Properties::setHasStaves ).done(); } );
    cont::Add aScoreHeaderGroup( "ScoreHeaderGroup", [] { return cont::Build<ScoreHeaderGroup>( true )
        .one<Work>( "Work", false, &ScoreHeaderGroup::getWork, &ScoreHeaderGroup::setWork )
        .one<MovementNumber>( "MovementNumber", false, &ScoreHeaderGroup::getMovementNumber, &ScoreHeaderGroup::setMovementNumber )
        .one<MovementTitle>( "MovementTitle", false, &ScoreHeaderGroup::getMovementTitle, &ScoreHeaderGroup::setMovementTitle )
        .one<Identification>( "Identification", false, &ScoreHeaderGroup::getIdentification, &ScoreHeaderGroup::setIdentification )
        .one<Defaults>( "Defaults", false, &ScoreHeaderGroup::getDefaults, &ScoreHeaderGroup::setDefaults )
        .many<Credit>( "Credit", false, &ScoreHeaderGroup::addCredit, &ScoreHeaderGroup::removeCredit, &ScoreHeaderGroup::clearCreditSet, &ScoreHeaderGroup::getCreditSet, &ScoreHeaderGroup::getCredit )
        .one<PartList>( "PartList", false, &ScoreHeaderGroup::getPartList, &ScoreHeaderGroup::setPartList )
        .has( "Defaults", &ScoreHeaderGroup::getHasDefaults, &ScoreHeaderGroup::setHasDefaults )
        .has( "Identification", &ScoreHeaderGroup::getHasIdentification, &ScoreHeaderGroup::setHasIdentification )
        .has( "MovementNumber", &ScoreHeaderGroup::getHasMovementNumber, &ScoreHeaderGroup::setHasMovementNumber )
        .has( "MovementTitle", &ScoreHeaderGroup::getHasMovementTitle, &ScoreHeaderGroup::setHasMovementTitle )
        .has( "Work", &ScoreHeaderGroup::getHasWork, &ScoreHeaderGroup::setHasWork ).done(); } );
    cont::Add aScorePart( "ScorePart", [] { return cont::Build<ScorePart>( false )
        .one<Identification>( "Identification", false, &ScorePart::getIdentification, &ScorePart::setIdentification )
        .one<PartName>( "PartName", false, &ScorePart::getPartName, &ScorePart::setPartName )
        .one<PartNameDisplay>( "PartNameDisplay", false, &ScorePart::getPartNameDisplay, &ScorePart::setPartNameDisplay )
        .one<PartAbbreviation>( "PartAbbreviation", false, &ScorePart::getPartAbbreviation, &ScorePart::setPartAbbreviation )
        .one<PartAbbreviationDisplay>( "PartAbbreviationDisplay", false, &ScorePart::getPartAbbreviationDisplay, &ScorePart::setPartAbbreviationDisplay )
        .many<Group>( "Group", false, &ScorePart::addGroup, &ScorePart::removeGroup, &ScorePart::clearGroupSet, &ScorePart::getGroupSet, &ScorePart::getGroup )
        .many<ScoreInstrument>( "ScoreInstrument", false, &ScorePart::addScoreInstrument, &ScorePart::removeScoreInstrument, &ScorePart::clearScoreInstrumentSet, &ScorePart::getScoreInstrumentSet, &ScorePart::getScoreInstrument )
        .many<MidiDeviceInstrumentGroup>( "MidiDeviceInstrumentGroup", true, &ScorePart::addMidiDeviceInstrumentGroup, &ScorePart::removeMidiDeviceInstrumentGroup, &ScorePart::clearMidiDeviceInstrumentGroupSet, &ScorePart::getMidiDeviceInstrumentGroupSet, &ScorePart::getMidiDeviceInstrumentGroup )
        .has( "Identification", &ScorePart::getHasIdentification, &ScorePart::setHasIdentification )
        .has( "PartAbbreviation", &ScorePart::getHasPartAbbreviation, &ScorePart::setHasPartAbbreviation )
        .has( "PartAbbreviationDisplay", &ScorePart::getHasPartAbbreviationDisplay, &ScorePart::setHasPartAbbreviationDisplay )
        .has( "PartNameDisplay", &ScorePart::getHasPartNameDisplay, &ScorePart::setHasPartNameDisplay ).done(); } );
    cont::Add aSystemLayout( "SystemLayout", [] { return cont::Build<SystemLayout>( false )
        .one<SystemMargins>( "SystemMargins", false, &SystemLayout::getSystemMargins, &SystemLayout::setSystemMargins )
        .one<SystemDistance>( "SystemDistance", false, &SystemLayout::getSystemDistance, &SystemLayout::setSystemDistance )
        .one<TopSystemDistance>( "TopSystemDistance", false, &SystemLayout::getTopSystemDistance, &SystemLayout::setTopSystemDistance )
        .one<SystemDividers>( "SystemDividers", false, &SystemLayout::getSystemDividers, &SystemLayout::setSystemDividers )
        .has( "SystemDistance", &SystemLayout::getHasSystemDistance, &SystemLayout::setHasSystemDistance )
        .has( "SystemDividers", &SystemLayout::getHasSystemDividers, &SystemLayout::setHasSystemDividers )
        .has( "SystemMargins", &SystemLayout::getHasSystemMargins, &SystemLayout::setHasSystemMargins )
        .has( "TopSystemDistance", &SystemLayout::getHasTopSystemDistance, &SystemLayout::setHasTopSystemDistance ).done(); } );
    cont::Add aSystemMargins( "SystemMargins", [] { return cont::Build<SystemMargins>( false )
        .one<LeftMargin>( "LeftMargin", false, &SystemMargins::getLeftMargin, &SystemMargins::setLeftMargin )
        .one<RightMargin>( "RightMargin", false, &SystemMargins::getRightMargin, &SystemMargins::setRightMargin ).done(); } );
    cont::Add aTimeChoice( "TimeChoice", [] { return cont::Build<TimeChoice>( true )
        .many<TimeSignatureGroup>( "TimeSignatureGroup", true, &TimeChoice::addTimeSignatureGroup, &TimeChoice::removeTimeSignatureGroup, &TimeChoice::clearTimeSignatureGroupSet, &TimeChoice::getTimeSignatureGroupSet, &TimeChoice::getTimeSignatureGroup )
        .one<SenzaMisura>( "SenzaMisura", false, &TimeChoice::getSenzaMisura, &TimeChoice::setSenzaMisura )
        .choice<TimeChoice::Choice>( &TimeChoice::getChoice, &TimeChoice::setChoice, { { "timeSignature", TimeChoice::Choice::timeSignature }, { "senzaMisura", TimeChoice::Choice::senzaMisura } } ).done(); } );
    cont::Add aTimewisePart( "TimewisePart", [] { return cont::Build<TimewisePart>( false )
        .one<MusicDataGroup>( "MusicDataGroup", true, &TimewisePart::getMusicDataGroup, &TimewisePart::setMusicDataGroup ).done(); } );
    cont::Add aTupletNormal( "TupletNormal", [] { return cont::Build<TupletNormal>( false )
        .one<TupletNumber>( "TupletNumber", false, &TupletNormal::getTupletNumber, &TupletNormal::setTupletNumber )
        .one<TupletType>( "TupletType", false, &TupletNormal::getTupletType, &TupletNormal::setTupletType )
        .many<TupletDot>( "TupletDot", false, &TupletNormal::addTupletDot, &TupletNormal::removeTupletDot, &TupletNormal::clearTupletDotSet, &TupletNormal::getTupletDotSet, &TupletNormal::getTupletDot )
        .has( "TupletNumber", &TupletNormal::getHasTupletNumber, &TupletNormal::setHasTupletNumber )
        .has( "TupletType", &TupletNormal::getHasTupletType, &TupletNormal::setHasTupletType ).done(); } );
    cont::Add aWork( "Work", [] { return cont::Build<Work>( false )
        .one<WorkNumber>( "WorkNumber", false, &Work::getWorkNumber, &Work::setWorkNumber )
        .one<WorkTitle>( "WorkTitle", false, &Work::getWorkTitle, &Work::setWorkTitle )
        .one<Opus>( "Opus", false, &Work::getOpus, &Work::setOpus )
        .has( "Opus", &Work::getHasOpus, &Work::setHasOpus )
        .has( "WorkNumber", &Work::getHasWorkNumber, &Work::setHasWorkNumber )
        .has( "WorkTitle", &Work::getHasWorkTitle, &Work::setHasWorkTitle ).done(); } );
}
