// written by tools/gen_container.py
#include "container.h"
#include "mx/core/elements/AccidentalMark.h"
#include "mx/core/elements/Accord.h"
#include "mx/core/elements/AccordionRegistration.h"
#include "mx/core/elements/Articulations.h"
#include "mx/core/elements/ArticulationsChoice.h"
#include "mx/core/elements/BarStyle.h"
#include "mx/core/elements/Barline.h"
#include "mx/core/elements/Bass.h"
#include "mx/core/elements/BassAlter.h"
#include "mx/core/elements/BassStep.h"
#include "mx/core/elements/BeatRepeat.h"
#include "mx/core/elements/BeatUnit.h"
#include "mx/core/elements/BeatUnitDot.h"
#include "mx/core/elements/BeatUnitGroup.h"
#include "mx/core/elements/Bracket.h"
#include "mx/core/elements/Coda.h"
#include "mx/core/elements/Damp.h"
#include "mx/core/elements/DampAll.h"
#include "mx/core/elements/Dashes.h"
#include "mx/core/elements/Degree.h"
#include "mx/core/elements/DegreeAlter.h"
#include "mx/core/elements/DegreeType.h"
#include "mx/core/elements/DegreeValue.h"
#include "mx/core/elements/DirectionType.h"
#include "mx/core/elements/Dynamics.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/Ending.h"
#include "mx/core/elements/Eyeglasses.h"
#include "mx/core/elements/Fermata.h"
#include "mx/core/elements/FirstFret.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/Frame.h"
#include "mx/core/elements/FrameFrets.h"
#include "mx/core/elements/FrameNote.h"
#include "mx/core/elements/FrameStrings.h"
#include "mx/core/elements/HarpPedals.h"
#include "mx/core/elements/Hole.h"
#include "mx/core/elements/HoleClosed.h"
#include "mx/core/elements/HoleShape.h"
#include "mx/core/elements/HoleType.h"
#include "mx/core/elements/Image.h"
#include "mx/core/elements/Level.h"
#include "mx/core/elements/MeasureRepeat.h"
#include "mx/core/elements/MeasureStyleChoice.h"
#include "mx/core/elements/Metronome.h"
#include "mx/core/elements/MetronomeBeam.h"
#include "mx/core/elements/MetronomeDot.h"
#include "mx/core/elements/MetronomeNote.h"
#include "mx/core/elements/MetronomeRelation.h"
#include "mx/core/elements/MetronomeRelationGroup.h"
#include "mx/core/elements/MetronomeTuplet.h"
#include "mx/core/elements/MetronomeType.h"
#include "mx/core/elements/MidiDevice.h"
#include "mx/core/elements/MidiInstrument.h"
#include "mx/core/elements/Miscellaneous.h"
#include "mx/core/elements/MiscellaneousField.h"
#include "mx/core/elements/MultipleRest.h"
#include "mx/core/elements/NoteRelationNote.h"
#include "mx/core/elements/OctaveShift.h"
#include "mx/core/elements/Ornaments.h"
#include "mx/core/elements/OrnamentsChoice.h"
#include "mx/core/elements/OtherDirection.h"
#include "mx/core/elements/Pedal.h"
#include "mx/core/elements/Percussion.h"
#include "mx/core/elements/Play.h"
#include "mx/core/elements/PrincipalVoice.h"
#include "mx/core/elements/Rehearsal.h"
#include "mx/core/elements/Repeat.h"
#include "mx/core/elements/Root.h"
#include "mx/core/elements/RootAlter.h"
#include "mx/core/elements/RootStep.h"
#include "mx/core/elements/Scordatura.h"
#include "mx/core/elements/Segno.h"
#include "mx/core/elements/Slash.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/StaffDistance.h"
#include "mx/core/elements/StaffLayout.h"
#include "mx/core/elements/StringMute.h"
#include "mx/core/elements/TuningAlter.h"
#include "mx/core/elements/TuningOctave.h"
#include "mx/core/elements/TuningStep.h"
#include "mx/core/elements/Tuplet.h"
#include "mx/core/elements/TupletActual.h"
#include "mx/core/elements/TupletDot.h"
#include "mx/core/elements/TupletNormal.h"
#include "mx/core/elements/TupletNumber.h"
#include "mx/core/elements/TupletType.h"
#include "mx/core/elements/WavyLine.h"
#include "mx/core/elements/Wedge.h"
#include "mx/core/elements/Words.h"
using namespace mx::core;
namespace
{
    cont::Add aAccord( "Accord", [] { return cont::Build<Accord>( false )
        .one<TuningStep>( "TuningStep", false, &Accord::getTuningStep, &Accord::setTuningStep )
        .one<TuningAlter>( "TuningAlter", false, &Accord::getTuningAlter, &Accord::setTuningAlter )
        .one<TuningOctave>( "TuningOctave", false, &Accord::getTuningOctave, &Accord::setTuningOctave )
        .has( "TuningAlter", &Accord::getHasTuningAlter, &Accord::setHasTuningAlter ).done(); } );
    cont::Add aArticulations( "Articulations", [] { return cont::Build<Articulations>( false )
        .many<ArticulationsChoice>( "ArticulationsChoice", true, &Articulations::addArticulationsChoice, &Articulations::removeArticulationsChoice, &Articulations::clearArticulationsChoiceSet, &Articulations::getArticulationsChoiceSet, &Articulations::getArticulationsChoice ).done(); } );
    cont::Add aBarline( "Barline", [] { return cont::Build<Barline>( false )
        .one<BarStyle>( "BarStyle", false, &Barline::getBarStyle, &Barline::setBarStyle )
        .one<EditorialGroup>( "EditorialGroup", true, &Barline::getEditorialGroup, &Barline::setEditorialGroup )
        .one<WavyLine>( "WavyLine", false, &Barline::getWavyLine, &Barline::setWavyLine )
        .one<Segno>( "Segno", false, &Barline::getSegno, &Barline::setSegno )
        .one<Coda>( "Coda", false, &Barline::getCoda, &Barline::setCoda )
        .many<Fermata>( "Fermata", false, &Barline::addFermata, &Barline::removeFermata, &Barline::clearFermataSet, &Barline::getFermataSet, &Barline::getFermata )
        .one<Ending>( "Ending", false, &Barline::getEnding, &Barline::setEnding )
        .one<Repeat>( "Repeat", false, &Barline::getRepeat, &Barline::setRepeat )
        .has( "BarStyle", &Barline::getHasBarStyle, &Barline::setHasBarStyle )
        .has( "Coda", &Barline::getHasCoda, &Barline::setHasCoda )
        .has( "Ending", &Barline::getHasEnding, &Barline::setHasEnding )
        .has( "Repeat", &Barline::getHasRepeat, &Barline::setHasRepeat )
        .has( "Segno", &Barline::getHasSegno, &Barline::setHasSegno )
        .has( "WavyLine", &Barline::getHasWavyLine, &Barline::setHasWavyLine ).done(); } );
    cont::Add aBass( "Bass", [] { return cont::Build<Bass>( false )
        .one<BassStep>( "BassStep", false, &Bass::getBassStep, &Bass::setBassStep )
        .one<BassAlter>( "BassAlter", false, &Bass::getBassAlter, &Bass::setBassAlter )
        .has( "BassAlter", &Bass::getHasBassAlter, &Bass::setHasBassAlter ).done(); } );
    cont::Add aBeatUnitGroup( "BeatUnitGroup", [] { return cont::Build<BeatUnitGroup>( true )
        .one<BeatUnit>( "BeatUnit", false, &BeatUnitGroup::getBeatUnit, &BeatUnitGroup::setBeatUnit )
        .many<BeatUnitDot>( "BeatUnitDot", false, &BeatUnitGroup::addBeatUnitDot, &BeatUnitGroup::removeBeatUnitDot, &BeatUnitGroup::clearBeatUnitDotSet, &BeatUnitGroup::getBeatUnitDotSet, nullptr ).done(); } );
    cont::Add aDegree( "Degree", [] { return cont::Build<Degree>( false )
        .one<DegreeValue>( "DegreeValue", false, &Degree::getDegreeValue, &Degree::setDegreeValue )
        .one<DegreeAlter>( "DegreeAlter", false, &Degree::getDegreeAlter, &Degree::setDegreeAlter )
        .one<DegreeType>( "DegreeType", false, &Degree::getDegreeType, &Degree::setDegreeType ).done(); } );
    cont::Add aDirectionType( "DirectionType", [] { return cont::Build<DirectionType>( false )
        .many<Rehearsal>( "Rehearsal", false, &DirectionType::addRehearsal, &DirectionType::removeRehearsal, &DirectionType::clearRehearsalSet, &DirectionType::getRehearsalSet, &DirectionType::getRehearsal )
        .many<Segno>( "Segno", false, &DirectionType::addSegno, &DirectionType::removeSegno, &DirectionType::clearSegnoSet, &DirectionType::getSegnoSet, &DirectionType::getSegno )
        .many<Words>( "Words", false, &DirectionType::addWords, &DirectionType::removeWords, &DirectionType::clearWordsSet, &DirectionType::getWordsSet, &DirectionType::getWords )
        .many<Coda>( "Coda", false, &DirectionType::addCoda, &DirectionType::removeCoda, &DirectionType::clearCodaSet, &DirectionType::getCodaSet, &DirectionType::getCoda )
        .one<Wedge>( "Wedge", false, &DirectionType::getWedge, &DirectionType::setWedge )
        .many<Dynamics>( "Dynamics", false, &DirectionType::addDynamics, &DirectionType::removeDynamics, &DirectionType::clearDynamicsSet, &DirectionType::getDynamicsSet, &DirectionType::getDynamics )
        .one<Dashes>( "Dashes", false, &DirectionType::getDashes, &DirectionType::setDashes )
        .one<Bracket>( "Bracket", false, &DirectionType::getBracket, &DirectionType::setBracket )
        .one<Pedal>( "Pedal", false, &DirectionType::getPedal, &DirectionType::setPedal )
        .one<Metronome>( "Metronome", false, &DirectionType::getMetronome, &DirectionType::setMetronome )
        .one<OctaveShift>( "OctaveShift", false, &DirectionType::getOctaveShift, &DirectionType::setOctaveShift )
        .one<HarpPedals>( "HarpPedals", false, &DirectionType::getHarpPedals, &DirectionType::setHarpPedals )
        .one<Damp>( "Damp", false, &DirectionType::getDamp, &DirectionType::setDamp )
        .one<DampAll>( "DampAll", false, &DirectionType::getDampAll, &DirectionType::setDampAll )
        .one<Eyeglasses>( "Eyeglasses", false, &DirectionType::getEyeglasses, &DirectionType::setEyeglasses )
        .one<StringMute>( "StringMute", false, &DirectionType::getStringMute, &DirectionType::setStringMute )
        .one<Scordatura>( "Scordatura", false, &DirectionType::getScordatura, &DirectionType::setScordatura )
        .one<Image>( "Image", false, &DirectionType::getImage, &DirectionType::setImage )
        .one<PrincipalVoice>( "PrincipalVoice", false, &DirectionType::getPrincipalVoice, &DirectionType::setPrincipalVoice )
        .one<AccordionRegistration>( "AccordionRegistration", false, &DirectionType::getAccordionRegistration, &DirectionType::setAccordionRegistration )
        .many<Percussion>( "Percussion", false, &DirectionType::addPercussion, &DirectionType::removePercussion, &DirectionType::clearPercussionSet, &DirectionType::getPercussionSet, &DirectionType::getPercussion )
        .one<OtherDirection>( "OtherDirection", false, &DirectionType::getOtherDirection, &DirectionType::setOtherDirection )
        .choice<DirectionType::Choice>( &DirectionType::getChoice, &DirectionType::setChoice, { { "rehearsal", DirectionType::Choice::rehearsal }, { "segno", DirectionType::Choice::segno }, { "words", DirectionType::Choice::words }, { "coda", DirectionType::Choice::coda }, { "wedge", DirectionType::Choice::wedge }, { "dynamics", DirectionType::Choice::dynamics }, { "dashes", DirectionType::Choice::dashes }, { "bracket", DirectionType::Choice::bracket }, { "pedal", DirectionType::Choice::pedal }, { "metronome", DirectionType::Choice::metronome }, { "octaveShift", DirectionType::Choice::octaveShift }, { "harpPedals", DirectionType::Choice::harpPedals }, { "damp", DirectionType::Choice::damp }, { "dampAll", DirectionType::Choice::dampAll }, { "eyeglasses", DirectionType::Choice::eyeglasses }, { "stringMute", DirectionType::Choice::stringMute }, { "scordatura", DirectionType::Choice::scordatura }, { "image", DirectionType::Choice::image }, { "principalVoice", DirectionType::Choice::principalVoice }, { "accordionRegistration", DirectionType::Choice::accordionRegistration }, { "percussion", DirectionType::Choice::percussion }, { "otherDirection", DirectionType::Choice::otherDirection } } ).done(); } );
    cont::Add aEditorialGroup( "EditorialGroup", [] { return cont::Build<EditorialGroup>( true )
        .one<Footnote>( "Footnote", false, &EditorialGroup::getFootnote, &EditorialGroup::setFootnote )
        .one<Level>( "Level", false, &EditorialGroup::getLevel, &EditorialGroup::setLevel )
        .has( "Footnote", &EditorialGroup::getHasFootnote, &EditorialGroup::setHasFootnote )
        .has( "Level", &EditorialGroup::getHasLevel, &EditorialGroup::setHasLevel ).done(); } );
    cont::Add aFrame( "Frame", [] { return cont::Build<Frame>( false )
        .one<FrameStrings>( "FrameStrings", false, &Frame::getFrameStrings, &Frame::setFrameStrings )
        .one<FrameFrets>( "FrameFrets", false, &Frame::getFrameFrets, &Frame::setFrameFrets )
        .one<FirstFret>( "FirstFret", false, &Frame::getFirstFret, &Frame::setFirstFret )
        .many<FrameNote>( "FrameNote", false, &Frame::addFrameNote, &Frame::removeFrameNote, &Frame::clearFrameNoteSet, &Frame::getFrameNoteSet, &Frame::getFrameNote )
        .has( "FirstFret", &Frame::getHasFirstFret, &Frame::setHasFirstFret ).done(); } );
    cont::Add aHole( "Hole", [] { return cont::Build<Hole>( false )
        .one<HoleType>( "HoleType", false, &Hole::getHoleType, &Hole::setHoleType )
        .one<HoleClosed>( "HoleClosed", false, &Hole::getHoleClosed, &Hole::setHoleClosed )
        .one<HoleShape>( "HoleShape", false, &Hole::getHoleShape, &Hole::setHoleShape )
        .has( "HoleShape", &Hole::getHasHoleShape, &Hole::setHasHoleShape )
        .has( "HoleType", &Hole::getHasHoleType, &Hole::setHasHoleType ).done(); } );
    cont::Add aMeasureStyleChoice( "MeasureStyleChoice", [] { return cont::Build<MeasureStyleChoice>( true )
        .one<MultipleRest>( "MultipleRest", false, &MeasureStyleChoice::getMultipleRest, &MeasureStyleChoice::setMultipleRest )
        .one<MeasureRepeat>( "MeasureRepeat", false, &MeasureStyleChoice::getMeasureRepeat, &MeasureStyleChoice::setMeasureRepeat )
        .one<BeatRepeat>( "BeatRepeat", false, &MeasureStyleChoice::getBeatRepeat, &MeasureStyleChoice::setBeatRepeat )
        .one<Slash>( "Slash", false, &MeasureStyleChoice::getSlash, &MeasureStyleChoice::setSlash )
        .choice<MeasureStyleChoice::Choice>( &MeasureStyleChoice::getChoice, &MeasureStyleChoice::setChoice, { { "multipleRest", MeasureStyleChoice::Choice::multipleRest }, { "measureRepeat", MeasureStyleChoice::Choice::measureRepeat }, { "beatRepeat", MeasureStyleChoice::Choice::beatRepeat }, { "slash", MeasureStyleChoice::Choice::slash } } ).done(); } );
    cont::Add aMetronomeNote( "MetronomeNote", [] { return cont::Build<MetronomeNote>( false )
        .one<MetronomeType>( "MetronomeType", false, &MetronomeNote::getMetronomeType, &MetronomeNote::setMetronomeType )
        .many<MetronomeDot>( "MetronomeDot", false, &MetronomeNote::addMetronomeDot, &MetronomeNote::removeMetronomeDot, &MetronomeNote::clearMetronomeDotSet, &MetronomeNote::getMetronomeDotSet, &MetronomeNote::getMetronomeDot )
        .many<MetronomeBeam>( "MetronomeBeam", false, &MetronomeNote::addMetronomeBeam, &MetronomeNote::removeMetronomeBeam, &MetronomeNote::clearMetronomeBeamSet, &MetronomeNote::getMetronomeBeamSet, &MetronomeNote::getMetronomeBeam )
        .one<MetronomeTuplet>( "MetronomeTuplet", false, &MetronomeNote::getMetronomeTuplet, &MetronomeNote::setMetronomeTuplet )
        .has( "MetronomeTuplet", &MetronomeNote::getHasMetronomeTuplet, &MetronomeNote::setHasMetronomeTuplet ).done(); } );
    cont::Add aMetronomeRelationGroup( "MetronomeRelationGroup", [] { return cont::Build<MetronomeRelationGroup>( true )
        .one<MetronomeRelation>( "MetronomeRelation", false, &MetronomeRelationGroup::getMetronomeRelation, &MetronomeRelationGroup::setMetronomeRelation )
        .one<MetronomeNote>( "MetronomeNote", false, &MetronomeRelationGroup::getMetronomeNote, &MetronomeRelationGroup::setMetronomeNote ).done(); } );
    cont::Add aMiscellaneous( "Miscellaneous", [] { return cont::Build<Miscellaneous>( false )
        .many<MiscellaneousField>( "MiscellaneousField", false, &Miscellaneous::addMiscellaneousField, &Miscellaneous::removeMiscellaneousField, &Miscellaneous::clearMiscellaneousFieldSet, &Miscellaneous::getMiscellaneousFieldSet, &Miscellaneous::getMiscellaneousField ).done(); } );
    cont::Add aNoteRelationNote( "NoteRelationNote", [] { return cont::Build<NoteRelationNote>( true )
        .many<MetronomeNote>( "MetronomeNote", false, &NoteRelationNote::addMetronomeNote, &NoteRelationNote::removeMetronomeNote, &NoteRelationNote::clearMetronomeNoteSet, &NoteRelationNote::getMetronomeNoteSet, nullptr )
        .one<MetronomeRelationGroup>( "MetronomeRelationGroup", true, &NoteRelationNote::getMetronomeRelationGroup, &NoteRelationNote::setMetronomeRelationGroup )
        .has( "MetronomeRelationGroup", &NoteRelationNote::getHasMetronomeRelationGroup, &NoteRelationNote::setHasMetronomeRelationGroup ).done(); } );
    cont::Add aOrnaments( "Ornaments", [] { return cont::Build<Ornaments>( false )
        .many<OrnamentsChoice>( "OrnamentsChoice", true, &Ornaments::addOrnamentsChoice, &Ornaments::removeOrnamentsChoice, &Ornaments::clearOrnamentsChoiceSet, &Ornaments::getOrnamentsChoiceSet, &Ornaments::getOrnamentsChoice )
        .many<AccidentalMark>( "AccidentalMark", false, &Ornaments::addAccidentalMark, &Ornaments::removeAccidentalMark, &Ornaments::clearAccidentalMarkSet, &Ornaments::getAccidentalMarkSet, &Ornaments::getAccidentalMark ).done(); } );
    cont::Add aRoot( "Root", [] { return cont::Build<Root>( false )
        .one<RootStep>( "RootStep", false, &Root::getRootStep, &Root::setRootStep )
        .one<RootAlter>( "RootAlter", false, &Root::getRootAlter, &Root::setRootAlter )
        .has( "RootAlter", &Root::getHasRootAlter, &Root::setHasRootAlter ).done(); } );
    cont::Add aScordatura( "Scordatura", [] { return cont::Build<Scordatura>( false )
        .many<Accord>( "Accord", false, &Scordatura::addAccord, &Scordatura::removeAccord, &Scordatura::clearAccordSet, &Scordatura::getAccordSet, &Scordatura::getAccord ).done(); } );
    cont::Add aSound( "Sound", [] { return cont::Build<Sound>( false )
        .one<MidiDevice>( "MidiDevice", false, &Sound::getMidiDevice, &Sound::setMidiDevice )
        .one<MidiInstrument>( "MidiInstrument", false, &Sound::getMidiInstrument, &Sound::setMidiInstrument )
        .one<Play>( "Play", false, &Sound::getPlay, &Sound::setPlay )
        .has( "MidiDevice", &Sound::getHasMidiDevice, &Sound::setHasMidiDevice )
        .has( "MidiInstrument", &Sound::getHasMidiInstrument, &Sound::setHasMidiInstrument )
        .has( "Play", &Sound::getHasPlay, &Sound::setHasPlay ).done(); } );
    cont::Add aStaffLayout( "StaffLayout", [] { return cont::Build<StaffLayout>( false )
        .one<StaffDistance>( "StaffDistance", false, &StaffLayout::getStaffDistance, &StaffLayout::setStaffDistance )
        .has( "StaffDistance", &StaffLayout::getHasStaffDistance, &StaffLayout::setHasStaffDistance ).done(); } );
    cont::Add aTuplet( "Tuplet", [] { return cont::Build<Tuplet>( false )
        .one<TupletActual>( "TupletActual", false, &Tuplet::getTupletActual, &Tuplet::setTupletActual )
        .one<TupletNormal>( "TupletNormal", false, &Tuplet::getTupletNormal, &Tuplet::setTupletNormal )
        .has( "TupletActual", &Tuplet::getHasTupletActual, &Tuplet::setHasTupletActual )
        .has( "TupletNormal", &Tuplet::getHasTupletNormal, &Tuplet::setHasTupletNormal ).done(); } );
    cont::Add aTupletActual( "TupletActual", [] { return cont::Build<TupletActual>( false )
        .one<TupletNumber>( "TupletNumber", false, &TupletActual::getTupletNumber, &TupletActual::setTupletNumber )
        .one<TupletType>( "TupletType", false, &TupletActual::getTupletType, &TupletActual::setTupletType )
        .many<TupletDot>( "TupletDot", false, &TupletActual::addTupletDot, &TupletActual::removeTupletDot, &TupletActual::clearTupletDotSet, &TupletActual::getTupletDotSet, &TupletActual::getTupletDot )
        .has( "TupletNumber", &TupletActual::getHasTupletNumber, &TupletActual::setHasTupletNumber )
        .has( "TupletType", &TupletActual::getHasTupletType, &TupletActual::setHasTupletType ).done(); } );
}
