// written by tools/gen_container.py
#include "container.h"
#include "mx/core/elements/Accent.h"
#include "mx/core/elements/Appearance.h"
#include "mx/core/elements/ArticulationsChoice.h"
#include "mx/core/elements/Bass.h"
#include "mx/core/elements/BeatRepeat.h"
#include "mx/core/elements/BeatType.h"
#include "mx/core/elements/BeatUnitGroup.h"
#include "mx/core/elements/BeatUnitPer.h"
#include "mx/core/elements/Beats.h"
#include "mx/core/elements/BreathMark.h"
#include "mx/core/elements/Caesura.h"
#include "mx/core/elements/CreditChoice.h"
#include "mx/core/elements/CreditImage.h"
#include "mx/core/elements/CreditWords.h"
#include "mx/core/elements/CreditWordsGroup.h"
#include "mx/core/elements/Degree.h"
#include "mx/core/elements/DelayedInvertedTurn.h"
#include "mx/core/elements/DelayedTurn.h"
#include "mx/core/elements/DetachedLegato.h"
#include "mx/core/elements/DisplayStepOctaveGroup.h"
#include "mx/core/elements/Distance.h"
#include "mx/core/elements/Doit.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EditorialVoiceDirectionGroup.h"
#include "mx/core/elements/Elision.h"
#include "mx/core/elements/ElisionSyllabicGroup.h"
#include "mx/core/elements/Encoding.h"
#include "mx/core/elements/EncodingChoice.h"
#include "mx/core/elements/Extend.h"
#include "mx/core/elements/Falloff.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/Function.h"
#include "mx/core/elements/HarmonyChordGroup.h"
#include "mx/core/elements/Humming.h"
#include "mx/core/elements/Interchangeable.h"
#include "mx/core/elements/Inversion.h"
#include "mx/core/elements/InvertedMordent.h"
#include "mx/core/elements/InvertedTurn.h"
#include "mx/core/elements/Kind.h"
#include "mx/core/elements/Laughing.h"
#include "mx/core/elements/Level.h"
#include "mx/core/elements/LineWidth.h"
#include "mx/core/elements/LyricTextChoice.h"
#include "mx/core/elements/MidiDevice.h"
#include "mx/core/elements/MidiDeviceInstrumentGroup.h"
#include "mx/core/elements/MidiInstrument.h"
#include "mx/core/elements/Millimeters.h"
#include "mx/core/elements/Mordent.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/NormalDot.h"
#include "mx/core/elements/NormalType.h"
#include "mx/core/elements/Notations.h"
#include "mx/core/elements/NotationsChoice.h"
#include "mx/core/elements/NoteSize.h"
#include "mx/core/elements/OrnamentsChoice.h"
#include "mx/core/elements/OtherAppearance.h"
#include "mx/core/elements/OtherArticulation.h"
#include "mx/core/elements/OtherOrnament.h"
#include "mx/core/elements/PageHeight.h"
#include "mx/core/elements/PageLayout.h"
#include "mx/core/elements/PageMargins.h"
#include "mx/core/elements/PageWidth.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartGroupOrScorePart.h"
#include "mx/core/elements/PartList.h"
#include "mx/core/elements/PerMinuteOrBeatUnitChoice.h"
#include "mx/core/elements/Plop.h"
#include "mx/core/elements/Root.h"
#include "mx/core/elements/Scaling.h"
#include "mx/core/elements/Schleifer.h"
#include "mx/core/elements/Scoop.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/Shake.h"
#include "mx/core/elements/SlashDot.h"
#include "mx/core/elements/SlashType.h"
#include "mx/core/elements/Spiccato.h"
#include "mx/core/elements/Staccatissimo.h"
#include "mx/core/elements/Staccato.h"
#include "mx/core/elements/StaffTuning.h"
#include "mx/core/elements/Stress.h"
#include "mx/core/elements/StrongAccent.h"
#include "mx/core/elements/Syllabic.h"
#include "mx/core/elements/SyllabicTextGroup.h"
#include "mx/core/elements/Technical.h"
#include "mx/core/elements/TechnicalChoice.h"
#include "mx/core/elements/Tenths.h"
#include "mx/core/elements/Tenuto.h"
#include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
#include "mx/core/elements/TimeRelation.h"
#include "mx/core/elements/Tremolo.h"
#include "mx/core/elements/TrillMark.h"
#include "mx/core/elements/TuningAlter.h"
#include "mx/core/elements/TuningOctave.h"
#include "mx/core/elements/TuningStep.h"
#include "mx/core/elements/Turn.h"
#include "mx/core/elements/Unpitched.h"
#include "mx/core/elements/Unstress.h"
#include "mx/core/elements/VerticalTurn.h"
#include "mx/core/elements/VirtualInstrument.h"
#include "mx/core/elements/VirtualLibrary.h"
#include "mx/core/elements/VirtualName.h"
#include "mx/core/elements/Voice.h"
#include "mx/core/elements/WavyLine.h"
using namespace mx::core;
namespace
{
    cont::Add aAppearance( "Appearance", [] { return cont::Build<Appearance>( false )
        .many<LineWidth>( "LineWidth", false, &Appearance::addLineWidth, &Appearance::removeLineWidth, &Appearance::clearLineWidthSet, &Appearance::getLineWidthSet, &Appearance::getLineWidth )
        .many<NoteSize>( "NoteSize", false, &Appearance::addNoteSize, &Appearance::removeNoteSize, &Appearance::clearNoteSizeSet, &Appearance::getNoteSizeSet, &Appearance::getNoteSize )
        .many<Distance>( "Distance", false, &Appearance::addDistance, &Appearance::removeDistance, &Appearance::clearDistanceSet, &Appearance::getDistanceSet, &Appearance::getDistance )
        .many<OtherAppearance>( "OtherAppearance", false, &Appearance::addOtherAppearance, &Appearance::removeOtherAppearance, &Appearance::clearOtherAppearanceSet, &Appearance::getOtherAppearanceSet, &Appearance::getOtherAppearance ).done(); } );
    cont::Add aArticulationsChoice( "ArticulationsChoice", [] { return cont::Build<ArticulationsChoice>( true )
        .one<Accent>( "Accent", false, &ArticulationsChoice::getAccent, &ArticulationsChoice::setAccent )
        .one<StrongAccent>( "StrongAccent", false, &ArticulationsChoice::getStrongAccent, &ArticulationsChoice::setStrongAccent )
        .one<Staccato>( "Staccato", false, &ArticulationsChoice::getStaccato, &ArticulationsChoice::setStaccato )
        .one<Tenuto>( "Tenuto", false, &ArticulationsChoice::getTenuto, &ArticulationsChoice::setTenuto )
        .one<DetachedLegato>( "DetachedLegato", false, &ArticulationsChoice::getDetachedLegato, &ArticulationsChoice::setDetachedLegato )
        .one<Staccatissimo>( "Staccatissimo", false, &ArticulationsChoice::getStaccatissimo, &ArticulationsChoice::setStaccatissimo )
        .one<Spiccato>( "Spiccato", false, &ArticulationsChoice::getSpiccato, &ArticulationsChoice::setSpiccato )
        .one<Scoop>( "Scoop", false, &ArticulationsChoice::getScoop, &ArticulationsChoice::setScoop )
        .one<Plop>( "Plop", false, &ArticulationsChoice::getPlop, &ArticulationsChoice::setPlop )
        .one<Doit>( "Doit", false, &ArticulationsChoice::getDoit, &ArticulationsChoice::setDoit )
        .one<Falloff>( "Falloff", false, &ArticulationsChoice::getFalloff, &ArticulationsChoice::setFalloff )
        .one<BreathMark>( "BreathMark", false, &ArticulationsChoice::getBreathMark, &ArticulationsChoice::setBreathMark )
        .one<Caesura>( "Caesura", false, &ArticulationsChoice::getCaesura, &ArticulationsChoice::setCaesura )
        .one<Stress>( "Stress", false, &ArticulationsChoice::getStress, &ArticulationsChoice::setStress )
        .one<Unstress>( "Unstress", false, &ArticulationsChoice::getUnstress, &ArticulationsChoice::setUnstress )
        .one<OtherArticulation>( "OtherArticulation", false, &ArticulationsChoice::getOtherArticulation, &ArticulationsChoice::setOtherArticulation )
        .choice<ArticulationsChoice::Choice>( &ArticulationsChoice::getChoice, &ArticulationsChoice::setChoice, { { "accent", ArticulationsChoice::Choice::accent }, { "strongAccent", ArticulationsChoice::Choice::strongAccent }, { "staccato", ArticulationsChoice::Choice::staccato }, { "tenuto", ArticulationsChoice::Choice::tenuto }, { "detachedLegato", ArticulationsChoice::Choice::detachedLegato }, { "staccatissimo", ArticulationsChoice::Choice::staccatissimo }, { "spiccato", ArticulationsChoice::Choice::spiccato }, { "scoop", ArticulationsChoice::Choice::scoop }, { "plop", ArticulationsChoice::Choice::plop }, { "doit", ArticulationsChoice::Choice::doit }, { "falloff", ArticulationsChoice::Choice::falloff }, { "breathMark", ArticulationsChoice::Choice::breathMark }, { "caesura", ArticulationsChoice::Choice::caesura }, { "stress", ArticulationsChoice::Choice::stress }, { "unstress", ArticulationsChoice::Choice::unstress }, { "otherArticulation", ArticulationsChoice::Choice::otherArticulation } } ).done(); } );
    cont::Add aBeatRepeat( "BeatRepeat", [] { return cont::Build<BeatRepeat>( false )
        .one<SlashType>( "SlashType", false, &BeatRepeat::getSlashType, &BeatRepeat::setSlashType )
        .many<SlashDot>( "SlashDot", false, &BeatRepeat::addSlashDot, &BeatRepeat::removeSlashDot, &BeatRepeat::clearSlashDotSet, &BeatRepeat::getSlashDotSet, nullptr ).done(); } );
    cont::Add aBeatUnitPer( "BeatUnitPer", [] { return cont::Build<BeatUnitPer>( true )
        .one<BeatUnitGroup>( "BeatUnitGroup", true, &BeatUnitPer::getBeatUnitGroup, &BeatUnitPer::setBeatUnitGroup )
        .one<PerMinuteOrBeatUnitChoice>( "PerMinuteOrBeatUnitChoice", true, &BeatUnitPer::getPerMinuteOrBeatUnitChoice, &BeatUnitPer::setPerMinuteOtBeatUnitChoice ).done(); } );
    cont::Add aCreditChoice( "CreditChoice", [] { return cont::Build<CreditChoice>( true )
        .one<CreditImage>( "CreditImage", false, &CreditChoice::getCreditImage, &CreditChoice::setCreditImage )
        .one<CreditWords>( "CreditWords", false, &CreditChoice::getCreditWords, &CreditChoice::setCreditWords )
        .many<CreditWordsGroup>( "CreditWordsGroup", true, &CreditChoice::addCreditWordsGroup, &CreditChoice::removeCreditWordsGroup, &CreditChoice::clearCreditWordsGroupSet, &CreditChoice::getCreditWordsGroupSet, &CreditChoice::getCreditWordsGroup )
        .choice<CreditChoice::Choice>( &CreditChoice::getChoice, &CreditChoice::setChoice, { { "creditImage", CreditChoice::Choice::creditImage }, { "creditWords", CreditChoice::Choice::creditWords } } ).done(); } );
    cont::Add aEditorialVoiceDirectionGroup( "EditorialVoiceDirectionGroup", [] { return cont::Build<EditorialVoiceDirectionGroup>( true )
        .one<Footnote>( "Footnote", false, &EditorialVoiceDirectionGroup::getFootnote, &EditorialVoiceDirectionGroup::setFootnote )
        .one<Level>( "Level", false, &EditorialVoiceDirectionGroup::getLevel, &EditorialVoiceDirectionGroup::setLevel )
        .one<Voice>( "Voice", false, &EditorialVoiceDirectionGroup::getVoice, &EditorialVoiceDirectionGroup::setVoice )
        .has( "Footnote", &EditorialVoiceDirectionGroup::getHasFootnote, &EditorialVoiceDirectionGroup::setHasFootnote )
        .has( "Level", &EditorialVoiceDirectionGroup::getHasLevel, &EditorialVoiceDirectionGroup::setHasLevel )
        .has( "Voice", &EditorialVoiceDirectionGroup::getHasVoice, &EditorialVoiceDirectionGroup::setHasVoice ).done(); } );
    cont::Add aElisionSyllabicGroup( "ElisionSyllabicGroup", [] { return cont::Build<ElisionSyllabicGroup>( true )
        .one<Elision>( "Elision", false, &ElisionSyllabicGroup::getElision, &ElisionSyllabicGroup::setElision )
        .one<Syllabic>( "Syllabic", false, &ElisionSyllabicGroup::getSyllabic, &ElisionSyllabicGroup::setSyllabic )
        .has( "Syllabic", &ElisionSyllabicGroup::getHasSyllabic, &ElisionSyllabicGroup::setHasSyllabic ).done(); } );
    cont::Add aEncoding( "Encoding", [] { return cont::Build<Encoding>( false )
        .many<EncodingChoice>( "EncodingChoice", true, &Encoding::addEncodingChoice, &Encoding::removeEncodingChoice, &Encoding::clearEncodingChoiceSet, &Encoding::getEncodingChoiceSet, nullptr ).done(); } );
    cont::Add aHarmonyChordGroup( "HarmonyChordGroup", [] { return cont::Build<HarmonyChordGroup>( true )
        .one<Root>( "Root", false, &HarmonyChordGroup::getRoot, &HarmonyChordGroup::setRoot )
        .one<Function>( "Function", false, &HarmonyChordGroup::getFunction, &HarmonyChordGroup::setFunction )
        .one<Kind>( "Kind", false, &HarmonyChordGroup::getKind, &HarmonyChordGroup::setKind )
        .one<Inversion>( "Inversion", false, &HarmonyChordGroup::getInversion, &HarmonyChordGroup::setInversion )
        .one<Bass>( "Bass", false, &HarmonyChordGroup::getBass, &HarmonyChordGroup::setBass )
        .many<Degree>( "Degree", false, &HarmonyChordGroup::addDegree, &HarmonyChordGroup::removeDegree, &HarmonyChordGroup::clearDegreeSet, &HarmonyChordGroup::getDegreeSet, &HarmonyChordGroup::getDegree )
        .has( "Bass", &HarmonyChordGroup::getHasBass, &HarmonyChordGroup::setHasBass )
        .has( "Inversion", &HarmonyChordGroup::getHasInversion, &HarmonyChordGroup::setHasInversion )
        .choice<HarmonyChordGroup::Choice>( &HarmonyChordGroup::getChoice, &HarmonyChordGroup::setChoice, { { "root", HarmonyChordGroup::Choice::root }, { "function", HarmonyChordGroup::Choice::function } } ).done(); } );
    cont::Add aInterchangeable( "Interchangeable", [] { return cont::Build<Interchangeable>( false )
        .one<TimeRelation>( "TimeRelation", false, &Interchangeable::getTimeRelation, &Interchangeable::setTimeRelation )
        .one<Beats>( "Beats", false, &Interchangeable::getBeats, &Interchangeable::setBeats )
        .one<BeatType>( "BeatType", false, &Interchangeable::getBeatType, &Interchangeable::setBeatType )
        .has( "TimeRelation", &Interchangeable::getHasTimeRelation, &Interchangeable::setHasTimeRelation ).done(); } );
    cont::Add aLyricTextChoice( "LyricTextChoice", [] { return cont::Build<LyricTextChoice>( true )
        .one<SyllabicTextGroup>( "SyllabicTextGroup", true, &LyricTextChoice::getSyllabicTextGroup, &LyricTextChoice::setSyllabicTextGroup )
        .one<Extend>( "Extend", false, &LyricTextChoice::getExtend, &LyricTextChoice::setExtend )
        .one<Laughing>( "Laughing", false, &LyricTextChoice::getLaughing, &LyricTextChoice::setLaughing )
        .one<Humming>( "Humming", false, &LyricTextChoice::getHumming, &LyricTextChoice::setHumming )
        .choice<LyricTextChoice::Choice>( &LyricTextChoice::getChoice, &LyricTextChoice::setChoice, { { "syllabicTextGroup", LyricTextChoice::Choice::syllabicTextGroup }, { "extend", LyricTextChoice::Choice::extend }, { "laughing", LyricTextChoice::Choice::laughing }, { "humming", LyricTextChoice::Choice::humming } } ).done(); } );
    cont::Add aMidiDeviceInstrumentGroup( "MidiDeviceInstrumentGroup", [] { return cont::Build<MidiDeviceInstrumentGroup>( true )
        .one<MidiDevice>( "MidiDevice", false, &MidiDeviceInstrumentGroup::getMidiDevice, &MidiDeviceInstrumentGroup::setMidiDevice )
        .one<MidiInstrument>( "MidiInstrument", false, &MidiDeviceInstrumentGroup::getMidiInstrument, &MidiDeviceInstrumentGroup::setMidiInstrument )
        .has( "MidiDevice", &MidiDeviceInstrumentGroup::getHasMidiDevice, &MidiDeviceInstrumentGroup::setHasMidiDevice )
        .has( "MidiInstrument", &MidiDeviceInstrumentGroup::getHasMidiInstrument, &MidiDeviceInstrumentGroup::setHasMidiInstrument ).done(); } );
    cont::Add aMusicDataGroup( "MusicDataGroup", [] { return cont::Build<MusicDataGroup>( true )
        .many<MusicDataChoice>( "MusicDataChoice", true, &MusicDataGroup::addMusicDataChoice, &MusicDataGroup::removeMusicDataChoice, &MusicDataGroup::clearMusicDataChoiceSet, &MusicDataGroup::getMusicDataChoiceSet, &MusicDataGroup::getMusicDataChoice ).done(); } );
    cont::Add aNotations( "Notations", [] { return cont::Build<Notations>( false )
        .one<EditorialGroup>( "EditorialGroup", true, &Notations::getEditorialGroup, &Notations::setEditorialGroup )
        .many<NotationsChoice>( "NotationsChoice", true, &Notations::addNotationsChoice, &Notations::removeNotationsChoice, &Notations::clearNotationsChoiceSet, &Notations::getNotationsChoiceSet, &Notations::getNotationsChoice ).done(); } );
    cont::Add aOrnamentsChoice( "OrnamentsChoice", [] { return cont::Build<OrnamentsChoice>( true )
        .one<TrillMark>( "TrillMark", false, &OrnamentsChoice::getTrillMark, &OrnamentsChoice::setTrillMark )
        .one<Turn>( "Turn", false, &OrnamentsChoice::getTurn, &OrnamentsChoice::setTurn )
        .one<DelayedTurn>( "DelayedTurn", false, &OrnamentsChoice::getDelayedTurn, &OrnamentsChoice::setDelayedTurn )
        .one<InvertedTurn>( "InvertedTurn", false, &OrnamentsChoice::getInvertedTurn, &OrnamentsChoice::setInvertedTurn )
        .one<DelayedInvertedTurn>( "DelayedInvertedTurn", false, &OrnamentsChoice::getDelayedInvertedTurn, &OrnamentsChoice::setDelayedInvertedTurn )
        .one<VerticalTurn>( "VerticalTurn", false, &OrnamentsChoice::getVerticalTurn, &OrnamentsChoice::setVerticalTurn )
        .one<Shake>( "Shake", false, &OrnamentsChoice::getShake, &OrnamentsChoice::setShake )
        .one<WavyLine>( "WavyLine", false, &OrnamentsChoice::getWavyLine, &OrnamentsChoice::setWavyLine )
        .one<Mordent>( "Mordent", false, &OrnamentsChoice::getMordent, &OrnamentsChoice::setMordent )
        .one<InvertedMordent>( "InvertedMordent", false, &OrnamentsChoice::getInvertedMordent, &OrnamentsChoice::setInvertedMordent )
        .one<Schleifer>( "Schleifer", false, &OrnamentsChoice::getSchleifer, &OrnamentsChoice::setSchleifer )
        .one<Tremolo>( "Tremolo", false, &OrnamentsChoice::getTremolo, &OrnamentsChoice::setTremolo )
        .one<OtherOrnament>( "OtherOrnament", false, &OrnamentsChoice::getOtherOrnament, &OrnamentsChoice::setOtherOrnament )
        .choice<OrnamentsChoice::Choice>( &OrnamentsChoice::getChoice, &OrnamentsChoice::setChoice, { { "trillMark", OrnamentsChoice::Choice::trillMark }, { "turn", OrnamentsChoice::Choice::turn }, { "delayedTurn", OrnamentsChoice::Choice::delayedTurn }, { "invertedTurn", OrnamentsChoice::Choice::invertedTurn }, { "delayedInvertedTurn", OrnamentsChoice::Choice::delayedInvertedTurn }, { "verticalTurn", OrnamentsChoice::Choice::verticalTurn }, { "shake", OrnamentsChoice::Choice::shake }, { "wavyLine", OrnamentsChoice::Choice::wavyLine }, { "mordent", OrnamentsChoice::Choice::mordent }, { "invertedMordent", OrnamentsChoice::Choice::invertedMordent }, { "schleifer", OrnamentsChoice::Choice::schleifer }, { "tremolo", OrnamentsChoice::Choice::tremolo }, { "otherOrnament", OrnamentsChoice::Choice::otherOrnament } } ).done(); } );
    cont::Add aPageLayout( "PageLayout", [] { return cont::Build<PageLayout>( false )
        .one<PageHeight>( "PageHeight", false, &PageLayout::getPageHeight, &PageLayout::setPageHeight )
        .one<PageWidth>( "PageWidth", false, &PageLayout::getPageWidth, &PageLayout::setPageWidth )
        .many<PageMargins>( "PageMargins", false, &PageLayout::addPageMargins, &PageLayout::removePageMargins, &PageLayout::clearPageMarginsSet, &PageLayout::getPageMarginsSet, &PageLayout::getPageMargins )
        .has( "Size", &PageLayout::getHasSize, &PageLayout::setHasSize ).done(); } );
    cont::Add aPartList( "PartList", [] { return cont::Build<PartList>( false )
        .many<PartGroup>( "PartGroup", false, &PartList::addPartGroup, &PartList::removePartGroup, &PartList::clearPartGroupSet, &PartList::getPartGroupSet, &PartList::getPartGroup )
        .one<ScorePart>( "ScorePart", false, &PartList::getScorePart, &PartList::setScorePart )
        .many<PartGroupOrScorePart>( "PartGroupOrScorePart", true, &PartList::addPartGroupOrScorePart, &PartList::removePartGroupOrScorePart, &PartList::clearPartGroupOrScorePartSet, &PartList::getPartGroupOrScorePartSet, &PartList::getPartGroupOrScorePart ).done(); } );
    cont::Add aScaling( "Scaling", [] { return cont::Build<Scaling>( false )
        .one<Millimeters>( "Millimeters", false, &Scaling::getMillimeters, &Scaling::setMillimeters )
        .one<Tenths>( "Tenths", false, &Scaling::getTenths, &Scaling::setTenths ).done(); } );
    cont::Add aStaffTuning( "StaffTuning", [] { return cont::Build<StaffTuning>( false )
        .one<TuningStep>( "TuningStep", false, &StaffTuning::getTuningStep, &StaffTuning::setTuningStep )
        .one<TuningAlter>( "TuningAlter", false, &StaffTuning::getTuningAlter, &StaffTuning::setTuningAlter )
        .one<TuningOctave>( "TuningOctave", false, &StaffTuning::getTuningOctave, &StaffTuning::setTuningOctave )
        .has( "TuningAlter", &StaffTuning::getHasTuningAlter, &StaffTuning::setHasTuningAlter ).done(); } );
    cont::Add aTechnical( "Technical", [] { return cont::Build<Technical>( false )
        .many<TechnicalChoice>( "TechnicalChoice", true, &Technical::addTechnicalChoice, &Technical::removeTechnicalChoice, &Technical::clearTechnicalChoiceSet, &Technical::getTechnicalChoiceSet, &Technical::getTechnicalChoice ).done(); } );
    cont::Add aTimeModificationNormalTypeNormalDot( "TimeModificationNormalTypeNormalDot", [] { return cont::Build<TimeModificationNormalTypeNormalDot>( true )
        .one<NormalType>( "NormalType", false, &TimeModificationNormalTypeNormalDot::getNormalType, &TimeModificationNormalTypeNormalDot::setNormalType )
        .many<NormalDot>( "NormalDot", false, &TimeModificationNormalTypeNormalDot::addNormalDot, &TimeModificationNormalTypeNormalDot::removeNormalDot, &TimeModificationNormalTypeNormalDot::clearNormalDotSet, &TimeModificationNormalTypeNormalDot::getNormalDotSet, &TimeModificationNormalTypeNormalDot::getNormalDot ).done(); } );
    cont::Add aUnpitched( "Unpitched", [] { return cont::Build<Unpitched>( false )
        .one<DisplayStepOctaveGroup>( "DisplayStepOctaveGroup", true, &Unpitched::getDisplayStepOctaveGroup, &Unpitched::setDisplayStepOctaveGroup )
        .has( "DisplayStepOctaveGroup", &Unpitched::getHasDisplayStepOctaveGroup, &Unpitched::setHasDisplayStepOctaveGroup ).done(); } );
    cont::Add aVirtualInstrument( "VirtualInstrument", [] { return cont::Build<VirtualInstrument>( false )
        .one<VirtualLibrary>( "VirtualLibrary", false, &VirtualInstrument::getVirtualLibrary, &VirtualInstrument::setVirtualLibrary )
        .one<VirtualName>( "VirtualName", false, &VirtualInstrument::getVirtualName, &VirtualInstrument::setVirtualName )
        .has( "VirtualLibrary", &VirtualInstrument::getHasVirtualLibrary, &VirtualInstrument::setHasVirtualLibrary )
        .has( "VirtualName", &VirtualInstrument::getHasVirtualName, &VirtualInstrument::setHasVirtualName ).done(); } );
}
