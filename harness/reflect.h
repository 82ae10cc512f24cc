// Reflection of the mx::api value types: one line per public field. Generated once from the headers,
// then kept by hand. It names public fields and enumerators only.
#pragma once
#include "json.h"
#include "mx/api/ScoreData.h"
#include "mx/api/DocumentManager.h"
#include <sstream>
#include <iomanip>
#include <optional>
#include <map>

namespace refl
{
using namespace mx::api;
// enumerations ---------------------------------------------------------------------------------
template<class E> struct Names;   // { value, "name" } table

template<> struct Names<Bool> { static const std::vector<std::pair<Bool, const char*>>& get() { static const std::vector<std::pair<Bool, const char*>> t{
    {Bool::unspecified,"unspecified"}, {Bool::yes,"yes"}, {Bool::no,"no"}, }; return t; } };
template<> struct Names<Placement> { static const std::vector<std::pair<Placement, const char*>>& get() { static const std::vector<std::pair<Placement, const char*>> t{
    {Placement::unspecified,"unspecified"}, {Placement::above,"above"}, {Placement::below,"below"}, }; return t; } };
template<> struct Names<MeasureNumbering> { static const std::vector<std::pair<MeasureNumbering, const char*>>& get() { static const std::vector<std::pair<MeasureNumbering, const char*>> t{
    {MeasureNumbering::unspecified,"unspecified"}, {MeasureNumbering::none,"none"}, {MeasureNumbering::measure,"measure"}, 
    {MeasureNumbering::system,"system"}, }; return t; } };
template<> struct Names<AppearanceType> { static const std::vector<std::pair<AppearanceType, const char*>>& get() { static const std::vector<std::pair<AppearanceType, const char*>> t{
    {AppearanceType::LineWidth,"LineWidth"}, {AppearanceType::NoteSize,"NoteSize"}, {AppearanceType::Distance,"Distance"}, 
    {AppearanceType::OtherAppearance,"OtherAppearance"}, }; return t; } };
template<> struct Names<VerticalAlignment> { static const std::vector<std::pair<VerticalAlignment, const char*>>& get() { static const std::vector<std::pair<VerticalAlignment, const char*>> t{
    {VerticalAlignment::unspecified,"unspecified"}, {VerticalAlignment::top,"top"}, {VerticalAlignment::middle,"middle"}, 
    {VerticalAlignment::bottom,"bottom"}, {VerticalAlignment::baseline,"baseline"}, }; return t; } };
template<> struct Names<HorizontalAlignment> { static const std::vector<std::pair<HorizontalAlignment, const char*>>& get() { static const std::vector<std::pair<HorizontalAlignment, const char*>> t{
    {HorizontalAlignment::unspecified,"unspecified"}, {HorizontalAlignment::left,"left"}, {HorizontalAlignment::center,"center"}, 
    {HorizontalAlignment::right,"right"}, }; return t; } };
template<> struct Names<BarlineType> { static const std::vector<std::pair<BarlineType, const char*>>& get() { static const std::vector<std::pair<BarlineType, const char*>> t{
    {BarlineType::unspecified,"unspecified"}, {BarlineType::unsupported,"unsupported"}, {BarlineType::none,"none"}, {BarlineType::normal,"normal"}, 
    {BarlineType::lightLight,"lightLight"}, {BarlineType::lightHeavy,"lightHeavy"}, {BarlineType::heavyLight,"heavyLight"}, 
    {BarlineType::dotted,"dotted"}, {BarlineType::dashed,"dashed"}, {BarlineType::heavy,"heavy"}, {BarlineType::heavyHeavy,"heavyHeavy"}, }; return t; } };
template<> struct Names<EndingType> { static const std::vector<std::pair<EndingType, const char*>>& get() { static const std::vector<std::pair<EndingType, const char*>> t{
    {EndingType::none,"none"}, {EndingType::start,"start"}, {EndingType::stop,"stop"}, {EndingType::discontinue,"discontinue"}, }; return t; } };
template<> struct Names<ClefSymbol> { static const std::vector<std::pair<ClefSymbol, const char*>>& get() { static const std::vector<std::pair<ClefSymbol, const char*>> t{
    {ClefSymbol::none,"none"}, {ClefSymbol::g,"g"}, {ClefSymbol::f,"f"}, {ClefSymbol::c,"c"}, {ClefSymbol::percussion,"percussion"}, 
    {ClefSymbol::tab,"tab"}, {ClefSymbol::jianpu,"jianpu"}, }; return t; } };
template<> struct Names<ClefLocation> { static const std::vector<std::pair<ClefLocation, const char*>>& get() { static const std::vector<std::pair<ClefLocation, const char*>> t{
    {ClefLocation::unspecified,"unspecified"}, {ClefLocation::beforeBarline,"beforeBarline"}, {ClefLocation::afterBarline,"afterBarline"}, 
    {ClefLocation::midMeasure,"midMeasure"}, }; return t; } };
template<> struct Names<Step> { static const std::vector<std::pair<Step, const char*>>& get() { static const std::vector<std::pair<Step, const char*>> t{
    {Step::c,"c"}, {Step::d,"d"}, {Step::e,"e"}, {Step::f,"f"}, {Step::g,"g"}, {Step::a,"a"}, {Step::b,"b"}, {Step::unspecified,"unspecified"}, }; return t; } };
template<> struct Names<Accidental> { static const std::vector<std::pair<Accidental, const char*>>& get() { static const std::vector<std::pair<Accidental, const char*>> t{
    {Accidental::none,"none"}, {Accidental::sharp,"sharp"}, {Accidental::natural,"natural"}, {Accidental::flat,"flat"}, 
    {Accidental::doubleSharp,"doubleSharp"}, {Accidental::sharpSharp,"sharpSharp"}, {Accidental::flatFlat,"flatFlat"}, 
    {Accidental::naturalSharp,"naturalSharp"}, {Accidental::naturalFlat,"naturalFlat"}, {Accidental::quarterFlat,"quarterFlat"}, 
    {Accidental::quarterSharp,"quarterSharp"}, {Accidental::threeQuartersFlat,"threeQuartersFlat"}, 
    {Accidental::threeQuartersSharp,"threeQuartersSharp"}, {Accidental::sharpDown,"sharpDown"}, {Accidental::sharpUp,"sharpUp"}, 
    {Accidental::naturalDown,"naturalDown"}, {Accidental::naturalUp,"naturalUp"}, {Accidental::flatDown,"flatDown"}, {Accidental::flatUp,"flatUp"}, 
    {Accidental::tripleSharp,"tripleSharp"}, {Accidental::tripleFlat,"tripleFlat"}, {Accidental::slashQuarterSharp,"slashQuarterSharp"}, 
    {Accidental::slashSharp,"slashSharp"}, {Accidental::slashFlat,"slashFlat"}, {Accidental::doubleSlashFlat,"doubleSlashFlat"}, 
    {Accidental::sharp1,"sharp1"}, {Accidental::sharp2,"sharp2"}, {Accidental::sharp3,"sharp3"}, {Accidental::sharp5,"sharp5"}, 
    {Accidental::flat1,"flat1"}, {Accidental::flat2,"flat2"}, {Accidental::flat3,"flat3"}, {Accidental::flat4,"flat4"}, {Accidental::sori,"sori"}, 
    {Accidental::koron,"koron"}, }; return t; } };
template<> struct Names<ChordKind> { static const std::vector<std::pair<ChordKind, const char*>>& get() { static const std::vector<std::pair<ChordKind, const char*>> t{
    {ChordKind::unspecified,"unspecified"}, {ChordKind::major,"major"}, {ChordKind::minor,"minor"}, {ChordKind::augmented,"augmented"}, 
    {ChordKind::diminished,"diminished"}, {ChordKind::dominant,"dominant"}, {ChordKind::majorSeventh,"majorSeventh"}, 
    {ChordKind::minorSeventh,"minorSeventh"}, {ChordKind::diminishedSeventh,"diminishedSeventh"}, {ChordKind::augmentedSeventh,"augmentedSeventh"}, 
    {ChordKind::halfDiminished,"halfDiminished"}, {ChordKind::majorMinor,"majorMinor"}, {ChordKind::majorSixth,"majorSixth"}, 
    {ChordKind::minorSixth,"minorSixth"}, {ChordKind::dominantNinth,"dominantNinth"}, {ChordKind::majorNinth,"majorNinth"}, 
    {ChordKind::minorNinth,"minorNinth"}, {ChordKind::dominant11Th,"dominant11Th"}, {ChordKind::major11Th,"major11Th"}, 
    {ChordKind::minor11Th,"minor11Th"}, {ChordKind::dominant13Th,"dominant13Th"}, {ChordKind::major13Th,"major13Th"}, 
    {ChordKind::minor13Th,"minor13Th"}, {ChordKind::suspendedSecond,"suspendedSecond"}, {ChordKind::suspendedFourth,"suspendedFourth"}, 
    {ChordKind::neapolitan,"neapolitan"}, {ChordKind::italian,"italian"}, {ChordKind::french,"french"}, {ChordKind::german,"german"}, 
    {ChordKind::pedal,"pedal"}, {ChordKind::power,"power"}, {ChordKind::tristan,"tristan"}, {ChordKind::other,"other"}, {ChordKind::none,"none"}, }; return t; } };
template<> struct Names<ExtensionType> { static const std::vector<std::pair<ExtensionType, const char*>>& get() { static const std::vector<std::pair<ExtensionType, const char*>> t{
    {ExtensionType::add,"add"}, {ExtensionType::remove,"remove"}, {ExtensionType::alter,"alter"}, }; return t; } };
template<> struct Names<ExtensionNumber> { static const std::vector<std::pair<ExtensionNumber, const char*>>& get() { static const std::vector<std::pair<ExtensionNumber, const char*>> t{
    {ExtensionNumber::first,"first"}, {ExtensionNumber::second,"second"}, {ExtensionNumber::third,"third"}, {ExtensionNumber::fourth,"fourth"}, 
    {ExtensionNumber::fifth,"fifth"}, {ExtensionNumber::sixth,"sixth"}, {ExtensionNumber::seventh,"seventh"}, {ExtensionNumber::ninth,"ninth"}, 
    {ExtensionNumber::eleventh,"eleventh"}, {ExtensionNumber::thirteenth,"thirteenth"}, }; return t; } };
template<> struct Names<ExtensionAlter> { static const std::vector<std::pair<ExtensionAlter, const char*>>& get() { static const std::vector<std::pair<ExtensionAlter, const char*>> t{
    {ExtensionAlter::none,"none"}, {ExtensionAlter::flat,"flat"}, {ExtensionAlter::sharp,"sharp"}, {ExtensionAlter::doubleFlat,"doubleFlat"}, 
    {ExtensionAlter::doubleSharp,"doubleSharp"}, }; return t; } };
template<> struct Names<FontSizeType> { static const std::vector<std::pair<FontSizeType, const char*>>& get() { static const std::vector<std::pair<FontSizeType, const char*>> t{
    {FontSizeType::unspecified,"unspecified"}, {FontSizeType::css,"css"}, {FontSizeType::point,"point"}, }; return t; } };
template<> struct Names<CssSize> { static const std::vector<std::pair<CssSize, const char*>>& get() { static const std::vector<std::pair<CssSize, const char*>> t{
    {CssSize::unspecified,"unspecified"}, {CssSize::xxSmall,"xxSmall"}, {CssSize::xSmall,"xSmall"}, {CssSize::small,"small"}, 
    {CssSize::medium,"medium"}, {CssSize::large,"large"}, {CssSize::xLarge,"xLarge"}, {CssSize::xxLarge,"xxLarge"}, }; return t; } };
template<> struct Names<FontStyle> { static const std::vector<std::pair<FontStyle, const char*>>& get() { static const std::vector<std::pair<FontStyle, const char*>> t{
    {FontStyle::unspecified,"unspecified"}, {FontStyle::normal,"normal"}, {FontStyle::italic,"italic"}, }; return t; } };
template<> struct Names<FontWeight> { static const std::vector<std::pair<FontWeight, const char*>>& get() { static const std::vector<std::pair<FontWeight, const char*>> t{
    {FontWeight::unspecified,"unspecified"}, {FontWeight::normal,"normal"}, {FontWeight::bold,"bold"}, }; return t; } };
template<> struct Names<MarkType> { static const std::vector<std::pair<MarkType, const char*>>& get() { static const std::vector<std::pair<MarkType, const char*>> t{
    {MarkType::unspecified,"unspecified"}, {MarkType::accent,"accent"}, {MarkType::strongAccent,"strongAccent"}, {MarkType::staccato,"staccato"}, 
    {MarkType::tenuto,"tenuto"}, {MarkType::detachedLegato,"detachedLegato"}, {MarkType::staccatissimo,"staccatissimo"}, 
    {MarkType::spiccato,"spiccato"}, {MarkType::scoop,"scoop"}, {MarkType::plop,"plop"}, {MarkType::doit,"doit"}, {MarkType::falloff,"falloff"}, 
    {MarkType::breathMark,"breathMark"}, {MarkType::caesura,"caesura"}, {MarkType::stress,"stress"}, {MarkType::unstress,"unstress"}, 
    {MarkType::otherArticulation,"otherArticulation"}, {MarkType::p,"p"}, {MarkType::pp,"pp"}, {MarkType::ppp,"ppp"}, {MarkType::pppp,"pppp"}, 
    {MarkType::ppppp,"ppppp"}, {MarkType::pppppp,"pppppp"}, {MarkType::f,"f"}, {MarkType::ff,"ff"}, {MarkType::fff,"fff"}, {MarkType::ffff,"ffff"}, 
    {MarkType::fffff,"fffff"}, {MarkType::ffffff,"ffffff"}, {MarkType::mp,"mp"}, {MarkType::mf,"mf"}, {MarkType::sf,"sf"}, {MarkType::sfp,"sfp"}, 
    {MarkType::sfpp,"sfpp"}, {MarkType::fp,"fp"}, {MarkType::rf,"rf"}, {MarkType::rfz,"rfz"}, {MarkType::sfz,"sfz"}, {MarkType::sffz,"sffz"}, 
    {MarkType::fz,"fz"}, {MarkType::otherDynamics,"otherDynamics"}, {MarkType::unknownDynamics,"unknownDynamics"}, {MarkType::trillMark,"trillMark"}, 
    {MarkType::turn,"turn"}, {MarkType::delayedTurn,"delayedTurn"}, {MarkType::invertedTurn,"invertedTurn"}, 
    {MarkType::delayedInvertedTurn,"delayedInvertedTurn"}, {MarkType::verticalTurn,"verticalTurn"}, {MarkType::shake,"shake"}, 
    {MarkType::wavyLine,"wavyLine"}, {MarkType::mordent,"mordent"}, {MarkType::invertedMordent,"invertedMordent"}, {MarkType::schleifer,"schleifer"}, 
    {MarkType::tremoloSingleOne,"tremoloSingleOne"}, {MarkType::tremoloSingleTwo,"tremoloSingleTwo"}, 
    {MarkType::tremoloSingleThree,"tremoloSingleThree"}, {MarkType::tremoloSingleFour,"tremoloSingleFour"}, 
    {MarkType::tremoloSingleFive,"tremoloSingleFive"}, {MarkType::otherOrnament,"otherOrnament"}, {MarkType::unknownOrnament,"unknownOrnament"}, 
    {MarkType::accidentalMarkSharp,"accidentalMarkSharp"}, {MarkType::accidentalMarkNatural,"accidentalMarkNatural"}, 
    {MarkType::accidentalMarkFlat,"accidentalMarkFlat"}, {MarkType::accidentalMarkDoubleSharp,"accidentalMarkDoubleSharp"}, 
    {MarkType::accidentalMarkSharpSharp,"accidentalMarkSharpSharp"}, {MarkType::accidentalMarkFlatFlat,"accidentalMarkFlatFlat"}, 
    {MarkType::accidentalMarkNaturalSharp,"accidentalMarkNaturalSharp"}, {MarkType::accidentalMarkNaturalFlat,"accidentalMarkNaturalFlat"}, 
    {MarkType::accidentalMarkQuarterFlat,"accidentalMarkQuarterFlat"}, {MarkType::accidentalMarkQuarterSharp,"accidentalMarkQuarterSharp"}, 
    {MarkType::accidentalMarkThreeQuartersFlat,"accidentalMarkThreeQuartersFlat"}, 
    {MarkType::accidentalMarkThreeQuartersSharp,"accidentalMarkThreeQuartersSharp"}, {MarkType::accidentalMarkSharpDown,"accidentalMarkSharpDown"}, 
    {MarkType::accidentalMarkSharpUp,"accidentalMarkSharpUp"}, {MarkType::accidentalMarkNaturalDown,"accidentalMarkNaturalDown"}, 
    {MarkType::accidentalMarkNaturalUp,"accidentalMarkNaturalUp"}, {MarkType::accidentalMarkFlatDown,"accidentalMarkFlatDown"}, 
    {MarkType::accidentalMarkFlatUp,"accidentalMarkFlatUp"}, {MarkType::accidentalMarkTripleSharp,"accidentalMarkTripleSharp"}, 
    {MarkType::accidentalMarkTripleFlat,"accidentalMarkTripleFlat"}, {MarkType::accidentalMarkSlashQuarterSharp,"accidentalMarkSlashQuarterSharp"}, 
    {MarkType::accidentalMarkSlashSharp,"accidentalMarkSlashSharp"}, {MarkType::accidentalMarkSlashFlat,"accidentalMarkSlashFlat"}, 
    {MarkType::accidentalMarkDoubleSlashFlat,"accidentalMarkDoubleSlashFlat"}, {MarkType::accidentalMarkSharp1,"accidentalMarkSharp1"}, 
    {MarkType::accidentalMarkSharp2,"accidentalMarkSharp2"}, {MarkType::accidentalMarkSharp3,"accidentalMarkSharp3"}, 
    {MarkType::accidentalMarkSharp5,"accidentalMarkSharp5"}, {MarkType::accidentalMarkFlat1,"accidentalMarkFlat1"}, 
    {MarkType::accidentalMarkFlat2,"accidentalMarkFlat2"}, {MarkType::accidentalMarkFlat3,"accidentalMarkFlat3"}, 
    {MarkType::accidentalMarkFlat4,"accidentalMarkFlat4"}, {MarkType::accidentalMarkSori,"accidentalMarkSori"}, 
    {MarkType::accidentalMarkKoron,"accidentalMarkKoron"}, {MarkType::accidentalUnknown,"accidentalUnknown"}, {MarkType::upBow,"upBow"}, 
    {MarkType::downBow,"downBow"}, {MarkType::harmonic,"harmonic"}, {MarkType::openString,"openString"}, {MarkType::thumbPosition,"thumbPosition"}, 
    {MarkType::doubleTongue,"doubleTongue"}, {MarkType::tripleTongue,"tripleTongue"}, {MarkType::stopped,"stopped"}, 
    {MarkType::snapPizzicato,"snapPizzicato"}, {MarkType::heel,"heel"}, {MarkType::toe,"toe"}, {MarkType::fingernails,"fingernails"}, 
    {MarkType::otherTechnical,"otherTechnical"}, {MarkType::unknownTechnical,"unknownTechnical"}, {MarkType::fermata,"fermata"}, 
    {MarkType::fermataNormal,"fermataNormal"}, {MarkType::fermataAngled,"fermataAngled"}, {MarkType::fermataSquare,"fermataSquare"}, 
    {MarkType::fermataUpright,"fermataUpright"}, {MarkType::fermataNormalUpright,"fermataNormalUpright"}, 
    {MarkType::fermataAngledUpright,"fermataAngledUpright"}, {MarkType::fermataSquareUpright,"fermataSquareUpright"}, 
    {MarkType::fermataInverted,"fermataInverted"}, {MarkType::fermataNormalInverted,"fermataNormalInverted"}, 
    {MarkType::fermataAngledInverted,"fermataAngledInverted"}, {MarkType::fermataSquareInverted,"fermataSquareInverted"}, 
    {MarkType::unknownFermata,"unknownFermata"}, {MarkType::pedal,"pedal"}, {MarkType::damp,"damp"}, {MarkType::arpeggiate,"arpeggiate"}, 
    {MarkType::arpeggiateDown,"arpeggiateDown"}, {MarkType::arpeggiateUp,"arpeggiateUp"}, {MarkType::nonArpeggiate,"nonArpeggiate"}, 
    {MarkType::customErrorUnknown,"customErrorUnknown"}, {MarkType::customAccentTenuto,"customAccentTenuto"}, }; return t; } };
template<> struct Names<LineType> { static const std::vector<std::pair<LineType, const char*>>& get() { static const std::vector<std::pair<LineType, const char*>> t{
    {LineType::unspecified,"unspecified"}, {LineType::solid,"solid"}, {LineType::dashed,"dashed"}, {LineType::dotted,"dotted"}, 
    {LineType::wavy,"wavy"}, }; return t; } };
template<> struct Names<LineHook> { static const std::vector<std::pair<LineHook, const char*>>& get() { static const std::vector<std::pair<LineHook, const char*>> t{
    {LineHook::unspecified,"unspecified"}, {LineHook::down,"down"}, {LineHook::up,"up"}, {LineHook::both,"both"}, {LineHook::arrow,"arrow"}, 
    {LineHook::none,"none"}, }; return t; } };
template<> struct Names<OttavaType> { static const std::vector<std::pair<OttavaType, const char*>>& get() { static const std::vector<std::pair<OttavaType, const char*>> t{
    {OttavaType::unspecified,"unspecified"}, {OttavaType::o8va,"o8va"}, {OttavaType::o8vb,"o8vb"}, {OttavaType::o15ma,"o15ma"}, 
    {OttavaType::o15mb,"o15mb"}, }; return t; } };
template<> struct Names<CurveType> { static const std::vector<std::pair<CurveType, const char*>>& get() { static const std::vector<std::pair<CurveType, const char*>> t{
    {CurveType::unspecified,"unspecified"}, {CurveType::slur,"slur"}, {CurveType::tie,"tie"}, }; return t; } };
template<> struct Names<CurveOrientation> { static const std::vector<std::pair<CurveOrientation, const char*>>& get() { static const std::vector<std::pair<CurveOrientation, const char*>> t{
    {CurveOrientation::unspecified,"unspecified"}, {CurveOrientation::overhand,"overhand"}, {CurveOrientation::underhand,"underhand"}, }; return t; } };
template<> struct Names<DurationName> { static const std::vector<std::pair<DurationName, const char*>>& get() { static const std::vector<std::pair<DurationName, const char*>> t{
    {DurationName::unspecified,"unspecified"}, {DurationName::maxima,"maxima"}, {DurationName::longa,"longa"}, {DurationName::breve,"breve"}, 
    {DurationName::whole,"whole"}, {DurationName::half,"half"}, {DurationName::quarter,"quarter"}, {DurationName::eighth,"eighth"}, 
    {DurationName::dur16th,"dur16th"}, {DurationName::dur32nd,"dur32nd"}, {DurationName::dur64th,"dur64th"}, {DurationName::dur128th,"dur128th"}, 
    {DurationName::dur256th,"dur256th"}, {DurationName::dur512th,"dur512th"}, {DurationName::dur1024th,"dur1024th"}, }; return t; } };
template<> struct Names<TempoType> { static const std::vector<std::pair<TempoType, const char*>>& get() { static const std::vector<std::pair<TempoType, const char*>> t{
    {TempoType::unspecified,"unspecified"}, {TempoType::beatsPerMinute,"beatsPerMinute"}, {TempoType::metricModulation,"metricModulation"}, 
    {TempoType::tempoText,"tempoText"}, }; return t; } };
template<> struct Names<WedgeType> { static const std::vector<std::pair<WedgeType, const char*>>& get() { static const std::vector<std::pair<WedgeType, const char*>> t{
    {WedgeType::unspecified,"unspecified"}, {WedgeType::crescendo,"crescendo"}, {WedgeType::diminuendo,"diminuendo"}, }; return t; } };
template<> struct Names<KeyMode> { static const std::vector<std::pair<KeyMode, const char*>>& get() { static const std::vector<std::pair<KeyMode, const char*>> t{
    {KeyMode::unspecified,"unspecified"}, {KeyMode::unsupported,"unsupported"}, {KeyMode::major,"major"}, {KeyMode::minor,"minor"}, }; return t; } };
template<> struct Names<NoteType> { static const std::vector<std::pair<NoteType, const char*>>& get() { static const std::vector<std::pair<NoteType, const char*>> t{
    {NoteType::normal,"normal"}, {NoteType::grace,"grace"}, {NoteType::cue,"cue"}, }; return t; } };
template<> struct Names<Notehead> { static const std::vector<std::pair<Notehead, const char*>>& get() { static const std::vector<std::pair<Notehead, const char*>> t{
    {Notehead::slash,"slash"}, {Notehead::triangle,"triangle"}, {Notehead::diamond,"diamond"}, {Notehead::square,"square"}, 
    {Notehead::cross,"cross"}, {Notehead::x,"x"}, {Notehead::circleX,"circleX"}, {Notehead::invertedTriangle,"invertedTriangle"}, 
    {Notehead::arrowDown,"arrowDown"}, {Notehead::arrowUp,"arrowUp"}, {Notehead::slashed,"slashed"}, {Notehead::backSlashed,"backSlashed"}, 
    {Notehead::normal,"normal"}, {Notehead::cluster,"cluster"}, {Notehead::circleDot,"circleDot"}, {Notehead::leftTriangle,"leftTriangle"}, 
    {Notehead::rectangle,"rectangle"}, {Notehead::none,"none"}, {Notehead::do_,"do_"}, {Notehead::re,"re"}, {Notehead::mi,"mi"}, {Notehead::fa,"fa"}, 
    {Notehead::faUp,"faUp"}, {Notehead::so,"so"}, {Notehead::la,"la"}, {Notehead::ti,"ti"}, }; return t; } };
template<> struct Names<Beam> { static const std::vector<std::pair<Beam, const char*>>& get() { static const std::vector<std::pair<Beam, const char*>> t{
    {Beam::unspecified,"unspecified"}, {Beam::begin,"begin"}, {Beam::end,"end"}, {Beam::extend,"extend"}, {Beam::forwardBroken,"forwardBroken"}, 
    {Beam::backwardBroken,"backwardBroken"}, }; return t; } };
template<> struct Names<Stem> { static const std::vector<std::pair<Stem, const char*>>& get() { static const std::vector<std::pair<Stem, const char*>> t{
    {Stem::unspecified,"unspecified"}, {Stem::up,"up"}, {Stem::down,"down"}, {Stem::none,"none"}, {Stem::both,"both"}, }; return t; } };
template<> struct Names<TimeSignatureSymbol> { static const std::vector<std::pair<TimeSignatureSymbol, const char*>>& get() { static const std::vector<std::pair<TimeSignatureSymbol, const char*>> t{
    {TimeSignatureSymbol::unspecified,"unspecified"}, {TimeSignatureSymbol::common,"common"}, {TimeSignatureSymbol::cut,"cut"}, }; return t; } };
template<> struct Names<SoundID> { static const std::vector<std::pair<SoundID, const char*>>& get() { static const std::vector<std::pair<SoundID, const char*>> t{
    {SoundID::unspecified,"unspecified"}, {SoundID::errorBadString,"errorBadString"}, {SoundID::brassAlphorn,"brassAlphorn"}, 
    {SoundID::brassAltoHorn,"brassAltoHorn"}, {SoundID::brassBaritoneHorn,"brassBaritoneHorn"}, {SoundID::brassBugle,"brassBugle"}, 
    {SoundID::brassBugleAlto,"brassBugleAlto"}, {SoundID::brassBugleBaritone,"brassBugleBaritone"}, 
    {SoundID::brassBugleContrabass,"brassBugleContrabass"}, {SoundID::brassBugleEuphoniumBugle,"brassBugleEuphoniumBugle"}, 
    {SoundID::brassBugleMellophoneBugle,"brassBugleMellophoneBugle"}, {SoundID::brassBugleSoprano,"brassBugleSoprano"}, 
    {SoundID::brassCimbasso,"brassCimbasso"}, {SoundID::brassConchShell,"brassConchShell"}, {SoundID::brassCornet,"brassCornet"}, 
    {SoundID::brassCornetSoprano,"brassCornetSoprano"}, {SoundID::brassCornett,"brassCornett"}, {SoundID::brassCornettTenor,"brassCornettTenor"}, 
    {SoundID::brassCornettino,"brassCornettino"}, {SoundID::brassDidgeridoo,"brassDidgeridoo"}, {SoundID::brassEuphonium,"brassEuphonium"}, 
    {SoundID::brassFiscorn,"brassFiscorn"}, {SoundID::brassFlugelhorn,"brassFlugelhorn"}, {SoundID::brassFrenchHorn,"brassFrenchHorn"}, 
    {SoundID::brassGroup,"brassGroup"}, {SoundID::brassGroupSynth,"brassGroupSynth"}, {SoundID::brassHelicon,"brassHelicon"}, 
    {SoundID::brassHoragai,"brassHoragai"}, {SoundID::brassKuhlohorn,"brassKuhlohorn"}, {SoundID::brassMellophone,"brassMellophone"}, 
    {SoundID::brassNaturalHorn,"brassNaturalHorn"}, {SoundID::brassOphicleide,"brassOphicleide"}, {SoundID::brassPosthorn,"brassPosthorn"}, 
    {SoundID::brassRagDung,"brassRagDung"}, {SoundID::brassSackbutt,"brassSackbutt"}, {SoundID::brassSackbuttAlto,"brassSackbuttAlto"}, 
    {SoundID::brassSackbuttBass,"brassSackbuttBass"}, {SoundID::brassSackbuttTenor,"brassSackbuttTenor"}, {SoundID::brassSaxhorn,"brassSaxhorn"}, 
    {SoundID::brassSerpent,"brassSerpent"}, {SoundID::brassShofar,"brassShofar"}, {SoundID::brassSousaphone,"brassSousaphone"}, 
    {SoundID::brassTrombone,"brassTrombone"}, {SoundID::brassTromboneAlto,"brassTromboneAlto"}, {SoundID::brassTromboneBass,"brassTromboneBass"}, 
    {SoundID::brassTromboneContrabass,"brassTromboneContrabass"}, {SoundID::brassTromboneTenor,"brassTromboneTenor"}, 
    {SoundID::brassTrumpet,"brassTrumpet"}, {SoundID::brassTrumpetBaroque,"brassTrumpetBaroque"}, {SoundID::brassTrumpetBass,"brassTrumpetBass"}, 
    {SoundID::brassTrumpetBflat,"brassTrumpetBflat"}, {SoundID::brassTrumpetC,"brassTrumpetC"}, {SoundID::brassTrumpetD,"brassTrumpetD"}, 
    {SoundID::brassTrumpetPiccolo,"brassTrumpetPiccolo"}, {SoundID::brassTrumpetPocket,"brassTrumpetPocket"}, 
    {SoundID::brassTrumpetSlide,"brassTrumpetSlide"}, {SoundID::brassTrumpetTenor,"brassTrumpetTenor"}, {SoundID::brassTuba,"brassTuba"}, 
    {SoundID::brassTubaBass,"brassTubaBass"}, {SoundID::brassTubaSubcontrabass,"brassTubaSubcontrabass"}, 
    {SoundID::brassViennaHorn,"brassViennaHorn"}, {SoundID::brassVuvuzela,"brassVuvuzela"}, {SoundID::brassWagnerTuba,"brassWagnerTuba"}, 
    {SoundID::drumApentemma,"drumApentemma"}, {SoundID::drumAshiko,"drumAshiko"}, {SoundID::drumAtabaque,"drumAtabaque"}, 
    {SoundID::drumAtoke,"drumAtoke"}, {SoundID::drumAtsimevu,"drumAtsimevu"}, {SoundID::drumAxatse,"drumAxatse"}, 
    {SoundID::drumBassDrum,"drumBassDrum"}, {SoundID::drumBata,"drumBata"}, {SoundID::drumBataItotele,"drumBataItotele"}, 
    {SoundID::drumBataIya,"drumBataIya"}, {SoundID::drumBataOkonkolo,"drumBataOkonkolo"}, {SoundID::drumBendir,"drumBendir"}, 
    {SoundID::drumBodhran,"drumBodhran"}, {SoundID::drumBombo,"drumBombo"}, {SoundID::drumBongo,"drumBongo"}, 
    {SoundID::drumBougarabou,"drumBougarabou"}, {SoundID::drumBuffaloDrum,"drumBuffaloDrum"}, {SoundID::drumCajon,"drumCajon"}, 
    {SoundID::drumChenda,"drumChenda"}, {SoundID::drumChuDaiko,"drumChuDaiko"}, {SoundID::drumConga,"drumConga"}, {SoundID::drumCuica,"drumCuica"}, 
    {SoundID::drumDabakan,"drumDabakan"}, {SoundID::drumDaff,"drumDaff"}, {SoundID::drumDafli,"drumDafli"}, {SoundID::drumDaibyosi,"drumDaibyosi"}, 
    {SoundID::drumDamroo,"drumDamroo"}, {SoundID::drumDarabuka,"drumDarabuka"}, {SoundID::drumDef,"drumDef"}, {SoundID::drumDhol,"drumDhol"}, 
    {SoundID::drumDholak,"drumDholak"}, {SoundID::drumDjembe,"drumDjembe"}, {SoundID::drumDoira,"drumDoira"}, {SoundID::drumDondo,"drumDondo"}, 
    {SoundID::drumDounDounBa,"drumDounDounBa"}, {SoundID::drumDuff,"drumDuff"}, {SoundID::drumDumbek,"drumDumbek"}, 
    {SoundID::drumFontomfrom,"drumFontomfrom"}, {SoundID::drumFrameDrum,"drumFrameDrum"}, {SoundID::drumFrameDrumArabian,"drumFrameDrumArabian"}, 
    {SoundID::drumGeduk,"drumGeduk"}, {SoundID::drumGhatam,"drumGhatam"}, {SoundID::drumGome,"drumGome"}, {SoundID::drumGroup,"drumGroup"}, 
    {SoundID::drumGroupChinese,"drumGroupChinese"}, {SoundID::drumGroupEwe,"drumGroupEwe"}, {SoundID::drumGroupIndian,"drumGroupIndian"}, 
    {SoundID::drumGroupSet,"drumGroupSet"}, {SoundID::drumHandDrum,"drumHandDrum"}, {SoundID::drumHiraDaiko,"drumHiraDaiko"}, 
    {SoundID::drumIbo,"drumIbo"}, {SoundID::drumIgihumurizo,"drumIgihumurizo"}, {SoundID::drumInyahura,"drumInyahura"}, 
    {SoundID::drumIshakwe,"drumIshakwe"}, {SoundID::drumJangGu,"drumJangGu"}, {SoundID::drumKagan,"drumKagan"}, {SoundID::drumKakko,"drumKakko"}, 
    {SoundID::drumKanjira,"drumKanjira"}, {SoundID::drumKendhang,"drumKendhang"}, {SoundID::drumKendhangAgeng,"drumKendhangAgeng"}, 
    {SoundID::drumKendhangCiblon,"drumKendhangCiblon"}, {SoundID::drumKenkeni,"drumKenkeni"}, {SoundID::drumKhol,"drumKhol"}, 
    {SoundID::drumKickDrum,"drumKickDrum"}, {SoundID::drumKidi,"drumKidi"}, {SoundID::drumKoDaiko,"drumKoDaiko"}, 
    {SoundID::drumKpanlogo,"drumKpanlogo"}, {SoundID::drumKudum,"drumKudum"}, {SoundID::drumLambeg,"drumLambeg"}, 
    {SoundID::drumLionDrum,"drumLionDrum"}, {SoundID::drumLogDrum,"drumLogDrum"}, {SoundID::drumLogDrumAfrican,"drumLogDrumAfrican"}, 
    {SoundID::drumLogDrumNative,"drumLogDrumNative"}, {SoundID::drumLogDrumNigerian,"drumLogDrumNigerian"}, {SoundID::drumMadal,"drumMadal"}, 
    {SoundID::drumMaddale,"drumMaddale"}, {SoundID::drumMridangam,"drumMridangam"}, {SoundID::drumNaal,"drumNaal"}, 
    {SoundID::drumNagadoDaiko,"drumNagadoDaiko"}, {SoundID::drumNagara,"drumNagara"}, {SoundID::drumNaqara,"drumNaqara"}, 
    {SoundID::drumODaiko,"drumODaiko"}, {SoundID::drumOkawa,"drumOkawa"}, {SoundID::drumOkedoDaiko,"drumOkedoDaiko"}, 
    {SoundID::drumPahuHula,"drumPahuHula"}, {SoundID::drumPakhawaj,"drumPakhawaj"}, {SoundID::drumPandeiro,"drumPandeiro"}, 
    {SoundID::drumPandero,"drumPandero"}, {SoundID::drumPowwow,"drumPowwow"}, {SoundID::drumPueblo,"drumPueblo"}, 
    {SoundID::drumRepinique,"drumRepinique"}, {SoundID::drumRiq,"drumRiq"}, {SoundID::drumRototom,"drumRototom"}, {SoundID::drumSabar,"drumSabar"}, 
    {SoundID::drumSakara,"drumSakara"}, {SoundID::drumSampho,"drumSampho"}, {SoundID::drumSangban,"drumSangban"}, 
    {SoundID::drumShimeDaiko,"drumShimeDaiko"}, {SoundID::drumSlitDrum,"drumSlitDrum"}, {SoundID::drumSlitDrumKrin,"drumSlitDrumKrin"}, 
    {SoundID::drumSnareDrum,"drumSnareDrum"}, {SoundID::drumSnareDrumElectric,"drumSnareDrumElectric"}, {SoundID::drumSogo,"drumSogo"}, 
    {SoundID::drumSurdo,"drumSurdo"}, {SoundID::drumTabla,"drumTabla"}, {SoundID::drumTablaBayan,"drumTablaBayan"}, 
    {SoundID::drumTablaDayan,"drumTablaDayan"}, {SoundID::drumTaiko,"drumTaiko"}, {SoundID::drumTalking,"drumTalking"}, 
    {SoundID::drumTama,"drumTama"}, {SoundID::drumTamborita,"drumTamborita"}, {SoundID::drumTambourine,"drumTambourine"}, 
    {SoundID::drumTamte,"drumTamte"}, {SoundID::drumTangku,"drumTangku"}, {SoundID::drumTanTan,"drumTanTan"}, {SoundID::drumTaphon,"drumTaphon"}, 
    {SoundID::drumTar,"drumTar"}, {SoundID::drumTasha,"drumTasha"}, {SoundID::drumTenorDrum,"drumTenorDrum"}, 
    {SoundID::drumTeponaxtli,"drumTeponaxtli"}, {SoundID::drumThavil,"drumThavil"}, {SoundID::drumTheBox,"drumTheBox"}, 
    {SoundID::drumTimbale,"drumTimbale"}, {SoundID::drumTimpani,"drumTimpani"}, {SoundID::drumTinaja,"drumTinaja"}, {SoundID::drumToere,"drumToere"}, 
    {SoundID::drumTombak,"drumTombak"}, {SoundID::drumTomTom,"drumTomTom"}, {SoundID::drumTomTomSynth,"drumTomTomSynth"}, 
    {SoundID::drumTsuzumi,"drumTsuzumi"}, {SoundID::drumTumbak,"drumTumbak"}, {SoundID::drumUchiwaDaiko,"drumUchiwaDaiko"}, 
    {SoundID::drumUdaku,"drumUdaku"}, {SoundID::drumUdu,"drumUdu"}, {SoundID::drumZarb,"drumZarb"}, {SoundID::effectAeolianHarp,"effectAeolianHarp"}, 
    {SoundID::effectAirHorn,"effectAirHorn"}, {SoundID::effectApplause,"effectApplause"}, {SoundID::effectBassStringSlap,"effectBassStringSlap"}, 
    {SoundID::effectBird,"effectBird"}, {SoundID::effectBirdNightingale,"effectBirdNightingale"}, {SoundID::effectBirdTweet,"effectBirdTweet"}, 
    {SoundID::effectBreath,"effectBreath"}, {SoundID::effectBubble,"effectBubble"}, {SoundID::effectBullroarer,"effectBullroarer"}, 
    {SoundID::effectBurst,"effectBurst"}, {SoundID::effectCar,"effectCar"}, {SoundID::effectCarCrash,"effectCarCrash"}, 
    {SoundID::effectCarEngine,"effectCarEngine"}, {SoundID::effectCarPass,"effectCarPass"}, {SoundID::effectCarStop,"effectCarStop"}, 
    {SoundID::effectCrickets,"effectCrickets"}, {SoundID::effectDog,"effectDog"}, {SoundID::effectDoorCreak,"effectDoorCreak"}, 
    {SoundID::effectDoorSlam,"effectDoorSlam"}, {SoundID::effectExplosion,"effectExplosion"}, {SoundID::effectFluteKeyClick,"effectFluteKeyClick"}, 
    {SoundID::effectFootsteps,"effectFootsteps"}, {SoundID::effectFrogs,"effectFrogs"}, {SoundID::effectGuitarCutting,"effectGuitarCutting"}, 
    {SoundID::effectGuitarFret,"effectGuitarFret"}, {SoundID::effectGunshot,"effectGunshot"}, {SoundID::effectHandClap,"effectHandClap"}, 
    {SoundID::effectHeartbeat,"effectHeartbeat"}, {SoundID::effectHelicopter,"effectHelicopter"}, {SoundID::effectHighQ,"effectHighQ"}, 
    {SoundID::effectHorseGallop,"effectHorseGallop"}, {SoundID::effectJetPlane,"effectJetPlane"}, {SoundID::effectLaserGun,"effectLaserGun"}, 
    {SoundID::effectLaugh,"effectLaugh"}, {SoundID::effectLionsRoar,"effectLionsRoar"}, {SoundID::effectMachineGun,"effectMachineGun"}, 
    {SoundID::effectMarchingMachine,"effectMarchingMachine"}, {SoundID::effectMetronomeBell,"effectMetronomeBell"}, 
    {SoundID::effectMetronomeClick,"effectMetronomeClick"}, {SoundID::effectPat,"effectPat"}, {SoundID::effectPunch,"effectPunch"}, 
    {SoundID::effectRain,"effectRain"}, {SoundID::effectScratch,"effectScratch"}, {SoundID::effectScream,"effectScream"}, 
    {SoundID::effectSeashore,"effectSeashore"}, {SoundID::effectSiren,"effectSiren"}, {SoundID::effectSlap,"effectSlap"}, 
    {SoundID::effectSnap,"effectSnap"}, {SoundID::effectStamp,"effectStamp"}, {SoundID::effectStarship,"effectStarship"}, 
    {SoundID::effectStream,"effectStream"}, {SoundID::effectTelephoneRing,"effectTelephoneRing"}, {SoundID::effectThunder,"effectThunder"}, 
    {SoundID::effectTrain,"effectTrain"}, {SoundID::effectTrashCan,"effectTrashCan"}, {SoundID::effectWhip,"effectWhip"}, 
    {SoundID::effectWhistle,"effectWhistle"}, {SoundID::effectWhistleMouthSiren,"effectWhistleMouthSiren"}, 
    {SoundID::effectWhistlePolice,"effectWhistlePolice"}, {SoundID::effectWhistleSlide,"effectWhistleSlide"}, 
    {SoundID::effectWhistleTrain,"effectWhistleTrain"}, {SoundID::effectWind,"effectWind"}, {SoundID::keyboardAccordion,"keyboardAccordion"}, 
    {SoundID::keyboardBandoneon,"keyboardBandoneon"}, {SoundID::keyboardCelesta,"keyboardCelesta"}, 
    {SoundID::keyboardClavichord,"keyboardClavichord"}, {SoundID::keyboardClavichordSynth,"keyboardClavichordSynth"}, 
    {SoundID::keyboardConcertina,"keyboardConcertina"}, {SoundID::keyboardFortepiano,"keyboardFortepiano"}, 
    {SoundID::keyboardHarmonium,"keyboardHarmonium"}, {SoundID::keyboardHarpsichord,"keyboardHarpsichord"}, 
    {SoundID::keyboardOndesMartenot,"keyboardOndesMartenot"}, {SoundID::keyboardOrgan,"keyboardOrgan"}, 
    {SoundID::keyboardOrganDrawbar,"keyboardOrganDrawbar"}, {SoundID::keyboardOrganPercussive,"keyboardOrganPercussive"}, 
    {SoundID::keyboardOrganPipe,"keyboardOrganPipe"}, {SoundID::keyboardOrganReed,"keyboardOrganReed"}, 
    {SoundID::keyboardOrganRotary,"keyboardOrganRotary"}, {SoundID::keyboardPiano,"keyboardPiano"}, 
    {SoundID::keyboardPianoElectric,"keyboardPianoElectric"}, {SoundID::keyboardPianoGrand,"keyboardPianoGrand"}, 
    {SoundID::keyboardPianoHonkyTonk,"keyboardPianoHonkyTonk"}, {SoundID::keyboardPianoPrepared,"keyboardPianoPrepared"}, 
    {SoundID::keyboardPianoToy,"keyboardPianoToy"}, {SoundID::keyboardPianoUpright,"keyboardPianoUpright"}, 
    {SoundID::keyboardVirginal,"keyboardVirginal"}, {SoundID::metalAdodo,"metalAdodo"}, {SoundID::metalAnvil,"metalAnvil"}, 
    {SoundID::metalBabendil,"metalBabendil"}, {SoundID::metalBellsAgogo,"metalBellsAgogo"}, {SoundID::metalBellsAlmglocken,"metalBellsAlmglocken"}, 
    {SoundID::metalBellsBellPlate,"metalBellsBellPlate"}, {SoundID::metalBellsBellTree,"metalBellsBellTree"}, 
    {SoundID::metalBellsCarillon,"metalBellsCarillon"}, {SoundID::metalBellsChimes,"metalBellsChimes"}, 
    {SoundID::metalBellsChimta,"metalBellsChimta"}, {SoundID::metalBellsChippli,"metalBellsChippli"}, {SoundID::metalBellsChurch,"metalBellsChurch"}, 
    {SoundID::metalBellsCowbell,"metalBellsCowbell"}, {SoundID::metalBellsDawuro,"metalBellsDawuro"}, 
    {SoundID::metalBellsGankokwe,"metalBellsGankokwe"}, {SoundID::metalBellsGhungroo,"metalBellsGhungroo"}, 
    {SoundID::metalBellsHatheli,"metalBellsHatheli"}, {SoundID::metalBellsJingleBell,"metalBellsJingleBell"}, 
    {SoundID::metalBellsKhartal,"metalBellsKhartal"}, {SoundID::metalBellsMarkTree,"metalBellsMarkTree"}, 
    {SoundID::metalBellsSistrum,"metalBellsSistrum"}, {SoundID::metalBellsSleighBells,"metalBellsSleighBells"}, 
    {SoundID::metalBellsTemple,"metalBellsTemple"}, {SoundID::metalBellsTibetan,"metalBellsTibetan"}, 
    {SoundID::metalBellsTinklebell,"metalBellsTinklebell"}, {SoundID::metalBellsTrychel,"metalBellsTrychel"}, 
    {SoundID::metalBellsWindChimes,"metalBellsWindChimes"}, {SoundID::metalBellsZills,"metalBellsZills"}, {SoundID::metalBerimbau,"metalBerimbau"}, 
    {SoundID::metalBrakeDrums,"metalBrakeDrums"}, {SoundID::metalCrotales,"metalCrotales"}, {SoundID::metalCymbalBo,"metalCymbalBo"}, 
    {SoundID::metalCymbalCengCeng,"metalCymbalCengCeng"}, {SoundID::metalCymbalChabara,"metalCymbalChabara"}, 
    {SoundID::metalCymbalChinese,"metalCymbalChinese"}, {SoundID::metalCymbalChing,"metalCymbalChing"}, 
    {SoundID::metalCymbalClash,"metalCymbalClash"}, {SoundID::metalCymbalCrash,"metalCymbalCrash"}, {SoundID::metalCymbalFinger,"metalCymbalFinger"}, 
    {SoundID::metalCymbalHand,"metalCymbalHand"}, {SoundID::metalCymbalKesi,"metalCymbalKesi"}, {SoundID::metalCymbalManjeera,"metalCymbalManjeera"}, 
    {SoundID::metalCymbalReverse,"metalCymbalReverse"}, {SoundID::metalCymbalRide,"metalCymbalRide"}, 
    {SoundID::metalCymbalSizzle,"metalCymbalSizzle"}, {SoundID::metalCymbalSplash,"metalCymbalSplash"}, 
    {SoundID::metalCymbalSuspended,"metalCymbalSuspended"}, {SoundID::metalCymbalTebyoshi,"metalCymbalTebyoshi"}, 
    {SoundID::metalCymbalTibetan,"metalCymbalTibetan"}, {SoundID::metalCymbalTingsha,"metalCymbalTingsha"}, 
    {SoundID::metalFlexatone,"metalFlexatone"}, {SoundID::metalGong,"metalGong"}, {SoundID::metalGongAgeng,"metalGongAgeng"}, 
    {SoundID::metalGongAgung,"metalGongAgung"}, {SoundID::metalGongChanchiki,"metalGongChanchiki"}, {SoundID::metalGongChinese,"metalGongChinese"}, 
    {SoundID::metalGongGandingan,"metalGongGandingan"}, {SoundID::metalGongKempul,"metalGongKempul"}, 
    {SoundID::metalGongKempyang,"metalGongKempyang"}, {SoundID::metalGongKetuk,"metalGongKetuk"}, 
    {SoundID::metalGongKkwenggwari,"metalGongKkwenggwari"}, {SoundID::metalGongLuo,"metalGongLuo"}, {SoundID::metalGongSinging,"metalGongSinging"}, 
    {SoundID::metalGongThai,"metalGongThai"}, {SoundID::metalGuira,"metalGuira"}, {SoundID::metalHang,"metalHang"}, 
    {SoundID::metalHiHat,"metalHiHat"}, {SoundID::metalJawHarp,"metalJawHarp"}, {SoundID::metalKengong,"metalKengong"}, 
    {SoundID::metalMurchang,"metalMurchang"}, {SoundID::metalMusicalSaw,"metalMusicalSaw"}, {SoundID::metalSingingBowl,"metalSingingBowl"}, 
    {SoundID::metalSpoons,"metalSpoons"}, {SoundID::metalSteelDrums,"metalSteelDrums"}, {SoundID::metalTamtam,"metalTamtam"}, 
    {SoundID::metalThundersheet,"metalThundersheet"}, {SoundID::metalTriangle,"metalTriangle"}, {SoundID::metalWashboard,"metalWashboard"}, 
    {SoundID::pitchedPercussionAngklung,"pitchedPercussionAngklung"}, {SoundID::pitchedPercussionBalafon,"pitchedPercussionBalafon"}, 
    {SoundID::pitchedPercussionBellLyre,"pitchedPercussionBellLyre"}, {SoundID::pitchedPercussionBells,"pitchedPercussionBells"}, 
    {SoundID::pitchedPercussionBianqing,"pitchedPercussionBianqing"}, {SoundID::pitchedPercussionBianzhong,"pitchedPercussionBianzhong"}, 
    {SoundID::pitchedPercussionBonang,"pitchedPercussionBonang"}, {SoundID::pitchedPercussionCimbalom,"pitchedPercussionCimbalom"}, 
    {SoundID::pitchedPercussionCrystalGlasses,"pitchedPercussionCrystalGlasses"}, 
    {SoundID::pitchedPercussionDanTamThapLuc,"pitchedPercussionDanTamThapLuc"}, {SoundID::pitchedPercussionFangxiang,"pitchedPercussionFangxiang"}, 
    {SoundID::pitchedPercussionGandinganAKayo,"pitchedPercussionGandinganAKayo"}, {SoundID::pitchedPercussionGangsa,"pitchedPercussionGangsa"}, 
    {SoundID::pitchedPercussionGender,"pitchedPercussionGender"}, {SoundID::pitchedPercussionGiying,"pitchedPercussionGiying"}, 
    {SoundID::pitchedPercussionGlassHarmonica,"pitchedPercussionGlassHarmonica"}, 
    {SoundID::pitchedPercussionGlockenspiel,"pitchedPercussionGlockenspiel"}, 
    {SoundID::pitchedPercussionGlockenspielAlto,"pitchedPercussionGlockenspielAlto"}, 
    {SoundID::pitchedPercussionGlockenspielSoprano,"pitchedPercussionGlockenspielSoprano"}, {SoundID::pitchedPercussionGyil,"pitchedPercussionGyil"}, 
    {SoundID::pitchedPercussionHammerDulcimer,"pitchedPercussionHammerDulcimer"}, {SoundID::pitchedPercussionHandbells,"pitchedPercussionHandbells"}, 
    {SoundID::pitchedPercussionKalimba,"pitchedPercussionKalimba"}, {SoundID::pitchedPercussionKantil,"pitchedPercussionKantil"}, 
    {SoundID::pitchedPercussionKhim,"pitchedPercussionKhim"}, {SoundID::pitchedPercussionKulintang,"pitchedPercussionKulintang"}, 
    {SoundID::pitchedPercussionKulintangAKayo,"pitchedPercussionKulintangAKayo"}, 
    {SoundID::pitchedPercussionKulintangATiniok,"pitchedPercussionKulintangATiniok"}, {SoundID::pitchedPercussionLikembe,"pitchedPercussionLikembe"}, 
    {SoundID::pitchedPercussionLuntang,"pitchedPercussionLuntang"}, {SoundID::pitchedPercussionMarimba,"pitchedPercussionMarimba"}, 
    {SoundID::pitchedPercussionMarimbaBass,"pitchedPercussionMarimbaBass"}, {SoundID::pitchedPercussionMbira,"pitchedPercussionMbira"}, 
    {SoundID::pitchedPercussionMbiraArray,"pitchedPercussionMbiraArray"}, {SoundID::pitchedPercussionMetallophone,"pitchedPercussionMetallophone"}, 
    {SoundID::pitchedPercussionMetallophoneAlto,"pitchedPercussionMetallophoneAlto"}, 
    {SoundID::pitchedPercussionMetallophoneBass,"pitchedPercussionMetallophoneBass"}, 
    {SoundID::pitchedPercussionMetallophoneSoprano,"pitchedPercussionMetallophoneSoprano"}, 
    {SoundID::pitchedPercussionMusicBox,"pitchedPercussionMusicBox"}, {SoundID::pitchedPercussionPelogPanerus,"pitchedPercussionPelogPanerus"}, 
    {SoundID::pitchedPercussionPemade,"pitchedPercussionPemade"}, {SoundID::pitchedPercussionPenyacah,"pitchedPercussionPenyacah"}, 
    {SoundID::pitchedPercussionRanatEk,"pitchedPercussionRanatEk"}, {SoundID::pitchedPercussionRanatEkLek,"pitchedPercussionRanatEkLek"}, 
    {SoundID::pitchedPercussionRanatThum,"pitchedPercussionRanatThum"}, {SoundID::pitchedPercussionRanatThumLek,"pitchedPercussionRanatThumLek"}, 
    {SoundID::pitchedPercussionReyong,"pitchedPercussionReyong"}, {SoundID::pitchedPercussionSanza,"pitchedPercussionSanza"}, 
    {SoundID::pitchedPercussionSaronBarung,"pitchedPercussionSaronBarung"}, {SoundID::pitchedPercussionSaronDemong,"pitchedPercussionSaronDemong"}, 
    {SoundID::pitchedPercussionSaronPanerus,"pitchedPercussionSaronPanerus"}, 
    {SoundID::pitchedPercussionSlendroPanerus,"pitchedPercussionSlendroPanerus"}, {SoundID::pitchedPercussionSlentem,"pitchedPercussionSlentem"}, 
    {SoundID::pitchedPercussionTsymbaly,"pitchedPercussionTsymbaly"}, {SoundID::pitchedPercussionTubes,"pitchedPercussionTubes"}, 
    {SoundID::pitchedPercussionTubularBells,"pitchedPercussionTubularBells"}, {SoundID::pitchedPercussionVibraphone,"pitchedPercussionVibraphone"}, 
    {SoundID::pitchedPercussionXylophone,"pitchedPercussionXylophone"}, {SoundID::pitchedPercussionXylophoneAlto,"pitchedPercussionXylophoneAlto"}, 
    {SoundID::pitchedPercussionXylophoneBass,"pitchedPercussionXylophoneBass"}, 
    {SoundID::pitchedPercussionXylophoneSoprano,"pitchedPercussionXylophoneSoprano"}, 
    {SoundID::pitchedPercussionXylorimba,"pitchedPercussionXylorimba"}, {SoundID::pitchedPercussionYangqin,"pitchedPercussionYangqin"}, 
    {SoundID::pluckArchlute,"pluckArchlute"}, {SoundID::pluckAutoharp,"pluckAutoharp"}, {SoundID::pluckBaglama,"pluckBaglama"}, 
    {SoundID::pluckBajo,"pluckBajo"}, {SoundID::pluckBalalaika,"pluckBalalaika"}, {SoundID::pluckBalalaikaAlto,"pluckBalalaikaAlto"}, 
    {SoundID::pluckBalalaikaBass,"pluckBalalaikaBass"}, {SoundID::pluckBalalaikaContrabass,"pluckBalalaikaContrabass"}, 
    {SoundID::pluckBalalaikaPiccolo,"pluckBalalaikaPiccolo"}, {SoundID::pluckBalalaikaPrima,"pluckBalalaikaPrima"}, 
    {SoundID::pluckBalalaikaSecunda,"pluckBalalaikaSecunda"}, {SoundID::pluckBandola,"pluckBandola"}, {SoundID::pluckBandura,"pluckBandura"}, 
    {SoundID::pluckBandurria,"pluckBandurria"}, {SoundID::pluckBanjo,"pluckBanjo"}, {SoundID::pluckBanjoTenor,"pluckBanjoTenor"}, 
    {SoundID::pluckBanjolele,"pluckBanjolele"}, {SoundID::pluckBarbat,"pluckBarbat"}, {SoundID::pluckBass,"pluckBass"}, 
    {SoundID::pluckBassAcoustic,"pluckBassAcoustic"}, {SoundID::pluckBassBolon,"pluckBassBolon"}, {SoundID::pluckBassElectric,"pluckBassElectric"}, 
    {SoundID::pluckBassFretless,"pluckBassFretless"}, {SoundID::pluckBassGuitarron,"pluckBassGuitarron"}, {SoundID::pluckBassSynth,"pluckBassSynth"}, 
    {SoundID::pluckBassSynthLead,"pluckBassSynthLead"}, {SoundID::pluckBassWashtub,"pluckBassWashtub"}, 
    {SoundID::pluckBassWhamola,"pluckBassWhamola"}, {SoundID::pluckBegena,"pluckBegena"}, {SoundID::pluckBiwa,"pluckBiwa"}, 
    {SoundID::pluckBordonua,"pluckBordonua"}, {SoundID::pluckBouzouki,"pluckBouzouki"}, {SoundID::pluckBouzoukiIrish,"pluckBouzoukiIrish"}, 
    {SoundID::pluckCelticHarp,"pluckCelticHarp"}, {SoundID::pluckCharango,"pluckCharango"}, {SoundID::pluckChitarraBattente,"pluckChitarraBattente"}, 
    {SoundID::pluckCithara,"pluckCithara"}, {SoundID::pluckCittern,"pluckCittern"}, {SoundID::pluckCuatro,"pluckCuatro"}, 
    {SoundID::pluckDanBau,"pluckDanBau"}, {SoundID::pluckDanNguyet,"pluckDanNguyet"}, {SoundID::pluckDanTranh,"pluckDanTranh"}, 
    {SoundID::pluckDanTyBa,"pluckDanTyBa"}, {SoundID::pluckDiddleyBow,"pluckDiddleyBow"}, {SoundID::pluckDomra,"pluckDomra"}, 
    {SoundID::pluckDomu,"pluckDomu"}, {SoundID::pluckDulcimer,"pluckDulcimer"}, {SoundID::pluckDutar,"pluckDutar"}, 
    {SoundID::pluckDuxianqin,"pluckDuxianqin"}, {SoundID::pluckEktara,"pluckEktara"}, {SoundID::pluckGeomungo,"pluckGeomungo"}, 
    {SoundID::pluckGottuvadhyam,"pluckGottuvadhyam"}, {SoundID::pluckGuitar,"pluckGuitar"}, {SoundID::pluckGuitarAcoustic,"pluckGuitarAcoustic"}, 
    {SoundID::pluckGuitarElectric,"pluckGuitarElectric"}, {SoundID::pluckGuitarNylonString,"pluckGuitarNylonString"}, 
    {SoundID::pluckGuitarPedalSteel,"pluckGuitarPedalSteel"}, {SoundID::pluckGuitarPortuguese,"pluckGuitarPortuguese"}, 
    {SoundID::pluckGuitarRequinto,"pluckGuitarRequinto"}, {SoundID::pluckGuitarResonator,"pluckGuitarResonator"}, 
    {SoundID::pluckGuitarSteelString,"pluckGuitarSteelString"}, {SoundID::pluckGuitjo,"pluckGuitjo"}, 
    {SoundID::pluckGuitjoDoubleNeck,"pluckGuitjoDoubleNeck"}, {SoundID::pluckGuqin,"pluckGuqin"}, {SoundID::pluckGuzheng,"pluckGuzheng"}, 
    {SoundID::pluckGuzhengChoazhou,"pluckGuzhengChoazhou"}, {SoundID::pluckHarp,"pluckHarp"}, {SoundID::pluckHarpGuitar,"pluckHarpGuitar"}, 
    {SoundID::pluckHuapanguera,"pluckHuapanguera"}, {SoundID::pluckJaranaHuasteca,"pluckJaranaHuasteca"}, 
    {SoundID::pluckJaranaJarocha,"pluckJaranaJarocha"}, {SoundID::pluckJaranaJarochaMosquito,"pluckJaranaJarochaMosquito"}, 
    {SoundID::pluckJaranaJarochaPrimera,"pluckJaranaJarochaPrimera"}, {SoundID::pluckJaranaJarochaSegunda,"pluckJaranaJarochaSegunda"}, 
    {SoundID::pluckJaranaJarochaTercera,"pluckJaranaJarochaTercera"}, {SoundID::pluckKabosy,"pluckKabosy"}, {SoundID::pluckKantele,"pluckKantele"}, 
    {SoundID::pluckKanun,"pluckKanun"}, {SoundID::pluckKayagum,"pluckKayagum"}, {SoundID::pluckKobza,"pluckKobza"}, 
    {SoundID::pluckKomuz,"pluckKomuz"}, {SoundID::pluckKora,"pluckKora"}, {SoundID::pluckKoto,"pluckKoto"}, {SoundID::pluckKutiyapi,"pluckKutiyapi"}, 
    {SoundID::pluckLangeleik,"pluckLangeleik"}, {SoundID::pluckLaud,"pluckLaud"}, {SoundID::pluckLute,"pluckLute"}, {SoundID::pluckLyre,"pluckLyre"}, 
    {SoundID::pluckMandobass,"pluckMandobass"}, {SoundID::pluckMandocello,"pluckMandocello"}, {SoundID::pluckMandola,"pluckMandola"}, 
    {SoundID::pluckMandolin,"pluckMandolin"}, {SoundID::pluckMandolinOctave,"pluckMandolinOctave"}, {SoundID::pluckMandora,"pluckMandora"}, 
    {SoundID::pluckMandore,"pluckMandore"}, {SoundID::pluckMarovany,"pluckMarovany"}, {SoundID::pluckMusicalBow,"pluckMusicalBow"}, 
    {SoundID::pluckNgoni,"pluckNgoni"}, {SoundID::pluckOud,"pluckOud"}, {SoundID::pluckPipa,"pluckPipa"}, {SoundID::pluckPsaltery,"pluckPsaltery"}, 
    {SoundID::pluckRuan,"pluckRuan"}, {SoundID::pluckSallaneh,"pluckSallaneh"}, {SoundID::pluckSanshin,"pluckSanshin"}, 
    {SoundID::pluckSantoor,"pluckSantoor"}, {SoundID::pluckSanxian,"pluckSanxian"}, {SoundID::pluckSarod,"pluckSarod"}, 
    {SoundID::pluckSaung,"pluckSaung"}, {SoundID::pluckSaz,"pluckSaz"}, {SoundID::pluckSe,"pluckSe"}, {SoundID::pluckSetar,"pluckSetar"}, 
    {SoundID::pluckShamisen,"pluckShamisen"}, {SoundID::pluckSitar,"pluckSitar"}, {SoundID::pluckSynth,"pluckSynth"}, 
    {SoundID::pluckSynthCharang,"pluckSynthCharang"}, {SoundID::pluckSynthChiff,"pluckSynthChiff"}, {SoundID::pluckSynthStick,"pluckSynthStick"}, 
    {SoundID::pluckTambura,"pluckTambura"}, {SoundID::pluckTamburaBulgarian,"pluckTamburaBulgarian"}, 
    {SoundID::pluckTamburaFemale,"pluckTamburaFemale"}, {SoundID::pluckTamburaMale,"pluckTamburaMale"}, {SoundID::pluckTar,"pluckTar"}, 
    {SoundID::pluckTheorbo,"pluckTheorbo"}, {SoundID::pluckTimple,"pluckTimple"}, {SoundID::pluckTiple,"pluckTiple"}, 
    {SoundID::pluckTres,"pluckTres"}, {SoundID::pluckUkulele,"pluckUkulele"}, {SoundID::pluckUkuleleTenor,"pluckUkuleleTenor"}, 
    {SoundID::pluckValiha,"pluckValiha"}, {SoundID::pluckVeena,"pluckVeena"}, {SoundID::pluckVeenaMohan,"pluckVeenaMohan"}, 
    {SoundID::pluckVeenaRudra,"pluckVeenaRudra"}, {SoundID::pluckVeenaVichitra,"pluckVeenaVichitra"}, {SoundID::pluckVihuela,"pluckVihuela"}, 
    {SoundID::pluckVihuelaMexican,"pluckVihuelaMexican"}, {SoundID::pluckXalam,"pluckXalam"}, {SoundID::pluckYueqin,"pluckYueqin"}, 
    {SoundID::pluckZither,"pluckZither"}, {SoundID::pluckZitherOvertone,"pluckZitherOvertone"}, {SoundID::rattleAfoxe,"rattleAfoxe"}, 
    {SoundID::rattleBirds,"rattleBirds"}, {SoundID::rattleCabasa,"rattleCabasa"}, {SoundID::rattleCaxixi,"rattleCaxixi"}, 
    {SoundID::rattleCog,"rattleCog"}, {SoundID::rattleGanza,"rattleGanza"}, {SoundID::rattleHosho,"rattleHosho"}, 
    {SoundID::rattleJawbone,"rattleJawbone"}, {SoundID::rattleKayamba,"rattleKayamba"}, {SoundID::rattleKpokoKpoko,"rattleKpokoKpoko"}, 
    {SoundID::rattleLavaStones,"rattleLavaStones"}, {SoundID::rattleMaraca,"rattleMaraca"}, {SoundID::rattleRainStick,"rattleRainStick"}, 
    {SoundID::rattleRatchet,"rattleRatchet"}, {SoundID::rattleRattle,"rattleRattle"}, {SoundID::rattleShaker,"rattleShaker"}, 
    {SoundID::rattleShakerEgg,"rattleShakerEgg"}, {SoundID::rattleShekere,"rattleShekere"}, {SoundID::rattleSistre,"rattleSistre"}, 
    {SoundID::rattleTelevi,"rattleTelevi"}, {SoundID::rattleVibraslap,"rattleVibraslap"}, {SoundID::rattleWasembe,"rattleWasembe"}, 
    {SoundID::stringsAjaeng,"stringsAjaeng"}, {SoundID::stringsArpeggione,"stringsArpeggione"}, {SoundID::stringsBaryton,"stringsBaryton"}, 
    {SoundID::stringsCello,"stringsCello"}, {SoundID::stringsCelloPiccolo,"stringsCelloPiccolo"}, {SoundID::stringsContrabass,"stringsContrabass"}, 
    {SoundID::stringsCrwth,"stringsCrwth"}, {SoundID::stringsDanGao,"stringsDanGao"}, {SoundID::stringsDihu,"stringsDihu"}, 
    {SoundID::stringsErhu,"stringsErhu"}, {SoundID::stringsErxian,"stringsErxian"}, {SoundID::stringsEsraj,"stringsEsraj"}, 
    {SoundID::stringsFiddle,"stringsFiddle"}, {SoundID::stringsFiddleHardanger,"stringsFiddleHardanger"}, {SoundID::stringsGadulka,"stringsGadulka"}, 
    {SoundID::stringsGaohu,"stringsGaohu"}, {SoundID::stringsGehu,"stringsGehu"}, {SoundID::stringsGroup,"stringsGroup"}, 
    {SoundID::stringsGroupSynth,"stringsGroupSynth"}, {SoundID::stringsHaegeum,"stringsHaegeum"}, {SoundID::stringsHurdyGurdy,"stringsHurdyGurdy"}, 
    {SoundID::stringsIgil,"stringsIgil"}, {SoundID::stringsKamancha,"stringsKamancha"}, {SoundID::stringsKokyu,"stringsKokyu"}, 
    {SoundID::stringsLaruan,"stringsLaruan"}, {SoundID::stringsLeiqin,"stringsLeiqin"}, {SoundID::stringsLirone,"stringsLirone"}, 
    {SoundID::stringsLyraByzantine,"stringsLyraByzantine"}, {SoundID::stringsLyraCretan,"stringsLyraCretan"}, 
    {SoundID::stringsMorinKhuur,"stringsMorinKhuur"}, {SoundID::stringsNyckelharpa,"stringsNyckelharpa"}, 
    {SoundID::stringsOctobass,"stringsOctobass"}, {SoundID::stringsRebab,"stringsRebab"}, {SoundID::stringsRebec,"stringsRebec"}, 
    {SoundID::stringsSarangi,"stringsSarangi"}, {SoundID::stringsStrohViolin,"stringsStrohViolin"}, 
    {SoundID::stringsTrombaMarina,"stringsTrombaMarina"}, {SoundID::stringsVielle,"stringsVielle"}, {SoundID::stringsViol,"stringsViol"}, 
    {SoundID::stringsViolAlto,"stringsViolAlto"}, {SoundID::stringsViolBass,"stringsViolBass"}, {SoundID::stringsViolTenor,"stringsViolTenor"}, 
    {SoundID::stringsViolTreble,"stringsViolTreble"}, {SoundID::stringsViolViolone,"stringsViolViolone"}, {SoundID::stringsViola,"stringsViola"}, 
    {SoundID::stringsViolaDamore,"stringsViolaDamore"}, {SoundID::stringsViolin,"stringsViolin"}, 
    {SoundID::stringsViolonoPiccolo,"stringsViolonoPiccolo"}, {SoundID::stringsViolotta,"stringsViolotta"}, 
    {SoundID::stringsYayliTanbur,"stringsYayliTanbur"}, {SoundID::stringsYazheng,"stringsYazheng"}, {SoundID::stringsZhonghu,"stringsZhonghu"}, 
    {SoundID::synthEffects,"synthEffects"}, {SoundID::synthEffectsAtmosphere,"synthEffectsAtmosphere"}, 
    {SoundID::synthEffectsBrightness,"synthEffectsBrightness"}, {SoundID::synthEffectsCrystal,"synthEffectsCrystal"}, 
    {SoundID::synthEffectsEchoes,"synthEffectsEchoes"}, {SoundID::synthEffectsGoblins,"synthEffectsGoblins"}, 
    {SoundID::synthEffectsRain,"synthEffectsRain"}, {SoundID::synthEffectsSciFi,"synthEffectsSciFi"}, 
    {SoundID::synthEffectsSoundtrack,"synthEffectsSoundtrack"}, {SoundID::synthGroup,"synthGroup"}, {SoundID::synthGroupFifths,"synthGroupFifths"}, 
    {SoundID::synthGroupOrchestra,"synthGroupOrchestra"}, {SoundID::synthPad,"synthPad"}, {SoundID::synthPadBowed,"synthPadBowed"}, 
    {SoundID::synthPadChoir,"synthPadChoir"}, {SoundID::synthPadHalo,"synthPadHalo"}, {SoundID::synthPadMetallic,"synthPadMetallic"}, 
    {SoundID::synthPadPolysynth,"synthPadPolysynth"}, {SoundID::synthPadSweep,"synthPadSweep"}, {SoundID::synthPadWarm,"synthPadWarm"}, 
    {SoundID::synthTheremin,"synthTheremin"}, {SoundID::synthToneSawtooth,"synthToneSawtooth"}, {SoundID::synthToneSine,"synthToneSine"}, 
    {SoundID::synthToneSquare,"synthToneSquare"}, {SoundID::voiceAa,"voiceAa"}, {SoundID::voiceAlto,"voiceAlto"}, {SoundID::voiceAw,"voiceAw"}, 
    {SoundID::voiceBaritone,"voiceBaritone"}, {SoundID::voiceBass,"voiceBass"}, {SoundID::voiceChild,"voiceChild"}, 
    {SoundID::voiceCountertenor,"voiceCountertenor"}, {SoundID::voiceDoo,"voiceDoo"}, {SoundID::voiceEe,"voiceEe"}, 
    {SoundID::voiceFemale,"voiceFemale"}, {SoundID::voiceKazoo,"voiceKazoo"}, {SoundID::voiceMale,"voiceMale"}, 
    {SoundID::voiceMezzoSoprano,"voiceMezzoSoprano"}, {SoundID::voiceMm,"voiceMm"}, {SoundID::voiceOo,"voiceOo"}, 
    {SoundID::voicePercussion,"voicePercussion"}, {SoundID::voicePercussionBeatbox,"voicePercussionBeatbox"}, {SoundID::voiceSoprano,"voiceSoprano"}, 
    {SoundID::voiceSynth,"voiceSynth"}, {SoundID::voiceTalkBox,"voiceTalkBox"}, {SoundID::voiceTenor,"voiceTenor"}, 
    {SoundID::voiceVocals,"voiceVocals"}, {SoundID::windFlutesBansuri,"windFlutesBansuri"}, {SoundID::windFlutesBlownBottle,"windFlutesBlownBottle"}, 
    {SoundID::windFlutesCalliope,"windFlutesCalliope"}, {SoundID::windFlutesDanso,"windFlutesDanso"}, {SoundID::windFlutesDiZi,"windFlutesDiZi"}, 
    {SoundID::windFlutesDvojnice,"windFlutesDvojnice"}, {SoundID::windFlutesFife,"windFlutesFife"}, 
    {SoundID::windFlutesFlageolet,"windFlutesFlageolet"}, {SoundID::windFlutesFlute,"windFlutesFlute"}, 
    {SoundID::windFlutesFluteAlto,"windFlutesFluteAlto"}, {SoundID::windFlutesFluteBass,"windFlutesFluteBass"}, 
    {SoundID::windFlutesFluteContraAlto,"windFlutesFluteContraAlto"}, {SoundID::windFlutesFluteContrabass,"windFlutesFluteContrabass"}, 
    {SoundID::windFlutesFluteDoubleContrabass,"windFlutesFluteDoubleContrabass"}, {SoundID::windFlutesFluteIrish,"windFlutesFluteIrish"}, 
    {SoundID::windFlutesFlutePiccolo,"windFlutesFlutePiccolo"}, {SoundID::windFlutesFluteSubcontrabass,"windFlutesFluteSubcontrabass"}, 
    {SoundID::windFlutesFujara,"windFlutesFujara"}, {SoundID::windFlutesGemshorn,"windFlutesGemshorn"}, 
    {SoundID::windFlutesHocchiku,"windFlutesHocchiku"}, {SoundID::windFlutesHun,"windFlutesHun"}, {SoundID::windFlutesKaval,"windFlutesKaval"}, 
    {SoundID::windFlutesKawala,"windFlutesKawala"}, {SoundID::windFlutesKhlui,"windFlutesKhlui"}, {SoundID::windFlutesKnotweed,"windFlutesKnotweed"}, 
    {SoundID::windFlutesKoncovkaAlto,"windFlutesKoncovkaAlto"}, {SoundID::windFlutesKoudi,"windFlutesKoudi"}, 
    {SoundID::windFlutesNey,"windFlutesNey"}, {SoundID::windFlutesNohkan,"windFlutesNohkan"}, {SoundID::windFlutesNose,"windFlutesNose"}, 
    {SoundID::windFlutesOcarina,"windFlutesOcarina"}, {SoundID::windFlutesOvertoneTenor,"windFlutesOvertoneTenor"}, 
    {SoundID::windFlutesPalendag,"windFlutesPalendag"}, {SoundID::windFlutesPanpipes,"windFlutesPanpipes"}, 
    {SoundID::windFlutesQuena,"windFlutesQuena"}, {SoundID::windFlutesRecorder,"windFlutesRecorder"}, 
    {SoundID::windFlutesRecorderAlto,"windFlutesRecorderAlto"}, {SoundID::windFlutesRecorderBass,"windFlutesRecorderBass"}, 
    {SoundID::windFlutesRecorderContrabass,"windFlutesRecorderContrabass"}, {SoundID::windFlutesRecorderDescant,"windFlutesRecorderDescant"}, 
    {SoundID::windFlutesRecorderGarklein,"windFlutesRecorderGarklein"}, {SoundID::windFlutesRecorderGreatBass,"windFlutesRecorderGreatBass"}, 
    {SoundID::windFlutesRecorderSopranino,"windFlutesRecorderSopranino"}, {SoundID::windFlutesRecorderSoprano,"windFlutesRecorderSoprano"}, 
    {SoundID::windFlutesRecorderTenor,"windFlutesRecorderTenor"}, {SoundID::windFlutesRyuteki,"windFlutesRyuteki"}, 
    {SoundID::windFlutesShakuhachi,"windFlutesShakuhachi"}, {SoundID::windFlutesShepherdsPipe,"windFlutesShepherdsPipe"}, 
    {SoundID::windFlutesShinobue,"windFlutesShinobue"}, {SoundID::windFlutesShvi,"windFlutesShvi"}, {SoundID::windFlutesSuling,"windFlutesSuling"}, 
    {SoundID::windFlutesTarka,"windFlutesTarka"}, {SoundID::windFlutesTumpong,"windFlutesTumpong"}, {SoundID::windFlutesVenu,"windFlutesVenu"}, 
    {SoundID::windFlutesWhistle,"windFlutesWhistle"}, {SoundID::windFlutesWhistleAlto,"windFlutesWhistleAlto"}, 
    {SoundID::windFlutesWhistleLowIrish,"windFlutesWhistleLowIrish"}, {SoundID::windFlutesWhistleShiva,"windFlutesWhistleShiva"}, 
    {SoundID::windFlutesWhistleSlide,"windFlutesWhistleSlide"}, {SoundID::windFlutesWhistleTin,"windFlutesWhistleTin"}, 
    {SoundID::windFlutesWhistleTinBflat,"windFlutesWhistleTinBflat"}, {SoundID::windFlutesWhistleTinD,"windFlutesWhistleTinD"}, 
    {SoundID::windFlutesXiao,"windFlutesXiao"}, {SoundID::windFlutesXun,"windFlutesXun"}, {SoundID::windGroup,"windGroup"}, 
    {SoundID::windJug,"windJug"}, {SoundID::windPipesBagpipes,"windPipesBagpipes"}, {SoundID::windPipesGaida,"windPipesGaida"}, 
    {SoundID::windPipesHighland,"windPipesHighland"}, {SoundID::windPipesUilleann,"windPipesUilleann"}, {SoundID::windPungi,"windPungi"}, 
    {SoundID::windReedAlbogue,"windReedAlbogue"}, {SoundID::windReedAlboka,"windReedAlboka"}, {SoundID::windReedAlgaita,"windReedAlgaita"}, 
    {SoundID::windReedArghul,"windReedArghul"}, {SoundID::windReedBassetHorn,"windReedBassetHorn"}, {SoundID::windReedBassoon,"windReedBassoon"}, 
    {SoundID::windReedBawu,"windReedBawu"}, {SoundID::windReedBifora,"windReedBifora"}, {SoundID::windReedBombarde,"windReedBombarde"}, 
    {SoundID::windReedChalumeau,"windReedChalumeau"}, {SoundID::windReedClarinet,"windReedClarinet"}, 
    {SoundID::windReedClarinetA,"windReedClarinetA"}, {SoundID::windReedClarinetAlto,"windReedClarinetAlto"}, 
    {SoundID::windReedClarinetBass,"windReedClarinetBass"}, {SoundID::windReedClarinetBasset,"windReedClarinetBasset"}, 
    {SoundID::windReedClarinetBflat,"windReedClarinetBflat"}, {SoundID::windReedClarinetContraAlto,"windReedClarinetContraAlto"}, 
    {SoundID::windReedClarinetContrabass,"windReedClarinetContrabass"}, {SoundID::windReedClarinetEflat,"windReedClarinetEflat"}, 
    {SoundID::windReedClarinetPiccoloAflat,"windReedClarinetPiccoloAflat"}, {SoundID::windReedClarinetteDamour,"windReedClarinetteDamour"}, 
    {SoundID::windReedContrabass,"windReedContrabass"}, {SoundID::windReedContrabassoon,"windReedContrabassoon"}, 
    {SoundID::windReedCornamuse,"windReedCornamuse"}, {SoundID::windReedCromorne,"windReedCromorne"}, {SoundID::windReedCrumhorn,"windReedCrumhorn"}, 
    {SoundID::windReedCrumhornAlto,"windReedCrumhornAlto"}, {SoundID::windReedCrumhornBass,"windReedCrumhornBass"}, 
    {SoundID::windReedCrumhornGreatBass,"windReedCrumhornGreatBass"}, {SoundID::windReedCrumhornSoprano,"windReedCrumhornSoprano"}, 
    {SoundID::windReedCrumhornTenor,"windReedCrumhornTenor"}, {SoundID::windReedDiple,"windReedDiple"}, {SoundID::windReedDiplica,"windReedDiplica"}, 
    {SoundID::windReedDuduk,"windReedDuduk"}, {SoundID::windReedDulcian,"windReedDulcian"}, {SoundID::windReedDulzaina,"windReedDulzaina"}, 
    {SoundID::windReedEnglishHorn,"windReedEnglishHorn"}, {SoundID::windReedGuanzi,"windReedGuanzi"}, 
    {SoundID::windReedHarmonica,"windReedHarmonica"}, {SoundID::windReedHarmonicaBass,"windReedHarmonicaBass"}, 
    {SoundID::windReedHeckelClarina,"windReedHeckelClarina"}, {SoundID::windReedHeckelphone,"windReedHeckelphone"}, 
    {SoundID::windReedHeckelphonePiccolo,"windReedHeckelphonePiccolo"}, {SoundID::windReedHeckelphoneClarinet,"windReedHeckelphoneClarinet"}, 
    {SoundID::windReedHichiriki,"windReedHichiriki"}, {SoundID::windReedHirtenschalmei,"windReedHirtenschalmei"}, 
    {SoundID::windReedHne,"windReedHne"}, {SoundID::windReedHornpipe,"windReedHornpipe"}, {SoundID::windReedHouguan,"windReedHouguan"}, 
    {SoundID::windReedHulusi,"windReedHulusi"}, {SoundID::windReedJogiBaja,"windReedJogiBaja"}, {SoundID::windReedKenBau,"windReedKenBau"}, 
    {SoundID::windReedKhaenMouthOrgan,"windReedKhaenMouthOrgan"}, {SoundID::windReedLauneddas,"windReedLauneddas"}, 
    {SoundID::windReedMaqrunah,"windReedMaqrunah"}, {SoundID::windReedMelodica,"windReedMelodica"}, {SoundID::windReedMijwiz,"windReedMijwiz"}, 
    {SoundID::windReedMizmar,"windReedMizmar"}, {SoundID::windReedNadaswaram,"windReedNadaswaram"}, {SoundID::windReedOboe,"windReedOboe"}, 
    {SoundID::windReedOboeBass,"windReedOboeBass"}, {SoundID::windReedOboePiccolo,"windReedOboePiccolo"}, 
    {SoundID::windReedOboeDaCaccia,"windReedOboeDaCaccia"}, {SoundID::windReedOboeDamore,"windReedOboeDamore"}, 
    {SoundID::windReedOctavin,"windReedOctavin"}, {SoundID::windReedPi,"windReedPi"}, {SoundID::windReedPibgorn,"windReedPibgorn"}, 
    {SoundID::windReedPiri,"windReedPiri"}, {SoundID::windReedRackett,"windReedRackett"}, {SoundID::windReedRauschpfeife,"windReedRauschpfeife"}, 
    {SoundID::windReedRhaita,"windReedRhaita"}, {SoundID::windReedRothphone,"windReedRothphone"}, 
    {SoundID::windReedSarrusaphone,"windReedSarrusaphone"}, {SoundID::windReedSaxonette,"windReedSaxonette"}, 
    {SoundID::windReedSaxophone,"windReedSaxophone"}, {SoundID::windReedSaxophoneAlto,"windReedSaxophoneAlto"}, 
    {SoundID::windReedSaxophoneAulochrome,"windReedSaxophoneAulochrome"}, {SoundID::windReedSaxophoneBaritone,"windReedSaxophoneBaritone"}, 
    {SoundID::windReedSaxophoneBass,"windReedSaxophoneBass"}, {SoundID::windReedSaxophoneContrabass,"windReedSaxophoneContrabass"}, 
    {SoundID::windReedSaxophoneMelody,"windReedSaxophoneMelody"}, {SoundID::windReedSaxophoneMezzoSoprano,"windReedSaxophoneMezzoSoprano"}, 
    {SoundID::windReedSaxophoneSopranino,"windReedSaxophoneSopranino"}, {SoundID::windReedSaxophoneSopranissimo,"windReedSaxophoneSopranissimo"}, 
    {SoundID::windReedSaxophoneSoprano,"windReedSaxophoneSoprano"}, {SoundID::windReedSaxophoneSubcontrabass,"windReedSaxophoneSubcontrabass"}, 
    {SoundID::windReedSaxophoneTenor,"windReedSaxophoneTenor"}, {SoundID::windReedShawm,"windReedShawm"}, {SoundID::windReedShenai,"windReedShenai"}, 
    {SoundID::windReedSheng,"windReedSheng"}, {SoundID::windReedSipsi,"windReedSipsi"}, {SoundID::windReedSopila,"windReedSopila"}, 
    {SoundID::windReedSorna,"windReedSorna"}, {SoundID::windReedSralai,"windReedSralai"}, {SoundID::windReedSuona,"windReedSuona"}, 
    {SoundID::windReedSurnai,"windReedSurnai"}, {SoundID::windReedTaepyeongso,"windReedTaepyeongso"}, {SoundID::windReedTarogato,"windReedTarogato"}, 
    {SoundID::windReedTarogatoAncient,"windReedTarogatoAncient"}, {SoundID::windReedTrompetaChina,"windReedTrompetaChina"}, 
    {SoundID::windReedTubax,"windReedTubax"}, {SoundID::windReedXaphoon,"windReedXaphoon"}, {SoundID::windReedZhaleika,"windReedZhaleika"}, 
    {SoundID::windReedZurla,"windReedZurla"}, {SoundID::windReedZurna,"windReedZurna"}, {SoundID::woodAgogoBlock,"woodAgogoBlock"}, 
    {SoundID::woodAgungATamlang,"woodAgungATamlang"}, {SoundID::woodAhoko,"woodAhoko"}, {SoundID::woodBones,"woodBones"}, 
    {SoundID::woodCastanets,"woodCastanets"}, {SoundID::woodClaves,"woodClaves"}, {SoundID::woodDrumSticks,"woodDrumSticks"}, 
    {SoundID::woodGourd,"woodGourd"}, {SoundID::woodGraniteBlock,"woodGraniteBlock"}, {SoundID::woodGuban,"woodGuban"}, 
    {SoundID::woodGuiro,"woodGuiro"}, {SoundID::woodHyoushigi,"woodHyoushigi"}, {SoundID::woodIpu,"woodIpu"}, {SoundID::woodJamBlock,"woodJamBlock"}, 
    {SoundID::woodKaekeeke,"woodKaekeeke"}, {SoundID::woodKagul,"woodKagul"}, {SoundID::woodKalaau,"woodKalaau"}, 
    {SoundID::woodKashiklar,"woodKashiklar"}, {SoundID::woodKubing,"woodKubing"}, {SoundID::woodPanClappers,"woodPanClappers"}, 
    {SoundID::woodSandBlock,"woodSandBlock"}, {SoundID::woodSlapstick,"woodSlapstick"}, {SoundID::woodStirDrum,"woodStirDrum"}, 
    {SoundID::woodTempleBlock,"woodTempleBlock"}, {SoundID::woodTicTocBlock,"woodTicTocBlock"}, {SoundID::woodTonetang,"woodTonetang"}, 
    {SoundID::woodWoodBlock,"woodWoodBlock"}, }; return t; } };
template<> struct Names<SoloOrEnsemble> { static const std::vector<std::pair<SoloOrEnsemble, const char*>>& get() { static const std::vector<std::pair<SoloOrEnsemble, const char*>> t{
    {SoloOrEnsemble::unspecified,"unspecified"}, {SoloOrEnsemble::solo,"solo"}, {SoloOrEnsemble::ensemble,"ensemble"}, }; return t; } };
template<> struct Names<BracketType> { static const std::vector<std::pair<BracketType, const char*>>& get() { static const std::vector<std::pair<BracketType, const char*>> t{
    {BracketType::unspecified,"unspecified"}, {BracketType::none,"none"}, {BracketType::brace,"brace"}, {BracketType::line,"line"}, 
    {BracketType::bracket,"bracket"}, {BracketType::square,"square"}, }; return t; } };
template<> struct Names<MusicXmlVersion> { static const std::vector<std::pair<MusicXmlVersion, const char*>>& get() { static const std::vector<std::pair<MusicXmlVersion, const char*>> t{
    {MusicXmlVersion::unspecified,"unspecified"}, {MusicXmlVersion::ThreePointZero,"ThreePointZero"}, }; return t; } };

// fields -----------------------------------------------------------------------------------------
template<class T> struct Fields : std::false_type {};

template<> struct Fields<AppearanceData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "appearanceType", v.appearanceType );
    f( "appearanceSubType", v.appearanceSubType );
    f( "value", v.value );
} };
template<> struct Fields<MarginsData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "left", v.left );
    f( "right", v.right );
    f( "top", v.top );
    f( "bottom", v.bottom );
} };
template<> struct Fields<PageMarginsData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "odd", v.odd );
    f( "even", v.even );
} };
template<> struct Fields<SizeData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "height", v.height );
    f( "width", v.width );
} };
template<> struct Fields<PageLayoutData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "size", v.size );
    f( "margins", v.margins );
} };
template<> struct Fields<LeftRight> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "left", v.left );
    f( "right", v.right );
} };
template<> struct Fields<SystemLayoutData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "margins", v.margins );
    f( "systemDistance", v.systemDistance );
    f( "topSystemDistance", v.topSystemDistance );
    f( "staffDistance", v.staffDistance );
} };
template<> struct Fields<DefaultsData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "scalingMillimeters", v.scalingMillimeters );
    f( "scalingTenths", v.scalingTenths );
    f( "pageLayout", v.pageLayout );
    f( "systemLayout", v.systemLayout );
    f( "appearance", v.appearance );
    f( "measureNumbering", v.measureNumbering );
} };
template<> struct Fields<SupportedItem> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "elementName", v.elementName );
    f( "attributeName", v.attributeName );
    f( "specificValue", v.specificValue );
    f( "isSupported", v.isSupported );
} };
template<> struct Fields<MiscellaneousField> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "key", v.key );
    f( "value", v.value );
} };
template<> struct Fields<EncodingDate> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "year", v.year );
    f( "month", v.month );
    f( "day", v.day );
} };
template<> struct Fields<EncodingData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "encodingDate", v.encodingDate );
    f( "encoder", v.encoder );
    f( "encodingDescription", v.encodingDescription );
    f( "software", v.software );
    f( "supportedItems", v.supportedItems );
    f( "miscelaneousFields", v.miscelaneousFields );
} };
template<> struct Fields<PositionData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "defaultX", v.defaultX );
    f( "isDefaultXSpecified", v.isDefaultXSpecified );
    f( "defaultY", v.defaultY );
    f( "isDefaultYSpecified", v.isDefaultYSpecified );
    f( "relativeX", v.relativeX );
    f( "isRelativeXSpecified", v.isRelativeXSpecified );
    f( "relativeY", v.relativeY );
    f( "isRelativeYSpecified", v.isRelativeYSpecified );
    f( "placement", v.placement );
    f( "verticalAlignment", v.verticalAlignment );
    f( "horizontalAlignmnet", v.horizontalAlignmnet );
} };
template<> struct Fields<BarlineData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "tickTimePosition", v.tickTimePosition );
    f( "barlineType", v.barlineType );
    f( "endingType", v.endingType );
    f( "endingNumber", v.endingNumber );
    f( "repeat", v.repeat );
    f( "location", v.location );
} };
template<> struct Fields<ClefData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "symbol", v.symbol );
    f( "line", v.line );
    f( "octaveChange", v.octaveChange );
    f( "tickTimePosition", v.tickTimePosition );
    f( "location", v.location );
} };
template<> struct Fields<PitchData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "step", v.step );
    f( "alter", v.alter );
    f( "cents", v.cents );
    f( "accidental", v.accidental );
    f( "isAccidentalParenthetical", v.isAccidentalParenthetical );
    f( "isAccidentalCautionary", v.isAccidentalCautionary );
    f( "isAccidentalEditorial", v.isAccidentalEditorial );
    f( "isAccidentalBracketed", v.isAccidentalBracketed );
    f( "octave", v.octave );
} };
template<> struct Fields<MiscData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "name", v.name );
    f( "data", v.data );
} };
template<> struct Fields<Extension> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "extensionType", v.extensionType );
    f( "extensionAlter", v.extensionAlter );
    f( "extensionNumber", v.extensionNumber );
    f( "printObject", v.printObject );
} };
template<> struct Fields<ChordData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "root", v.root );
    f( "rootAlter", v.rootAlter );
    f( "chordKind", v.chordKind );
    f( "text", v.text );
    f( "useSymbols", v.useSymbols );
    f( "bass", v.bass );
    f( "bassAlter", v.bassAlter );
    f( "extensions", v.extensions );
    f( "miscData", v.miscData );
    f( "positionData", v.positionData );
} };
template<> struct Fields<ColorData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "red", v.red );
    f( "green", v.green );
    f( "blue", v.blue );
    f( "isAlphaSpecified", v.isAlphaSpecified );
    f( "alpha", v.alpha );
} };
template<> struct Fields<CodaData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "positionData", v.positionData );
    f( "isColorSpecified", v.isColorSpecified );
    f( "colorData", v.colorData );
} };
template<> struct Fields<FontData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "sizeType", v.sizeType );
    f( "sizePoint", v.sizePoint );
    f( "sizeCss", v.sizeCss );
    f( "style", v.style );
    f( "weight", v.weight );
    f( "fontFamily", v.fontFamily );
    f( "underline", v.underline );
    f( "overline", v.overline );
    f( "lineThrough", v.lineThrough );
} };
template<> struct Fields<PrintData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "printObject", v.printObject );
    f( "fontData", v.fontData );
    f( "isColorSpecified", v.isColorSpecified );
    f( "color", v.color );
} };
template<> struct Fields<MarkData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "markType", v.markType );
    f( "name", v.name );
    f( "tickTimePosition", v.tickTimePosition );
    f( "printData", v.printData );
    f( "positionData", v.positionData );
} };
template<> struct Fields<LineData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "lineType", v.lineType );
    f( "lineHook", v.lineHook );
    f( "isStopLengthSpecified", v.isStopLengthSpecified );
    f( "endLength", v.endLength );
    f( "isDashLengthSpecified", v.isDashLengthSpecified );
    f( "dashLength", v.dashLength );
    f( "isSpaceLengthSpecified", v.isSpaceLengthSpecified );
    f( "spaceLength", v.spaceLength );
} };
template<> struct Fields<SpannerStart> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "numberLevel", v.numberLevel );
    f( "tickTimePosition", v.tickTimePosition );
    f( "positionData", v.positionData );
    f( "printData", v.printData );
    f( "lineData", v.lineData );
} };
template<> struct Fields<SpannerStop> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "numberLevel", v.numberLevel );
    f( "tickTimePosition", v.tickTimePosition );
    f( "positionData", v.positionData );
} };
template<> struct Fields<OttavaStart> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "spannerStart", v.spannerStart );
    f( "ottavaType", v.ottavaType );
} };
template<> struct Fields<RehearsalData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "text", v.text );
    f( "positionData", v.positionData );
    f( "isColorSpecified", v.isColorSpecified );
    f( "colorData", v.colorData );
    f( "fontData", v.fontData );
} };
template<> struct Fields<SegnoData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "positionData", v.positionData );
    f( "isColorSpecified", v.isColorSpecified );
    f( "colorData", v.colorData );
} };
template<> struct Fields<CurvePoints> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "positionData", v.positionData );
    f( "isBezierXSpecified", v.isBezierXSpecified );
    f( "bezierX", v.bezierX );
    f( "isBezierYSpecified", v.isBezierYSpecified );
    f( "bezierY", v.bezierY );
    f( "isBezierOffsetSpecified", v.isBezierOffsetSpecified );
    f( "bezierOffset", v.bezierOffset );
} };
template<> struct Fields<CurveStart> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "curveType", v.curveType );
    f( "numberLevel", v.numberLevel );
    f( "curvePoints", v.curvePoints );
    f( "curveOrientation", v.curveOrientation );
    f( "placement", v.placement );
    f( "lineData", v.lineData );
    f( "isColorSpecified", v.isColorSpecified );
    f( "colorData", v.colorData );
} };
template<> struct Fields<CurveContinue> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "curveType", v.curveType );
    f( "numberLevel", v.numberLevel );
    f( "curvePoints", v.curvePoints );
    f( "isBezierX2Specified", v.isBezierX2Specified );
    f( "bezierX2", v.bezierX2 );
    f( "isBezierY2Specified", v.isBezierY2Specified );
    f( "bezierY2", v.bezierY2 );
    f( "isBezierOffset2Specified", v.isBezierOffset2Specified );
    f( "bezierOffset2", v.bezierOffset2 );
} };
template<> struct Fields<CurveStop> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "curveType", v.curveType );
    f( "numberLevel", v.numberLevel );
    f( "curvePoints", v.curvePoints );
} };
template<> struct Fields<DurationData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "durationName", v.durationName );
    f( "durationDots", v.durationDots );
    f( "durationTimeTicks", v.durationTimeTicks );
    f( "isTied", v.isTied );
    f( "timeModificationActualNotes", v.timeModificationActualNotes );
    f( "timeModificationNormalNotes", v.timeModificationNormalNotes );
    f( "timeModificationNormalType", v.timeModificationNormalType );
    f( "timeModificationNormalTypeDots", v.timeModificationNormalTypeDots );
} };
template<> struct Fields<BeatsPerMinute> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "durationName", v.durationName );
    f( "dots", v.dots );
    f( "beatsPerMinute", v.beatsPerMinute );
} };
template<> struct Fields<MetricModulation> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "leftDurationName", v.leftDurationName );
    f( "leftDots", v.leftDots );
    f( "rightDurationName", v.rightDurationName );
    f( "rightDots", v.rightDots );
    f( "playbackBeatsPerMinute", v.playbackBeatsPerMinute );
} };
template<> struct Fields<TempoText> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "tempoText", v.tempoText );
    f( "playbackBeatsPerMinute", v.playbackBeatsPerMinute );
} };
template<> struct Fields<TempoData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "tickTime", v.tickTime );
    f( "isParenthetical", v.isParenthetical );
    f( "printData", v.printData );
    f( "positionData", v.positionData );
    f( "tempoType", v.tempoType );
    f( "beatsPerMinute", v.beatsPerMinute );
    f( "metricModulation", v.metricModulation );
    f( "tempoText", v.tempoText );
} };
template<> struct Fields<WedgeStart> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "numberLevel", v.numberLevel );
    f( "wedgeType", v.wedgeType );
    f( "isSpreadSpecified", v.isSpreadSpecified );
    f( "spread", v.spread );
    f( "lineData", v.lineData );
    f( "positionData", v.positionData );
    f( "colorData", v.colorData );
} };
template<> struct Fields<WedgeStop> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "numberLevel", v.numberLevel );
    f( "positionData", v.positionData );
    f( "isSpreadSpecified", v.isSpreadSpecified );
    f( "spread", v.spread );
} };
template<> struct Fields<WordsData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "text", v.text );
    f( "positionData", v.positionData );
    f( "fontData", v.fontData );
    f( "isColorSpecified", v.isColorSpecified );
    f( "colorData", v.colorData );
} };
template<> struct Fields<DirectionData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "tickTimePosition", v.tickTimePosition );
    f( "placement", v.placement );
    f( "voice", v.voice );
    f( "isStaffValueSpecified", v.isStaffValueSpecified );
    f( "tempos", v.tempos );
    f( "marks", v.marks );
    f( "wedgeStarts", v.wedgeStarts );
    f( "wedgeStops", v.wedgeStops );
    f( "ottavaStarts", v.ottavaStarts );
    f( "ottavaStops", v.ottavaStops );
    f( "bracketStarts", v.bracketStarts );
    f( "bracketStops", v.bracketStops );
    f( "words", v.words );
    f( "chords", v.chords );
    f( "segnos", v.segnos );
    f( "codas", v.codas );
    f( "rehearsals", v.rehearsals );
} };
template<> struct Fields<KeyComponent> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "step", v.step );
    f( "alter", v.alter );
    f( "cents", v.cents );
    f( "accidental", v.accidental );
} };
template<> struct Fields<KeyData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "fifths", v.fifths );
    f( "cancel", v.cancel );
    f( "mode", v.mode );
    f( "tickTimePosition", v.tickTimePosition );
    f( "staffIndex", v.staffIndex );
    f( "nonTraditional", v.nonTraditional );
} };
template<> struct Fields<TupletStart> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "numberLevel", v.numberLevel );
    f( "positionData", v.positionData );
    f( "actualNumber", v.actualNumber );
    f( "actualDurationName", v.actualDurationName );
    f( "actualDots", v.actualDots );
    f( "normalNumber", v.normalNumber );
    f( "normalDurationName", v.normalDurationName );
    f( "normalDots", v.normalDots );
    f( "showActualNumber", v.showActualNumber );
    f( "showNormalNumber", v.showNormalNumber );
    f( "bracket", v.bracket );
} };
template<> struct Fields<TupletStop> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "numberLevel", v.numberLevel );
    f( "positionData", v.positionData );
} };
template<> struct Fields<NoteAttachmentData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "marks", v.marks );
    f( "curveStarts", v.curveStarts );
    f( "curveContinuations", v.curveContinuations );
    f( "curveStops", v.curveStops );
    f( "tupletStarts", v.tupletStarts );
    f( "tupletStops", v.tupletStops );
} };
template<> struct Fields<NoteData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "isRest", v.isRest );
    f( "isMeasureRest", v.isMeasureRest );
    f( "isUnpitched", v.isUnpitched );
    f( "isDisplayStepOctaveSpecified", v.isDisplayStepOctaveSpecified );
    f( "isChord", v.isChord );
    f( "isTieStart", v.isTieStart );
    f( "isTieStop", v.isTieStop );
    f( "noteType", v.noteType );
    f( "notehead", v.notehead );
    f( "pitchData", v.pitchData );
    f( "userRequestedVoiceNumber", v.userRequestedVoiceNumber );
    f( "stem", v.stem );
    f( "tickTimePosition", v.tickTimePosition );
    f( "durationData", v.durationData );
    f( "beams", v.beams );
    f( "positionData", v.positionData );
    f( "printData", v.printData );
    f( "noteAttachmentData", v.noteAttachmentData );
    f( "miscData", v.miscData );
} };
template<> struct Fields<VoiceData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "notes", v.notes );
} };
template<> struct Fields<StaffData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "clefs", v.clefs );
    f( "keys", v.keys );
    f( "directions", v.directions );
    f( "voices", v.voices );
} };
template<> struct Fields<TimeSignatureData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "symbol", v.symbol );
    f( "beats", v.beats );
    f( "beatType", v.beatType );
    f( "isImplicit", v.isImplicit );
    f( "display", v.display );
} };
template<> struct Fields<MeasureData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "staves", v.staves );
    f( "timeSignature", v.timeSignature );
    f( "number", v.number );
    f( "measureNumbering", v.measureNumbering );
    f( "multiMeasureRest", v.multiMeasureRest );
    f( "implicit", v.implicit );
    f( "nonControlling", v.nonControlling );
    f( "width", v.width );
    f( "keys", v.keys );
    f( "barlines", v.barlines );
} };
template<> struct Fields<PageData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "newPage", v.newPage );
    f( "pageLayoutData", v.pageLayoutData );
    f( "pageNumber", v.pageNumber );
} };
template<> struct Fields<SystemData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "newSystem", v.newSystem );
    f( "layout", v.layout );
} };
template<> struct Fields<LayoutData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "system", v.system );
    f( "page", v.page );
} };
template<> struct Fields<PageTextData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "text", v.text );
    f( "pageNumber", v.pageNumber );
    f( "positionData", v.positionData );
    f( "fontData", v.fontData );
    f( "description", v.description );
} };
template<> struct Fields<TransposeData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "chromatic", v.chromatic );
    f( "diatonic", v.diatonic );
} };
template<> struct Fields<MidiData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "virtualLibrary", v.virtualLibrary );
    f( "virtualName", v.virtualName );
    f( "device", v.device );
    f( "name", v.name );
    f( "bank", v.bank );
    f( "channel", v.channel );
    f( "program", v.program );
    f( "unpitched", v.unpitched );
    f( "volume", v.volume );
    f( "isVolumeSpecified", v.isVolumeSpecified );
    f( "pan", v.pan );
    f( "isPanSpecified", v.isPanSpecified );
    f( "elevation", v.elevation );
    f( "isElevationSpecified", v.isElevationSpecified );
} };
template<> struct Fields<InstrumentData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "uniqueId", v.uniqueId );
    f( "name", v.name );
    f( "abbreviation", v.abbreviation );
    f( "soundID", v.soundID );
    f( "soloOrEnsemble", v.soloOrEnsemble );
    f( "midiData", v.midiData );
} };
template<> struct Fields<PartData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "uniqueId", v.uniqueId );
    f( "name", v.name );
    f( "abbreviation", v.abbreviation );
    f( "displayName", v.displayName );
    f( "displayNamePrintData", v.displayNamePrintData );
    f( "displayNamePositionData", v.displayNamePositionData );
    f( "displayAbbreviation", v.displayAbbreviation );
    f( "displayAbbreviationPrintData", v.displayAbbreviationPrintData );
    f( "displayAbbreviationPositionData", v.displayAbbreviationPositionData );
    f( "instrumentData", v.instrumentData );
    f( "transposition", v.transposition );
    f( "measures", v.measures );
} };
template<> struct Fields<PartGroupData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "firstPartIndex", v.firstPartIndex );
    f( "lastPartIndex", v.lastPartIndex );
    f( "name", v.name );
    f( "displayName", v.displayName );
    f( "abbreviation", v.abbreviation );
    f( "displayAbbreviation", v.displayAbbreviation );
    f( "bracketType", v.bracketType );
    f( "number", v.number );
} };
template<> struct Fields<ScoreData> : std::true_type { template<class V, class F> static void visit( V& v, F&& f ) {
    f( "musicXmlVersion", v.musicXmlVersion );
    f( "musicXmlType", v.musicXmlType );
    f( "workTitle", v.workTitle );
    f( "workNumber", v.workNumber );
    f( "movementTitle", v.movementTitle );
    f( "movementNumber", v.movementNumber );
    f( "composer", v.composer );
    f( "lyricist", v.lyricist );
    f( "arranger", v.arranger );
    f( "publisher", v.publisher );
    f( "copyright", v.copyright );
    f( "encoding", v.encoding );
    f( "pageTextItems", v.pageTextItems );
    f( "defaults", v.defaults );
    f( "parts", v.parts );
    f( "partGroups", v.partGroups );
    f( "ticksPerQuarter", v.ticksPerQuarter );
    f( "layout", v.layout );
} };

// conversion -------------------------------------------------------------------------------------
template<class T> js::Value toJson( const T& v );
template<class T> void fromJson( const js::Value& j, T& v );

inline std::string dec( long double x )
{
    std::ostringstream ss; ss << std::setprecision( 12 ) << x; auto s = ss.str(); if( s == "-0" ) s = "0"; return s;
}
template<class T> T make() { if constexpr( std::is_default_constructible_v<T> ) return T{}; else if constexpr( std::is_constructible_v<T, CurveType> ) return T{ CurveType::unspecified }; else return T{ std::string{}, std::string{} }; }
template<class T> struct Conv
{
    static js::Value to( const T& v )
    {
        if constexpr( std::is_same_v<T, bool> ) return js::Value( v );
        else if constexpr( std::is_enum_v<T> )
        {
            for( auto& p : Names<T>::get() ) if( p.first == v ) return js::Value( p.second );
            return js::Value( "?" + std::to_string( (long long)v ) );
        }
        else if constexpr( std::is_integral_v<T> ) return js::Value( (long long)v );
        else if constexpr( std::is_floating_point_v<T> ) return js::Value( dec( (long double)v ) );
        else if constexpr( std::is_same_v<T, std::string> ) return js::Value( v );
        else
        {
            static_assert( Fields<T>::value );
            static const T def = make<T>();
            auto r = js::Value::obj();
            static const std::vector<js::Value> defs = []
            {
                std::vector<js::Value> d;
                Fields<T>::visit( def, [&]( const char*, const auto& f ) { d.push_back( toJson( f ) ); } );
                return d;
            }();
            size_t k = 0;
            Fields<T>::visit( v, [&]( const char* n, const auto& f )
            {
                auto x = toJson( f );
                // only what differs from a default-constructed value is printed; the projection in tools/ adds defaults back
                if( x != defs[k] ) r.set( n, std::move( x ) );
                ++k;
            } );
            return r;
        }
    }
    static void from( const js::Value& j, T& v )
    {
        if constexpr( std::is_same_v<T, bool> ) v = j.b;
        else if constexpr( std::is_enum_v<T> )
        {
            for( auto& p : Names<T>::get() ) if( j.str() == p.second ) { v = p.first; return; }
            throw std::logic_error( "harness: bad enumerator " + j.str() );
        }
        else if constexpr( std::is_integral_v<T> ) v = (T)j.i;
        else if constexpr( std::is_floating_point_v<T> ) v = (T)std::stold( j.t == js::Value::Int ? std::to_string( j.i ) : j.str() );
        else if constexpr( std::is_same_v<T, std::string> ) v = j.str();
        else
        {
            static_assert( Fields<T>::value );
            size_t used = 0;
            Fields<T>::visit( v, [&]( const char* n, auto& f ) { if( auto p = j.find( n ) ) { fromJson( *p, f ); ++used; } } );
            if( used != j.o.size() ) throw std::logic_error( "harness: unknown field in " + j.dump() );
        }
    }
};
template<class T> struct Conv<std::vector<T>>
{
    static js::Value to( const std::vector<T>& v ) { auto r = js::Value::arr(); for( auto& x : v ) r.push( toJson( x ) ); return r; }
    static void from( const js::Value& j, std::vector<T>& v ) { v.clear(); for( auto& x : j.a ) { T t = make<T>(); fromJson( x, t ); v.push_back( t ); } }
};
template<class T> struct Conv<std::optional<T>>
{
    static js::Value to( const std::optional<T>& v ) { auto r = js::Value::arr(); if( v ) r.push( toJson( *v ) ); return r; }
    static void from( const js::Value& j, std::optional<T>& v ) { v.reset(); if( !j.a.empty() ) { T x = make<T>(); fromJson( j.a[0], x ); v = x; } }
};
template<class T> struct Conv<std::map<int, T>>
{
    static js::Value to( const std::map<int, T>& v )
    {
        auto r = js::Value::arr();
        for( auto& x : v ) { auto p = js::Value::obj(); p.set( "k", x.first ); p.set( "v", toJson( x.second ) ); r.push( p ); }
        return r;
    }
    static void from( const js::Value& j, std::map<int, T>& v )
    {
        v.clear();
        for( auto& x : j.a ) { T t = make<T>(); fromJson( x.at( "v" ), t ); v[x.at( "k" ).num()] = t; }
    }
};
template<class T> js::Value toJson( const T& v ) { return Conv<T>::to( v ); }
template<class T> void fromJson( const js::Value& j, T& v ) { Conv<T>::from( j, v ); }
// every field, defaults included (one level: used to learn the defaults)
template<class T> js::Value fullJson( const T& v )
{
    auto r = js::Value::obj();
    Fields<T>::visit( v, [&]( const char* n, const auto& f ) { r.set( n, toJson( f ) ); } );
    return r;
}
}
