// written by tools/gen_opvalue.py
#define MX_VALUE_INTS( X ) X( AccordionMiddleValue ) X( BeamLevel ) X( Byte ) X( FifthsValue ) X( Midi128 ) X( Midi16 ) X( Midi16384 ) X( NonNegativeInteger ) X( NumberLevel ) X( NumberOfLines ) X( OctaveValue ) X( PositiveInteger ) X( StaffLine ) X( StaffNumber ) X( StringNumber ) X( TremoloMarks )
#define MX_VALUE_DECIMALS( X ) X( DivisionsValue ) X( MillimetersValue ) X( NonNegativeDecimal ) X( Percent ) X( PositiveDecimal ) X( PositiveDivisions ) X( PositiveDivisionsValue ) X( RotationDegrees ) X( Semitones ) X( TenthsValue ) X( TrillBeats )
#define MX_VALUE_ENUMS( X ) X( AboveBelow ) X( AccidentalValue ) X( ArrowDirectionEnum ) X( ArrowStyleEnum ) X( BackwardForward ) X( BarStyleEnum ) X( BeamValue ) X( BeaterValue ) X( BreathMarkValue ) X( CancelLocation ) X( CircularArrowEnum ) X( ClefSign ) X( CssFontSize ) X( DegreeSymbolValue ) X( DegreeTypeValue ) X( DistanceTypeEnum ) X( DynamicsEnum ) X( EffectEnum ) X( EnclosureShape ) X( Fan ) X( FermataShape ) X( FontStyle ) X( FontWeight ) X( GlassEnum ) X( GroupBarlineValue ) X( GroupSymbolValue ) X( HandbellValue ) X( HarmonyType ) X( HoleClosedLocation ) X( HoleClosedValue ) X( KindValue ) X( LeftCenterRight ) X( LeftRight ) X( LineEnd ) X( LineShape ) X( LineType ) X( LineWidthTypeEnum ) X( MarginType ) X( MeasureNumberingValue ) X( MembraneEnum ) X( MetalEnum ) X( ModeEnum ) X( MuteEnum ) X( NoteSizeType ) X( NoteTypeValue ) X( NoteheadValue ) X( OnOff ) X( OverUnder ) X( PitchedEnum ) X( PrincipalVoiceSymbol ) X( RightLeftMiddle ) X( SemiPitchedEnum ) X( ShowFrets ) X( ShowTuplet ) X( StaffTypeEnum ) X( StartNote ) X( StartStop ) X( StartStopChangeContinue ) X( StartStopContinue ) X( StartStopDiscontinue ) X( StartStopSingle ) X( StemValue ) X( StepEnum ) X( StickLocationEnum ) X( StickMaterialEnum ) X( StickTypeEnum ) X( SyllabicEnum ) X( SymbolSize ) X( TextDirection ) X( TimeRelationEnum ) X( TimeSeparator ) X( TimeSymbol ) X( TipDirection ) X( TopBottom ) X( TrillStep ) X( TwoNoteTurn ) X( UpDown ) X( UpDownStopContinue ) X( UprightInverted ) X( Valign ) X( ValignImage ) X( WedgeType ) X( Winged ) X( WoodEnum ) X( YesNo )
#define MX_VALUE_OTHERS( X ) X( DistanceType ) X( DynamicsValue ) X( LineWidthType ) X( ModeValue )
