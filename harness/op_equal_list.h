TYPE( AppearanceData )
TYPE( MarginsData )
TYPE( PageMarginsData )
TYPE( SizeData )
TYPE( PageLayoutData )
TYPE( LeftRight )
TYPE( SystemLayoutData )
TYPE( DefaultsData )
TYPE( SupportedItem )
TYPE( MiscellaneousField )
TYPE( EncodingDate )
TYPE( EncodingData )
TYPE( PositionData )
TYPE( BarlineData )
TYPE( ClefData )
TYPE( PitchData )
TYPE( MiscData )
TYPE( Extension )
TYPE( ChordData )
TYPE( ColorData )
TYPE( CodaData )
TYPE( FontData )
TYPE( PrintData )
TYPE( MarkData )
TYPE( LineData )
TYPE( SpannerStart )
TYPE( SpannerStop )
TYPE( OttavaStart )
TYPE( RehearsalData )
TYPE( SegnoData )
TYPE( CurvePoints )
TYPE( CurveStart )
TYPE( CurveContinue )
TYPE( CurveStop )
TYPE( DurationData )
TYPE( BeatsPerMinute )
TYPE( MetricModulation )
TYPE( TempoText )
TYPE( TempoData )
TYPE( WedgeStart )
TYPE( WedgeStop )
TYPE( WordsData )
TYPE( DirectionData )
TYPE( KeyComponent )
TYPE( KeyData )
TYPE( TupletStart )
TYPE( TupletStop )
TYPE( NoteAttachmentData )
TYPE( NoteData )
TYPE( VoiceData )
TYPE( StaffData )
TYPE( TimeSignatureData )
TYPE( MeasureData )
TYPE( PageData )
TYPE( SystemData )
TYPE( LayoutData )
TYPE( PageTextData )
TYPE( TransposeData )
TYPE( MidiData )
TYPE( InstrumentData )
TYPE( PartData )
TYPE( PartGroupData )
TYPE( ScoreData )
