------------------------------ MODULE NoteCarry ------------------------------
(* What a note of the score model is after it was written as MusicXML and read back.

   Written with a note are its kind (normal, grace, cue), what it is (pitch, rest, unpitched), its length and written
   duration, how it is drawn and what is attached to it. Nothing of that depends on other notes, except that a time
   modification without a normal type may be given the one of the tuplet it stands in.                                *)
EXTENDS Carry

Kind(n) == Get(n, "noteType", "normal")
IsRest(n) == Is(n, "isRest")
IsMeasureRest(n) == IsRest(n) /\ Is(n, "isMeasureRest")
IsUnpitched(n) == ~IsRest(n) /\ Is(n, "isUnpitched")
HasPlaceOnStaff(n) == (IsRest(n) \/ IsUnpitched(n)) /\ Is(n, "isDisplayStepOctaveSpecified")

AccidentalFlags == { "isAccidentalParenthetical", "isAccidentalCautionary", "isAccidentalEditorial", "isAccidentalBracketed" }
PitchOf(n) ==
  LET p == Sub(n, "pitchData")
      drawn == IF "accidental" \in DOMAIN p THEN { "accidental" } \cup AccidentalFlags ELSE {}
      place == CASE IsRest(n) \/ IsUnpitched(n) -> IF HasPlaceOnStaff(n) THEN { "step", "octave" } ELSE {}
                 [] OTHER -> { "step", "octave", "alter", "cents" } IN
  Only(p, drawn \cup place)

\* a length that is exactly one of the plain note types, in quarters as a fraction
Plain == << << "maxima", 32, 1 >>, << "longa", 16, 1 >>, << "breve", 8, 1 >>, << "whole", 4, 1 >>, << "half", 2, 1 >>, << "quarter", 1, 1 >>, << "eighth", 1, 2 >>, << "dur16th", 1, 4 >>,
            << "dur32nd", 1, 8 >>, << "dur64th", 1, 16 >>, << "dur128th", 1, 32 >>, << "dur256th", 1, 64 >>, << "dur512th", 1, 128 >>, << "dur1024th", 1, 256 >> >>
Ticks(n) == IF Kind(n) = "grace" THEN 0 ELSE Get(Sub(n, "durationData"), "durationTimeTicks", 1)
NamesFor(ticks, tpq) == { "unspecified" } \cup { Plain[k][1] : k \in { k \in DOMAIN Plain : ticks * Plain[k][3] = tpq * Plain[k][2] } }
Name(n) == Get(Sub(n, "durationData"), "durationName", "unspecified")
\* a note that states its type keeps it; another may be given the one its length stands for
NamesOf(n, tpq) == IF Name(n) /= "unspecified" /\ ~IsMeasureRest(n) THEN { Name(n) } ELSE NamesFor(Ticks(n), tpq)

Modified(d) == Get(d, "timeModificationActualNotes", 1) > 1 \/ Get(d, "timeModificationNormalNotes", 1) > 1
NormalType(d) == << Get(d, "timeModificationNormalType", "unspecified"), Get(d, "timeModificationNormalTypeDots", 0) >>
\* the normal types that may be read where d was written: the same; none where it is the type of the note anyhow; where none
\* was given, one that a tuplet implies
NormalTypeMayBe(n, m, inTuplet) ==
  LET d == Sub(n, "durationData")  e == Sub(m, "durationData")  t == NormalType(d)  none == << "unspecified", 0 >> IN
  IF ~Modified(d) \/ t[1] = "unspecified" THEN NormalType(e) = none \/ (Modified(d) /\ inTuplet)
  ELSE NormalType(e) = t \/ (t = << Name(n), 0 >> /\ NormalType(e) = none)

Ratio(d) == IF Modified(d) THEN << Get(d, "timeModificationActualNotes", 1), Get(d, "timeModificationNormalNotes", 1) >> ELSE << 1, 1 >>
DurationCarried(n, m, tpq, inTuplet) ==
  LET d == Sub(n, "durationData")  e == Sub(m, "durationData") IN
  /\ Get(e, "durationTimeTicks", 1) = Ticks(n)
  /\ Name(m) \in NamesOf(n, tpq)
  /\ Get(e, "durationDots", 0) = Get(d, "durationDots", 0)
  /\ Ratio(e) = Ratio(d)
  /\ NormalTypeMayBe(n, m, inTuplet)
  /\ ~Is(e, "isTied")

Ties(n) == IF Kind(n) = "cue" THEN {} ELSE { "isTieStart", "isTieStop" }
\* everything of a note but its duration and its attachments
BodyOf(n, voice) ==
  LET flags == Only(n, { "isRest", "isChord", "noteType", "notehead", "stem", "tickTimePosition", "beams", "miscData" }
                       \cup Ties(n)
                       \cup (IF IsMeasureRest(n) THEN { "isMeasureRest" } ELSE {})
                       \cup (IF IsUnpitched(n) THEN { "isUnpitched" } ELSE {})
                       \cup (IF HasPlaceOnStaff(n) THEN { "isDisplayStepOctaveSpecified" } ELSE {}))
      a == WithPart(flags, "pitchData", PitchOf(n))
      b == WithPart(a, "positionData", PlaceOf(Sub(n, "positionData"), FourOffsets))
      \* lines through, above and under a text are not for notes
      f == Without(Sub(Sub(n, "printData"), "fontData"), { "underline", "overline", "lineThrough" })
      c == WithPart(b, "printData", PrintOf(WithPart(Sub(n, "printData"), "fontData", f))) IN
  With(c, "userRequestedVoiceNumber", voice)
BodyCarried(n, m, voice) == Without(m, { "durationData", "noteAttachmentData" }) = BodyOf(n, voice)

NoteCarried(n, m, voice, tpq, inTuplet) == BodyCarried(n, m, voice) /\ DurationCarried(n, m, tpq, inTuplet)

\* --- what is attached to a note
FermataShapes == { "fermata", "fermataNormal", "fermataAngled", "fermataSquare", "fermataUpright", "fermataNormalUpright", "fermataAngledUpright", "fermataSquareUpright",
                   "fermataInverted", "fermataNormalInverted", "fermataAngledInverted", "fermataSquareInverted" }
Dynamics == { "p", "pp", "ppp", "pppp", "ppppp", "pppppp", "f", "ff", "fff", "ffff", "fffff", "ffffff", "mp", "mf", "sf", "sfp", "sfpp", "fp", "rf", "rfz", "sfz", "sffz", "fz", "otherDynamics" }
Articulations == { "accent", "strongAccent", "staccato", "tenuto", "detachedLegato", "staccatissimo", "spiccato", "scoop", "plop", "doit", "falloff", "breathMark", "caesura", "stress", "unstress",
                   "otherArticulation", "customAccentTenuto" }
Ornaments == { "trillMark", "turn", "delayedTurn", "invertedTurn", "delayedInvertedTurn", "verticalTurn", "shake", "wavyLine", "mordent", "invertedMordent", "schleifer",
               "tremoloSingleOne", "tremoloSingleTwo", "tremoloSingleThree", "tremoloSingleFour", "tremoloSingleFive", "otherOrnament" }
Technical == { "upBow", "downBow", "harmonic", "openString", "thumbPosition", "doubleTongue", "tripleTongue", "stopped", "snapPizzicato", "heel", "toe", "fingernails", "otherTechnical" }
AccidentalMarks == { "accidentalMarkSharp", "accidentalMarkNatural", "accidentalMarkFlat", "accidentalMarkDoubleSharp", "accidentalMarkSharpSharp", "accidentalMarkFlatFlat", "accidentalMarkNaturalSharp",
                     "accidentalMarkNaturalFlat", "accidentalMarkQuarterFlat", "accidentalMarkQuarterSharp", "accidentalMarkThreeQuartersFlat", "accidentalMarkThreeQuartersSharp", "accidentalMarkSharpDown",
                     "accidentalMarkSharpUp", "accidentalMarkNaturalDown", "accidentalMarkNaturalUp", "accidentalMarkFlatDown", "accidentalMarkFlatUp", "accidentalMarkTripleSharp", "accidentalMarkTripleFlat",
                     "accidentalMarkSlashQuarterSharp", "accidentalMarkSlashSharp", "accidentalMarkSlashFlat", "accidentalMarkDoubleSlashFlat", "accidentalMarkSharp1", "accidentalMarkSharp2", "accidentalMarkSharp3",
                     "accidentalMarkSharp5", "accidentalMarkFlat1", "accidentalMarkFlat2", "accidentalMarkFlat3", "accidentalMarkFlat4", "accidentalMarkSori", "accidentalMarkKoron" }
Arpeggios == { "arpeggiate", "arpeggiateUp", "arpeggiateDown", "nonArpeggiate" }
Families == << FermataShapes, Dynamics, Articulations, Ornaments, Technical, AccidentalMarks, Arpeggios >>
Others == { "otherArticulation", "otherOrnament", "otherTechnical", "otherDynamics" }

MarkType(k) == Get(k, "markType", "unspecified")
MarkPlaces(k) == LET t == MarkType(k) IN
  CASE t \in FermataShapes -> FourOffsets
    [] t \in Dynamics -> AllAttributes
    [] OTHER -> Placed
\* kind, name where it is the user's own, place
MarkOf(k) == << MarkType(k), IF MarkType(k) \in Others THEN Get(k, "name", "") ELSE "", PlaceOf(Sub(k, "positionData"), MarkPlaces(k)) >>
MarksOf(s, F) == Each(SelectSeq(s, LAMBDA k : MarkType(k) \in F), MarkOf)
MarksCarried(s, t, time) ==
  /\ Len(t) = Len(s)
  /\ \A j \in DOMAIN Families : MarksOf(t, Families[j]) = MarksOf(s, Families[j])
  /\ \A j \in DOMAIN t : Get(t[j], "tickTimePosition", 0) = time

PointsOf(p) == WithPart(Only(p, Given(p, "isBezierXSpecified", "bezierX") \cup Given(p, "isBezierYSpecified", "bezierY") \cup Given(p, "isBezierOffsetSpecified", "bezierOffset")),
                        "positionData", PlaceOf(Sub(p, "positionData"), Placed))
CurveBase(c) == WithPart(Only(c, { "curveType", "numberLevel" }), "curvePoints", PointsOf(Sub(c, "curvePoints")))
StartOf(c) == LET a == WithPart(CurveBase(c), "lineData", LineOf(Sub(c, "lineData"), { "line-type", "dashes" }))
                  b == IF "curveOrientation" \in DOMAIN c THEN With(a, "curveOrientation", c.curveOrientation) ELSE a IN
              IF Is(c, "isColorSpecified") THEN WithPart(With(b, "isColorSpecified", TRUE), "colorData", ColorOf(Sub(c, "colorData"))) ELSE b
ContinueOf(c) == LET x == Only(c, Given(c, "isBezierX2Specified", "bezierX2") \cup Given(c, "isBezierY2Specified", "bezierY2") \cup Given(c, "isBezierOffset2Specified", "bezierOffset2"))
                     b == CurveBase(c) IN [f \in DOMAIN x \cup DOMAIN b |-> IF f \in DOMAIN x THEN x[f] ELSE b[f]]
StopOf(c) == CurveBase(c)
OfType(s, ty) == SelectSeq(s, LAMBDA c : Get(c, "curveType", "unspecified") = ty)
CurvesCarried(s, t, Op(_)) == \A ty \in { "slur", "tie", "unspecified" } : Each(OfType(t, ty), LAMBDA c : c) = Each(OfType(s, ty), Op)

Dots(d) == IF d > 0 THEN d ELSE -1
ShowOf(a, b) == IF a = "unspecified" THEN << a, a >> ELSE IF a = "no" THEN << "no", "no" >> ELSE << "yes", IF b = "yes" THEN "yes" ELSE "no" >>
TupletOf(u) == << Get(u, "numberLevel", -1), PlaceOf(Sub(u, "positionData"), Placed), Get(u, "actualNumber", -1), Get(u, "actualDurationName", "unspecified"), Dots(Get(u, "actualDots", -1)),
                  Get(u, "normalNumber", -1), Get(u, "normalDurationName", "unspecified"), Dots(Get(u, "normalDots", -1)),
                  ShowOf(Get(u, "showActualNumber", "unspecified"), Get(u, "showNormalNumber", "unspecified")), Get(u, "bracket", "unspecified") >>
TupletEndOf(u) == << Get(u, "numberLevel", -1), PlaceOf(Sub(u, "positionData"), Placed) >>

AttachmentsCarried(n, m) ==
  LET a == Sub(n, "noteAttachmentData")  b == Sub(m, "noteAttachmentData") IN
  /\ MarksCarried(Seqs(a, "marks"), Seqs(b, "marks"), Get(n, "tickTimePosition", 0))
  /\ CurvesCarried(Seqs(a, "curveStarts"), Seqs(b, "curveStarts"), StartOf)
  /\ CurvesCarried(Seqs(a, "curveContinuations"), Seqs(b, "curveContinuations"), ContinueOf)
  /\ CurvesCarried(Seqs(a, "curveStops"), Seqs(b, "curveStops"), StopOf)
  /\ Each(Seqs(b, "tupletStarts"), TupletOf) = Each(Seqs(a, "tupletStarts"), TupletOf)
  /\ Each(Seqs(b, "tupletStops"), TupletEndOf) = Each(Seqs(a, "tupletStops"), TupletEndOf)
TiesCarried(n, m) == \A f \in { "isTieStart", "isTieStop" } : Is(m, f) = (Is(n, f) /\ Kind(n) /= "cue")
=============================================================================
