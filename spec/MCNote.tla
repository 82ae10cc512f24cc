-------------------------------- MODULE MCNote --------------------------------
(* Voices of a few notes that are written and read back one after the other, over small sets of notes; the voices are
   also handed out (EMIT) to be given to the real writer and reader.                                                  *)
EXTENDS NoteCarry, Json
CONSTANTS Theme, MaxLen, EmitAll
VARIABLES voice, back, k
vars == << voice, back, k >>

Merge(a, b) == [f \in DOMAIN a \cup DOMAIN b |-> IF f \in DOMAIN b THEN b[f] ELSE a[f]]
F(f, v) == [x \in { f } |-> v]
Opt(f, V) == { Nothing } \cup { F(f, v) : v \in V }
Cross(A, B) == { Merge(a, b) : a \in A, b \in B }
Flags(fs) == { [f \in S |-> TRUE] : S \in SUBSET fs }
As(f, R) == { IF DOMAIN r = {} THEN Nothing ELSE F(f, r) : r \in R }

Pitches == Cross(Cross(Opt("step", { "b" }), Opt("octave", { 0 })), Opt("alter", { -1 }))
Signs == Cross(Opt("accidental", { "natural" }), Flags(AccidentalFlags))
Lengths == Cross(Cross(Opt("durationName", { "half", "dur16th" }), Opt("durationTimeTicks", { 2, 4 })), Opt("durationDots", { 2 }))
Ratios == { Nothing, Merge(F("timeModificationActualNotes", 3), F("timeModificationNormalNotes", 2)), F("timeModificationActualNotes", 2), F("timeModificationNormalNotes", 3) }
NormalTypes == { Nothing, F("timeModificationNormalType", "half"), Merge(F("timeModificationNormalType", "eighth"), F("timeModificationNormalTypeDots", 1)) }
Places == As("positionData", Cross(Flags({ "isDefaultXSpecified", "isRelativeYSpecified" }), Cross(Opt("defaultX", { "3" }), Cross(Opt("relativeY", { "-2" }), Opt("placement", { "above" })))))
Prints == As("printData", Cross(Opt("printObject", { "no", "yes" }), Cross(As("fontData", { Nothing, F("style", "italic"), Merge(F("sizeType", "point"), F("sizePoint", "8")) }),
                                Cross(Flags({ "isColorSpecified" }), As("color", { Nothing, F("red", 1) })))))

\* attachments
MarkPlace == As("positionData", Cross(Flags({ "isDefaultXSpecified", "isRelativeYSpecified" }), Cross(Opt("defaultX", { "3" }), Cross(Opt("placement", { "below" }), Opt("horizontalAlignmnet", { "right" })))))
AllMarks == UNION { Families[j] : j \in DOMAIN Families }
Marks == Cross({ IF t \in Others THEN Merge(F("markType", t), F("name", "x")) ELSE F("markType", t) : t \in AllMarks }, MarkPlace)
FewMarks == { F("markType", t) : t \in { "fermata", "fermataSquare", "p", "fff", "accent", "strongAccent", "breathMark", "trillMark", "tremoloSingleTwo", "upBow", "stopped", "accidentalMarkFlat", "arpeggiate" } }
            \cup { Merge(F("markType", t), F("name", "x")) : t \in Others }
Attached(f, V) == As("noteAttachmentData", Opt(f, V))
Cross3(A, B, C) == As("noteAttachmentData", Cross(A, Cross(B, C)))
F2(f, A, B) == { F(f, << r >>) : r \in Cross(A, B) }
Curves == Cross({ F("curveType", "tie"), Merge(F("curveType", "slur"), F("numberLevel", 2)) },
                As("curvePoints", Cross({ Nothing, F("positionData", Merge(F("isDefaultXSpecified", TRUE), F("placement", "above"))) }, Cross(Flags({ "isBezierXSpecified" }), Opt("bezierX", { "4" })))))
StartMore == Cross(Opt("curveOrientation", { "overhand" }), As("lineData", Opt("lineType", { "dashed" })))
ContinueMore == Cross(Flags({ "isBezierY2Specified" }), Opt("bezierY2", { "-1" }))
Plain2 == { F("curveType", "tie"), Merge(F("curveType", "slur"), F("numberLevel", 1)), Merge(F("curveType", "slur"), F("numberLevel", 6)) }
Some(f) == Opt(f, { << a >> : a \in Plain2 } \cup { << a, b >> : a, b \in Plain2 })
TupletEnds == Cross({ F("numberLevel", 1), F("numberLevel", 2) }, As("positionData", { Nothing, F("placement", "below") }))
Tuplets == Cross(Cross(TupletEnds, Cross({ Nothing, F("actualNumber", 3), Merge(F("actualNumber", 5), F("actualDurationName", "eighth")), Merge(F("actualNumber", 5), Merge(F("actualDurationName", "half"), F("actualDots", 1))) },
                                         { Nothing, F("normalNumber", 2), Merge(F("normalNumber", 4), F("normalDurationName", "dur16th")) })),
                 Cross(Opt("showActualNumber", { "yes", "no" }), Cross(Opt("showNormalNumber", { "yes" }), Opt("bracket", { "yes", "no" }))))

Notes ==
  CASE Theme = "what" -> Cross(Cross(Flags({ "isRest", "isMeasureRest", "isUnpitched", "isDisplayStepOctaveSpecified" }), Opt("noteType", { "grace", "cue" })), As("pitchData", Pitches))
    [] Theme = "sign" -> Cross(Opt("noteType", { "grace" }), As("pitchData", Cross(Pitches, Signs)))
    [] Theme = "length" -> Cross(Opt("noteType", { "grace", "cue" }), As("durationData", Cross(Lengths, Cross(Ratios, NormalTypes))))
    [] Theme = "draw" -> Cross(Cross(Opt("noteType", { "cue" }), Opt("stem", { "up", "none" })), Cross(Opt("notehead", { "slash" }), Cross(Places, Prints)))
    [] Theme = "beams" -> Cross(Cross(Opt("noteType", { "grace", "cue" }), Flags({ "isTieStart", "isTieStop" })),
                                Opt("beams", UNION { [1 .. n -> { "begin", "end", "extend", "forwardBroken", "backwardBroken" }] : n \in 1 .. 2 }))
    [] Theme = "pairs" -> { Nothing, F("isRest", TRUE), F("isUnpitched", TRUE), F("pitchData", F("accidental", "sharp")), F("durationData", Merge(F("timeModificationActualNotes", 3), F("timeModificationNormalNotes", 2))),
                            F("beams", << "begin" >>), F("isTieStart", TRUE), F("isTieStop", TRUE), F("stem", "down"), F("notehead", "x"), F("positionData", Merge(F("isDefaultYSpecified", TRUE), F("defaultY", "5"))),
                            F("printData", F("printObject", "no")), F("durationData", F("durationDots", 1)), F("durationData", F("durationName", "eighth")),
                            F("noteType", "cue"), F("noteType", "grace"), F("miscData", << "a" >>) }
    [] Theme = "mark" -> Attached("marks", { << m >> : m \in Marks })
    [] Theme = "marks" -> Attached("marks", { << m, n >> : m \in FewMarks, n \in FewMarks })
    [] Theme = "curves" -> As("noteAttachmentData", F2("curveStarts", Curves, StartMore) \cup F2("curveContinuations", Curves, ContinueMore) \cup F2("curveStops", Curves, { Nothing }))
    [] Theme = "manycurves" -> Cross3(Some("curveStarts"), Some("curveContinuations"), Some("curveStops"))
    [] Theme = "tuplets" -> Attached("tupletStarts", { << u >> : u \in Tuplets }) \cup Attached("tupletStops", { << u >> : u \in TupletEnds }) \cup Attached("tupletStops", { << u, w >> : u, w \in TupletEnds })
    [] Theme = "ends" -> Cross(Flags({ "isTieStart", "isTieStop" }), { Nothing } \cup Attached("marks", { << F("markType", "f") >> }) \cup As("noteAttachmentData", Some("curveStarts")))
\* a voice takes some time
Takes(s) == \E j \in DOMAIN s : Kind(s[j]) /= "grace"
Sensible(n) == Kind(n) /= "normal" => ~IsMeasureRest(n)
Full == { n \in Notes : (Sensible(n)) = TRUE }
After(s, j) == LET Sum[q \in 0 .. j] == IF q = 0 THEN 0 ELSE Sum[q - 1] + Ticks(s[q]) IN Sum[j]
Timed(s) == [j \in DOMAIN s |-> WithValue(s[j], "tickTimePosition", After(s, j - 1), 0)]
Voices == { Timed(s) : s \in UNION { { s \in [1 .. n -> Full] : (Takes(s)) = TRUE } : n \in 1 .. MaxLen } }

\* --- a voice goes out note by note and comes back note by note
Copy(n) == [f \in DOMAIN BodyOf(n, 1) \ { "userRequestedVoiceNumber" } |-> BodyOf(n, 1)[f]]
Back(n) == LET d == Sub(n, "durationData")
               e == Only(d, { "durationDots", "durationName" } \cup (IF Modified(d) THEN { "timeModificationActualNotes", "timeModificationNormalNotes", "timeModificationNormalType" } ELSE {})
                            \cup (IF Modified(d) /\ NormalType(d)[1] /= "unspecified" THEN { "timeModificationNormalTypeDots" } ELSE {})) IN
           WithPart(Copy(n), "durationData", WithValue(IF IsMeasureRest(n) THEN Without(e, { "durationName" }) ELSE e, "durationTimeTicks", Ticks(n), 1))
Init == voice \in Voices /\ back = << >> /\ k = 1
Next == \/ k <= Len(voice) /\ back' = Append(back, Back(voice[k])) /\ k' = k + 1 /\ UNCHANGED voice
        \/ k = Len(voice) + 1 /\ EmitAll /\ PrintT(<< "EMIT", ToJson(voice) >>) /\ k' = k + 1 /\ UNCHANGED << voice, back >>

\* the demands can be met, by a reading that depends on the note alone
Possible == \A j \in DOMAIN back : NoteCarried(voice[j], With(back[j], "userRequestedVoiceNumber", 1), 1, 4, FALSE)
\* what was carried once is carried as it is
Settled == \A j \in DOMAIN back : Back(back[j]) = back[j] /\ BodyOf(back[j], 1) = BodyOf(voice[j], 1)
AttachmentsSettled == \A j \in DOMAIN back : LET a == Sub(voice[j], "noteAttachmentData") IN
  /\ \A q \in DOMAIN Seqs(a, "curveStarts") : StartOf(StartOf(a.curveStarts[q])) = StartOf(a.curveStarts[q])
  /\ \A q \in DOMAIN Seqs(a, "curveContinuations") : ContinueOf(ContinueOf(a.curveContinuations[q])) = ContinueOf(a.curveContinuations[q])
  /\ \A q \in DOMAIN Seqs(a, "curveStops") : StopOf(StopOf(a.curveStops[q])) = StopOf(a.curveStops[q])
\* no mark is of two families
FamiliesApart == \A i, j \in DOMAIN Families : i /= j => Families[i] \cap Families[j] = {}
\* nothing is invented
NotInvented == \A j \in DOMAIN back : (DOMAIN back[j] \ { "durationData" }) \subseteq DOMAIN voice[j]
=============================================================================
