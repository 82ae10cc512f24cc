---------------------------- MODULE MCDirection ----------------------------
(* Staves with a few small directions that go out and come back one time at a time; the staves are also handed out (EMIT)
   to be given to the real writer and reader.                                                                         *)
EXTENDS DirectionCarry, Json
CONSTANTS Theme, MaxLen, EmitAll
VARIABLES want, back, k
vars == << want, back, k >>

Merge(a, b) == [f \in DOMAIN a \cup DOMAIN b |-> IF f \in DOMAIN b THEN b[f] ELSE a[f]]
F(f, v) == [x \in { f } |-> v]
Opt(f, V) == { Nothing } \cup { F(f, v) : v \in V }
Cross(A, B) == { Merge(a, b) : a \in A, b \in B }
As(f, R) == { IF DOMAIN r = {} THEN Nothing ELSE F(f, r) : r \in R }
Each1(f, R) == { F(f, << r >>) : r \in R }
Upto2(f, R) == Each1(f, R) \cup { F(f, << r, q >>) : r, q \in R }

Places == { Nothing, F("placement", "below"), Merge(F("isDefaultXSpecified", TRUE), F("defaultX", "3")), F("defaultY", "4"), F("horizontalAlignmnet", "right"), F("verticalAlignment", "top") }
Fonts == { Nothing, F("style", "italic"), Merge(F("sizeType", "point"), F("sizePoint", "8")), F("underline", 1) }
Prints == { Nothing, F("fontData", F("weight", "bold")), F("isColorSpecified", TRUE), Merge(F("isColorSpecified", TRUE), F("color", F("red", 1))), F("color", F("red", 1)), F("fontData", F("underline", 2)) }
Lines == { Nothing, F("lineHook", "up"), F("lineType", "dashed"), Merge(F("isDashLengthSpecified", TRUE), F("dashLength", "2")), F("isStopLengthSpecified", TRUE), F("endLength", "3") }
Numbers == Opt("numberLevel", { 1, 2, 6 })
Spreads == { Nothing, F("isSpreadSpecified", TRUE), F("spread", "5"), Merge(F("isSpreadSpecified", TRUE), F("spread", "5")) }

Marks == Cross({ F("markType", "ff"), F("markType", "pedal"), F("markType", "damp"), Merge(F("markType", "otherDynamics"), F("name", "x")) }, Cross(As("positionData", Places), As("printData", Prints)))
Stops == Cross(Numbers, As("positionData", Places))
Starts == Cross(Stops, Cross(As("lineData", Lines), As("printData", Prints)))
Hooked == { r \in Starts : "lineData" \in DOMAIN r /\ "lineHook" \in DOMAIN r.lineData }
Texts == Cross({ F("text", "a") }, Cross(As("positionData", Places), Cross(As("fontData", Fonts), Cross(Opt("isColorSpecified", { TRUE }), As("colorData", { Nothing, F("blue", 0) })))))
Signs == Cross(As("positionData", Places), Cross(Opt("isColorSpecified", { TRUE }), As("colorData", { Nothing, F("blue", 0) })))
Tempos == Cross({ F("tempoType", "beatsPerMinute") }, Cross({ F("beatsPerMinute", Merge(b, Merge(F("durationName", "half"), F("beatsPerMinute", 60)))) : b \in Opt("dots", { 0, 1, 2 }) },
                Cross(Opt("isParenthetical", { "yes", "no" }), Cross(As("positionData", Places), As("printData", Prints)))))
Extensions == Cross(Opt("extensionType", { "remove" }), Cross(Opt("extensionAlter", { "sharp" }), Cross(Opt("extensionNumber", { "thirteenth" }), Opt("printObject", { "no" }))))
FewChords == Cross({ F("chordKind", "minor") }, Cross(As("positionData", { Nothing, F("placement", "below"), F("isRelativeYSpecified", TRUE) }), Opt("miscData", { << Merge(F("name", "a"), F("data", "b")) >> })))
Chords == Cross({ F("chordKind", "major") }, Cross(Opt("rootAlter", { 1 }), Cross(Cross(Opt("bass", { "c" }), Opt("bassAlter", { -1 })), Cross(Opt("text", { "m" }), Cross(Opt("useSymbols", { "no" }), { Nothing } \cup Each1("extensions", Extensions))))))

Frames == Cross(Opt("placement", { "above" }), Opt("isStaffValueSpecified", { FALSE }))
Least == << F("marks", << F("markType", "p") >>), F("marks", << F("markType", "pedal"), F("markType", "f") >>), F("wedgeStarts", << F("wedgeType", "crescendo") >>), F("wedgeStops", << Nothing >>), F("ottavaStops", << Nothing >>),
            F("ottavaStarts", << F("ottavaType", "o8va") >>), F("bracketStarts", << F("lineData", F("lineHook", "down")) >>), F("bracketStops", << Nothing >>),
            F("words", << F("text", "a"), F("text", "b") >>), F("segnos", << Nothing >>), F("codas", << Nothing, Nothing >>), F("rehearsals", << F("text", "A") >>), F("chords", << F("chordKind", "major") >>),
            F("tempos", << F("tempoType", "beatsPerMinute") @@ F("beatsPerMinute", F("durationName", "half") @@ F("beatsPerMinute", 60)) >>) >>
Small == { Least[j] : j \in DOMAIN Least }

Directions ==
  CASE Theme = "marks" -> Cross(Frames, Each1("marks", Marks))
    [] Theme = "twomarks" -> Cross(Frames, { F("marks", << m, n >>) : m, n \in { m \in Marks : "printData" \notin DOMAIN m } })
    [] Theme = "spanners" -> Each1("ottavaStarts", Cross({ F("ottavaType", "o15mb") }, As("spannerStart", Starts))) \cup Each1("bracketStarts", Hooked) \cup UNION { Upto2(f, Stops) : f \in { "ottavaStops", "bracketStops" } }
    [] Theme = "wedges" -> Each1("wedgeStarts", Cross(Cross({ F("wedgeType", "diminuendo") }, Spreads), Cross(Stops, As("lineData", Lines)))) \cup Each1("wedgeStops", Cross(Spreads, Stops))
    [] Theme = "texts" -> Each1("words", Texts) \cup Each1("rehearsals", Texts) \cup Upto2("segnos", Signs) \cup Upto2("codas", Signs)
    [] Theme = "tempos" -> Cross(Frames, Each1("tempos", Tempos))
    [] Theme = "chords" -> Each1("chords", Chords) \cup Cross(Frames, Upto2("chords", FewChords))
    [] Theme = "mixed" -> Cross(Frames, Small \cup Cross(Small, Small)) \cup Cross(Small, Cross(Small, Small))
    [] Theme = "order" -> { Nothing } \cup Small
Timed(s) == IF Len(s) = 1 THEN { s } ELSE { [j \in DOMAIN s |-> WithValue(s[j], "tickTimePosition", t[j], 0)] : t \in { t \in [DOMAIN s -> 0 .. 2] : \A j \in 1 .. (Len(s) - 1) : t[j] <= t[j + 1] } }
Staves == UNION { Timed(s) : s \in UNION { [1 .. n -> Directions] : n \in 1 .. MaxLen } }

Init == want \in Staves /\ back = << >> /\ k = 1
Next == \/ k <= Len(want) /\ back' = back \o PartsOf(want[k], 1) /\ k' = k + 1 /\ UNCHANGED want
        \/ k = Len(want) + 1 /\ EmitAll /\ PrintT(<< "EMIT", ToJson(want) >>) /\ k' = k + 1 /\ UNCHANGED << want, back >>

\* what was carried once is carried as it is, and as one
Settled == \A j \in DOMAIN back : PartsOf(back[j], 1) = << back[j] >>
\* a direction carries nothing it was not given
NotInvented == \A j \in DOMAIN back : \A f \in (DOMAIN back[j] \ { "placement", "tickTimePosition", "isStaffValueSpecified" }) : \E q \in DOMAIN want : f \in DOMAIN want[q] /\ Len(want[q][f]) = Len(back[j][f])
\* nothing that is held is dropped
AllThere == k > Len(want) => \A q \in DOMAIN want : \A f \in (DOMAIN want[q] \cap (Things \cup { "chords" })) : \E j \in DOMAIN back : DirTime(back[j]) = DirTime(want[q]) /\ f \in DOMAIN back[j]
\* on every time the directions are those of that time, in order
InTime == k > Len(want) => \A t \in 0 .. 2 : GotAt(back, t) = Each(WantAt(want, t, 1), ReadOf)
=============================================================================
