--------------------------- MODULE DirectionCarry ---------------------------
(* What the directions of a staff are after they were written as MusicXML and read back.

   A direction of the score model holds any number of things at one time: marks, wedges, octave shifts, brackets, tempos,
   words, rehearsal marks, segnos, codas and chord symbols. All but the chord symbols are written as one direction, the
   chord symbols as one harmony next to it, and both are read as directions of their own. A direction that holds nothing
   is nothing.                                                                                                        *)
EXTENDS Carry

Pedals == { "pedal", "damp" }
MarkKind(m) == Get(m, "markType", "unspecified")
DirTime(d) == Get(d, "tickTimePosition", 0)

\* a pedal mark has no side of its own: it stands where its direction stands, and may say where that is
PlacementOf(d) ==
  LET ps == SelectSeq(Seqs(d, "marks"), LAMBDA m : MarkKind(m) \in Pedals /\ "placement" \in DOMAIN Sub(m, "positionData")) IN
  IF ps = << >> THEN Get(d, "placement", "unspecified") ELSE ps[Len(ps)].positionData.placement

NoLines(f) == Without(f, { "underline", "overline", "lineThrough" })
PrintFont(p, lines) == WithPart(Without(p, { "printObject" }), "fontData", FontOf(IF lines THEN Sub(p, "fontData") ELSE NoLines(Sub(p, "fontData"))))
PrintMark(m) == IF MarkKind(m) \in Pedals THEN Without(PrintFont(Sub(m, "printData"), FALSE), { "color", "isColorSpecified" })
                ELSE PrintOf(PrintFont(Sub(m, "printData"), TRUE))
PlaceMark(m, P) == IF MarkKind(m) \in Pedals THEN WithValue(PlaceOf(Sub(m, "positionData"), FourOffsets \cup { "halign" }), "placement", P, "unspecified")
                   ELSE PlaceOf(Sub(m, "positionData"), AllAttributes)
MarkOf(m, P, t) ==
  LET a == Only(m, { "markType" } \cup (IF MarkKind(m) = "otherDynamics" THEN { "name" } ELSE {}))
      b == WithPart(WithPart(a, "positionData", PlaceMark(m, P)), "printData", PrintMark(m)) IN
  WithValue(b, "tickTimePosition", t, 0)
\* the names of marks that have a kind follow from it
MarkRead(m) == IF MarkKind(m) = "otherDynamics" THEN m ELSE Without(m, { "name" })

Spread(w) == Given(w, "isSpreadSpecified", "spread")
WedgeStartOf(w) == WithPart(WithPart(Only(w, { "numberLevel", "wedgeType" } \cup Spread(w)), "positionData", PlaceOf(Sub(w, "positionData"), FourOffsets)),
                            "lineData", LineOf(Sub(w, "lineData"), { "line-type", "dashes" }))
WedgeStopOf(w) == WithPart(Only(w, { "numberLevel" } \cup Spread(w)), "positionData", PlaceOf(Sub(w, "positionData"), FourOffsets))

StopOf(s, t) == WithValue(WithPart(Only(s, { "numberLevel" }), "positionData", PlaceOf(Sub(s, "positionData"), FourOffsets)), "tickTimePosition", t, 0)
BracketOf(s, t) == LET a == StopOf(s, t)
                       b == WithPart(a, "lineData", LineOf(Sub(s, "lineData"), { "line-type", "line-end", "end-length", "dashes" })) IN
                   WithPart(b, "printData", Colored(Only(Sub(s, "printData"), { "color", "isColorSpecified" }), "isColorSpecified", "color"))
OttavaOf(o, t) == LET s == Sub(o, "spannerStart")
                      a == WithPart(StopOf(s, t), "lineData", LineOf(Sub(s, "lineData"), { "dashes" }))
                      b == WithPart(a, "printData", Without(PrintFont(Sub(s, "printData"), FALSE), { "color", "isColorSpecified" })) IN
                  WithPart(Only(o, { "ottavaType" }), "spannerStart", b)

TempoOf(m, t) ==
  LET a == Only(m, { "tempoType", "isParenthetical" })
      b == Sub(m, "beatsPerMinute")
      \* dots not given are no dots
      c == With(a, "beatsPerMinute", With(Without(b, { "dots" }), "dots", IF Get(b, "dots", -1) < 0 THEN 0 ELSE b.dots))
      e == WithPart(WithPart(c, "positionData", PlaceOf(Sub(m, "positionData"), AllAttributes \ { "placement" })), "printData", PrintOf(PrintFont(Sub(m, "printData"), FALSE))) IN
  WithValue(e, "tickTime", t, 0)

TextPlaces == FourOffsets \cup { "halign" }
TextOf(w) == Colored(WithPart(WithPart(Only(w, { "text", "isColorSpecified", "colorData" }), "positionData", PlaceOf(Sub(w, "positionData"), TextPlaces)), "fontData", FontOf(Sub(w, "fontData"))),
                     "isColorSpecified", "colorData")
SignOf(s) == Colored(WithPart(Only(s, { "isColorSpecified", "colorData" }), "positionData", PlaceOf(Sub(s, "positionData"), AllAttributes \ { "placement" })), "isColorSpecified", "colorData")

\* --- chord symbols: they stand together, where the first of them stands
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flatten(Tail(ss))
ChordsPlace(d) == LET p == PlaceOf(Sub(Head(d.chords), "positionData"), Placed) IN
                  IF "placement" \in DOMAIN p \/ "placement" \notin DOMAIN d THEN p ELSE With(p, "placement", d.placement)
\* what is said of them all is kept by the first of them
ChordOf(c, first, d) ==
  LET a == Only(c, { "root", "rootAlter", "chordKind", "text", "useSymbols", "bass", "extensions" } \cup (IF "bass" \in DOMAIN c THEN { "bassAlter" } ELSE {}))
      misc == Flatten(Each(d.chords, LAMBDA x : Seqs(x, "miscData")))
      b == IF misc = << >> \/ ~first THEN a ELSE With(a, "miscData", misc) IN
  WithPart(b, "positionData", ChordsPlace(d))

Things == { "tempos", "marks", "wedgeStarts", "wedgeStops", "ottavaStarts", "ottavaStops", "bracketStarts", "bracketStops", "words", "segnos", "codas", "rehearsals" }
Holds(d, F) == \E f \in F : Seqs(d, f) /= << >>
List(d, f, Op(_)) == IF Seqs(d, f) = << >> THEN Nothing ELSE [x \in { f } |-> Each(d[f], Op)]
RECURSIVE Joined(_)
Joined(rs) == IF rs = << >> THEN Nothing ELSE LET r == Head(rs)  q == Joined(Tail(rs)) IN [f \in DOMAIN r \cup DOMAIN q |-> IF f \in DOMAIN r THEN r[f] ELSE q[f]]
\* staves but the first are always said
StaffSaid(d, staff) == staff > 1 \/ Get(d, "isStaffValueSpecified", TRUE)
Frame(d, staff, P) == WithValue(WithValue(WithValue(Nothing, "tickTimePosition", DirTime(d), 0), "isStaffValueSpecified", StaffSaid(d, staff), TRUE), "placement", P, "unspecified")
ThingsOf(d, staff) ==
  LET t == DirTime(d)  P == PlacementOf(d) IN
  Joined(<< Frame(d, staff, P), List(d, "tempos", LAMBDA m : TempoOf(m, t)), List(d, "marks", LAMBDA m : MarkOf(m, P, t)), List(d, "wedgeStarts", WedgeStartOf), List(d, "wedgeStops", WedgeStopOf),
            List(d, "ottavaStarts", LAMBDA o : OttavaOf(o, t)), List(d, "ottavaStops", LAMBDA s : StopOf(s, t)), List(d, "bracketStarts", LAMBDA s : BracketOf(s, t)),
            List(d, "bracketStops", LAMBDA s : StopOf(s, t)), List(d, "words", TextOf), List(d, "segnos", SignOf), List(d, "codas", SignOf), List(d, "rehearsals", TextOf) >>)
ChordsOf(d, staff) == Joined(<< Frame(d, staff, Get(ChordsPlace(d), "placement", "unspecified")), [x \in { "chords" } |-> [j \in DOMAIN d.chords |-> ChordOf(d.chords[j], j = 1, d)]] >>)

\* what a direction is read as
PartsOf(d, staff) == (IF Holds(d, Things) THEN << ThingsOf(d, staff) >> ELSE << >>) \o (IF Holds(d, { "chords" }) THEN << ChordsOf(d, staff) >> ELSE << >>)
\* a direction that was read, without what follows from the rest
ReadOf(d) == IF Seqs(d, "marks") = << >> THEN d ELSE With(d, "marks", Each(d.marks, MarkRead))

\* the directions of a time keep their order
AtTime(ds, t) == SelectSeq(ds, LAMBDA d : DirTime(d) = t)
WantAt(ds, t, staff) == Flatten(Each(AtTime(ds, t), LAMBDA d : PartsOf(d, staff)))
GotAt(ds, t) == Each(AtTime(ds, t), ReadOf)
=============================================================================
