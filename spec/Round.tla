------------------------------- MODULE Round -------------------------------
(* A score that was read from a document is the same after it is written and read again, and writing it again gives the
   same text. Said of scores whole; only the following of what a score says is about the text it came from, or is put in
   order by writing:
     - the voice number a note had in the text (a note is written with the number of the voice it is in),
     - marks of different families on one note (they are written family by family),
     - directions that hold nothing; and directions stand in the order of their times,
     - a normal type of a time modification that its tuplet implies,
     - a barline at the end of a measure that does not say that it is at the right.                                       *)
EXTENDS NoteCarry, SequencesExt

CleanMark(k) == WithPart(Without(k, { "printData" }), "printData", Without(Sub(k, "printData"), { "printObject" }))
Clean(ks) == [ j \in DOMAIN ks |-> CleanMark(ks[j]) ]
SameMarks(s, t) == Len(t) = Len(s) /\ \A j \in DOMAIN Families : SelectSeq(t, LAMBDA k : MarkType(k) \in Families[j]) = Clean(SelectSeq(s, LAMBDA k : MarkType(k) \in Families[j]))
NormalTypes == { "timeModificationNormalType", "timeModificationNormalTypeDots" }
Modifications == NormalTypes \cup { "timeModificationActualNotes", "timeModificationNormalNotes" }
SameLength(n, m, inTuplet) ==
  LET d == Sub(n, "durationData")  e == Sub(m, "durationData") IN
  IF Modified(d) THEN Without(e, NormalTypes) = Without(d, NormalTypes) /\ (NormalType(e) = NormalType(d) \/ NormalTypeMayBe(n, m, inTuplet)) = TRUE
  ELSE e = Without(d, Modifications)
\* a note in a chord of which there is no other note in its voice (the others are on other staves, or are none) may come back alone
Alone(ns, j) == LET at(k) == Get(ns[k], "tickTimePosition", 0) IN
                /\ IF j = 1 THEN TRUE ELSE at(j - 1) # at(j)
                /\ IF j = Len(ns) THEN TRUE ELSE at(j + 1) # at(j) \/ ~Is(ns[j + 1], "isChord")
SameNote(n, m, alone, inTuplet) ==
  LET apart == { "userRequestedVoiceNumber", "durationData", "noteAttachmentData" } IN
  /\ Without(m, apart) = Without(n, apart) \/ (alone /\ Without(m, apart \cup { "isChord" }) = Without(n, apart \cup { "isChord" }))
  /\ SameLength(n, m, inTuplet)
  /\ LET a == Sub(n, "noteAttachmentData")  b == Sub(m, "noteAttachmentData") IN
     /\ Without(b, { "marks" }) = Without(a, { "marks" })
     /\ SameMarks(Seqs(a, "marks"), Seqs(b, "marks"))
Starts(n) == Len(Seqs(Sub(n, "noteAttachmentData"), "tupletStarts"))
Stops(n) == Len(Seqs(Sub(n, "noteAttachmentData"), "tupletStops"))
\* whether a tuplet is open at each note, the ones at which it starts and stops included; a note of a chord is where the note before it is
OpenAt(ns) == FoldLeft(LAMBDA acc, n : LET o == acc.o + Starts(n) IN
                         [ o |-> IF o > Stops(n) THEN o - Stops(n) ELSE 0,
                           at |-> Append(acc.at, o > 0 \/ (Is(n, "isChord") /\ acc.at # << >> /\ acc.at[Len(acc.at)])) ], [o |-> 0, at |-> << >>], ns).at
SameVoice(v, w, everywhere) ==
  /\ Get(w, "k", 0) = Get(v, "k", 0)
  /\ LET ns == Seqs(Sub(v, "v"), "notes")  ms == Seqs(Sub(w, "v"), "notes")  open == OpenAt(ns) IN
     Len(ms) = Len(ns) /\ \A j \in DOMAIN ns : SameNote(ns[j], ms[j], Alone(ns, j), everywhere \/ open[j])

DirTime(d) == Get(d, "tickTimePosition", 0)
\* what is said where and when, but nothing
Frame == { "tickTimePosition", "isStaffValueSpecified", "placement", "voice" }
\* a tempo of no type says nothing
Said(d) == LET ts == SelectSeq(Seqs(d, "tempos"), LAMBDA t : Get(t, "tempoType", "unspecified") # "unspecified") IN
           IF ts = << >> THEN Without(d, { "tempos" }) ELSE Without(d, { "tempos" }) @@ [ tempos |-> ts ]
IsEmpty(d) == DOMAIN Said(d) \subseteq Frame
Times(ds) == { DirTime(ds[j]) : j \in DOMAIN ds }
SameDirections(s, t) ==
  LET a == SelectSeq(s, LAMBDA d : ~IsEmpty(d))  b == SelectSeq(t, LAMBDA d : ~IsEmpty(d)) IN
  Len(a) = Len(b) /\ \A x \in Times(a) : SelectSeq(b, LAMBDA d : DirTime(d) = x) = (LET at == SelectSeq(a, LAMBDA d : DirTime(d) = x) IN [ j \in DOMAIN at |-> Said(at[j]) ])
\* clefs, keys and barlines too stand in the order of their times
InTimeOrder(xs) == SortSeq([ j \in DOMAIN xs |-> << DirTime(xs[j]), j, xs[j] >> ], LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Ordered(xs) == LET o == InTimeOrder(xs) IN [ j \in DOMAIN o |-> o[j][3] ]
\* a clef or a key at a time across which a note sounds, on its staff or on the first, may be moved to the end of that note
SoundsAcross(st, time) == \E v \in DOMAIN Seqs(st, "voices") : \E j \in DOMAIN Seqs(Sub(st.voices[v], "v"), "notes") :
                            LET n == st.voices[v].v.notes[j] IN DirTime(n) < time /\ time < DirTime(n) + Get(Sub(n, "durationData"), "durationTimeTicks", 1)
Moved(xs, st) == \E j \in DOMAIN xs : SoundsAcross(st, DirTime(xs[j]))
Timeless(xs) == [ j \in DOMAIN xs |-> Without(xs[j], { "tickTimePosition" }) ]
SameOrMoved(xs, ys, st) == \/ ys = Ordered(xs)
                           \/ /\ Moved(xs, st)
                              /\ LET a == Timeless(xs)  b == Timeless(ys) IN Len(a) = Len(b) /\ ToSet(a) = ToSet(b)
SameStaff(s, t, inTuplet) ==
  /\ Without(t, { "voices", "directions", "clefs" }) = Without(s, { "voices", "directions", "clefs" })
  /\ SameOrMoved(Seqs(s, "clefs"), Seqs(t, "clefs"), s)
  /\ SameDirections(Seqs(s, "directions"), Seqs(t, "directions"))
  /\ LET vs == Seqs(s, "voices")  ws == Seqs(t, "voices") IN Len(ws) = Len(vs) /\ \A j \in DOMAIN vs : SameVoice(vs[j], ws[j], inTuplet)

End == 2147483647
\* a barline that says no location is at the left or at the right, as its time is; a style that the library does not know is none
CleanBarline(b) == IF Get(b, "barlineType", "unspecified") = "unsupported" THEN [ b EXCEPT !.barlineType = "unspecified" ] ELSE b
\* an ending without a number is the first
Ending(b, c) == IF Get(b, "endingType", "none") # "none" /\ "endingNumber" \notin DOMAIN b /\ Get(c, "endingNumber", 0) = 1 THEN Without(c, { "endingNumber" }) ELSE c
SameBarline(a, x) == LET b == CleanBarline(a)  c == Ending(b, x) IN
                     \/ c = b
                     \/ /\ Get(b, "location", "unspecified") = "unspecified"
                        /\ Without(c, { "location", "tickTimePosition" }) = Without(b, { "location", "tickTimePosition" })
                        /\ IF Get(b, "tickTimePosition", 0) = 0 THEN Get(c, "location", "unspecified") = "left" /\ Get(c, "tickTimePosition", 0) = 0
                           ELSE Get(c, "location", "unspecified") = "right" /\ Get(c, "tickTimePosition", 0) \in { End, Get(b, "tickTimePosition", 0) }
SameMeasure(m, n, inTuplet) ==
  /\ Without(n, { "staves", "barlines", "keys" }) = Without(m, { "staves", "barlines", "keys" })
  /\ SameOrMoved(Seqs(m, "keys"), Seqs(n, "keys"), IF Seqs(m, "staves") = << >> THEN Nothing ELSE m.staves[1])
  /\ LET a == Ordered(Seqs(m, "barlines"))  b == Seqs(n, "barlines") IN Len(a) = Len(b) /\ \A j \in DOMAIN a : SameBarline(a[j], b[j])
  /\ LET a == Seqs(m, "staves")  b == Seqs(n, "staves") IN Len(a) = Len(b) /\ \A j \in DOMAIN a : SameStaff(a[j], b[j], inTuplet)
\* a tuplet may begin in one measure and end in another
CrossTuplets(p) == \E m \in DOMAIN p.measures : \E s \in DOMAIN Seqs(p.measures[m], "staves") : \E v \in DOMAIN Seqs(p.measures[m].staves[s], "voices") :
                     LET ns == Seqs(Sub(p.measures[m].staves[s].voices[v], "v"), "notes") IN ns /= << >> /\ OpenAt(Append(ns, Nothing))[Len(ns) + 1]
\* an instrument that is only its midi data is given a name to point to; what says how a shown name looks counts where there is one
Instrument(p) == Sub(p, "instrumentData")
SameInstrument(p, q) == \/ Instrument(q) = Instrument(p)
                        \/ "uniqueId" \notin DOMAIN Instrument(p) /\ Instrument(p) # Nothing /\ Without(Instrument(q), { "uniqueId" }) = Instrument(p)
CleanPart(p) == Without(p, { "measures", "instrumentData" } \cup (IF Seqs(p, "transposition") = << Nothing >> THEN { "transposition" } ELSE {})
                             \cup (IF "displayName" \in DOMAIN p THEN {} ELSE { "displayNamePrintData" })
                             \cup (IF "displayAbbreviation" \in DOMAIN p THEN {} ELSE { "displayAbbreviationPrintData" }))
SamePart(p, q) ==
  /\ Without(q, { "measures", "instrumentData" }) = CleanPart(p)
  /\ SameInstrument(p, q)
  /\ LET a == Seqs(p, "measures")  b == Seqs(q, "measures")  x == "measures" \in DOMAIN p /\ CrossTuplets(p) IN Len(a) = Len(b) /\ \A j \in DOMAIN a : SameMeasure(a[j], b[j], x)
\* a scaling has both numbers or none
CleanScaling(d) ==
  LET mm == Get(d, "scalingMillimeters", "0")  t == Get(d, "scalingTenths", "0")  e == Without(d, { "scalingMillimeters", "scalingTenths" }) IN
  IF mm = "0" /\ t = "0" THEN e ELSE e @@ [ scalingMillimeters |-> IF mm = "0" THEN "7" ELSE mm, scalingTenths |-> IF t = "0" THEN "40" ELSE t ]
SameScore(s, t) ==
  LET apart == { "parts", "defaults", "partGroups" } IN
  /\ Without(t, apart) = Without(s, apart)
  /\ CleanScaling(Sub(t, "defaults")) = CleanScaling(Sub(s, "defaults"))
  /\ Seqs(t, "partGroups") = Seqs(s, "partGroups")
  /\ LET a == Seqs(s, "parts")  b == Seqs(t, "parts") IN Len(a) = Len(b) /\ \A j \in DOMAIN a : SamePart(a[j], b[j])
=============================================================================
