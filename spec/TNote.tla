-------------------------------- MODULE TNote --------------------------------
(* The notes of the voices of a score before writing and after reading back: every note is the one that was written. *)
EXTENDS NoteCarry, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
Aspect == IOEnv.ASPECT
VARIABLES c, v, k
tvars == << c, v, k >>
Voices == Cases[c].voices
V == Voices[v]
Say(x) == Verbose => PrintT(x)
TInit == c \in 1 .. Len(Cases) /\ v = 1 /\ k = 1
Carried(n, m) ==
  IF Aspect = "note" THEN NoteCarried(n, m, V.number, Cases[c].tpq, V.tuplets) ELSE AttachmentsCarried(n, m) /\ TiesCarried(n, m)
\* for the report: which parts of the note differ
Wrong(n, m) ==
  LET d == Sub(n, "durationData")  e == Sub(m, "durationData")  a == Sub(n, "noteAttachmentData")  b == Sub(m, "noteAttachmentData")
      x == BodyOf(n, V.number)  y == Without(m, { "durationData", "noteAttachmentData" }) IN
  IF Aspect = "note" THEN
    [fields |-> { f \in DOMAIN x \cup DOMAIN y : f \notin DOMAIN x \/ f \notin DOMAIN y \/ (f \in DOMAIN x /\ f \in DOMAIN y /\ x[f] /= y[f]) },
     ticks |-> Get(e, "durationTimeTicks", 1) = Ticks(n), name |-> Name(m) \in NamesOf(n, Cases[c].tpq), dots |-> Get(e, "durationDots", 0) = Get(d, "durationDots", 0),
     ratio |-> Ratio(e) = Ratio(d), normal |-> NormalTypeMayBe(n, m, V.tuplets)]
  ELSE
    [marks |-> MarksCarried(Seqs(a, "marks"), Seqs(b, "marks"), Get(n, "tickTimePosition", 0)), starts |-> CurvesCarried(Seqs(a, "curveStarts"), Seqs(b, "curveStarts"), StartOf),
     goesOn |-> CurvesCarried(Seqs(a, "curveContinuations"), Seqs(b, "curveContinuations"), ContinueOf), stops |-> CurvesCarried(Seqs(a, "curveStops"), Seqs(b, "curveStops"), StopOf),
     tuplets |-> Each(Seqs(b, "tupletStarts"), TupletOf) = Each(Seqs(a, "tupletStarts"), TupletOf), tupletEnds |-> Each(Seqs(b, "tupletStops"), TupletEndOf) = Each(Seqs(a, "tupletStops"), TupletEndOf),
     ties |-> TiesCarried(n, m)]
Deliver == /\ v <= Len(Voices) /\ k <= Len(V.want)
           /\ Say(<< "note", v, k, V.want[k], "came back as", IF k <= Len(V.got) THEN V.got[k] ELSE "nothing" >>)
           /\ k <= Len(V.got)
           /\ Say(<< "parts", Wrong(V.want[k], V.got[k]) >>)
           /\ Carried(V.want[k], V.got[k])
           /\ k' = k + 1 /\ UNCHANGED << c, v >>
NextVoice == v <= Len(Voices) /\ k = Len(V.want) + 1 /\ Len(V.got) = Len(V.want) /\ v' = v + 1 /\ k' = 1 /\ UNCHANGED c
Done == v = Len(Voices) + 1 /\ k = 1 /\ Cases[c].ok /\ PrintT(<< "OK", c >>) /\ k' = 2 /\ UNCHANGED << c, v >>
TNext == Deliver \/ NextVoice \/ Done
==============================================================================
