------------------------------ MODULE TWriter ------------------------------
(* Is what the real writer wrote a way of writing the score?  ASPECT "notes": the music alone; "events": everything. *)
EXTENDS Writer, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
Aspect == IOEnv.ASPECT
VARIABLES c, m, l, ph
tvars == << wvars, c, m, l, ph >>
Ms == Cases[c].ms
Items == Ms[m].items
Skip == UNCHANGED wvars
Blank == [notes |-> << >>, events |-> << >>]
TInit == /\ c \in 1 .. Len(Cases) /\ m = 1 /\ l = 0 /\ ph = "measure"
         /\ want = Blank /\ nst = 1 /\ pos = 0 /\ chordAt = 0 /\ notesDone = {} /\ eventsDone = {} /\ lastNote = 0
Say(x) == Verbose => PrintT(x)
TNext ==
  \/ ph = "measure" /\ m <= Len(Ms) /\ Cases[c].ok /\ Say(<< "measure", m, Ms[m].want >>) /\ StartWriting(Ms[m].want, Ms[m].nst) /\ ph' = "item" /\ l' = 1 /\ UNCHANGED << c, m >>
  \/ ph = "item" /\ l <= Len(Items) /\ Say(<< "item", m, Items[l], "at", pos, "notes", notesDone, "events", eventsDone >>)
     /\ (IF Aspect = "notes" /\ Items[l].k \in { "clef", "key", "dir", "harm", "bar", "head" } THEN Skip ELSE State(Items[l]))
     /\ l' = l + 1 /\ UNCHANGED << c, m, ph >>
  \/ ph = "item" /\ l = Len(Items) + 1 /\ Say(<< "end", notesDone, eventsDone >>) /\ NotesStated /\ (Aspect = "events" => EventsStated)
     /\ m' = m + 1 /\ ph' = "measure" /\ Skip /\ UNCHANGED << c, l >>
  \/ ph = "measure" /\ m = Len(Ms) + 1 /\ Cases[c].ok /\ PrintT(<< "OK", c >>) /\ ph' = "done" /\ Skip /\ UNCHANGED << c, m, l >>
=============================================================================
