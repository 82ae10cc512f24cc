------------------------------- MODULE TScore -------------------------------
(* What is said of a score before writing and after reading back, field by field. *)
EXTENDS ScoreCarry, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, left
tvars == << c, left >>
Want(j) == ScoreOf(Cases[j].want, Cases[j].measures)
Got(j) == ReadScore(Cases[j].got)
TInit == c \in 1 .. Len(Cases) /\ left = DOMAIN Want(c) \cup DOMAIN Got(c)
Field(f) == /\ f \in left
            /\ LET w == Want(c)  g == Got(c)  same == f \in DOMAIN w /\ f \in DOMAIN g /\ w[f] = g[f] IN
               /\ (Verbose /\ ~same) => PrintT(<< "field", f, "wanted", IF f \in DOMAIN w THEN w[f] ELSE "nothing", "got", IF f \in DOMAIN g THEN g[f] ELSE "nothing" >>)
               /\ same
            /\ left' = left \ { f } /\ UNCHANGED c
\* the fields are looked at one after the other
First == CHOOSE f \in left : TRUE
Done == left = {} /\ Cases[c].ok /\ PrintT(<< "OK", c >>) /\ left' = { "done" } /\ UNCHANGED c
TNext == (left \notin { {}, { "done" } } /\ Field(First)) \/ Done
=============================================================================
