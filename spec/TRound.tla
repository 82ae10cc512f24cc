------------------------------ MODULE TRound ------------------------------
(* Is a recorded sequence of reading and writing one document again and again a behaviour of Round?
   The trace: [f |-> "read", ok, score] and [f |-> "write", ok, text] in turn, text being the index of the first of the
   texts that is the same.                                                                                            *)
EXTENDS Round, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, l, score, text
T == Cases[c].trace
vars == << c, l, score, text >>
TInit == c \in 1 .. Len(Cases) /\ l = 1 /\ score = << >> /\ text = 0
\* what was read last is said where the observations are: the score is the place of it in the trace
Read(s) == /\ s.ok
           /\ IF score = << >> THEN TRUE ELSE SameScore(T[score[1]].score, s.score) = TRUE
           /\ score' = << l >> /\ UNCHANGED text
Write(s) == /\ s.ok /\ score # << >>
            /\ text = 0 \/ s.text = text
            /\ text' = s.text /\ UNCHANGED score
TNext == \/ /\ l <= Len(T) /\ (IF T[l].f = "read" THEN Read(T[l]) ELSE Write(T[l])) /\ l' = l + 1 /\ UNCHANGED c
            /\ Verbose => PrintT(<< "STEP", l, T[l].f >>)
         \/ /\ l = Len(T) + 1 /\ PrintT(<< "OK", c >>) /\ l' = l + 1 /\ UNCHANGED << c, score, text >>
=============================================================================
