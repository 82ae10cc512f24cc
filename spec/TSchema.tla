------------------------------ MODULE TSchema ------------------------------
(* A document as it was given and as it was printed, side by side: what was given follows the schema, and at every step the
   same was printed. What was printed was read and printed again, without a change.                                    *)
EXTENDS Schema, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, i
TInit == c \in 1 .. Len(Cases) /\ i = 1 /\ SInit
Step == /\ i <= Len(Cases[c].given)
        /\ Verbose => PrintT(<< i, Cases[c].given[i], IF i \in DOMAIN Cases[c].printed THEN Cases[c].printed[i] ELSE "nothing" >>)
        /\ Event(Cases[c].given[i])
        /\ i \in DOMAIN Cases[c].printed /\ Cases[c].printed[i] = Cases[c].given[i]
        /\ i' = i + 1 /\ UNCHANGED c
Done == /\ i = Len(Cases[c].given) + 1 /\ stack = << >> /\ Len(Cases[c].printed) = Len(Cases[c].given)
        /\ Cases[c].ok /\ Cases[c].same
        /\ PrintT(<< "OK", c >>) /\ i' = i + 1 /\ UNCHANGED << c, stack >>
TNext == Step \/ Done
=============================================================================
