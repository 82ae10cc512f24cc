----------------------------- MODULE TConversion -----------------------------
(* A real document printed, converted, printed, converted ...: every print must be the conversion of the one before. *)
EXTENDS Conversion, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, l, d
T == Cases[c].prints
TInit == c \in 1 .. Len(Cases) /\ l = 1 /\ d = Cases[c].doc
TNext == \/ /\ l <= Len(T)
            /\ Verbose => PrintT(<< "STEP", l, "expected", d, "seen", T[l] >>)
            /\ T[l] = d
            /\ d' = Convert(d) /\ l' = l + 1 /\ UNCHANGED c
         \/ /\ l = Len(T) + 1 /\ l > 1 /\ l' = l + 1 /\ PrintT(<< "OK", c >>) /\ UNCHANGED << c, d >>
=============================================================================
