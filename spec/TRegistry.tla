------------------------------ MODULE TRegistry ------------------------------
(* Is a recorded history of real calls, made one after another, a behaviour of the registry? *)
EXTENDS RegistryCalls, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, l, sync
tvars == << vars, c, l, seen, sync >>
T == Cases[c].trace
TInit == /\ c \in 1 .. Len(Cases) /\ l = 1 /\ seen = << >> /\ sync = FALSE
         /\ docs = << >> /\ objs = << >> /\ next = Cases[c].base /\ uid = Cases[c].uid0 /\ held = << >> /\ kept = << >>
TNext == \/ /\ l <= Len(T)
            /\ Verbose => PrintT(<< "STEP", l, T[l] >>)
            /\ Step(T[l]) /\ l' = l + 1 /\ UNCHANGED << c, sync >>
         \/ /\ l = Len(T) + 1 /\ ~sync
            /\ PrintT(<< "OK", c >>)
            /\ sync' = TRUE /\ UNCHANGED << vars, c, l, seen >>
=============================================================================
