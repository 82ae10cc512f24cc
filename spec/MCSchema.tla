------------------------------ MODULE MCSchema ------------------------------
(* The content models of all types: every word of children up to a length. *)
EXTENDS Schema
CONSTANTS MaxLen, EmitAll
VARIABLES t, w
Init == stack = << >> /\ t \in { x \in DOMAIN Types : HasChildren(x) } /\ w = << >>
At == IF w = << >> THEN 0 ELSE w[Len(w)]
Next == /\ Len(w) < MaxLen
        /\ \E q \in After(t, At) : w' = Append(w, q) /\ UNCHANGED << t, stack >>
           /\ ((EmitAll /\ MayEnd(t, q)) => PrintT(<< "EMIT", ToJson([t |-> t, w |-> w']) >>))
\* what comes next is told by its name alone
Deterministic == \A p \in After(t, At) : \A q \in After(t, At) : (NameAt(t, p) = NameAt(t, q)) => p = q
\* an end can always be reached
RECURSIVE Ahead(_, _)
Ahead(s, n) == LET m == s \cup UNION { After(t, p) : p \in s } IN IF n = 0 \/ m = s THEN s ELSE Ahead(m, n - 1)
CanEnd == \E p \in Ahead({At}, 60) : MayEnd(t, p)
\* every child has a type
Typed == \A q \in After(t, At) : TypeAt(t, q) \in DOMAIN Types
=============================================================================
