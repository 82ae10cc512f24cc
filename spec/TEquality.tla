------------------------------ MODULE TEquality ------------------------------
\* Histories of edits, copies and comparisons of the real values, decided against Equality.
EXTENDS Equality, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
Types == JsonDeserialize(IOEnv.TYPES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, k, slots, fresh
S == Cases[c].steps
O == Cases[c].seen
Kind == [k |-> "rec", name |-> Cases[c].type]
TInit == c \in 1..Len(Cases) /\ k = 1 /\ slots = <<>> /\ fresh = <<>>
\* the first step shows what a fresh value is; all slots begin so
Begin == /\ k = 1 /\ Len(O) = Len(S) /\ S[1].do = "fresh"
         /\ fresh' = O[1].value /\ slots' = <<fresh', fresh', fresh'>> /\ k' = 2 /\ UNCHANGED c
Answer(s, o) == LET e == Same(Types, Kind, slots[s.slot], slots[s.from]) IN
                /\ Verbose => PrintT(<<k, s, o, e>>)
                /\ o.eq = e /\ o.qe = e /\ o.ne = ~e /\ o.en = ~e
                \* lists compare as their elements do, in order
                /\ o.lists = e /\ o.listsNot = ~e /\ o.second = e /\ o.order = e /\ o.orderNot = ~e
                /\ ~o.length /\ o.same
Move == /\ k > 1 /\ k <= Len(S)
        /\ LET s == S[k] o == O[k] IN
           IF s.do = "compare" THEN Answer(s, o) /\ UNCHANGED slots
           ELSE /\ slots' = After(slots, s, fresh)
                /\ (Verbose => PrintT(<<k, s.do, slots'[s.slot] = o.value>>))
                /\ o.value = slots'[s.slot]
        /\ k' = k + 1 /\ UNCHANGED <<c, fresh>>
\* and at the end every slot is as its own history left it
Done == k = Len(S) + 1 /\ k > 1 /\ Cases[c].end = slots /\ PrintT(<<"OK", c>>) /\ k' = k + 1 /\ UNCHANGED <<c, slots, fresh>>
TNext == Begin \/ Move \/ Done
================================================================================
