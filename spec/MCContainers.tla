---------------------------- MODULE MCContainers ----------------------------
(* Every short history of edits of an element with a slot of each kind: bounded, required and optional sequences, single
   children that are required, optional and chosen. Histories of one slot are handed out (EMIT).                       *)
EXTENDS Containers, Json
CONSTANTS Depth, Emit, Only
S(n, k, lo, hi, h, c) == [ n |-> n, k |-> k, min |-> lo, start |-> lo, max |-> hi, has |-> h, ch |-> c ]
Cl == [ slots |-> << S("a", "set", 0, 0, "", << >>), S("r", "set", 1, 0, "", << "x" >>), S("b", "set", 0, 2, "", << "y" >>),
                     S("q", "one", 0, 0, "", << >>), S("o", "one", 0, 0, "o", << >>), S("w", "set", 1, 3, "o", << "x" >>) >>,
        has |-> << "o" >>, choices |-> << "x", "y" >> ]
Slots == { s \in ToSet(Cl.slots) : Only = {} \/ s.n \in Only }
Kids == { 1, 2 }
VARIABLES hist, done
vars == << conts, hist, done >>
Init == /\ Begin(Cl) /\ hist = << >> /\ done = FALSE
        /\ (Emit => (choice = "x" /\ ~flags["o"])) = TRUE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Edit == \/ \E s \in Slots : \/ /\ Many(s) = TRUE
                               /\ \/ \E v \in Kids \cup { Made } : Log([ f |-> "add", s |-> s.n, v |-> v ]) /\ Add(Cl, s.n, v)
                                  \/ \E i \in 0 .. Len(held[s.n]) : Log([ f |-> "remove", s |-> s.n, v |-> i ]) /\ Remove1(Cl, s.n, i)
                                  \/ Log([ f |-> "clear", s |-> s.n, v |-> 0 ]) /\ Clear(Cl, s.n)
                                  \/ \E i \in { 0, Len(held[s.n]) } : Log([ f |-> "look", s |-> s.n, v |-> i ]) /\ Same
                            \/ /\ (~Many(s)) = TRUE
                               /\ \E v \in Kids \cup { Made } : Log([ f |-> "set", s |-> s.n, v |-> v ]) /\ Set1(Cl, s.n, v)
        \/ /\ (Only = {}) = TRUE
           /\ \/ \E b \in BOOLEAN : Log([ f |-> "has", s |-> "o", v |-> IF b THEN 1 ELSE 0 ]) /\ SetFlag("o", b)
              \/ \E c \in ToSet(Cl.choices) : Log([ f |-> "choice", s |-> c, v |-> 0 ]) /\ SetChoice(c)
Next == \/ /\ Len(hist) < Depth /\ ~done
           /\ Edit
        \/ /\ (Emit /\ Len(hist) = Depth /\ ~done) = TRUE
           /\ PrintT(<< "EMIT", ToJson(hist) >>) /\ done' = TRUE /\ UNCHANGED << conts, hist >>
View == << conts, IF Emit THEN << >> ELSE << Len(hist) >> >>

\* --- what holds of every element
Bounded == \A s \in ToSet(Cl.slots) : /\ Many(s) => Len(held[s.n]) >= s.min /\ (s.max = 0 \/ Len(held[s.n]) <= s.max)
                                      /\ ~Many(s) => Len(held[s.n]) = 1
NoNull == \A s \in ToSet(Cl.slots) : \A i \in 1 .. Len(held[s.n]) : held[s.n][i] # None
Text(n, k) == "[" \o n \o ToString(k) \o "]"
Texts == [ n \in SlotNames(Cl) |-> [ i \in 1 .. Len(held[n]) |-> Text(n, held[n][i]) ] ]
Count(f, c) == FoldLeft(LAMBDA a, s : a + (IF Shown(s, f, c) THEN Len(held[s.n]) ELSE 0), 0, Cl.slots)
\* every child that is there is printed once
PrintsAll == Len(Printed(Cl, Texts, flags, choice)) = 4 * Count(flags, choice)
\* an edit concerns one slot, adds at the end or takes one out
OneSlot == [][ Cardinality({ n \in SlotNames(Cl) : held'[n] # held[n] }) <= 1 ]_conts
Small == [][ \A n \in SlotNames(Cl) : LET h == held[n] k == held'[n] IN
               \/ k = h \/ (Len(k) = Len(h) + 1 /\ SubSeq(k, 1, Len(h)) = h)
               \/ \E i \in 1 .. Len(h) : k = RemoveAt(h, i)
               \/ \A i \in 1 .. Len(k) : k[i] = Made
               \/ (~Many(Slot(Cl, n)) /\ Len(k) = 1) ]_conts
=============================================================================
