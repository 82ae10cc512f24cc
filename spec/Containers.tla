----------------------------- MODULE Containers -----------------------------
(* An element that holds others. It has slots, in the order in which MusicXML prints them; a slot holds one child or a
   sequence of children between a least and a most number (most = 0: no bound; a new and a cleared one have `start`), is
   there always, or when a flag says so,
   or when the element's choice is one of some names.

   held: slot -> children; a child is a number, 0 for one the element made by itself.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES held, flags, choice
conts == << held, flags, choice >>

Slot(cl, n) == CHOOSE s \in ToSet(cl.slots) : s.n = n
SlotNames(cl) == { s.n : s \in ToSet(cl.slots) }
Many(s) == s.k = "set"
None == -1      \* no child
Made == 0       \* a child the element made

\* what an element that was just made holds
Begin(cl) == /\ held = [ n \in SlotNames(cl) |-> LET s == Slot(cl, n) IN IF Many(s) THEN [ i \in 1 .. s.start |-> Made ] ELSE << Made >> ]
             /\ flags \in [ ToSet(cl.has) -> BOOLEAN ]
             /\ IF cl.choices = << >> THEN choice = "" ELSE choice \in ToSet(cl.choices)

Same == UNCHANGED conts
Keep(n, v) == held' = [ held EXCEPT ![n] = v ] /\ UNCHANGED << flags, choice >>

Room(s, h) == s.max = 0 \/ Len(h) < s.max
Add(cl, n, v) == LET s == Slot(cl, n) IN IF v # Made /\ Room(s, held[n]) THEN Keep(n, Append(held[n], v)) ELSE Same
Remove1(cl, n, i) == LET s == Slot(cl, n) IN IF i < Len(held[n]) /\ Len(held[n]) > s.min THEN Keep(n, RemoveAt(held[n], i + 1)) ELSE Same
Clear(cl, n) == LET s == Slot(cl, n) IN Keep(n, [ i \in 1 .. s.start |-> Made ])
Set1(cl, n, v) == IF v # Made THEN Keep(n, << v >>) ELSE Same
SetFlag(h, b) == flags' = [ flags EXCEPT ![h] = b ] /\ UNCHANGED << held, choice >>
SetChoice(c) == choice' = c /\ UNCHANGED << held, flags >>
Looked(n, i) == IF i < Len(held[n]) THEN held[n][i + 1] ELSE None

Shown(s, f, c) == /\ s.has = "" \/ f[s.has]
                  /\ s.ch = << >> \/ \E k \in 1 .. Len(s.ch) : s.ch[k] = c
\* what is printed: the children of every slot that is there, one slot after the other. txt: slot -> what each child prints
Printed(cl, txt, f, c) == FoldLeft(LAMBDA a, s : IF Shown(s, f, c) THEN FoldLeft(LAMBDA b, t : b \o t, a, txt[s.n]) ELSE a, "", cl.slots)
=============================================================================
