------------------------------ MODULE MCEquality ------------------------------
\* Small values: the comparison member by member is equality, an equivalence, and only the slot a step names changes.
EXTENDS Equality, FiniteSets, TLC
CONSTANTS Depth
Leaf == [k |-> "leaf"]
Ty == [inner |-> << <<"x", Leaf>>, <<"y", Leaf>> >>,
       outer |-> << <<"n", Leaf>>, <<"l", [k |-> "list", of |-> [k |-> "rec", name |-> "inner"]]>>,
                    <<"m", [k |-> "map", of |-> Leaf]>>, <<"o", [k |-> "list", of |-> Leaf]>> >>]
Inner == [x : 0..1, y : 0..1]
Zero == [x |-> 0, y |-> 0]
Root == [k |-> "rec", name |-> "outer"]
Fresh == [n |-> 0, l |-> <<>>, m |-> <<>>, o |-> <<>>]
VARIABLES slots, last, n
vars == <<slots, last, n>>
Changes(t) == {[path |-> <<"n">>, how |-> "set", to |-> v] : v \in 0..1}
              \cup {[path |-> <<"o">>, how |-> "set", to |-> v] : v \in {<<>>, <<0>>, <<1>>}}
              \cup {[path |-> <<"o", 1>>, how |-> "set", to |-> v] : v \in IF t.o = <<>> THEN {} ELSE 0..1}
              \cup {[path |-> <<"l">>, how |-> "insert", at |-> i, to |-> Zero] : i \in IF Len(t.l) < 2 THEN 1..Len(t.l) + 1 ELSE {}}
              \cup {[path |-> <<"l">>, how |-> "erase", at |-> i] : i \in 1..Len(t.l)}
              \cup {[path |-> <<"l">>, how |-> "exchange", at |-> i] : i \in 1..Len(t.l) - 1}
              \cup {[path |-> <<"l", i, f>>, how |-> "set", to |-> v] : i \in 1..Len(t.l), f \in {"x", "y"}, v \in 0..1}
              \cup {[path |-> <<"m">>, how |-> "put", key |-> k, to |-> v] : k \in 0..1, v \in 0..1}
              \cup {[path |-> <<"m">>, how |-> "erase", at |-> i] : i \in 1..Len(t.m)}
              \cup {[path |-> <<"m">>, how |-> "rekey", at |-> i, key |-> k] : i \in 1..Len(t.m), k \in 0..1}
              \cup {[path |-> <<"m", i, "v">>, how |-> "set", to |-> v] : i \in 1..Len(t.m), v \in 0..1}
Steps == {[do |-> "change", slot |-> s] @@ x : s \in {1}, x \in Changes(slots[1])}
         \cup {[do |-> "change", slot |-> s] @@ x : s \in {2}, x \in Changes(slots[2])}
         \cup {[do |-> d, slot |-> s, from |-> 3 - s] : d \in {"assign", "copy", "through"}, s \in 1..2}
         \cup {[do |-> "fresh", slot |-> s] : s \in 1..2}
Init == slots = <<Fresh, Fresh>> /\ last = <<Fresh, Fresh>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ last' = slots /\ \E s \in Steps : slots' = After(slots, s, Fresh)
Equals == Same(Ty, Root, slots[1], slots[2]) <=> (slots[1] = slots[2])
Symmetric == Same(Ty, Root, slots[1], slots[2]) <=> Same(Ty, Root, slots[2], slots[1])
Reflexive == Same(Ty, Root, slots[1], slots[1])
\* at most one slot changed in the last step
OneOnly == slots[1] = last[1] \/ slots[2] = last[2]
View == <<slots, n>>
================================================================================
