------------------------------ MODULE Equality ------------------------------
\* Values of scores as trees, comparing them, and copies of them (C23).
\* A kind tells what a tree is made of: [k |-> "leaf"], [k |-> "list", of |-> kind] (maps are lists of their
\* entries in key order, optional values lists of none or one), [k |-> "rec", name |-> r]; Types gives the fields
\* of each record as <<name, kind>> pairs.
EXTENDS Integers, Sequences

\* two trees of a kind are the same when nothing in them differs, at any depth
RECURSIVE Same(_, _, _, _)
Same(Types, kind, a, b) ==
  CASE kind.k = "leaf" -> a = b
    [] kind.k = "list" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(Types, kind.of, a[i], b[i])
    [] kind.k = "map" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].k = b[i].k /\ Same(Types, kind.of, a[i].v, b[i].v)
    [] kind.k = "rec" -> LET fs == Types[kind.name] IN \A i \in 1..Len(fs) : Same(Types, fs[i][2], a[fs[i][1]], b[fs[i][1]])

\* what changing a value at a path makes of it
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
PutAt(q, key, x) == LET before == SelectSeq(q, LAMBDA e : e.k < key) after == SelectSeq(q, LAMBDA e : e.k > key)
                    IN before \o <<[k |-> key, v |-> x]>> \o after
Apply(t, s) == CASE s.how = "set" -> s.to
                 [] s.how = "insert" -> InsertAt(t, s.at, s.to)
                 [] s.how = "erase" -> RemoveAt(t, s.at)
                 [] s.how = "exchange" -> [t EXCEPT ![s.at] = t[s.at + 1], ![s.at + 1] = t[s.at]]
                 [] s.how = "put" -> PutAt(t, s.key, s.to)
                 [] s.how = "rekey" -> PutAt(RemoveAt(t, s.at), s.key, t[s.at].v)
RECURSIVE Changed(_, _, _, _)
Changed(t, path, k, s) == IF k > Len(path) THEN Apply(t, s)
                          ELSE [t EXCEPT ![path[k]] = Changed(t[path[k]], path, k + 1, s)]

\* one step on the slots
After(slots, s, fresh) == CASE s.do = "change" -> [slots EXCEPT ![s.slot] = Changed(slots[s.slot], s.path, 1, s)]
                            [] s.do \in {"assign", "copy", "through"} -> [slots EXCEPT ![s.slot] = slots[s.from]]
                            [] s.do = "fresh" -> [slots EXCEPT ![s.slot] = fresh]
                            [] s.do = "compare" -> slots
================================================================================
