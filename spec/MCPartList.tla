----------------------------- MODULE MCPartList -----------------------------
(* Every short list of parts and groups: chosen item by item, walked as it is chosen. Complete lists are handed out (EMIT). *)
EXTENDS PartList, Json
CONSTANTS MaxParts, MaxGroups, Numbers, EmitAll
VARIABLES list, n
vars == << lvars, list, n >>
S(k, num, q) == [k |-> k, number |-> num, name |-> IF k = "start" THEN ToString(q) ELSE "", abbreviation |-> "", shown |-> "", shownAbbreviation |-> "", symbol |-> ""]
Init == LInit /\ list = << >> /\ n = 0
Add(x) == list' = Append(list, x) /\ Walk(list')
Parts == Cardinality({ j \in DOMAIN list : list[j].k = "part" })
Next == \/ Parts < MaxParts /\ n /= -1 /\ Add([k |-> "part", id |-> "P" \o ToString(Parts + 1)]) /\ UNCHANGED n
        \/ \E m \in Numbers : n \in 0 .. (MaxGroups - 1) /\ Parts < MaxParts /\ Add(S("start", m, n + 1)) /\ n' = n + 1
        \/ \E m \in Numbers : n /= -1 /\ Add(S("stop", m, 0)) /\ UNCHANGED n
        \/ EmitAll /\ n > 0 /\ Ended(list) /\ Parts = MaxParts /\ PrintT(<< "EMIT", ToJson(list) >>) /\ n' = -1 /\ UNCHANGED << lvars, list >>
\* groups with one number do not share a part
Apart == \A g, h \in groups : g /= h /\ g.number = h.number => Disjoint(g, h)
Filled == \A g \in groups : 0 <= g.first /\ g.first <= g.last /\ g.last < Len(parts)
\* every start is matched
Matched == Cardinality(groups) + Cardinality(DOMAIN open) = IF n = -1 THEN Cardinality(groups) ELSE n
=============================================================================
