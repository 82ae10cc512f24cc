------------------------------ MODULE PartList ------------------------------
(* The list of parts at the head of a document: parts, and starts and stops of groups of parts between them. A group is told
   from the groups that are open at the same time by its number; it takes the parts from its start to its stop.

   Walking along a list gives the parts in order and the groups with their ranges; it stops where the list is wrong.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* a group without a number is number one
Number(x) == IF x.number = "" THEN "1" ELSE x.number
Names(x) == << x.name, x.abbreviation, x.shown, x.shownAbbreviation, x.symbol >>

VARIABLES at,     \* the place in the list
          parts,  \* the ids so far
          open,   \* the groups that are open: number -> start
          groups  \* the groups so far
lvars == << at, parts, open, groups >>

LInit == at = 1 /\ parts = << >> /\ open = [n \in {} |-> 0] /\ groups = {}

Start(x) == /\ x.k = "start" /\ Number(x) \notin DOMAIN open
            /\ open' = (Number(x) :> [first |-> Len(parts), as |-> x]) @@ open
            /\ at' = at + 1 /\ UNCHANGED << parts, groups >>
Part(x) == x.k = "part" /\ parts' = Append(parts, x.id) /\ at' = at + 1 /\ UNCHANGED << open, groups >>
\* a group holds a part at least
Stop(x) == /\ x.k = "stop" /\ Number(x) \in DOMAIN open
           /\ LET g == open[Number(x)] IN
              /\ g.first < Len(parts)
              /\ groups' = groups \cup { [first |-> g.first, last |-> Len(parts) - 1, number |-> g.as.number, names |-> Names(g.as)] }
           /\ open' = [n \in DOMAIN open \ { Number(x) } |-> open[n]]
           /\ at' = at + 1 /\ UNCHANGED parts
Walk(list) == at <= Len(list) /\ (Start(list[at]) \/ Part(list[at]) \/ Stop(list[at]))
Ended(list) == at = Len(list) + 1 /\ DOMAIN open = {}

Nested(g, h) == g.first <= h.first /\ h.last <= g.last
Disjoint(g, h) == g.last < h.first \/ h.last < g.first
=============================================================================
