------------------------------- MODULE TParts -------------------------------
(* A list of parts that stands in a document, and the parts and groups of a score that goes with it: the list is walked, and
   gives the parts in order and the groups of the score; then the parts are compared one by one with what they should be.   *)
EXTENDS PartList, Json, IOUtils
C == INSTANCE PartCarry
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, p
tvars == << lvars, c, p >>
List == Cases[c].list
Want == Cases[c].want
Got == Cases[c].got
Wanted(g) == [first |-> g.first, last |-> g.last, number |-> g.number, names |-> Names(g)]
GroupsOf(gs) == { Wanted(gs[k]) : k \in DOMAIN gs }
TInit == c \in 1 .. Len(Cases) /\ p = 0 /\ LInit
Listed == p = 0 /\ Walk(List) /\ UNCHANGED << c, p >>
AllListed == /\ p = 0 /\ Ended(List)
             /\ Verbose => PrintT(<< "listed", parts, groups, "score", GroupsOf(Cases[c].groups) >>)
             /\ parts = Cases[c].ids
             /\ groups = GroupsOf(Cases[c].groups) /\ Len(Cases[c].groups) = Cardinality(groups)
             /\ groups = GroupsOf(Cases[c].back) /\ Len(Cases[c].back) = Cardinality(groups)
             /\ p' = 1 /\ UNCHANGED << c, lvars >>
Same(k) == /\ Verbose => PrintT(<< "part", k, C!PartOf(Want[k]), C!ReadPart(Got[k]) >>)
           /\ C!PartOf(Want[k]) = C!ReadPart(Got[k])
           /\ Len(Want[k].measures) = Len(Got[k].measures)
           /\ \A m \in DOMAIN Want[k].measures : C!PitchesOf(Want[k].measures[m]) = C!PitchesOf(Got[k].measures[m])
OnePart == p \in DOMAIN Want /\ Len(Want) = Len(Got) /\ Same(p) /\ p' = p + 1 /\ UNCHANGED << c, lvars >>
Done == p = Len(Want) + 1 /\ Cases[c].ok /\ PrintT(<< "OK", c >>) /\ p' = p + 1 /\ UNCHANGED << c, lvars >>
TNext == Listed \/ AllListed \/ OnePart \/ Done
=============================================================================
