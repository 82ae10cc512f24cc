------------------------------ MODULE MCRegistry ------------------------------
(* Exhaustive check of the registry's design, with ghost variables that remember what was promised. *)
EXTENDS Registry
CONSTANTS Toks, Kinds, MaxId, MaxUid, Handles
VARIABLES born,     \* ghost: id -> content it was created with
          used,     \* ghost: ids ever returned
          drawn,    \* ghost: unique numbers ever drawn (a bag would be a function; a clash sets clash)
          clash,    \* ghost: an id or a unique number was handed out twice
          conv      \* ghost: objects rearranged through a handle
ghost == << born, used, drawn, clash, conv >>

Cs == { Content(t, << >>, k, r) : t \in Toks, k \in Kinds, r \in BOOLEAN }
Probe == 0 .. MaxId + 1   \* ids a caller may name: never issued, live, dead

GInit == Init /\ born = << >> /\ used = {} /\ drawn = {} /\ clash = FALSE /\ conv = {}
Issue == /\ used' = used \cup { next }
         /\ clash' = (clash \/ next \in used)
         /\ born' = Extend(born, next, objs'[docs'[next]])
         /\ UNCHANGED << drawn, conv >>

GNext ==
  \/ /\ next <= MaxId
     /\ \/ \E c \in Cs : Create(c) /\ Issue
        \/ \E id \in Probe : (CreateFromGet(id) \/ Reparse(id)) /\ Issue
  \/ CreateFails /\ UNCHANGED ghost
  \/ \E id \in Probe : Destroy(id) /\ UNCHANGED ghost
  \/ /\ uid < MaxUid /\ \E v \in uid .. MaxUid : DrawUid(v) /\ clash' = (clash \/ v \in drawn) /\ drawn' = drawn \cup {v}
     /\ UNCHANGED << born, used, conv >>
  \/ \E id \in Probe, h \in Handles : Hold(id, h) /\ UNCHANGED ghost
  \/ \E id \in Probe : 0 \notin DOMAIN kept /\ GetKeep(id, 0) /\ UNCHANGED ghost
  \/ \E h \in Handles : /\ HeldObj(h) # NoObj => Len(objs[HeldObj(h)].how) < 3
                        /\ HandleConvert(h) /\ conv' = conv \cup ({HeldObj(h)} \ {NoObj}) /\ UNCHANGED << born, used, drawn, clash >>
  \/ \E id \in Probe : Observe /\ UNCHANGED ghost
GSpec == GInit /\ [][GNext]_<< vars, ghost >>

TypeOK == /\ \A id \in Live : id < next /\ docs[id] \in DOMAIN objs
          /\ \A h \in DOMAIN held : held[h] \in DOMAIN objs \cup {NoObj}
NeverReused == ~clash
Denotes == \A id \in Live : id \in used /\ (docs[id] \notin conv => ContentOf(id) = born[id])
Distinct == \A a, b \in Live : a # b => docs[a] # docs[b]
DeadIsEmpty == \A id \in Probe : id \notin Live => GetReply(id) = Empty /\ KindReply(id) = "none"
HandleOutlives == [][\A h \in DOMAIN held : h \in DOMAIN held' /\ (held'[h] = held[h] => (held[h] # NoObj => objs'[held[h]].tok = objs[held[h]].tok))]_vars
KeptIsValue == [][\A k \in DOMAIN kept : k \in DOMAIN kept' /\ (kept'[k] # kept[k] => FALSE)]_vars
LimHow == \A o \in DOMAIN objs : Len(objs[o].how) <= 2
=============================================================================
