------------------------------ MODULE MCWriter ------------------------------
(* Every small measure: the way of writing defined in Writer states all of it and never needs a statement that is not
   allowed. The measures are handed out (EMIT) to be written by the real writer.                                     *)
EXTENDS Writer, Json
CONSTANTS MaxNotes, MaxEvents, EmitAll, Theme
VARIABLES todo, phase
vars == << wvars, todo, phase >>

Onsets == 0 .. 3
NoteShapes ==
  CASE Theme = "notes" -> { [st |-> p[1], v |-> p[2], t |-> t, d |-> d, ch |-> c, kind |-> k] : p \in { << 1, 1 >>, << 1, 2 >>, << 2, 1 >> }, t \in 0 .. 2, d \in 1 .. 2, c \in BOOLEAN, k \in { "normal", "grace" } }
    [] Theme = "events" -> { [st |-> p[1], v |-> p[2], t |-> t, d |-> d, ch |-> FALSE, kind |-> "normal"] : p \in { << 1, 1 >>, << 1, 2 >>, << 2, 1 >> }, t \in { 0, 1, 3 }, d \in { 1, 3 } }
EventShapes ==
  IF Theme = "notes" THEN {}
  ELSE { [k |-> k, st |-> s, t |-> t, own |-> TRUE] : k \in { "clef", "key", "dir", "harm" }, s \in 1 .. 2, t \in 0 .. 4 }
       \cup { [k |-> "key", st |-> s, t |-> t, own |-> FALSE] : s \in 0 .. 2, t \in 0 .. 4 }
       \cup { [k |-> "bar", st |-> 0, t |-> t, own |-> FALSE] : t \in { 0, Infinite } }

\* notes of a chord follow each other and last equally long
Sane(s) == \A i, j \in DOMAIN s :
             i < j /\ s[i].ch /\ s[j].ch /\ s[i].st = s[j].st /\ s[i].v = s[j].v /\ s[i].t = s[j].t /\ s[i].kind = s[j].kind
               => j = i + 1 \/ \A m \in (i + 1) .. (j - 1) : s[m].st = s[i].st /\ s[m].v = s[i].v => s[m].ch /\ s[m].t = s[i].t /\ s[m].kind = s[i].kind
SameLength(s) == \A i, j \in DOMAIN s : s[i].ch /\ s[j].ch /\ s[i].t = s[j].t /\ s[i].st = s[j].st /\ s[i].v = s[j].v /\ s[i].kind = s[j].kind => s[i].d = s[j].d
GraceShort(s) == \A i \in DOMAIN s : s[i].kind = "grace" => s[i].d = 1
Number(s) == [q \in DOMAIN s |-> [id |-> q, st |-> s[q].st, v |-> s[q].v, t |-> s[q].t, d |-> s[q].d, ch |-> s[q].ch, kind |-> s[q].kind]]
NumberE(s) == [q \in DOMAIN s |-> [k |-> s[q].k, id |-> q, st |-> s[q].st, t |-> s[q].t, own |-> s[q].own]]
InOrder(s) == \A i, j \in DOMAIN s : i < j => s[i].t <= s[j].t
NoteSeqs == UNION { { Number(s) : s \in { s \in [1 .. n -> NoteShapes] : Sane(s) /\ SameLength(s) /\ GraceShort(s) } } : n \in 0 .. MaxNotes }
EventSeqs == UNION { { NumberE(s) : s \in { s \in [1 .. n -> EventShapes] : InOrder(s) } } : n \in 0 .. MaxEvents }

Init == /\ want \in [notes : NoteSeqs, events : EventSeqs]
        /\ nst = 2 /\ pos = 0 /\ chordAt = 0 /\ notesDone = {} /\ eventsDone = {} /\ lastNote = 0
        /\ todo = << >> /\ phase = "plan"
Next == \/ phase = "plan" /\ todo' = Plan /\ phase' = "write" /\ (EmitAll => PrintT(<< "EMIT", ToJson(want) >>)) /\ UNCHANGED wvars
        \/ phase = "write" /\ todo /= << >> /\ State(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED phase
        \/ phase = "write" /\ todo = << >> /\ phase' = "done" /\ UNCHANGED << wvars, todo >>
\* the way of writing never gets stuck, and says everything
NeverStuck == phase = "write" /\ todo /= << >> => ENABLED State(Head(todo))
AllStated == phase = "done" => NotesStated /\ EventsStated
=============================================================================
