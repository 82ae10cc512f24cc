------------------------------- MODULE Writer -------------------------------
(* How a measure of the score model is stated in MusicXML.

   A measure to be written (want) has notes, in the order of the score, and events of other kinds. Writing it is a
   sequence of items; a reader who follows the MusicXML timing rules moves through time as they go by. An item may be
   stated when it says something of the measure that has not been said, at the time it belongs to.

   want.notes   [id, st, v, t, d, ch, kind]       st: staff from 1, v: voice from 1, ch: chord member
   want.events  [k, id, st, t, own]               k: "clef" "key" "dir" "harm" "bar" "head"; st 0: no particular staff; own: of one staff
                                                  "head" is what stands before all music (divisions, meter, breaks ...)
   items        note [id, st, vo, d, ch, kind]; backup [d]; forward [d]; clef, key, bar, head [id, st]; dir, harm [id, st, off]
   nst          number of staves of the part                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES want, nst, pos, chordAt, notesDone, eventsDone, lastNote
wvars == << want, nst, pos, chordAt, notesDone, eventsDone, lastNote >>

StartWriting(w, n) ==
  /\ want' = w /\ nst' = n
  /\ pos' = 0 /\ chordAt' = 0 /\ notesDone' = {} /\ eventsDone' = {} /\ lastNote' = 0

Notes == want.notes
Events == want.events
StaffSaid(st) == IF st = 0 THEN 1 ELSE st

\* the members of a chord: chord notes of one voice, onset and kind of time (grace notes are a chord of their own)
Mates(k) == { j \in DOMAIN Notes : /\ Notes[j].ch /\ Notes[k].ch /\ Notes[j].st = Notes[k].st /\ Notes[j].v = Notes[k].v /\ Notes[j].t = Notes[k].t
                                   /\ (Notes[j].kind = "grace") = (Notes[k].kind = "grace") }
\* of the notes of a voice that start together, those earlier in the score are stated earlier
Due(k) == \A j \in 1 .. (k - 1) : j \in notesDone \/ Notes[j].st /= Notes[k].st \/ Notes[j].v /= Notes[k].v \/ Notes[j].t /= Notes[k].t

StateNote(i) ==
  \E k \in DOMAIN Notes \ notesDone :
    LET n == Notes[k] IN
    /\ n.id = i.id /\ n.st = StaffSaid(i.st) /\ n.v = i.vo /\ n.kind = i.kind
    /\ n.kind = "grace" \/ n.d = i.d
    /\ n.t = IF i.ch THEN chordAt ELSE pos
    /\ i.ch = (Mates(k) \cap notesDone /= {})
    /\ i.ch => lastNote \in Mates(k)
    /\ Due(k) = TRUE
    /\ notesDone' = notesDone \cup { k } /\ lastNote' = k
    /\ chordAt' = IF i.ch THEN chordAt ELSE pos
    /\ pos' = IF i.ch \/ i.kind = "grace" THEN pos ELSE pos + i.d
    /\ UNCHANGED << want, nst, eventsDone >>
StateBackup(i) == i.d > 0 /\ i.d <= pos /\ pos' = pos - i.d /\ UNCHANGED << want, nst, chordAt, notesDone, eventsDone, lastNote >>
StateForward(i) == i.d > 0 /\ pos' = pos + i.d /\ UNCHANGED << want, nst, chordAt, notesDone, eventsDone, lastNote >>

\* --- the place of a clef, key or barline: at its time, unless a note sounds across it, and then at the end of that note or at the start of what
\* follows that note in its voice; a measure without notes may state everything at its start. Notes of its staff that start at its time or later come after it.
Concerns(e, n) == e.own => n.st = e.st
Across(e, n) == Concerns(e, n) /\ n.kind /= "grace" /\ n.t < e.t /\ e.t < n.t + n.d
Later(e, n) == Concerns(e, n) /\ n.t >= e.t
Following(e, k) == LET n == Notes[k]
                       next == { Notes[j].t : j \in { j \in DOMAIN Notes : Notes[j].st = n.st /\ Notes[j].v = n.v /\ Notes[j].t >= e.t } } IN
                   { n.t + n.d } \cup { t \in next : \A u \in next : t <= u }
PlacesOf(e) == { e.t } \cup (IF Notes = << >> THEN { 0 } ELSE {}) \cup UNION { Following(e, k) : k \in { j \in DOMAIN Notes : Across(e, Notes[j]) } }
InPlace(e) ==
  /\ pos \in PlacesOf(e)
  /\ \A k \in notesDone : ~ Later(e, Notes[k])

Infinite == 1000000
BarInPlace(e) == CASE e.t = 0 -> notesDone = {} /\ pos = 0
                   [] e.t >= Infinite -> Cardinality(notesDone) = Len(Notes)
                   [] OTHER -> InPlace(e)
StateEvent(i) ==
  /\ \E k \in DOMAIN Events \ eventsDone :
       LET e == Events[k] IN
       /\ e.k = i.k /\ e.id = i.id
       /\ (CASE e.k = "head" -> notesDone = {} /\ pos = 0
            [] e.k = "clef" -> e.st = StaffSaid(i.st) /\ InPlace(e)
            [] e.k = "key" -> e.st = i.st /\ InPlace(e)
            [] e.k = "bar" -> BarInPlace(e)
            [] e.k \in { "dir", "harm" } -> e.st = StaffSaid(i.st) /\ pos + i.off = e.t) = TRUE
       \* things of one kind, staff and time keep their order
       /\ { j \in 1 .. (k - 1) : e.k /= "head" /\ Events[j].k = e.k /\ Events[j].own = e.own /\ Events[j].st = e.st /\ Events[j].t = e.t } \subseteq eventsDone
       /\ eventsDone' = eventsDone \cup { k }
  /\ UNCHANGED << want, nst, pos, chordAt, notesDone, lastNote >>

State(i) == \/ i.k = "note" /\ StateNote(i)
            \/ i.k = "backup" /\ StateBackup(i)
            \/ i.k = "forward" /\ StateForward(i)
            \/ i.k \in { "clef", "key", "dir", "harm", "bar", "head" } /\ StateEvent(i)
NotesStated == Cardinality(notesDone) = Len(Notes)
EventsStated == Cardinality(eventsDone) = Len(Events)

\* --- a way of writing: voice by voice through each staff, moving by backup and forward, stating clefs and keys on the way
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Up(S) == CHOOSE s \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : i < j => s[i] < s[j]
Max0(a, b) == IF a >= b THEN a ELSE b
Move(from, to) == IF to > from THEN << [k |-> "forward", d |-> to - from] >> ELSE IF to < from THEN << [k |-> "backup", d |-> from - to] >> ELSE << >>
ItemOf(e, at) == IF e.k \in { "dir", "harm" } THEN [k |-> e.k, id |-> e.id, st |-> e.st, off |-> e.t - at] ELSE [k |-> e.k, id |-> e.id, st |-> e.st]

\* pending clefs and keys that fall into the gap before the next note are stated at their own time; in a staff that has
\* been begun those whose time has gone by are stated at once
RECURSIVE Gap(_, _, _, _)
Gap(pend, at, upto, fresh) ==
  IF pend = << >> \/ Head(pend).t > upto THEN [out |-> << >>, pend |-> pend, at |-> at]
  ELSE LET to == IF fresh THEN Head(pend).t ELSE Max0(at, Head(pend).t)
           r == Gap(Tail(pend), to, upto, fresh) IN
       [out |-> Move(at, to) \o << ItemOf(Head(pend), to) >> \o r.out, pend |-> r.pend, at |-> r.at]
\* notes of one voice, in order
RECURSIVE VoiceOut(_, _, _, _, _)
VoiceOut(ks, at, pend, prev, fresh) ==
  IF ks = << >> THEN [out |-> << >>, at |-> at, pend |-> pend]
  ELSE LET k == Head(ks)  n == Notes[k]
           chorded == prev /= 0 /\ prev \in Mates(k)
           g == IF chorded THEN [out |-> << >>, pend |-> pend, at |-> at] ELSE Gap(pend, at, n.t, fresh \/ n.t < at)
           move == IF chorded THEN << >> ELSE Move(g.at, n.t)
           end == IF chorded THEN at ELSE IF n.kind = "grace" THEN n.t ELSE n.t + n.d
           rest == VoiceOut(Tail(ks), end, g.pend, k, FALSE) IN
       [out |-> g.out \o move \o << [k |-> "note", id |-> n.id, st |-> n.st, vo |-> n.v, d |-> n.d, ch |-> chorded, kind |-> n.kind] >> \o rest.out, at |-> rest.at, pend |-> rest.pend]
KeysOf(s, v) == LET S == { k \in DOMAIN Notes : Notes[k].st = s /\ Notes[k].v = v } IN IF S = {} THEN << >> ELSE Up(S)
VoicesOn(s) == { Notes[k].v : k \in { j \in DOMAIN Notes : Notes[j].st = s } }
RECURSIVE StaffOut(_, _, _, _, _)
StaffOut(s, vs, at, pend, fresh) ==
  IF vs = << >> THEN LET g == Gap(pend, at, Infinite, fresh) IN [out |-> g.out, at |-> g.at]
  ELSE LET r == VoiceOut(KeysOf(s, Head(vs)), at, pend, 0, fresh)
           t == StaffOut(s, Tail(vs), r.at, r.pend, FALSE) IN [out |-> r.out \o t.out, at |-> t.at]
RECURSIVE AllStaves(_, _)
AllStaves(s, at) ==
  IF s > nst THEN << >>
  ELSE LET mine(e) == (e.own /\ e.st = s /\ e.k \in { "clef", "key" }) \/ (~e.own /\ e.k = "key" /\ s = 1)
           pend == SortSeq(SelectSeq(Events, mine), LAMBDA a, b : a.t < b.t)
           vs == IF VoicesOn(s) = {} THEN << >> ELSE Up(VoicesOn(s))
           r == StaffOut(s, vs, at, pend, TRUE)
           ds == SelectSeq(Events, LAMBDA e : e.k \in { "dir", "harm" } /\ e.st = s) IN
       r.out \o [q \in DOMAIN ds |-> ItemOf(ds[q], r.at)] \o AllStaves(s + 1, r.at)
Plan == LET head == SelectSeq(Events, LAMBDA e : e.k = "head" \/ (e.k = "bar" /\ e.t = 0))
            tail == SelectSeq(Events, LAMBDA e : e.k = "bar" /\ e.t >= Infinite) IN
        [q \in DOMAIN head |-> ItemOf(head[q], 0)] \o AllStaves(1, 0) \o [q \in DOMAIN tail |-> ItemOf(tail[q], 0)]

\* --- what statements made this way amount to
TimeNeverNegative == pos >= 0
StatedNotesAreWanted == notesDone \subseteq DOMAIN Notes /\ eventsDone \subseteq DOMAIN Events
=============================================================================
