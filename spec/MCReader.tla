------------------------------ MODULE MCReader ------------------------------
(* Every measure of up to Len events over an alphabet, read to the end; the measures are also handed out (EMIT) to be
   given to the real reader.  The timing of notes is compared with the MusicXML rule stated without look-ahead.      *)
EXTENDS Reader, Json
CONSTANTS Theme, MaxLen, EmitAll
VARIABLES evs, at
vars == << rvars, evs, at >>

N(n, ch, kind, st, vo) == [k |-> "note", id |-> 0, n |-> n, d |-> 1, ch |-> ch, kind |-> kind, st |-> st, vo |-> vo, ty |-> "", rest |-> FALSE]
B(n) == [k |-> "backup", n |-> n, d |-> 1]
F(n) == [k |-> "forward", n |-> n, d |-> 1, st |-> 0]
D(st, off) == [k |-> "dir", id |-> 0, st |-> st, off |-> off, pl |-> "unspecified"]
H(st, off) == [k |-> "harm", id |-> 0, st |-> st, off |-> off, pl |-> "unspecified"]
A0 == [k |-> "attr", div |-> 0, keys |-> << >>, times |-> << >>, clefs |-> << >>, transpose |-> << >>, mrest |-> 0, staves |-> 0]
Key(f, num) == [fifths |-> f, cancel |-> 0, mode |-> "major", num |-> num, comps |-> << >>]
Clef(sign, num, after) == [sign |-> sign, line |-> 0, num |-> num, oct |-> 0, after |-> after]
Time(b, t) == [beats |-> b, beatType |-> t, symbol |-> "unspecified"]
Bar(loc, style) == [k |-> "bar", loc |-> loc, style |-> style, ending |-> "none", enum |-> 0, rep |-> FALSE]
O == [k |-> "other", what |-> "sound"]

Alphabet ==
  CASE Theme = "time" -> { N(2, FALSE, "normal", 0, ""), N(1, FALSE, "normal", 0, ""), N(2, TRUE, "normal", 0, ""), N(1, TRUE, "normal", 0, ""),
                           N(0, FALSE, "grace", 0, ""), N(2, FALSE, "cue", 0, ""), B(1), B(3), F(1), D(0, 0), [A0 EXCEPT !.clefs = << Clef("f", 1, "") >>], Bar("middle", "dotted") }
    [] Theme = "voice" -> { N(1, FALSE, "normal", 1, "1"), N(1, FALSE, "normal", 2, "1"), N(1, FALSE, "normal", 2, "2"), N(1, FALSE, "normal", 0, ""), N(1, FALSE, "normal", 1, "5"),
                            N(1, TRUE, "normal", 1, "1"), B(1), F(1), O }
    [] Theme = "attr" -> { N(1, FALSE, "normal", 1, "1"), B(1), F(1), [A0 EXCEPT !.clefs = << Clef("f", 2, "yes") >>], [A0 EXCEPT !.clefs = << Clef("c", 0, "no"), Clef("g", 1, "") >>],
                           [A0 EXCEPT !.keys = << Key(2, 0) >>], [A0 EXCEPT !.keys = << Key(1, 2), Key(-3, 3) >>], [A0 EXCEPT !.times = << Time(3, 8) >>], [A0 EXCEPT !.staves = 2, !.mrest = 4] }
    [] Theme = "place" -> { N(1, FALSE, "normal", 1, "1"), N(1, TRUE, "normal", 1, "1"), B(1), F(1), D(0, 0), D(2, 1), D(3, 0), H(1, 0), H(2, -1), Bar("left", "heavyLight"), Bar("right", "lightHeavy"),
                            Bar("unspecified", "dotted") }
\* a chord note follows a note of its kind
WellFormed(s) == \A k \in DOMAIN s : s[k].k = "note" /\ s[k].ch => k > 1 /\ s[k - 1].k = "note" /\ s[k - 1].kind = s[k].kind
Seqs == UNION { { s \in [1 .. n -> Alphabet] : WellFormed(s) } : n \in 0 .. MaxLen }

Init == /\ G = 2 /\ nst = 2 /\ div = 2 /\ meter = NoMeter /\ mix = 0 /\ tick = 0 /\ run = 0 /\ inBackup = FALSE /\ found = Nothing
        /\ evs \in Seqs /\ at = 0
Next == \/ at < Len(evs) /\ Event(evs[at + 1], SubSeq(evs, at + 2, Len(evs))) /\ at' = at + 1 /\ UNCHANGED evs
        \/ at = Len(evs) /\ EmitAll /\ PrintT(<< "EMIT", ToJson(evs) >>) /\ at' = at + 1 /\ UNCHANGED << rvars, evs >>

\* the timing rule of MusicXML: a note starts where the cursor is, except that a chord note starts with the note before it
RECURSIVE Rule(_, _, _, _)
Rule(s, cur, last, acc) ==
  IF s = << >> THEN acc
  ELSE LET e == Head(s) IN
    CASE e.k = "note" /\ e.ch -> Rule(Tail(s), cur, last, Append(acc, last))
      [] e.k = "note" /\ ~e.ch -> Rule(Tail(s), cur + (IF e.kind = "grace" THEN 0 ELSE e.n), cur, Append(acc, cur))
      [] e.k = "backup" -> Rule(Tail(s), Max2(0, cur - e.n), last, acc)
      [] e.k = "forward" -> Rule(Tail(s), cur + e.n, last, acc)
      [] OTHER -> Rule(Tail(s), cur, last, acc)
MusicXmlTiming == [k \in DOMAIN found.notes |-> found.notes[k].t] = SubSeq(Rule(evs, 0, 0, << >>), 1, Len(found.notes))
EveryNoteOnce == at >= Len(evs) => Len(found.notes) = Len(SelectSeq(evs, LAMBDA e : e.k = "note"))
=============================================================================
