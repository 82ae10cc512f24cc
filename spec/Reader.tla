------------------------------- MODULE Reader -------------------------------
(* How a part of a MusicXML document is read into the score model.

   A part is a sequence of measures, a measure a sequence of events. The state is the place the reader has reached:
   the time within the measure, the run between backups, the divisions and time signature in force - and what has been
   found in the measure so far. One action per kind of event.

   Events
     note     [id, n, d, ch, kind, st, vo]   duration n/d divisions, ch: has <chord/>, kind "normal" "grace" "cue",
                                             st: staff number or 0, vo: text of <voice> or ""
     backup, forward  [n, d]
     attr     [div, keys, times, clefs, transpose (chromatic, diatonic, octaves), mrest]
     dir, harm  [id, st, off, pl]
     bar      [loc, style, ending, enum, rep]
     print, other
   Times are whole ticks of a resolution G common to the score.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Range2(s) == { s[k] : k \in DOMAIN s }

\* n/d divisions, of which there are div to a quarter, in ticks of G to a quarter, to the nearest, halves down
FloorDiv(a, b) == a \div b            \* b > 0: TLA+ integer division rounds toward minus infinity
CeilDiv(a, b) == - FloorDiv(-a, b)
Scale(n, d, div, G) == CeilDiv(2 * n * G - d * div, 2 * d * div)

VARIABLES
  G,        \* ticks per quarter of the score
  nst,      \* number of staves of the part
  div,      \* divisions in force
  meter,    \* time signature in force, or NoMeter
  mix,      \* index of the measure in its part (0 = first)
  tick,     \* time within the measure
  run,      \* number of the run of notes between backups
  inBackup, \* the last event was a backup
  found     \* what the measure holds so far
rvars == << G, nst, div, meter, mix, tick, run, inBackup, found >>

NoMeter == [beats |-> 4, beatType |-> 4, symbol |-> "unspecified"]
Nothing == [notes |-> << >>, dirs |-> << >>, clefs |-> << >>, keys |-> << >>, bars |-> << >>, mrest |-> 0, transpose |-> << >>, print |-> << >>]

\* --- what the document says of a part as a whole
StavesNamed(ev) ==
  CASE ev.k \in { "note", "forward", "dir", "harm" } -> ev.st
    [] ev.k = "attr" -> ev.staves
    [] OTHER -> 0
RECURSIVE MaxOver(_, _)
MaxOver(f(_), s) == IF s = << >> THEN 0 ELSE Max2(f(Head(s)), MaxOver(f, Tail(s)))
StaffCount(ms) == Max2(1, MaxOver(LAMBDA m : MaxOver(StavesNamed, m.ev), ms))
\* the first time signature of a measure rules the whole of it
MetersOf(evs) == LET a == SelectSeq(evs, LAMBDA e : e.k = "attr" /\ e.times /= << >>) IN
                 IF a = << >> THEN << >> ELSE << Head(Head(a).times) >>

StartPart(g, ms) ==
  /\ G' = g /\ nst' = StaffCount(ms) /\ div' = g /\ meter' = NoMeter /\ mix' = -1
  /\ tick' = 0 /\ run' = 0 /\ inBackup' = FALSE /\ found' = Nothing
StartMeasure(evs) ==
  /\ mix' = mix + 1
  /\ tick' = 0 /\ run' = 0 /\ inBackup' = FALSE /\ found' = Nothing
  /\ meter' = IF MetersOf(evs) = << >> THEN meter ELSE Head(MetersOf(evs))
  /\ UNCHANGED << G, nst, div >>

\* --- events
StaffOf(st) == IF st = 0 THEN 1 ELSE st
Ticks(n, d) == Scale(n, d, div, G)
Other == inBackup' = FALSE /\ UNCHANGED << G, nst, div, meter, mix, tick, run, found >>

\* the written duration of a note is its type, or the one its length in quarters stands for
Lengths == << << "whole", 4, 1 >>, << "half", 2, 1 >>, << "quarter", 1, 1 >>, << "eighth", 1, 2 >>, << "dur16th", 1, 4 >>, << "dur32nd", 1, 8 >>,
              << "dur64th", 1, 16 >>, << "dur128th", 1, 32 >>, << "dur512th", 1, 128 >>, << "dur1024th", 1, 256 >>, << "any", 8, 1 >>, << "any", 1, 64 >> >>
WrittenAs(e) == IF e.ty /= "" THEN e.ty
                ELSE LET fits == { k \in DOMAIN Lengths : e.kind /= "grace" /\ e.n * Lengths[k][3] = e.d * div * Lengths[k][2] } IN
                     IF fits = {} THEN "unspecified" ELSE Lengths[CHOOSE k \in fits : TRUE][1]

\* a note is in a chord if it says so or if the note after it says so; time passes when the chord is over, by the
\* length of the note the chord is built on
Base(len) == LET own == SelectSeq(found.notes, LAMBDA n : ~n.says) IN
             IF found.notes = << >> THEN len ELSE IF own = << >> THEN found.notes[1].dur ELSE own[Len(own)].dur
InChord(e, nextIsChord) == e.ch \/ nextIsChord
Note(e, nextIsChord) ==
  LET len == IF e.kind = "grace" THEN 0 ELSE Ticks(e.n, e.d) IN
  /\ found' = [found EXCEPT !.notes = Append(@, [id |-> e.id, t |-> tick, dur |-> len, ch |-> InChord(e, nextIsChord), kind |-> e.kind,
                                                 st |-> StaffOf(e.st), vo |-> e.vo, run |-> run, says |-> e.ch, name |-> WrittenAs(e)])]
  /\ tick' = IF nextIsChord THEN tick ELSE tick + (IF e.ch THEN Base(len) ELSE len)
  /\ inBackup' = FALSE
  /\ UNCHANGED << G, nst, div, meter, mix, run >>
Backup(e) ==
  /\ run' = IF inBackup THEN run ELSE run + 1
  /\ inBackup' = TRUE
  /\ tick' = Max2(0, tick - Ticks(e.n, e.d))
  /\ UNCHANGED << G, nst, div, meter, mix, found >>
Forward(e) ==
  /\ tick' = tick + Ticks(e.n, e.d)
  /\ inBackup' = FALSE
  /\ UNCHANGED << G, nst, div, meter, mix, run, found >>

\* directions and chord symbols: at the cursor, moved by their offset; an absent or impossible staff is the first
Placed(e) ==
  LET ok == e.st >= 1 /\ e.st <= nst IN
  [id |-> e.id, t |-> tick + Ticks(e.off, 1), st |-> IF ok THEN e.st ELSE 1, named |-> ok, pl |-> e.pl]
Direction(e) ==
  /\ found' = [found EXCEPT !.dirs = Append(@, Placed(e))]
  /\ inBackup' = FALSE /\ UNCHANGED << G, nst, div, meter, mix, tick, run >>

DefaultLine(sign) == CASE sign = "g" -> 2 [] sign = "f" -> 4 [] sign = "c" -> 3 [] sign = "tab" -> 1 [] sign = "jianpu" -> 1 [] OTHER -> 3
ClefAt(c) ==
  [symbol |-> c.sign, line |-> IF c.line = 0 THEN DefaultLine(c.sign) ELSE c.line, octave |-> c.oct, t |-> tick,
   st |-> StaffOf(c.num),
   loc |-> IF tick > 0 THEN "midMeasure" ELSE CASE c.after = "yes" -> "afterBarline" [] c.after = "no" -> "beforeBarline" [] OTHER -> "unspecified"]
KeyAt(k) ==
  [fifths |-> k.fifths, cancel |-> k.cancel, mode |-> IF k.mode \in { "major", "minor" } THEN k.mode ELSE "unspecified", comps |-> k.comps,
   staffIndex |-> IF k.num >= 1 /\ k.num <= nst THEN k.num - 1 ELSE -1, t |-> tick]
Map(f(_), s) == [k \in DOMAIN s |-> f(s[k])]
Attributes(e) ==
  /\ div' = IF e.div = 0 THEN div ELSE e.div
  /\ found' = [found EXCEPT !.keys = @ \o Map(KeyAt, e.keys), !.clefs = @ \o Map(ClefAt, e.clefs),
                            !.mrest = IF e.mrest = 0 THEN @ ELSE e.mrest,
                            !.transpose = IF e.transpose = << >> \/ mix /= 0 \/ tick /= 0 THEN @
                                             ELSE << e.transpose[1] + 12 * e.transpose[3], e.transpose[2] + 7 * e.transpose[3] >>]
  /\ inBackup' = FALSE /\ UNCHANGED << G, nst, meter, mix, tick, run >>

Infinite == 2147483647
Barline(e) ==
  /\ found' = [found EXCEPT !.bars = Append(@, [style |-> e.style, loc |-> e.loc, t |-> IF e.loc = "right" THEN Infinite ELSE tick,
                                               ending |-> e.ending, num |-> e.enum, rep |-> e.rep])]
  /\ inBackup' = FALSE /\ UNCHANGED << G, nst, div, meter, mix, tick, run >>
PrintElement(e) ==
  /\ found' = [found EXCEPT !.print = Append(@, e)]
  /\ inBackup' = FALSE /\ UNCHANGED << G, nst, div, meter, mix, tick, run >>

NextIsChord(rest) == LET ns == SelectSeq(rest, LAMBDA e : e.k = "note") IN ns /= << >> /\ Head(ns).ch
Event(e, rest) ==
  \/ e.k = "note" /\ Note(e, NextIsChord(rest))
  \/ e.k = "backup" /\ Backup(e)
  \/ e.k = "forward" /\ Forward(e)
  \/ e.k \in { "dir", "harm" } /\ Direction(e)
  \/ e.k = "attr" /\ Attributes(e)
  \/ e.k = "bar" /\ Barline(e)
  \/ e.k = "print" /\ PrintElement(e)
  \/ e.k = "other" /\ Other

\* --- voices. The notes of one run on one staff are a voice. If every voice of the staff names one number of its own,
\* at least 1, then the voices go by these numbers; otherwise they are counted from the first.
RunsOf(notes, s) == { notes[k].run : k \in { j \in DOMAIN notes : notes[j].st = s } }
Members(notes, s, r) == SelectSeq(notes, LAMBDA n : n.st = s /\ n.run = r)
VoiceNumber(txt) == CASE txt = "1" -> 1 [] txt = "2" -> 2 [] txt = "3" -> 3 [] txt = "4" -> 4 [] txt = "5" -> 5 [] txt = "6" -> 6
                      [] txt = "7" -> 7 [] txt = "12" -> 12 [] txt = "0" -> 0 [] OTHER -> -1
NumbersOf(notes, s, r) == { VoiceNumber(n.vo) : n \in Range2(Members(notes, s, r)) }
Numbered(notes, s) ==
  /\ \A r \in RunsOf(notes, s) : Cardinality(NumbersOf(notes, s, r)) = 1 /\ \A v \in NumbersOf(notes, s, r) : v >= 1
  /\ \A q, r \in RunsOf(notes, s) : NumbersOf(notes, s, q) = NumbersOf(notes, s, r) => q = r
Rank(x, S) == Cardinality({ y \in S : y < x })
VoiceKey(notes, s, r) == IF Numbered(notes, s) THEN (CHOOSE v \in NumbersOf(notes, s, r) : TRUE) - 1 ELSE Rank(r, RunsOf(notes, s))
Voices(notes, s) == [key \in { VoiceKey(notes, s, r) : r \in RunsOf(notes, s) } |->
                       Members(notes, s, CHOOSE r \in RunsOf(notes, s) : VoiceKey(notes, s, r) = key)]

\* --- what a reader relies on
TimeNeverNegative == tick >= 0
ChordsSound == \A k \in 1 .. Len(found.notes) - 1 :
   LET a == found.notes[k]  b == found.notes[k + 1] IN b.says => a.t = b.t /\ a.ch /\ b.ch
ChordsOnly == \A k \in DOMAIN found.notes :
   found.notes[k].ch => found.notes[k].says \/ k = Len(found.notes) \/ found.notes[k + 1].says
VoicesPartition == \A s \in 1 .. nst :
   LET V == Voices(found.notes, s) IN
   /\ Cardinality(DOMAIN V) = Cardinality(RunsOf(found.notes, s))
   /\ \A a, b \in DOMAIN V : a /= b => { n.run : n \in Range2(V[a]) } \cap { n.run : n \in Range2(V[b]) } = {}
=============================================================================
