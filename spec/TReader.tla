------------------------------ MODULE TReader -------------------------------
(* Is what was read from a document what the specification reads?  The document's events are taken one at a time; at the
   end of each measure what the real reader returned for it must be what has been found. Aspect selects what is compared. *)
EXTENDS Reader, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
Aspect == IOEnv.ASPECT
VARIABLES c, p, m, l, ph
tvars == << rvars, c, p, m, l, ph >>
Parts == Cases[c].parts
Ms == Parts[p].ms
Evs == Ms[m].ev
Obs == Ms[m].obs

TInit == /\ c \in 1 .. Len(Cases) /\ p = 0 /\ m = 0 /\ l = 0 /\ ph = "score"
         /\ G = 0 /\ nst = 0 /\ div = 0 /\ meter = NoMeter /\ mix = 0 /\ tick = 0 /\ run = 0 /\ inBackup = FALSE /\ found = Nothing

\* the resolution fits every divisions value of the document
Fits == LET g == Cases[c].tpq IN g > 0 /\ \A k \in DOMAIN Cases[c].divs : g % Cases[c].divs[k] = 0

Bag(s) == [x \in Range2(s) |-> Cardinality({ k \in DOMAIN s : s[k] = x })]
Same(a, b) == Bag(a) = Bag(b)
\* all notes that were read, with the staff and voice they were found in
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
ObsNotes == Concat(Map(LAMBDA st : Concat(Map(LAMBDA v : v.notes, st.voices)), Obs.staves))
ObsDirs == Concat(Map(LAMBDA st : st.dirs, Obs.staves))
ObsClefs == Concat(Map(LAMBDA st : st.clefs, Obs.staves))

TimesOK == /\ Same(Map(LAMBDA n : << n.id, n.t, n.dur, n.ch, n.kind >>, ObsNotes), Map(LAMBDA n : << n.id, n.t, n.dur, n.ch, n.kind >>, found.notes))
           /\ Same(Map(LAMBDA d : << d.id, d.t >>, ObsDirs), Map(LAMBDA d : << d.id, d.t >>, found.dirs))
           /\ Same(Map(LAMBDA x : x.t, ObsClefs), Map(LAMBDA x : x.t, found.clefs))
           /\ Same(Map(LAMBDA x : x.t, Obs.keys), Map(LAMBDA x : x.t, found.keys))
           /\ Same(Map(LAMBDA x : x.t, Obs.bars), Map(LAMBDA x : x.t, found.bars))
NamesOK == \A a \in Range2(found.notes), b \in Range2(ObsNotes) : a.id = b.id => a.name \in { "any", b.name }
VoicesOK == /\ Len(Obs.staves) = nst
            /\ \A s \in 1 .. nst :
                 LET V == Voices(found.notes, s)  O == Obs.staves[s].voices IN
                 /\ { O[k].key : k \in DOMAIN O } = DOMAIN V /\ Len(O) = Cardinality(DOMAIN V)
                 /\ \A k \in DOMAIN O : Map(LAMBDA n : << n.id, n.v >>, O[k].notes) = Map(LAMBDA n : << n.id, VoiceNumber(n.vo) >>, V[O[k].key])
On(s, xs) == SelectSeq(xs, LAMBDA x : x.st = s)
AttrOK == /\ Len(Obs.staves) = nst
          /\ \A s \in 1 .. nst : Map(LAMBDA x : << x.symbol, x.line, x.octave, x.t, x.loc >>, Obs.staves[s].clefs)
                               = Map(LAMBDA x : << x.symbol, x.line, x.octave, x.t, x.loc >>, On(s, found.clefs))
          /\ Map(LAMBDA x : << x.fifths, x.cancel, x.mode, x.comps, x.staffIndex, x.t >>, Obs.keys)
           = Map(LAMBDA x : << x.fifths, x.cancel, x.mode, x.comps, x.staffIndex, x.t >>, found.keys)
          /\ \A s \in 1 .. nst : Obs.staves[s].nkeys = 0
          /\ Obs.ts = [beats |-> meter.beats, beatType |-> meter.beatType, symbol |-> meter.symbol, implicit |-> MetersOf(Evs) = << >>]
          /\ Obs.number = (IF Ms[m].number = ToString(m) THEN "" ELSE Ms[m].number)
          /\ Obs.implicit = Ms[m].implicit /\ Obs.width = Ms[m].width
          /\ Obs.mrest = found.mrest
          /\ m = 1 => Parts[p].transpose = found.transpose
\* system and page of a measure: the last print that says anything of them (first part only)
LastOf(s, f) == LET u == SelectSeq(s, LAMBDA e : e[f] /= << >>) IN IF u = << >> THEN << >> ELSE u[Len(u)][f]
PlaceOK == /\ Len(Obs.staves) = nst
           /\ \A s \in 1 .. nst : Map(LAMBDA d : << d.id, d.t, d.named, d.pl >>, Obs.staves[s].dirs) = Map(LAMBDA d : << d.id, d.t, d.named, d.pl >>, On(s, found.dirs))
           /\ Map(LAMBDA b : << b.style, b.loc, b.t, b.ending, b.num, b.rep >>, Obs.bars) = Map(LAMBDA b : << b.style, b.loc, b.t, b.ending, b.num, b.rep >>, found.bars)
           /\ p = 1 => /\ Cases[c].layout[m].sys = LastOf(found.print, "sys")
                       /\ Cases[c].layout[m].page = LastOf(found.print, "page")
Check == CASE Aspect = "time" -> TimesOK
           [] Aspect = "scale" -> TimesOK /\ NamesOK
           [] Aspect = "voice" -> VoicesOK
           [] Aspect = "attr" -> AttrOK
           [] Aspect = "place" -> PlaceOK

Say(x) == Verbose => PrintT(x)
Keep == UNCHANGED rvars
TNext ==
  \/ ph = "score" /\ Say(<< "tpq", Cases[c].tpq >>) /\ Fits /\ Len(Parts) = Cases[c].nparts /\ ph' = "part" /\ p' = 1 /\ Keep /\ UNCHANGED << c, m, l >>
  \/ ph = "part" /\ p <= Len(Parts) /\ Say(<< "part", p >>) /\ StartPart(Cases[c].tpq, Ms) /\ Parts[p].nms = Len(Ms) /\ ph' = "measure" /\ m' = 1 /\ UNCHANGED << c, p, l >>
  \/ ph = "measure" /\ m <= Len(Ms) /\ Say(<< "measure", m >>) /\ StartMeasure(Evs) /\ ph' = "event" /\ l' = 1 /\ UNCHANGED << c, p, m >>
  \/ ph = "event" /\ l <= Len(Evs) /\ Say(<< "event", Evs[l], "tick", tick >>) /\ Event(Evs[l], SubSeq(Evs, l + 1, Len(Evs))) /\ l' = l + 1 /\ UNCHANGED << c, p, m, ph >>
  \/ ph = "event" /\ l = Len(Evs) + 1 /\ Say(<< "found", found, "read", Obs >>) /\ Check /\ m' = m + 1 /\ ph' = "measure" /\ Keep /\ UNCHANGED << c, p, l >>
  \/ ph = "measure" /\ m = Len(Ms) + 1 /\ p' = p + 1 /\ ph' = "part" /\ Keep /\ UNCHANGED << c, m, l >>
  \/ ph = "part" /\ p = Len(Parts) + 1 /\ PrintT(<< "OK", c >>) /\ ph' = "done" /\ Keep /\ UNCHANGED << c, p, m, l >>
=============================================================================
