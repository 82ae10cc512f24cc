------------------------------ MODULE PartCarry ------------------------------
(* What a part is after it was written as MusicXML and read back. *)
EXTENDS Carry

\* whether a shown name is printed is said of a shown name that is there
Shown(p, f, flags) == LET v == Only(Sub(p, flags), { "printObject" }) IN
                      IF f \in DOMAIN p /\ DOMAIN v /= {} THEN [x \in { flags } |-> v] ELSE Nothing
Volumes == { "isVolumeSpecified", "volume" }
MidiOf(m) == Only(m, { "virtualLibrary", "virtualName", "device", "name", "bank", "channel", "program", "unpitched" }
                     \cup Given(m, "isVolumeSpecified", "volume") \cup Given(m, "isPanSpecified", "pan") \cup Given(m, "isElevationSpecified", "elevation"))
\* an instrument of which nothing but its id is known is not stated
InstrumentOf(i) == LET a == WithPart(Only(i, { "uniqueId", "name", "abbreviation", "soundID", "soloOrEnsemble" }), "midiData", MidiOf(Sub(i, "midiData"))) IN
                   IF DOMAIN a = { "uniqueId" } THEN Nothing ELSE a
\* a transposition by nothing is none
Transposed(p) == LET t == Seqs(p, "transposition") IN IF t = << >> THEN FALSE ELSE DOMAIN t[1] /= {}

\* the pitches of the notes, measure by measure, tell whose measures they are
PitchesOf(m) == [s \in DOMAIN Seqs(m, "staves") |-> Each(Seqs(m.staves[s], "voices"), LAMBDA v : Each(Seqs(v.v, "notes"), LAMBDA n : Sub(n, "pitchData")))]

PartOf(p) ==
  LET a == Only(p, { "uniqueId", "name", "abbreviation", "displayName", "displayAbbreviation" } \cup (IF Transposed(p) THEN { "transposition" } ELSE {})) IN
  WithPart(a @@ Shown(p, "displayName", "displayNamePrintData") @@ Shown(p, "displayAbbreviation", "displayAbbreviationPrintData"), "instrumentData", InstrumentOf(Sub(p, "instrumentData")))
ReadPart(p) == Without(p, { "measures" })
=============================================================================
