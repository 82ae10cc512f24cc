------------------------------- MODULE MCPart -------------------------------
(* Small parts carried field by field; also handed out (EMIT). *)
EXTENDS PartCarry, Json
CONSTANTS Theme, EmitAll
VARIABLES want, back, left
vars == << want, back, left >>
Merge(a, b) == [f \in DOMAIN a \cup DOMAIN b |-> IF f \in DOMAIN b THEN b[f] ELSE a[f]]
F(f, v) == [x \in { f } |-> v]
Opt(f, V) == { Nothing } \cup { F(f, v) : v \in V }
Cross(A, B) == { Merge(a, b) : a \in A, b \in B }
As(f, R) == { IF DOMAIN r = {} THEN Nothing ELSE F(f, r) : r \in R }
RECURSIVE CrossAll(_)
CrossAll(S) == IF S = << >> THEN { Nothing } ELSE Cross(Head(S), CrossAll(Tail(S)))
Flagged(flag, f, v) == { Nothing, F(flag, TRUE), F(f, v), Merge(F(flag, TRUE), F(f, v)) }
Names == CrossAll(<< Opt("name", { "a" }), Opt("abbreviation", { "b" }), Opt("displayName", { "c" }), Opt("displayAbbreviation", { "d" }), As("displayNamePrintData", Opt("printObject", { "yes", "no" })),
                     As("displayAbbreviationPrintData", Opt("printObject", { "no" })), { Nothing } \cup { F("transposition", << t >>) : t \in { Nothing, F("chromatic", -2), Merge(F("chromatic", 14), F("diatonic", 8)), F("diatonic", 1) } } >>)
Midis == CrossAll(<< Opt("virtualLibrary", { "l" }), Opt("virtualName", { "v" }), Opt("device", { "d" }), Opt("name", { "n" }), Opt("bank", { 3 }), Opt("channel", { 16 }), Opt("program", { 1 }), Opt("unpitched", { 128 }) >>)
Sounds == CrossAll(<< Flagged("isVolumeSpecified", "volume", "80.5"), Flagged("isPanSpecified", "pan", "-90"), Flagged("isElevationSpecified", "elevation", "45") >>)
Some == F("uniqueId", "I1")
Instruments == Cross({ Some }, CrossAll(<< Opt("name", { "i" }), Opt("abbreviation", { "j" }), Opt("soundID", { "brassAltoHorn" }), Opt("soloOrEnsemble", { "solo", "ensemble" }), As("midiData", { Nothing, F("program", 1), F("virtualName", "v") }) >>))
Parts == CASE Theme = "names" -> Names
           [] Theme = "midi" -> As("instrumentData", Cross({ Some }, As("midiData", Midis)))
           [] Theme = "sounds" -> As("instrumentData", Cross({ Some }, As("midiData", Sounds)))
           [] Theme = "instruments" -> As("instrumentData", Instruments)
Alone(f) == IF f = "displayNamePrintData" THEN { f, "displayName" } ELSE IF f = "displayAbbreviationPrintData" THEN { f, "displayAbbreviation" } ELSE { f }
Init == want \in Parts /\ back = Nothing /\ left = DOMAIN want
Carry(f) == back' = Merge(back, PartOf(Only(want, Alone(f)))) /\ left' = left \ { f } /\ UNCHANGED want
Next == \/ \E f \in left : f /= "done" /\ Carry(f)
        \/ left = {} /\ EmitAll /\ PrintT(<< "EMIT", ToJson(want) >>) /\ left' = { "done" } /\ UNCHANGED << want, back >>
Independent == left = {} => back = PartOf(want)
Settled == PartOf(back) = back
NotInvented == DOMAIN back \subseteq DOMAIN want
=============================================================================
