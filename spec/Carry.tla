-------------------------------- MODULE Carry --------------------------------
(* Values of the score model as records in which fields at their default are left out, and what of the values that
   several kinds of objects share (places, fonts, colors, lines) a MusicXML document carries.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Is(r, f) == IF f \in DOMAIN r THEN r[f] ELSE FALSE
Nothing == [f \in {} |-> 0]
Sub(r, f) == IF f \in DOMAIN r THEN r[f] ELSE Nothing
Seqs(r, f) == IF f \in DOMAIN r THEN r[f] ELSE << >>
Only(r, F) == [f \in DOMAIN r \cap F |-> r[f]]
Without(r, F) == [f \in DOMAIN r \ F |-> r[f]]
With(r, f, v) == [x \in DOMAIN r \cup { f } |-> IF x = f THEN v ELSE r[x]]
\* a field that holds a record or a sequence is left out when empty, a field of another kind when it is at its default
WithPart(r, f, v) == IF DOMAIN v = {} THEN Without(r, { f }) ELSE With(r, f, v)
WithValue(r, f, v, d) == IF v = d THEN Without(r, { f }) ELSE With(r, f, v)
Each(s, Op(_)) == [k \in DOMAIN s |-> Op(s[k])]

\* a value and the flag that says that it is given
Given(r, flag, val) == IF Is(r, flag) THEN { flag, val } ELSE {}

AllAttributes == { "default-x", "default-y", "relative-x", "relative-y", "placement", "halign", "valign" }
FourOffsets == { "default-x", "default-y", "relative-x", "relative-y" }
Placed == FourOffsets \cup { "placement" }
PlaceOf(p, A) == Only(p, UNION { IF "default-x" \in A THEN Given(p, "isDefaultXSpecified", "defaultX") ELSE {},
                                 IF "default-y" \in A THEN Given(p, "isDefaultYSpecified", "defaultY") ELSE {},
                                 IF "relative-x" \in A THEN Given(p, "isRelativeXSpecified", "relativeX") ELSE {},
                                 IF "relative-y" \in A THEN Given(p, "isRelativeYSpecified", "relativeY") ELSE {},
                                 IF "placement" \in A THEN { "placement" } ELSE {},
                                 IF "halign" \in A THEN { "horizontalAlignmnet" } ELSE {},
                                 IF "valign" \in A THEN { "verticalAlignment" } ELSE {} })

FontOf(f) == LET k == Get(f, "sizeType", "unspecified") IN
             Without(f, (IF k = "point" THEN {} ELSE { "sizePoint" }) \cup (IF k = "css" THEN {} ELSE { "sizeCss" }))
ColorOf(c) == IF Is(c, "isAlphaSpecified") THEN c ELSE Without(c, { "alpha" })
\* an object with a color of its own: the color counts when it is said to
Colored(r, flag, f) == IF Is(r, flag) THEN WithPart(r, f, ColorOf(Sub(r, f))) ELSE Without(r, { flag, f })
PrintOf(p) == LET q == Colored(p, "isColorSpecified", "color") IN WithPart(q, "fontData", FontOf(Sub(p, "fontData")))
LineOf(l, A) == Only(l, UNION { IF "line-type" \in A THEN { "lineType" } ELSE {},
                                IF "line-end" \in A THEN { "lineHook" } ELSE {},
                                IF "end-length" \in A THEN Given(l, "isStopLengthSpecified", "endLength") ELSE {},
                                IF "dashes" \in A THEN Given(l, "isDashLengthSpecified", "dashLength") \cup Given(l, "isSpaceLengthSpecified", "spaceLength") ELSE {} })
=============================================================================
