----------------------------- MODULE ScoreCarry -----------------------------
(* What is said of a score as a whole, after it was written as MusicXML and read back: titles, creators, the encoding, page
   texts, defaults, and the layout of measures.

   Every field has a place of its own in the document (its element, or an attribute of it), so that what is read in one
   field depends on what was given in that field alone; and a field that was not given has no element. What is less than
   the field itself is stated here.                                                                                    *)
EXTENDS Carry

Texts == { "workTitle", "workNumber", "movementTitle", "movementNumber", "composer", "lyricist", "arranger", "publisher", "copyright" }
PageTextPlaces == FourOffsets \cup { "halign", "valign" }

\* a text on a page: the page is said when it is positive
PageTextOf(p) == WithPart(WithPart(Only(p, { "text", "description" } \cup (IF Get(p, "pageNumber", 0) > 0 THEN { "pageNumber" } ELSE {})),
                                   "positionData", PlaceOf(Sub(p, "positionData"), PageTextPlaces)), "fontData", FontOf(Sub(p, "fontData")))

Dated(e) == { "year", "month", "day" } \subseteq DOMAIN Sub(e, "encodingDate")
EncodingOf(e) == Without(e, IF Dated(e) THEN {} ELSE { "encodingDate" })

\* an optional value is a sequence of none or one; what is in it may be all zeros
Has(r, f) == Seqs(r, f) /= << >>
SystemOf(l) == Only(l, { f \in { "margins", "systemDistance", "topSystemDistance", "staffDistance" } : Has(l, f) })
MarginsOf(m) == Only(m, { f \in { "odd", "even" } : Has(m, f) })
PageOf(l) == WithPart(IF Has(l, "size") THEN Only(l, { "size" }) ELSE Nothing, "margins", MarginsOf(Sub(l, "margins")))

\* appearance values stand together by kind
Kind(a) == Get(a, "appearanceType", "LineWidth")
OfKind(as, k) == SelectSeq(as, LAMBDA a : Kind(a) = k)
AppearanceOf(as) == OfKind(as, "LineWidth") \o OfKind(as, "NoteSize") \o OfKind(as, "Distance") \o OfKind(as, "OtherAppearance")

Scaled(d) == { "scalingMillimeters", "scalingTenths" } \subseteq DOMAIN d
DefaultsOf(d) == LET a == Only(d, IF Scaled(d) THEN { "scalingMillimeters", "scalingTenths" } ELSE {})
                     as == AppearanceOf(Seqs(d, "appearance"))
                     b == WithPart(WithPart(a, "pageLayout", PageOf(Sub(d, "pageLayout"))), "systemLayout", SystemOf(Sub(d, "systemLayout"))) IN
                 IF as = << >> THEN b ELSE With(b, "appearance", as)

\* --- the layout of measures, from measure to what is said there
MeasureSystemOf(s) == WithPart(WithValue(Nothing, "newSystem", Get(s, "newSystem", "unspecified"), "unspecified"), "layout", SystemOf(Sub(s, "layout")))
MeasurePageOf(p) == LET a == WithPart(WithValue(Nothing, "newPage", Get(p, "newPage", "unspecified"), "unspecified"), "pageLayoutData", PageOf(Sub(p, "pageLayoutData"))) IN
                    IF Has(p, "pageNumber") THEN With(a, "pageNumber", p.pageNumber) ELSE a
LayoutOf(l) == WithPart(WithPart(Nothing, "system", MeasureSystemOf(Sub(l, "system"))), "page", MeasurePageOf(Sub(l, "page")))
\* entries [k, v] in the order of their measures; measures that are not there or have nothing to say have no entry
Entries(es, n) == SelectSeq(Each(es, LAMBDA e : [k |-> Get(e, "k", 0), v |-> LayoutOf(Sub(e, "v"))]), LAMBDA e : e.k < n /\ DOMAIN e.v /= {})

Listed(r, f, s) == IF s = << >> THEN r ELSE With(r, f, s)
ScoreOf(s, measures) ==
  LET a == Only(s, Texts \cup { "musicXmlVersion" })
      b == WithPart(WithPart(a, "encoding", EncodingOf(Sub(s, "encoding"))), "defaults", DefaultsOf(Sub(s, "defaults"))) IN
  Listed(Listed(b, "pageTextItems", Each(Seqs(s, "pageTextItems"), PageTextOf)), "layout", Entries(Seqs(s, "layout"), measures))

\* what was read, in the same form
ReadScore(s) == LET a == Without(s, { "parts", "partGroups", "ticksPerQuarter", "musicXmlType", "layout" }) IN
                Listed(a, "layout", Each(Seqs(s, "layout"), LAMBDA e : [k |-> Get(e, "k", 0), v |-> Sub(e, "v")]))
=============================================================================
