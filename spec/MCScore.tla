------------------------------- MODULE MCScore -------------------------------
(* Small scores whose fields go into a document and come back one at a time, in any order; the scores are also handed out
   (EMIT) to be given to the real writer and reader.                                                                  *)
EXTENDS ScoreCarry, Json
CONSTANTS Theme, EmitAll
VARIABLES want, back, left
vars == << want, back, left >>

Merge(a, b) == [f \in DOMAIN a \cup DOMAIN b |-> IF f \in DOMAIN b THEN b[f] ELSE a[f]]
F(f, v) == [x \in { f } |-> v]
Opt(f, V) == { Nothing } \cup { F(f, v) : v \in V }
Cross(A, B) == { Merge(a, b) : a \in A, b \in B }
As(f, R) == { IF DOMAIN r = {} THEN Nothing ELSE F(f, r) : r \in R }
Listing(f, S) == { IF s = << >> THEN Nothing ELSE F(f, s) : s \in S }
Upto(R, n) == UNION { [1 .. k -> R] : k \in 0 .. n }
Maybe(f, R) == { Nothing } \cup { F(f, << r >>) : r \in R }
RECURSIVE CrossAll(_)
CrossAll(S) == IF S = << >> THEN { Nothing } ELSE Cross(Head(S), CrossAll(Tail(S)))

Titles == CrossAll(<< Opt("workTitle", { "a" }), Opt("workNumber", { "b" }), Opt("movementTitle", { "c" }), Opt("movementNumber", { "d" }), Opt("musicXmlVersion", { "ThreePointZero" }) >>)
People == CrossAll(<< Opt("composer", { "e" }), Opt("lyricist", { "f" }), Opt("arranger", { "g" }), Opt("publisher", { "h" }), Opt("copyright", { "i" }) >>)

Supports == CrossAll(<< { F("elementName", "e") }, Opt("attributeName", { "x" }), Opt("specificValue", { "v" }), Opt("isSupported", { FALSE }) >>)
Encodings == CrossAll(<< Opt("encodingDate", { [year |-> 2004, month |-> 2, day |-> 29], [year |-> 1999, month |-> 12, day |-> 31] }), Opt("encoder", { "p" }), Opt("encodingDescription", { "q" }),
                         Listing("software", Upto({ "r", "s" }, 2)), Listing("supportedItems", { << >> } \cup { << s >> : s \in Supports } \cup { << s, r >> : s, r \in { F("elementName", "e"), F("elementName", "f") } }),
                         Listing("miscelaneousFields", Upto({ [key |-> "k", value |-> "u"], [key |-> "l", value |-> "w"] }, 2)) >>)

Places == { Nothing, Merge(F("isDefaultXSpecified", TRUE), F("defaultX", "3")), F("isRelativeYSpecified", TRUE), F("defaultY", "4"), F("horizontalAlignmnet", "right"), F("verticalAlignment", "top"), F("placement", "above") }
Fonts == { Nothing, F("style", "italic"), Merge(F("sizeType", "point"), F("sizePoint", "8")), F("lineThrough", 2), F("fontFamily", << "a", "b" >>) }
PageTexts == CrossAll(<< { F("text", "a") }, Opt("description", { "d" }), Opt("pageNumber", { 1, 2 }), As("positionData", Places), As("fontData", Fonts) >>)
FewTexts == { F("text", "a"), Merge(F("text", "b"), F("pageNumber", 2)), Merge(F("text", "a"), F("description", "d")) }

Margins == { Nothing, [left |-> "1", right |-> "2", top |-> "3", bottom |-> "4"], [left |-> "5"] }
Pages == CrossAll(<< Maybe("size", { Nothing, [height |-> "10", width |-> "20"] }), As("margins", CrossAll(<< Maybe("odd", Margins), Maybe("even", Margins) >>)) >>)
Systems == CrossAll(<< Maybe("margins", { Nothing, [left |-> "1", right |-> "2"] }), Maybe("systemDistance", { "0", "70" }), Maybe("topSystemDistance", { "0", "80" }), Maybe("staffDistance", { "90" }) >>)
Appearances == { [value |-> "5"], [appearanceSubType |-> "staff"], [appearanceSubType |-> "own", value |-> "1"], [appearanceType |-> "NoteSize", appearanceSubType |-> "cue", value |-> "75"],
                 [appearanceType |-> "Distance", appearanceSubType |-> "hyphen", value |-> "2"], [appearanceType |-> "OtherAppearance", appearanceSubType |-> "z", value |-> "3"] }
Scalings == { Nothing, [scalingMillimeters |-> "7", scalingTenths |-> "40"] }
Defaults == CrossAll(<< Scalings, As("pageLayout", Pages) >>) \cup CrossAll(<< Scalings, As("systemLayout", Systems) >>) \cup CrossAll(<< As("pageLayout", { Nothing, F("size", << [height |-> "9"] >>) }), Listing("appearance", Upto(Appearances, 3)) >>)

Layouts == CrossAll(<< As("system", CrossAll(<< Opt("newSystem", { "yes", "no" }), As("layout", { Nothing, F("systemDistance", << "7" >>), F("staffDistance", << "8" >>), F("margins", << Nothing >>) }) >>)),
                       As("page", CrossAll(<< Opt("newPage", { "yes", "no" }), Maybe("pageNumber", { "12" }), As("pageLayoutData", { Nothing, F("size", << [height |-> "9"] >>), F("margins", F("odd", << [left |-> "1"] >>)) }) >>)) >>)
FewLayouts == { Nothing, F("system", F("newSystem", "yes")), F("page", F("newPage", "yes")), Merge(F("system", F("newSystem", "no")), F("page", F("pageNumber", << "4" >>))) }
Entry(k, v) == [k |-> k, v |-> v]
Layered == { << Entry(0, v) >> : v \in Layouts } \cup { << Entry(2, v) >> : v \in Layouts } \cup { << Entry(0, u), Entry(1, v), Entry(3, w) >> : u, v, w \in FewLayouts }

Mixed == CrossAll(<< Opt("workTitle", { "a" }), Opt("composer", { "e" }), Opt("copyright", { "i" }), As("encoding", { Nothing, F("encoder", "p"), F("miscelaneousFields", << [key |-> "k", value |-> "u"] >>) }),
                     As("defaults", { Nothing, [scalingMillimeters |-> "7", scalingTenths |-> "40"], F("systemLayout", F("staffDistance", << "9" >>)) }), Listing("pageTextItems", { << >>, << F("text", "a") >> }),
                     Listing("layout", { << >>, << Entry(1, F("page", F("newPage", "yes"))) >> }) >>)

Scores == CASE Theme = "titles" -> Titles
            [] Theme = "people" -> People
            [] Theme = "encoding" -> As("encoding", Encodings)
            [] Theme = "texts" -> Listing("pageTextItems", { << p >> : p \in PageTexts } \cup Upto(FewTexts, 3))
            [] Theme = "defaults" -> As("defaults", Defaults)
            [] Theme = "layout" -> { F("layout", l) : l \in Layered }
            [] Theme = "mixed" -> Mixed
Measures == 3

Init == want \in Scores /\ back = Nothing /\ left = DOMAIN want
\* a field goes by itself
Carry(f) == LET one == ScoreOf(Only(want, { f }), Measures) IN back' = Merge(back, one) /\ left' = left \ { f } /\ UNCHANGED want
Next == \/ \E f \in left : f /= "done" /\ Carry(f)
        \/ left = {} /\ EmitAll /\ PrintT(<< "EMIT", ToJson(want) >>) /\ left' = { "done" } /\ UNCHANGED << want, back >>

\* all fields together are carried as each by itself is
Independent == left = {} => back = ScoreOf(want, Measures)
Settled == ScoreOf(back, Measures) = back
NotInvented == DOMAIN back \subseteq DOMAIN want
\* plain texts are kept as they are
Plain == left = {} => \A f \in DOMAIN want \cap Texts : f \in DOMAIN back /\ back[f] = want[f]
=============================================================================
