------------------------------- MODULE Schema -------------------------------
(* Documents of MusicXML 3.0, read event by event. Every element has a type. A type says which attributes there may be and must
   be, and either that there is text, or which children may follow each other: the places of its content model, where a child
   may come first (first), after which others (follow), and where the children may end (last).

   The open elements are a stack; an element that starts is put on it at the place it takes among its siblings.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Types == JsonDeserialize("../tools/data/schema.json").types
SeqSet(s) == { s[k] : k \in DOMAIN s }

HasChildren(t) == "auto" \in DOMAIN Types[t]
Auto(t) == Types[t].auto
NameAt(t, p) == Auto(t).pos[p][1]
TypeAt(t, p) == Auto(t).pos[p][2]
\* where the next child may stand
After(t, p) == IF ~HasChildren(t) THEN {} ELSE SeqSet(IF p = 0 THEN Auto(t).first ELSE Auto(t).follow[p])
MayEnd(t, p) == IF ~HasChildren(t) THEN TRUE ELSE IF p = 0 THEN Auto(t).empty ELSE p \in SeqSet(Auto(t).last)
AttributesOf(t) == DOMAIN Types[t].attrs
RequiredOf(t) == { a \in AttributesOf(t) : "required" \in DOMAIN Types[t].attrs[a] }

VARIABLES stack     \* the open elements: [t |-> type, p |-> the place of the last child, n |-> name]
Root(n) == n \in { "score-partwise", "score-timewise" }
SInit == stack = << >>
Top == stack[Len(stack)]
Given(as) == { as[k][1] : k \in DOMAIN as }
RightAttributes(t, as) == Given(as) \subseteq AttributesOf(t) /\ RequiredOf(t) \subseteq Given(as)
Start(e) == /\ e.k = "start"
            /\ \/ stack = << >> /\ Root(e.n) /\ RightAttributes(e.n, e.a) /\ stack' = << [t |-> e.n, p |-> 0, n |-> e.n] >>
               \/ /\ stack # << >>
                  /\ \E q \in After(Top.t, Top.p) :
                       /\ NameAt(Top.t, q) = e.n /\ RightAttributes(TypeAt(Top.t, q), e.a)
                       /\ stack' = Append([stack EXCEPT ![Len(stack)].p = q], [t |-> TypeAt(Top.t, q), p |-> 0, n |-> e.n])
Text(e) == e.k = "text" /\ stack # << >> /\ ~HasChildren(Top.t) /\ UNCHANGED stack
End(e) == e.k = "end" /\ stack # << >> /\ Top.n = e.n /\ MayEnd(Top.t, Top.p) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Event(e) == Start(e) \/ Text(e) \/ End(e)
=============================================================================
