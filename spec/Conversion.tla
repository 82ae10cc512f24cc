------------------------------ MODULE Conversion ------------------------------
(* A score in its two arrangements, and the conversion between them (mx::core partwiseTimewise / timewisePartwise).

   partwise:  body = sequence of [id, ms], ms = sequence of [attr, cell]       one entry per part, measures inside
   timewise:  body = sequence of [attr, ps], ps = sequence of [id, cell]       one entry per measure, parts inside
   list is the sequence of part ids of the part list; head stands for the rest of the header.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NoCell == ""      \* a measure with no music
SeqRange(s) == { s[i] : i \in 1 .. Len(s) }

Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

PartOf(d, id) == LET S == { i \in 1 .. Len(d.body) : d.body[i].id = id } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
CellAt(m, id) == LET S == { i \in 1 .. Len(m.ps) : m.ps[i].id = id } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

\* the parts of the list that have an m-th measure, in list order
Playing(d, m) == SelectSeq(d.list, LAMBDA id : PartOf(d, id) # 0 /\ m <= Len(d.body[PartOf(d, id)].ms))

ToTimewise(d) ==
    LET n == Max0({ Len(d.body[i].ms) : i \in 1 .. Len(d.body) }) IN
    [ kind |-> "timewise", head |-> d.head, list |-> d.list, body |->
      [ m \in 1 .. n |->
          LET who == Playing(d, m) IN
          [ attr |-> d.body[PartOf(d, who[Len(who)])].ms[m].attr,
            ps |-> [ k \in 1 .. Len(who) |-> [ id |-> who[k], cell |-> d.body[PartOf(d, who[k])].ms[m].cell ] ] ] ] ]

ToPartwise(d) ==
    [ kind |-> "partwise", head |-> d.head, list |-> d.list, body |->
      [ k \in 1 .. Len(d.list) |->
          [ id |-> d.list[k], ms |->
            [ m \in 1 .. Len(d.body) |->
                LET i == CellAt(d.body[m], d.list[k]) IN
                [ attr |-> d.body[m].attr, cell |-> IF i = 0 THEN NoCell ELSE d.body[m].ps[i].cell ] ] ] ] ]

Convert(d) == IF d.kind = "partwise" THEN ToTimewise(d) ELSE ToPartwise(d)

\* --- what a user relies on
\* the content at (part, measure), whatever the arrangement
Cell(d, id, m) ==
    IF d.kind = "partwise"
    THEN IF PartOf(d, id) # 0 /\ m <= Len(d.body[PartOf(d, id)].ms) THEN d.body[PartOf(d, id)].ms[m].cell ELSE NoCell
    ELSE IF m <= Len(d.body) /\ CellAt(d.body[m], id) # 0 THEN d.body[m].ps[CellAt(d.body[m], id)].cell ELSE NoCell
Measures(d) == IF d.kind = "timewise" THEN Len(d.body) ELSE Max0({ Len(d.body[i].ms) : i \in 1 .. Len(d.body) })
SameCells(d, e) == /\ Measures(d) = Measures(e)
                   /\ \A id \in SeqRange(d.list), m \in 1 .. Measures(d) + 1 : Cell(d, id, m) = Cell(e, id, m)
\* every part in list order, all parts equally many measures whose attributes agree
Rectangular(d) ==
    IF d.kind = "partwise"
    THEN /\ [ k \in 1 .. Len(d.body) |-> d.body[k].id ] = d.list
         /\ \A k \in 1 .. Len(d.body) : Len(d.body[k].ms) = Len(d.body[1].ms) /\ \A m \in 1 .. Len(d.body[1].ms) : d.body[k].ms[m].attr = d.body[1].ms[m].attr
    ELSE \A m \in 1 .. Len(d.body) : [ k \in 1 .. Len(d.body[m].ps) |-> d.body[m].ps[k].id ] = d.list
=============================================================================
