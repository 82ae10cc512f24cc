----------------------------- MODULE MCConversion -----------------------------
(* All small scores, ragged and rectangular, in both arrangements: converted, and converted back. Also emits them. *)
EXTENDS Conversion, Json
CONSTANTS P, M, EmitDocs
VARIABLES d0, d, n
Ids(k) == [ i \in 1 .. k |-> "P" \o ToString(i) ]
Attr(m) == "m" \o ToString(m)
CellName(i, m) == "c" \o ToString(i) \o "." \o ToString(m)
Perms(k) == { f \in [ 1 .. k -> 1 .. k ] : \A a, b \in 1 .. k : a # b => f[a] # f[b] }
PW == UNION { { [ kind |-> "partwise", head |-> "h", list |-> Ids(k),
                  body |-> [ i \in 1 .. k |-> [ id |-> Ids(k)[perm[i]], ms |-> [ m \in 1 .. len[perm[i]] |-> [ attr |-> Attr(m), cell |-> CellName(perm[i], m) ] ] ] ] ]
                : perm \in Perms(k), len \in [ 1 .. k -> 1 .. M ] } : k \in 1 .. P }
\* a listed part may have no body of its own
PWMissing == { [ x EXCEPT !.list = Append(@, "PX") ] : x \in { y \in PW : Len(y.list) < P } }
Sub(k) == { SetToSortSeq(S, <) : S \in (SUBSET (1 .. k)) \ {{}} }
TW == UNION { { [ kind |-> "timewise", head |-> "h", list |-> Ids(k),
                  body |-> [ m \in 1 .. n0 |-> [ attr |-> Attr(m), ps |-> [ q \in 1 .. Len(who[m]) |-> [ id |-> Ids(k)[who[m][q]], cell |-> CellName(who[m][q], m) ] ] ] ] ]
                : who \in [ 1 .. n0 -> Sub(k) ] } : k \in 1 .. P, n0 \in 1 .. M }
Docs == PW \cup PWMissing \cup TW
Init == d0 \in Docs /\ d = d0 /\ n = 0 /\ (EmitDocs => PrintT(<< "EMIT", ToJson(d0) >>))
Next == n < 3 /\ d' = Convert(d) /\ n' = n + 1 /\ UNCHANGED d0
Preserved == SameCells(d0, d)
HeaderKept == d.head = d0.head /\ d.list = d0.list
BackAgain == n = 2 /\ Rectangular(d0) => d = d0
Stable == n = 3 /\ Rectangular(d0) => d = Convert(d0)
InOrder == d.kind = "partwise" /\ n > 0 => [ k \in 1 .. Len(d.body) |-> d.body[k].id ] = d.list
=============================================================================
