------------------------------ MODULE GRegistry ------------------------------
(* Emits behaviours of the registry as call histories, for replay against the real DocumentManager.
   An id is named by the call that created it, so the histories do not depend on where the real counter stands. *)
EXTENDS Registry, Json
CONSTANTS Inputs,    \* [tok, via, kind, readable, ok] records: what a creation may be given
          Handles, Depth
VARIABLES hist, done
Ids == 0 .. next + 1
Ev(f, r) == hist' = Append(hist, [ f |-> f ] @@ r)
GInit == Init /\ hist = << >> /\ done = FALSE
Input == ndJsonDeserialize(Inputs)
GStep ==
  \/ \E k \in 1 .. Len(Input) :
        LET i == Input[k] IN
        /\ IF i.ok THEN Create(Content(i.tok, << i.via >>, i.kind, i.readable)) ELSE CreateFails
        /\ Ev("create", [ input |-> k ])
  \/ \E id \in Ids :
        \/ (IF CanReread(id) THEN CreateFromGet(id) ELSE CreateFails) /\ Ev("createFromGet", [ id |-> id ])
        \/ Reparse(id) /\ Ev("reparse", [ id |-> id ])
        \/ \E f \in { "get", "write", "kind", "writeFile" } : Observe /\ Ev(f, [ id |-> id ])
        \/ \E k \in Handles : (IF CanReread(id) THEN GetKeep(id, k) ELSE CreateFails) /\ Ev("getKeep", [ id |-> id, h |-> k ])
        \/ Destroy(id) /\ Ev("destroy", [ id |-> id ])
        \/ \E h \in Handles : Hold(id, h) /\ Ev("hold", [ id |-> id, h |-> h ])
        \/ \E h \in Handles : Observe /\ h \in DOMAIN held /\ Ev("handleSame", [ id |-> id, h |-> h ])
  \/ DrawUid(uid) /\ Ev("uid", [ h |-> 0 ])
  \/ \E k \in DOMAIN kept : Observe /\ Ev("kept", [ h |-> k ])
  \/ \E h \in DOMAIN held : (Observe /\ Ev("handleWrite", [ h |-> h ])) \/ (HandleConvert(h) /\ Ev("handleConvert", [ h |-> h ]))
GNext == \/ Len(hist) < Depth /\ GStep /\ UNCHANGED done
         \/ Len(hist) = Depth /\ ~done /\ PrintT(<< "EMIT", ToJson(hist) >>) /\ done' = TRUE /\ UNCHANGED << vars, hist >>
=============================================================================
