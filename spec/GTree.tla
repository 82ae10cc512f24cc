------------------------------- MODULE GTree -------------------------------
(* Edit histories of the tree: exhaustively from small trees (MaxLen steps), or at random. *)
EXTENDS Tree, Json, IOUtils
CONSTANTS Depth, Emit
Words == JsonDeserialize(IOEnv.WORDS)
ElNames == Range(Words.names)
Vals == Range(Words.values)
AtNames == Range(Words.attributes)
Walks == Range(Words.moves)
Starts == ndJsonDeserialize(IOEnv.STARTS)
VARIABLES start, hist, done
GInit == /\ start \in 1 .. Len(Starts) /\ hist = << >> /\ done = FALSE
         /\ tree = Starts[start].tree /\ doc = Starts[start].doc /\ fresh = Len(Starts[start].tree) + 1
Log(r) == hist' = Append(hist, r) /\ UNCHANGED start
El == { x \in DOMAIN tree : ~tree[x].pi }
HasPI(x) == \E k \in Range(tree[x].kids) : tree[k].pi
Free(x) == { n \in AtNames : \A i \in 1 .. Len(tree[x].at) : tree[x].at[i][1] # n }
Edit ==
  \/ \E x \in El, n \in ElNames : /\ Log([ f |-> "append", h |-> x, name |-> n ]) /\ IF CanAdd(x) THEN Append1(x, n) ELSE Unchanged
  \/ \E x \in El, n \in ElNames : /\ Log([ f |-> "prepend", h |-> x, name |-> n ]) /\ IF CanAdd(x) THEN Prepend(x, n) ELSE Unchanged
  \/ \E x \in DOMAIN tree, n \in ElNames : /\ Log([ f |-> "after", h |-> x, name |-> n ]) /\ IF CanFollow(x) THEN InsertAfter(x, n) ELSE Unchanged
  \/ \E x \in El, n \in ElNames : Log([ f |-> "remove", h |-> x, name |-> n ]) /\ RemoveChild(x, n)
  \/ \E x \in El, m \in Walks : Log([ f |-> "walk", h |-> x, moves |-> m ]) /\ Unchanged
  \/ \E x \in El, m \in Walks : Log([ f |-> "attWalk", h |-> x, moves |-> m ]) /\ Unchanged
  \/ \E x \in DOMAIN tree, n \in ElNames : Log([ f |-> "name", h |-> x, name |-> n ]) /\ SetName(x, n)
  \/ \E x \in DOMAIN tree, v \in Vals : /\ (tree[x].pi \/ ~HasPI(x)) = TRUE     \* text beside processing instructions is left out
                                        /\ Log([ f |-> "value", h |-> x, value |-> v ]) /\ IF CanSetValue(x) THEN SetValue(x, v) ELSE Unchanged
  \/ \E x \in El, v \in Vals : \E n \in Free(x) : Log([ f |-> "addAttr", h |-> x, name |-> n, value |-> v ]) /\ AddAttribute(x, n, v)
  \/ \E x \in El, v \in Vals : \E n \in Free(x) : Log([ f |-> "preAttr", h |-> x, name |-> n, value |-> v ]) /\ PrependAttribute(x, n, v)
  \/ \E x \in El : \E i \in 1 .. Len(tree[x].at) : Log([ f |-> "delAttr", h |-> x, i |-> i ]) /\ RemoveAttribute(x, i)
  \/ \E x \in El, v \in Vals : \E i \in 1 .. Len(tree[x].at), n \in Free(x) : Log([ f |-> "setAttr", h |-> x, i |-> i, name |-> n, value |-> v ]) /\ SetAttribute(x, i, n, v)
  \/ \E v \in { "1.0", "1.1" } : Log([ f |-> "version", value |-> v ]) /\ SetVersion(v)
  \/ \E v \in { "UTF-8", "UTF-16" } : Log([ f |-> "enc", value |-> v ]) /\ SetEncoding(v)
  \/ \E b \in BOOLEAN : Log([ f |-> "hasSa", b |-> b ]) /\ SetHasStandalone(b)
  \/ \E b \in BOOLEAN : Log([ f |-> "sa", b |-> b ]) /\ SetStandalone(b)
  \/ \E b \in BOOLEAN : Log([ f |-> "hasDt", b |-> b ]) /\ SetHasDoctype(b)
  \/ \E v \in { "x", "score PUBLIC \"-//a//b//EN\" \"http://a.b/c.dtd\"" } : Log([ f |-> "dt", value |-> v ]) /\ SetDoctype(v)
  \/ \E b \in BOOLEAN : Log([ f |-> "bom", b |-> b ]) /\ Unchanged
  \/ Log([ f |-> "reload" ]) /\ Reload(doc.enc)
GNext == \/ Len(hist) < Depth /\ Edit /\ UNCHANGED done
         \/ /\ (Len(hist) = Depth /\ ~done /\ Emit) = TRUE
            /\ PrintT(<< "EMIT", ToJson([ start |-> start, hist |-> hist ]) >>) /\ done' = TRUE /\ UNCHANGED << tvars, start, hist >>

\* --- what holds of every tree
OneParent == \A x \in DOMAIN tree : Cardinality({ p \in DOMAIN tree : x \in Range(tree[p].kids) }) = (IF x = Root THEN 0 ELSE 1)
NoTwice == \A x \in DOMAIN tree : IsInjective(tree[x].kids)
AllReached == Range(Preorder(tree, Root)) = DOMAIN tree
TextOrElements == \A x \in DOMAIN tree : Type(x) = "text" => Elements(x) = << >>
PIsAreLeaves == \A x \in DOMAIN tree : tree[x].pi => tree[x].kids = << >> /\ tree[x].at = << >>
ReloadKeeps == LET t == Renumbered IN Len(t) = Cardinality(DOMAIN tree)
View == << tree, doc >>
=============================================================================
