-------------------------------- MODULE Tree --------------------------------
(* The XML tree (ezxml): a document is its declaration, its document type and a tree of elements and processing
   instructions. Nodes have numbers; one action per editing call. What a call refuses changes nothing.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES tree,     \* node number -> [pi, n, v, at, kids]
          doc,      \* [version, enc, sa, dt]: sa is "none", "yes" or "no"; dt is << >> or << text >>
          fresh     \* the number the next new node gets
tvars == << tree, doc, fresh >>
Root == 1

Node(pi, n, v) == [ pi |-> pi, n |-> n, v |-> v, at |-> << >>, kids |-> << >> ]
ElementsIn(t, x) == SelectSeq(t[x].kids, LAMBDA k : ~t[k].pi)
TypeIn(t, x) == IF ~t[x].pi /\ t[x].v # "" THEN "text" ELSE IF t[x].pi \/ ElementsIn(t, x) = << >> THEN "empty" ELSE "element"
Elements(x) == ElementsIn(tree, x)
Type(x) == TypeIn(tree, x)
Parent(x) == IF \E p \in DOMAIN tree : x \in Range(tree[p].kids) THEN CHOOSE p \in DOMAIN tree : x \in Range(tree[p].kids) ELSE 0

RECURSIVE Preorder(_, _)
Preorder(t, x) == << x >> \o FoldLeft(LAMBDA acc, k : acc \o Preorder(t, k), << >>, t[x].kids)
\* nodes that are no longer part of the document are forgotten
Prune(t) == LET live == Range(Preorder(t, Root)) IN [ x \in live |-> t[x] ]

Unchanged == UNCHANGED tvars
SetNode(x, r) == tree' = [ tree EXCEPT ![x] = r ] /\ UNCHANGED << doc, fresh >>
AddNode(p, kids, n) == /\ tree' = [ y \in DOMAIN tree \cup {fresh} |-> IF y = fresh THEN Node(FALSE, n, "")
                                                                      ELSE IF y = p THEN [ tree[y] EXCEPT !.kids = kids ] ELSE tree[y] ]
                       /\ fresh' = fresh + 1 /\ UNCHANGED doc

\* --- may the call be made? (what is not allowed is refused)
CanAdd(x) == ~tree[x].pi /\ Type(x) # "text"
CanFollow(x) == x # Root
CanSetValue(x) == tree[x].pi \/ Type(x) # "element"

Append1(x, n) == AddNode(x, Append(tree[x].kids, fresh), n)
Prepend(x, n) == AddNode(x, << fresh >> \o tree[x].kids, n)
InsertAfter(x, n) == LET p == Parent(x) ks == tree[p].kids i == CHOOSE j \in 1 .. Len(ks) : ks[j] = x
                     IN AddNode(p, InsertAt(ks, i + 1, fresh), n)
HasChild(x, n) == \E k \in Range(Elements(x)) : tree[k].n = n
RemoveChild(x, n) == IF ~HasChild(x, n) THEN Unchanged
                ELSE LET ks == tree[x].kids
                         i == CHOOSE j \in 1 .. Len(ks) : (~tree[ks[j]].pi /\ tree[ks[j]].n = n) /\ \A q \in 1 .. j - 1 : ~(~tree[ks[q]].pi /\ tree[ks[q]].n = n)
                     IN /\ tree' = Prune([ tree EXCEPT ![x].kids = RemoveAt(ks, i) ])
                        /\ UNCHANGED << doc, fresh >>
SetName(x, n) == SetNode(x, [ tree[x] EXCEPT !.n = n ])
SetValue(x, v) == SetNode(x, [ tree[x] EXCEPT !.v = v ])
AddAttribute(x, n, v) == SetNode(x, [ tree[x] EXCEPT !.at = Append(@, << n, v >>) ])
PrependAttribute(x, n, v) == SetNode(x, [ tree[x] EXCEPT !.at = << << n, v >> >> \o @ ])
RemoveAttribute(x, i) == SetNode(x, [ tree[x] EXCEPT !.at = RemoveAt(@, i) ])
SetAttribute(x, i, n, v) == SetNode(x, [ tree[x] EXCEPT !.at[i] = << n, v >> ])

SetDoc(d) == doc' = d /\ UNCHANGED << tree, fresh >>
SetVersion(v) == SetDoc([ doc EXCEPT !.version = v ])
SetEncoding(e) == SetDoc([ doc EXCEPT !.enc = e ])
SetHasStandalone(b) == SetDoc([ doc EXCEPT !.sa = IF ~b THEN "none" ELSE IF @ = "none" THEN "no" ELSE @ ])
SetStandalone(b) == SetDoc([ doc EXCEPT !.sa = IF b THEN "yes" ELSE "no" ])
SetHasDoctype(b) == SetDoc([ doc EXCEPT !.dt = IF ~b THEN << >> ELSE IF @ = << >> THEN << "" >> ELSE @ ])
SetDoctype(v) == SetDoc([ doc EXCEPT !.dt = << v >> ])

\* saved and loaded again: the same tree, its nodes numbered in document order. (Which of the encodings a document read
\* from text declares is not specified.)
Renumbered == LET o == Preorder(tree, Root) at == [ x \in Range(o) |-> CHOOSE i \in 1 .. Len(o) : o[i] = x ]
              IN [ i \in 1 .. Len(o) |-> [ tree[o[i]] EXCEPT !.kids = [ j \in 1 .. Len(@) |-> at[@[j]] ] ] ]
Reload(e) == tree' = Renumbered /\ fresh' = Len(Renumbered) + 1 /\ doc' = [ doc EXCEPT !.enc = e ]

\* --- what iteration shows
Names(t, ks) == [ i \in 1 .. Len(ks) |-> t[ks[i]].n ]
RECURSIVE Shown(_, _, _)
Shown(t, x, up) == LET ks == t[x].kids es == Names(t, ElementsIn(t, x)) al == Names(t, ks) IN
            [ n |-> t[x].n, v |-> t[x].v, pi |-> t[x].pi, ty |-> TypeIn(t, x), at |-> t[x].at, atb |-> Reverse(t[x].at),
              fwd |-> es, rev |-> Reverse(es), all |-> al, revall |-> Reverse(al), sib |-> al,
              up |-> up, kids |-> [ i \in 1 .. Len(ks) |-> Shown(t, ks[i], << t[x].n >>) ] ]

\* --- an iterator over the children of x: a place among them (one past the last is the end), and whether it passes over
\* processing instructions. A move which cannot be made is not asked for (it leaves the iterator where it is).
Place(t, x, i) == IF i > Len(t[x].kids) THEN "(end)" ELSE t[t[x].kids[i]].n
ElementAt(t, x, i) == i <= Len(t[x].kids) /\ ~t[t[x].kids[i]].pi
StepTo(t, x, w, m) ==
  LET len == Len(t[x].kids)
      after == { i \in w.i + 1 .. len : w.skip => ElementAt(t, x, i) } \cup { len + 1 }
      before == { i \in 1 .. w.i - 1 : w.skip => ElementAt(t, x, i) }
  IN CASE m \in { "++", "p++" } -> IF w.i > len THEN w.i ELSE CHOOSE i \in after : \A j \in after : i <= j
       [] m \in { "--", "p--" } -> IF before = {} THEN w.i ELSE CHOOSE i \in before : \A j \in before : i >= j
       [] OTHER -> w.i
WalkStep(t, x, w, m) ==
  LET i == StepTo(t, x, w, m)
      sk == IF m = "all" THEN FALSE ELSE IF m = "skip" THEN w.skip \/ i > Len(t[x].kids) \/ ElementAt(t, x, i) ELSE w.skip
      told == IF m \in { "p++", "p--" } /\ i # w.i THEN Place(t, x, w.i) ELSE Place(t, x, i)
  IN [ i |-> i, skip |-> sk, log |-> Append(w.log, << told, Place(t, x, i) >>) ]
Walked(t, x, moves) == FoldLeft(LAMBDA w, m : WalkStep(t, x, w, m), [ i |-> 1, skip |-> FALSE, log |-> << >> ], moves).log
AttPlace(a, i) == IF i > Len(a) THEN << "(end)", "" >> ELSE a[i]
AttStep(a, w, m) == LET i == IF m \in { "++", "p++" } /\ w.i <= Len(a) THEN w.i + 1 ELSE IF m \in { "--", "p--" } /\ w.i > 1 THEN w.i - 1 ELSE w.i
                    IN [ i |-> i, log |-> Append(w.log, << AttPlace(a, IF m \in { "p++", "p--" } THEN w.i ELSE i), AttPlace(a, i) >>) ]
AttWalked(a, moves) == FoldLeft(LAMBDA w, m : AttStep(a, w, m), [ i |-> 1, log |-> << >> ], moves).log

ShownDoc(d) == [ version |-> d.version, enc |-> d.enc, hasSa |-> d.sa # "none", sa |-> d.sa = "yes", hasDt |-> d.dt # << >>, dt |-> IF d.dt = << >> THEN "" ELSE d.dt[1] ]
=============================================================================
