------------------------------- MODULE TTree -------------------------------
(* Is a recorded history of edits of a real tree a behaviour of Tree?
   Cases: [tree, doc, trace] with the tree that was loaded (the first step shows it); every step has the call, whether
   it was refused, what it answered, and the whole document as every kind of iteration shows it afterwards.            *)
EXTENDS Tree, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, l, sync
T == Cases[c].trace
TInit == /\ c \in 1 .. Len(Cases) /\ l = 1 /\ sync = FALSE
         /\ tree = Cases[c].tree /\ doc = Cases[c].doc /\ fresh = Len(Cases[c].tree) + 1
Refuse(s) == s.err /\ Unchanged
Do(s) ==
  CASE s.f = "look" -> ~s.err /\ Unchanged
    [] s.f = "append" -> IF CanAdd(s.h) THEN ~s.err /\ Append1(s.h, s.name) ELSE Refuse(s)
    [] s.f = "prepend" -> IF CanAdd(s.h) THEN ~s.err /\ Prepend(s.h, s.name) ELSE Refuse(s)
    [] s.f = "after" -> IF CanFollow(s.h) THEN ~s.err /\ InsertAfter(s.h, s.name) ELSE Refuse(s)
    [] s.f = "remove" -> ~s.err /\ s.out = HasChild(s.h, s.name) /\ RemoveChild(s.h, s.name)
    [] s.f = "walk" -> ~s.err /\ s.out = Walked(tree, s.h, s.moves) /\ Unchanged
    [] s.f = "attWalk" -> ~s.err /\ s.out = AttWalked(tree[s.h].at, s.moves) /\ Unchanged
    [] s.f = "name" -> ~s.err /\ SetName(s.h, s.name)
    [] s.f = "value" -> IF CanSetValue(s.h) THEN ~s.err /\ SetValue(s.h, s.value) ELSE Refuse(s)
    [] s.f = "addAttr" -> ~s.err /\ AddAttribute(s.h, s.name, s.value)
    [] s.f = "preAttr" -> ~s.err /\ PrependAttribute(s.h, s.name, s.value)
    [] s.f = "delAttr" -> ~s.err /\ RemoveAttribute(s.h, s.i)
    [] s.f = "setAttr" -> ~s.err /\ SetAttribute(s.h, s.i, s.name, s.value)
    [] s.f = "version" -> ~s.err /\ SetVersion(s.value)
    [] s.f = "enc" -> ~s.err /\ SetEncoding(s.value)
    [] s.f = "hasSa" -> ~s.err /\ SetHasStandalone(s.b)
    [] s.f = "sa" -> ~s.err /\ SetStandalone(s.b)
    [] s.f = "hasDt" -> ~s.err /\ SetHasDoctype(s.b)
    [] s.f = "dt" -> ~s.err /\ SetDoctype(s.value)
    [] s.f = "bom" -> ~s.err /\ Unchanged
    [] s.f = "reload" -> ~s.err /\ \E e \in { doc.enc, "UTF-8", "UTF-16" } : Reload(e)
Told(s) == s.root = Shown(tree', Root, << >>) /\ s.doc = ShownDoc(doc')
TNext == \/ /\ l <= Len(T)
            /\ Verbose => PrintT(<< "STEP", l, T[l].f, "tree", tree, "doc", doc >>)
            /\ Do(T[l]) /\ l' = l + 1 /\ UNCHANGED << c, sync >>
            /\ Verbose => PrintT(<< "WANT", Shown(tree', Root, << >>), ShownDoc(doc'), "GOT", T[l].root, T[l].doc >>)
            /\ Told(T[l])
         \/ /\ l = Len(T) + 1 /\ ~sync
            /\ PrintT(<< "OK", c >>) /\ sync' = TRUE /\ UNCHANGED << tvars, c, l >>
=============================================================================
