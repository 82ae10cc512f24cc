------------------------------- MODULE Registry -------------------------------
(* The document registry (mx::api::DocumentManager) as a sequential object.

   A document object is immutable content plus an arrangement; the registry maps live ids to document objects.
   The registry's caller sees ids, and handles (shared pointers) to document objects that outlive their id.
   One action per public call; the reply of every call is the value the reply operators below give.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES docs,     \* live id -> object
          objs,     \* object -> content record
          next,     \* the id the next stored document gets
          uid,      \* every unique number drawn so far is below this
          held,     \* handle name -> object, or NoObj
          kept      \* score values a caller has kept: name -> the content they state

vars == << docs, objs, next, uid, held, kept >>

NoObj == 0
Live == DOMAIN docs

(* A content: what it was made from, how it was derived from that, its arrangement, and whether it can be read. *)
Content(tok, how, kind, readable) == [ tok |-> tok, how |-> how, kind |-> kind, readable |-> readable ]

(* What a caller gets when it reads a document: a score that says what the content says *)
Empty == Content("", << >>, "partwise", TRUE)

Flip(k) == IF k = "partwise" THEN "timewise" ELSE "partwise"

Extend(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]
Drop(f, k) == [ x \in DOMAIN f \ {k} |-> f[x] ]

Init == /\ docs = << >> /\ objs = << >>
        /\ next = 1 /\ uid = 0
        /\ held = << >> /\ kept = << >>

Store(c) == /\ docs' = Extend(docs, next, next)
            /\ objs' = Extend(objs, next, c)
            /\ next' = next + 1

(* --- creations *)
Create(c) == Store(c) /\ UNCHANGED << uid, held, kept >>

CreateFails == UNCHANGED vars

ContentOf(id) == objs[docs[id]]
\* reading a live id and creating a document from the score that was read
Reread(id) == IF id \in Live THEN [ ContentOf(id) EXCEPT !.how = Append(@, "g") ] ELSE Content("", << "g" >>, "partwise", TRUE)
CanReread(id) == id \in Live => ContentOf(id).readable
CreateFromGet(id) == /\ CanReread(id)
                     /\ Store(Reread(id)) /\ UNCHANGED << uid, held, kept >>
\* writing a live id and creating a document from the text
Rewritten(id) == [ ContentOf(id) EXCEPT !.how = Append(@, "w") ]
Reparse(id) == /\ id \in Live
               /\ Store(Rewritten(id)) /\ UNCHANGED << uid, held, kept >>

(* --- observations: they change nothing *)
Observe == UNCHANGED vars
GetReply(id)   == IF id \in Live THEN ContentOf(id) ELSE Empty
KindReply(id)  == IF id \in Live THEN ContentOf(id).kind ELSE "none"

(* --- the rest *)
Destroy(id) == /\ docs' = Drop(docs, id)
               /\ UNCHANGED << objs, next, uid, held, kept >>

DrawUid(v) == /\ v >= uid
              /\ uid' = v + 1
              /\ UNCHANGED << docs, objs, next, held, kept >>

Hold(id, h) == /\ held' = Extend(held, h, IF id \in Live THEN docs[id] ELSE NoObj)
               /\ UNCHANGED << docs, objs, next, uid, kept >>

HeldObj(h) == IF h \in DOMAIN held THEN held[h] ELSE NoObj

\* whoever holds a handle may rearrange the document: that is the only way a stored document changes
HandleConvert(h) ==
    LET o == HeldObj(h) IN
    /\ objs' = IF o = NoObj THEN objs ELSE [ objs EXCEPT ![o].kind = Flip(@), ![o].how = Append(@, "c") ]
    /\ UNCHANGED << docs, next, uid, held, kept >>

\* a score that was handed out is a value: nothing that happens later changes it
GetKeep(id, k) == /\ CanReread(id)
                  /\ kept' = Extend(kept, k, GetReply(id))
                  /\ UNCHANGED << docs, objs, next, uid, held >>

\* do the handle and a lookup of id give the same document?
SameReply(id, h) == HeldObj(h) = (IF id \in Live THEN docs[id] ELSE NoObj)
=============================================================================
