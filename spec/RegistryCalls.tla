----------------------------- MODULE RegistryCalls -----------------------------
(* What one real call may have returned, given the registry it met.

   An event E carries the call's arguments and what the real call returned:
     out.id     the id returned by a creation
     out.err    TRUE when the call ended in an error
     out.tok / out.kind   the content marker and arrangement found in the text or score returned ("" / "none" if empty)
     out.dig    a digest of everything returned
   The specification does not know digests in advance: it demands that equal contents give equal digests.         *)
EXTENDS Registry
VARIABLE seen       \* view of a content -> the digest it was seen with

\* the same content gives the same text and the same score, every time it is asked for
Key(view, x) == << view, x.tok, x.how, x.kind >>
Digest(E, k) == IF k \in DOMAIN seen THEN seen' = seen /\ E.out.dig = seen[k]
             ELSE seen' = Extend(seen, k, E.out.dig)
Same == seen' = seen

NewId(E) == E.out.err = FALSE /\ E.out.id = next
Refused(E) == E.out.err = TRUE

TCreate(E) == E.f = "create" /\ Same /\
    IF E.ok THEN NewId(E) /\ E.argSame /\ Create(Content(E.tok, << E.via >>, E.kind, E.readable))
            ELSE Refused(E) /\ CreateFails
TCreateFromGet(E) == E.f = "createFromGet" /\ Same /\
    IF CanReread(E.id) THEN NewId(E) /\ CreateFromGet(E.id) ELSE Refused(E) /\ CreateFails
TReparse(E) == E.f = "reparse" /\ Same /\ NewId(E) /\ Reparse(E.id)
TGet(E) == E.f = "get" /\ Observe /\
    LET x == GetReply(E.id) IN
    IF ~x.readable THEN Refused(E) /\ Same
    ELSE ~E.out.err /\ E.out.tok = x.tok /\ E.out.kind = x.kind /\ Digest(E, Key("get", x))
TWrite(E) == E.f \in { "write", "writeFile" } /\ Observe /\ ~E.out.err /\
    IF E.id \in Live THEN LET x == ContentOf(E.id) IN E.out.tok = x.tok /\ E.out.kind = x.kind /\ Digest(E, Key("write", x))
    ELSE E.out.kind = "none" /\ Same
TGetKeep(E) == E.f = "getKeep" /\
    LET x == GetReply(E.id) IN
    IF ~x.readable THEN Refused(E) /\ Same /\ Observe
    ELSE ~E.out.err /\ E.out.tok = x.tok /\ E.out.kind = x.kind /\ Digest(E, Key("get", x)) /\ GetKeep(E.id, E.h)
TKept(E) == E.f = "kept" /\ Observe /\ E.h \in DOMAIN kept /\ ~E.out.err /\ E.out.tok = kept[E.h].tok /\ Digest(E, Key("get", kept[E.h]))
TKind(E) == E.f = "kind" /\ Observe /\ Same /\ E.out.kind = KindReply(E.id)
TDestroy(E) == E.f = "destroy" /\ Destroy(E.id) /\ Same /\ ~E.out.err
TUid(E) == E.f = "uid" /\ DrawUid(E.out.uid) /\ Same
THold(E) == E.f = "hold" /\ Hold(E.id, E.h) /\ Same /\ E.out.none = (E.id \notin Live)
THandleWrite(E) == E.f = "handleWrite" /\ Observe /\ ~E.out.err /\
    LET o == HeldObj(E.h) IN
    IF o = NoObj THEN E.out.kind = "none" /\ Same
    ELSE E.out.tok = objs[o].tok /\ E.out.kind = objs[o].kind /\ Digest(E, Key("handle", objs[o]))
THandleSame(E) == E.f = "handleSame" /\ Observe /\ Same /\ E.out.same = SameReply(E.id, E.h)
THandleConvert(E) == E.f = "handleConvert" /\ HandleConvert(E.h) /\ Same

Step(E) == \/ TCreate(E) \/ TCreateFromGet(E) \/ TReparse(E) \/ TGet(E) \/ TWrite(E) \/ TGetKeep(E) \/ TKept(E) \/ TKind(E) \/ TDestroy(E) \/ TUid(E) \/ THold(E)
        \/ THandleWrite(E) \/ THandleSame(E) \/ THandleConvert(E)
=============================================================================
