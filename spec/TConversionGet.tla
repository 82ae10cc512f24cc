---------------------------- MODULE TConversionGet ----------------------------
(* Reading a document of either arrangement: part k, measure m of the score holds what cell (k, m) of the document
   holds; printing afterwards gives the arrangement that was stored.                                             *)
EXTENDS Conversion, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, l
K == Cases[c]
S == K.src
Pw == IF S.kind = "timewise" THEN ToPartwise(S) ELSE S
\* a score has one entry per listed part that has music of its own, in list order, each as long as in the document
Want == SelectSeq(S.list, LAMBDA id : PartOf(Pw, id) # 0)
TInit == c \in 1 .. Len(Cases) /\ l = 1
TNext == /\ l = 1
         /\ Verbose => PrintT(<< "STEP", "parts", K.ids = Want, "print", K.print = S, K >>)
         /\ K.ids = Want
         /\ \A k \in 1 .. Len(Want) : Len(K.marks[k]) = Len(Pw.body[PartOf(Pw, Want[k])].ms)
         /\ K.marks = K.cells
         /\ K.print = S
         /\ PrintT(<< "OK", c >>) /\ l' = 2 /\ UNCHANGED c
=============================================================================
