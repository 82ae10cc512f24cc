----------------------------- MODULE TXmlText ------------------------------
(* A document that was written with texts in many places, read character by character: it is well-formed, and has the same
   elements, attributes and texts as the document that was written with plain texts in their place has, but for those texts.
   What was read of it again has the texts that were given.                                                             *)
EXTENDS XmlText, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES c, n
tv == << lex, c, n >>
D == Cases[c].doc
W == Cases[c].want
Wanted(k) == IF k \in DOMAIN W THEN W[k] ELSE [k |-> "nothing"]
Pairs(a) == { a[k] : k \in DOMAIN a }
TInit == c \in 1 .. Len(Cases) /\ n = 1 /\ LInit
Say == Verbose => PrintT(<< at, n, Wanted(n) >>)
\* the text in front of a tag; white space alone is the layout of the document unless a text is due
TextFits(k) == IF Wanted(k).k = "text" THEN text = Wanted(k).v ELSE ~solid
After(k) == IF Wanted(k).k = "text" THEN k + 1 ELSE k
TNext ==
  \/ Characters(D) /\ UNCHANGED << c, n >>
  \/ CData(D) /\ UNCHANGED << c, n >>
  \/ /\ Say /\ TextFits(n)
     /\ LET w == Wanted(After(n)) t == Tag(D)
        IN /\ w.k = "start" /\ Start(D, t)
           /\ t.n = w.n /\ Len(t.a) = Len(w.a) /\ Pairs(t.a) = Pairs(w.a)
           /\ (t.closed => Wanted(After(n) + 1).k = "end")
           /\ n' = After(n) + (IF t.closed THEN 2 ELSE 1)
     /\ UNCHANGED c
  \/ Say /\ TextFits(n) /\ Wanted(After(n)).k = "end" /\ End(D) /\ n' = After(n) + 1 /\ UNCHANGED c
  \/ Say /\ Wanted(n).k = "instruction" /\ Instruction(D, Wanted(n).v) /\ n' = n + 1 /\ UNCHANGED c
  \/ Aside(D) /\ UNCHANGED << c, n >>
  \/ /\ Complete(D) /\ n = Len(W) + 1 /\ Cases[c].ok
     /\ \A b \in DOMAIN Cases[c].back : Cases[c].back[b][1] = Cases[c].back[b][2]
     /\ PrintT(<< "OK", c >>) /\ n' = n + 1 /\ UNCHANGED << lex, c >>
=============================================================================
