----------------------------- MODULE MCXmlText -----------------------------
(* Every short text over an alphabet of awkward characters, written into an attribute and between tags, is read as itself;
   every short text between tags that is not written so is refused or read as something definite.                      *)
EXTENDS XmlText
CONSTANTS MaxLen, Raw
Alphabet == IF Raw THEN {38, 60, 62, 34, 39, 35, 59, 93, 13, 10, 120, 49, 47, 97, 61, 33, 63} ELSE {97, 32, 9, 10, 13, 38, 60, 62, 34, 39, 93, 59, 35, 49, 128578}
VARIABLES s, d, seen, done
vars == << lex, s, d, seen, done >>
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN { << >> } ELSE LET t == Texts(n - 1) IN t \cup { Append(x, y) : x \in { x \in t : Len(x) = n - 1 }, y \in Alphabet }
Wrap(x) == <<60, 97, 32, 98, 61, 34>> \o Escaped(x, 1, TRUE) \o <<34, 62>> \o Escaped(x, 1, FALSE) \o <<60, 47, 97, 62>>
Bare(x) == <<60, 97, 62>> \o x \o <<60, 47, 97, 62>>
Init == s \in Texts(MaxLen) /\ d = (IF Raw THEN Bare(s) ELSE Wrap(s)) /\ seen = << >> /\ done = FALSE /\ LInit
Next ==
  \/ /\ Characters(d) /\ UNCHANGED << s, d, seen, done >>
  \/ /\ CData(d) /\ UNCHANGED << s, d, seen, done >>
  \/ /\ LET t == Tag(d) IN Start(d, t) /\ seen' = Append(seen, << t.n, t.a >>)
     /\ UNCHANGED << s, d, done >>
  \/ /\ End(d) /\ seen' = Append(seen, text) /\ UNCHANGED << s, d, done >>
  \/ /\ (\E v \in { SubSeq(d, at + 2, FindWord(d, at + 2, <<63, 62>>) - 1) } : Instruction(d, v)) /\ UNCHANGED << s, d, seen, done >>
  \/ /\ Aside(d) /\ UNCHANGED << s, d, seen, done >>
  \/ /\ Complete(d) /\ ~done /\ done' = TRUE /\ UNCHANGED << lex, s, d, seen >>
\* a written text is read as itself, always
ReadAsItself == ~Raw => /\ (done => seen = << << <<97>>, << << <<98>>, s >> >> >>, s >>)
                        /\ (~done => ENABLED Next)
\* reading never goes back and never steps over the end
Forward == at <= Len(d) + 1
\* at every place at most one way to go on
One == LET ways == << ENABLED Characters(d), ENABLED CData(d), ENABLED End(d), ENABLED Aside(d) >> IN Cardinality({ k \in 1 .. 4 : ways[k] }) <= 1
=============================================================================
