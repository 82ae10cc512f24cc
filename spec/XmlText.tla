------------------------------ MODULE XmlText ------------------------------
(* Reading an XML document character by character, as XML 1.0 describes it: characters and what they stand for, attribute
   values, the end of lines, nesting. Characters are code points. Every step reads one piece and says what it was.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Null
NL == 10
CR == 13
SP == 32
White(x) == x \in {9, NL, CR, SP}
Legal(x) == x \in {9, NL, CR} \/ (x >= 32 /\ x <= 55295) \/ (x >= 57344 /\ x <= 65533) \/ (x >= 65536 /\ x <= 1114111)
NameStart(x) == (x >= 97 /\ x <= 122) \/ (x >= 65 /\ x <= 90) \/ x = 95 \/ x = 58 \/ x >= 192
NamePart(x) == NameStart(x) \/ (x >= 48 /\ x <= 57) \/ x \in {45, 46, 183}
Lt == 60
Gt == 62
Amp == 38
Quot == 34
Apos == 39
Slash == 47
Eq == 61
\* &lt; &gt; &amp; &quot; &apos;
Known == << << <<108, 116>>, Lt >>, << <<103, 116>>, Gt >>, << <<97, 109, 112>>, Amp >>, << <<113, 117, 111, 116>>, Quot >>, << <<97, 112, 111, 115>>, Apos >> >>

At(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
Is(d, i, w) == i + Len(w) - 1 <= Len(d) /\ \A k \in 1 .. Len(w) : d[i + k - 1] = w[k]
\* the first place from i on at which one of the characters stands; behind the end when there is none
RECURSIVE Find(_, _, _)
Find(d, i, s) == IF i > Len(d) \/ d[i] \in s THEN i ELSE Find(d, i + 1, s)
RECURSIVE FindWord(_, _, _)
FindWord(d, i, w) == IF i > Len(d) THEN i ELSE IF Is(d, i, w) THEN i ELSE FindWord(d, i + 1, w)
RECURSIVE SkipWhite(_, _)
SkipWhite(d, i) == IF i <= Len(d) /\ White(d[i]) THEN SkipWhite(d, i + 1) ELSE i
RECURSIVE NameEnd(_, _)
NameEnd(d, i) == IF i <= Len(d) /\ NamePart(d[i]) THEN NameEnd(d, i + 1) ELSE i

\* numbers of references
Digit(x) == IF x >= 48 /\ x <= 57 THEN x - 48 ELSE IF x >= 97 /\ x <= 102 THEN x - 87 ELSE IF x >= 65 /\ x <= 70 THEN x - 55 ELSE 99
RECURSIVE Number(_, _, _, _)
Number(w, k, base, n) == IF k > Len(w) THEN n ELSE IF Digit(w[k]) >= base \/ n > 1114111 THEN -1 ELSE Number(w, k + 1, base, n * base + Digit(w[k]))
\* what a reference between & and ; stands for; Null when it stands for nothing
Reference(w) ==
  IF w # << >> /\ w[1] = 35 THEN
    LET hex == Len(w) > 1 /\ w[2] = 120
        v == SubSeq(w, IF hex THEN 3 ELSE 2, Len(w))
        n == IF v = << >> THEN -1 ELSE Number(v, 1, IF hex THEN 16 ELSE 10, 0)
    IN IF n >= 0 /\ Legal(n) THEN n ELSE Null
  ELSE LET ks == { k \in DOMAIN Known : Known[k][1] = w } IN IF ks = {} THEN Null ELSE Known[CHOOSE k \in ks : TRUE][2]

\* what the characters from i up to before e stand for. In an attribute white space is a space; a line ends with a line feed
\* characters that stand for themselves
Plain(d, i, e, inAttribute) == \A k \in i .. e - 1 : Legal(d[k]) /\ d[k] \notin {Amp, Lt, CR, 93} /\ (inAttribute => d[k] \notin {9, NL})
RECURSIVE Value(_, _, _, _, _)
Value(d, i, e, inAttribute, acc) ==
  IF i >= e THEN acc
  ELSE IF acc = << >> /\ Plain(d, i, e, inAttribute) THEN SubSeq(d, i, e - 1)
  ELSE LET x == d[i] IN
    IF x = Amp THEN
      LET s == Find(d, i, {59}) IN
      IF s >= e THEN Null
      ELSE LET r == Reference(SubSeq(d, i + 1, s - 1)) IN IF r = Null THEN Null ELSE Value(d, s + 1, e, inAttribute, Append(acc, r))
    ELSE IF x = Lt \/ ~Legal(x) THEN Null
    ELSE IF x = CR THEN IF At(d, i + 1) = NL /\ i + 1 < e THEN Value(d, i + 1, e, inAttribute, acc) ELSE Value(d, i + 1, e, inAttribute, Append(acc, IF inAttribute THEN SP ELSE NL))
    ELSE IF inAttribute /\ White(x) THEN Value(d, i + 1, e, inAttribute, Append(acc, SP))
    ELSE IF ~inAttribute /\ Is(d, i, <<93, 93, 62>>) /\ i + 2 < e THEN Null
    ELSE Value(d, i + 1, e, inAttribute, Append(acc, x))

\* attributes from i on: [at |-> behind them, a |-> the sequence of << name, value >>], or Null
RECURSIVE Attributes(_, _, _)
Attributes(d, i, acc) ==
  LET j == SkipWhite(d, i) IN
  IF ~NameStart(At(d, j)) THEN [at |-> j, a |-> acc]
  ELSE IF j = i THEN Null
  ELSE LET n == NameEnd(d, j)
           q == SkipWhite(d, n)
           s == SkipWhite(d, q + 1)
           e == IF At(d, q) = Eq /\ At(d, s) \in {Quot, Apos} THEN Find(d, s + 1, {At(d, s)}) ELSE 0
           v == IF e = 0 \/ e > Len(d) THEN Null ELSE Value(d, s + 1, e, TRUE, << >>)
       IN IF v = Null \/ (\E k \in DOMAIN acc : acc[k][1] = SubSeq(d, j, n - 1)) THEN Null
          ELSE Attributes(d, e + 1, Append(acc, << SubSeq(d, j, n - 1), v >>))

(* --- the reader: where it is, what is open, the text since the last tag and whether any of it is more than white space *)
VARIABLES at, open, text, solid, rooted
lex == << at, open, text, solid, rooted >>
LInit == at = 1 /\ open = << >> /\ text = << >> /\ solid = FALSE /\ rooted = FALSE

\* characters between tags
Characters(d) ==
  /\ at <= Len(d) /\ d[at] # Lt
  /\ LET e == Find(d, at, {Lt})
         v == Value(d, at, e, FALSE, << >>)
     IN /\ v # Null
        /\ (open = << >> => \A k \in at .. e - 1 : White(d[k]))
        /\ text' = IF open = << >> THEN << >> ELSE text \o v
        /\ solid' = (solid \/ (\E k \in at .. e - 1 : ~White(d[k])))
        /\ at' = e
  /\ UNCHANGED << open, rooted >>
\* <![CDATA[ ... ]]>
CData(d) ==
  /\ Is(d, at, <<60, 33, 91, 67, 68, 65, 84, 65, 91>>) /\ open # << >>
  /\ LET e == FindWord(d, at + 9, <<93, 93, 62>>)
     IN /\ e <= Len(d) /\ text' = text \o SubSeq(d, at + 9, e - 1) /\ at' = e + 3
        /\ \A k \in at .. e : Legal(d[k])
  /\ solid' = TRUE /\ UNCHANGED << open, rooted >>
\* <name a="b"> and <name a="b"/>: what the tag at the reader's place says, [n, a, closed, at |-> behind it], or Null
Tag(d) ==
  IF At(d, at) = Lt /\ NameStart(At(d, at + 1)) THEN
    LET n == NameEnd(d, at + 1)
        as == Attributes(d, n, << >>)
        closed == At(d, as.at) = Slash
        g == IF closed THEN as.at + 1 ELSE as.at
    IN IF as = Null THEN Null ELSE IF At(d, g) # Gt THEN Null ELSE [n |-> SubSeq(d, at + 1, n - 1), a |-> as.a, closed |-> closed, at |-> g + 1]
  ELSE Null
Start(d, t) ==
  /\ t # Null
  /\ (open = << >> => ~rooted)
  /\ at' = t.at
  /\ open' = IF t.closed THEN open ELSE Append(open, t.n)
  /\ rooted' = TRUE /\ text' = << >> /\ solid' = FALSE
\* </name>
End(d) ==
  /\ Is(d, at, <<60, 47>>) /\ open # << >>
  /\ LET n == open[Len(open)]
         g == SkipWhite(d, at + 2 + Len(n))
     IN Is(d, at + 2, n) /\ At(d, g) = Gt /\ at' = g + 1
  /\ open' = SubSeq(open, 1, Len(open) - 1) /\ text' = << >> /\ solid' = FALSE /\ UNCHANGED rooted
\* <?name text?>, also the declaration of the document; v is what stands between
Instruction(d, v) ==
  /\ Is(d, at, <<60, 63>>) /\ NameStart(At(d, at + 2))
  /\ LET e == FindWord(d, at + 2, <<63, 62>>)
     IN e <= Len(d) /\ v = SubSeq(d, at + 2, e - 1) /\ (\A k \in at .. e : Legal(d[k])) /\ at' = e + 2
  /\ UNCHANGED << open, text, solid, rooted >>
\* <!DOCTYPE ...> and <!-- ... -->
Aside(d) ==
  /\ \/ /\ Is(d, at, <<60, 33, 68, 79, 67, 84, 89, 80, 69>>) /\ ~rooted
        /\ LET e == Find(d, at, {Gt}) IN e <= Len(d) /\ at' = e + 1
     \/ /\ Is(d, at, <<60, 33, 45, 45>>)
        /\ LET e == FindWord(d, at + 4, <<45, 45>>) IN Is(d, e, <<45, 45, 62>>) /\ at' = e + 3
  /\ UNCHANGED << open, text, solid, rooted >>
Complete(d) == at = Len(d) + 1 /\ open = << >> /\ rooted

(* --- writing: how a text is to be written so that it is read as itself *)
Decimals(n) == ToString(n)
RECURSIVE Codes(_)
Codes(n) == IF n < 10 THEN << 48 + n >> ELSE Append(Codes(n \div 10), 48 + (n % 10))
Ref(n) == <<38, 35>> \o Codes(n) \o <<59>>
RECURSIVE Escaped(_, _, _)
Escaped(s, k, inAttribute) ==
  IF k > Len(s) THEN << >>
  ELSE (LET x == s[k] IN
        IF x = Amp THEN <<38, 97, 109, 112, 59>> ELSE IF x = Lt THEN <<38, 108, 116, 59>> ELSE IF x = Gt THEN <<38, 103, 116, 59>>
        ELSE IF x = CR \/ (inAttribute /\ x \in {9, NL, Quot}) THEN Ref(x) ELSE << x >>) \o Escaped(s, k + 1, inAttribute)
=============================================================================
