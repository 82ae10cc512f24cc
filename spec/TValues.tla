-------------------------------- MODULE TValues --------------------------------
(* What a value of the real code said after each of a list of steps, against Values. *)
EXTENDS Values, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Tables == JsonDeserialize(IOEnv.NAMES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
Range_(q) == {q[i] : i \in DOMAIN q}
Allowed == Range_(Tables.idChars)
NamesOf(t) == Range_(Tables.names[t])
VARIABLES c, k, v, kept
tv == <<c, k, v, kept>>
T == Cases[c].type
S == Cases[c].steps
O == Cases[c].seen
IsEnum(t) == t \in DOMAIN Tables.names
None == [none |-> TRUE]
\* known names of a custom type
Known(t) == IF t \in Others THEN NamesOf(OtherEnum(t)) ELSE {}
TInit == c \in 1..Len(Cases) /\ k = 1 /\ kept = <<>> /\ v = IF IsEnum(Cases[c].type) THEN <<>> ELSE Initial(Cases[c].type)

SaysText(o, w) == /\ o.text = Text(T, w)
                  /\ o.out \in (IF T \in Others \cup {"XsToken"} THEN Escaped(Text(T, w)) ELSE {Text(T, w)})
                  /\ ((T \in DecTypes /\ Len(w.i) > 12) \/ o.value \in Value(T, w)) = TRUE
                  /\ (T \in Others => o.name = w.name)
SaysOld(s, o, w) == CASE T = "Date" /\ s.do \in {"next", "prev"} -> o.old = DatePrint(v)
                      [] T = "Date" /\ s.do \in {"preNext", "prePrev"} -> o.old = DatePrint(w)
                      [] T = "Date" /\ s.do = "compare" ->
                           LET d == YMD(Arg(s, "y"), Arg(s, "m"), Arg(s, "d"))
                           IN o.old = (IF DateLess(v, d) THEN "<l!" ELSE IF v = d THEN "l=g" ELSE "!g>")
                      [] OTHER -> TRUE
Say(want) == Verbose => PrintT(<<k, S[k], O[k], want>>)

Move == /\ k <= Len(S) /\ ~IsEnum(T)
        /\ LET s == S[k] o == O[k] IN
           CASE s.do = "copy" -> kept' = <<v>> /\ v' = v /\ Say(v) /\ SaysText(o, v)
             [] s.do = "swap" -> (IF kept = <<>> THEN UNCHANGED <<v, kept>> ELSE v' = kept[1] /\ kept' = <<v>>) /\ Say(v') /\ SaysText(o, v')
             [] s.do = "assign" -> v' = (IF kept = <<>> THEN v ELSE kept[1]) /\ UNCHANGED kept /\ Say(v') /\ SaysText(o, v')
             [] s.do \notin {"copy", "swap", "assign"} /\ Unclear(T, s) ->
                  \* nothing says what such a text leaves: the number it prints, or what it was
                  /\ Say("?") /\ UNCHANGED kept
                  /\ \E w \in {v} \cup (IF NumberFor(T, o.text) = <<>> THEN {} ELSE {Numbered(NumberFor(T, o.text)[1])}) : v' = w /\ SaysText(o, w) /\ Legal(T, w)
             [] OTHER ->
                  LET r == Step(T, Known(T), Allowed, v, s) IN
                  /\ Say(r) /\ v' = r.v /\ UNCHANGED kept
                  /\ (r.ok # 2 => o.ok = (r.ok = 1)) /\ SaysText(o, r.v) /\ SaysOld(s, o, r.v)
        /\ k' = k + 1 /\ UNCHANGED c

\* names: known ones are themselves, and different ones different values; others are refused
Name == /\ k <= Len(S) /\ IsEnum(T)
        /\ LET s == S[k] o == O[k] known == s.text \in NamesOf(T) IN
           /\ Say(known)
           /\ o.ok = known /\ (known => o.text = s.text /\ o.out = s.text /\ o.fallback = s.text) = TRUE
           /\ o.fallback \in NamesOf(T) \cup {""}
           /\ (known => \A j \in 1..Len(v) : (O[j].ok => (O[j].value = o.value) = (O[j].text = o.text))) = TRUE
           /\ v' = Append(v, k)
        /\ k' = k + 1 /\ UNCHANGED <<c, kept>>

Done == k = Len(S) + 1 /\ Len(O) = Len(S) /\ PrintT(<<"OK", c>>) /\ k' = k + 1 /\ UNCHANGED <<c, v, kept>>
TNext == Move \/ Name \/ Done
================================================================================
